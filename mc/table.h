// The operations as a table of plain functions over a context (C19 makes their allocations fail, C20 runs them in threads).
#pragma once
#include "val.h"
#include <climits>
#include <cmath>
namespace {
struct Ctx {                   // everything one call may touch; no allocation in here while armed but the library's
    BigInteger &a, &b, &c, &r; // operands, output argument
    BigInteger o;              // result
    Ctx(BigInteger& a_, BigInteger& b_, BigInteger& c_, BigInteger& r_) : a(a_), b(b_), c(c_), r(r_) {}
    int k = 0; double d = 0; std::string s; byte_array by; uint_array ua;
    std::string so; byte_array bo; uint_array uo; double dout = 0; long long lo = 0;
    bool refused = false;      // try_parse returned false
};
using Fn = void (*)(Ctx&);
enum { RA = 1, RB = 2, RC = 4 };    // operands that vary
enum { AA = 1, AR = 2 };            // objects the call assigns: a, r
struct Op { const char* name; int reads; int assigns; Fn f; };
#define OP(NAME, READS, ASSIGNS, ...) Op{NAME, READS, ASSIGNS, [](Ctx& x) { __VA_ARGS__; }}

const std::vector<Op> binary{
    OP("a + b", RA | RB, 0, x.o = x.a + x.b), OP("a - b", RA | RB, 0, x.o = x.a - x.b), OP("a * b", RA | RB, 0, x.o = x.a * x.b),
    OP("a / b", RA | RB, 0, x.o = x.a / x.b), OP("a % b", RA | RB, 0, x.o = x.a % x.b),
    OP("a & b", RA | RB, 0, x.o = x.a & x.b), OP("a | b", RA | RB, 0, x.o = x.a | x.b), OP("a ^ b", RA | RB, 0, x.o = x.a ^ x.b),
    OP("a += b", RA | RB, AA, x.a += x.b), OP("a -= b", RA | RB, AA, x.a -= x.b), OP("a *= b", RA | RB, AA, x.a *= x.b),
    OP("a /= b", RA | RB, AA, x.a /= x.b), OP("a %= b", RA | RB, AA, x.a %= x.b),
    OP("a &= b", RA | RB, AA, x.a &= x.b), OP("a |= b", RA | RB, AA, x.a |= x.b), OP("a ^= b", RA | RB, AA, x.a ^= x.b),
    OP("add(a, b)", RA | RB, 0, x.o = BigInteger::add(x.a, x.b)), OP("subtract(a, b)", RA | RB, 0, x.o = BigInteger::subtract(x.a, x.b)),
    OP("multiply(a, b)", RA | RB, 0, x.o = BigInteger::multiply(x.a, x.b)), OP("divide(a, b)", RA | RB, 0, x.o = BigInteger::divide(x.a, x.b)),
    OP("remainder(a, b)", RA | RB, 0, x.o = BigInteger::remainder(x.a, x.b)),
    OP("div_rem(a, b, r)", RA | RB, AR, x.o = BigInteger::div_rem(x.a, x.b, x.r)),
    OP("div_rem(a, b, a)", RA | RB, AA, x.o = BigInteger::div_rem(x.a, x.b, x.a)),
    OP("gcd(a, b)", RA | RB, 0, x.o = BigInteger::greatest_common_divisor(x.a, x.b)),
    OP("a <=> b", RA | RB, 0, x.lo = x.a.compare_to(x.b) + 4 * x.a.equals(x.b) + 8 * (x.a < x.b) + 16 * (x.a != x.b)),
    OP("r = a; r = b", RA | RB, AR, x.r = x.a; x.r = x.b),
    OP("mod_pow(a, 5, b)", RA | RB, 0, x.o = BigInteger::mod_pow(x.a, BigInteger(5), x.b)),
    OP("mod_pow(a, -1, b)", RA | RB, 0, x.o = BigInteger::mod_pow(x.a, BigInteger(-1), x.b)),
};
const std::vector<Op> unary{
    OP("++a", RA, AA, ++x.a), OP("--a", RA, AA, --x.a), OP("a++", RA, AA, x.o = x.a++), OP("a--", RA, AA, x.o = x.a--),
    OP("-a", RA, 0, x.o = -x.a), OP("+a", RA, 0, x.o = +x.a), OP("~a", RA, 0, x.o = ~x.a), OP("abs(a)", RA, 0, x.o = BigInteger::abs(x.a)), OP("negate(a)", RA, 0, x.o = BigInteger::negate(x.a)),
    OP("a += a", RA, AA, x.a += x.a), OP("a -= a", RA, AA, x.a -= x.a), OP("a *= a", RA, AA, x.a *= x.a), OP("a * a", RA, 0, x.o = x.a * x.a), OP("a & a", RA, 0, x.o = x.a & x.a), OP("a ^= a", RA, AA, x.a ^= x.a),
    OP("copy", RA, 0, BigInteger t(x.a); x.o = std::move(t)), OP("r = a", RA, AR, x.r = x.a),
    OP("to_string", RA, 0, x.so = x.a.to_string()), OP("parse(text)", RA, 0, x.o = BigInteger::parse(x.s)),
    OP("try_parse(text, r)", RA, AR, x.refused = !BigInteger::try_parse(x.s, x.r)),
    OP("to_byte_array()", RA, 0, x.bo = x.a.to_byte_array()), OP("to_byte_array(unsigned)", RA, 0, x.bo = x.a.to_byte_array(true)), OP("to_byte_array(big endian)", RA, 0, x.bo = x.a.to_byte_array(false, true)),
    OP("get_byte_count", RA, 0, x.lo = x.a.get_byte_count()), OP("get_byte_count(unsigned)", RA, 0, x.lo = x.a.get_byte_count(true)),
    OP("to_uint32_array", RA, 0, x.uo = x.a.to_uint32_array()), OP("get_bits", RA, 0, x.uo = x.a.get_bits()),
    OP("hash, predicates", RA, 0, x.lo = x.a.get_hash_code() + 2ll * x.a.is_even() + 8 * x.a.is_power_of_two() + x.a.is_one() + x.a.sign() + (long long)x.a.get_bit_length() * 64),
    OP("BigInteger(bytes)", RA, 0, x.o = BigInteger(x.by)), OP("BigInteger(bytes, unsigned, big endian)", RA, 0, x.o = BigInteger(x.by, true, true)),
    OP("BigInteger(limbs, negative)", RA, 0, x.o = BigInteger(x.ua, true)),
    OP("(int)a", RA, 0, x.lo = (int)x.a), OP("(unsigned)a", RA, 0, x.lo = (unsigned)x.a), OP("(long)a", RA, 0, x.lo = (long)x.a), OP("(unsigned long)a", RA, 0, x.lo = (long long)(unsigned long)x.a),
    OP("(double)a", RA, 0, x.dout = (double)x.a), OP("(float)a", RA, 0, x.dout = (float)x.a), OP("log(a)", RA, 0, x.dout = BigInteger::log(x.a)), OP("log(a, 3)", RA, 0, x.dout = BigInteger::log(x.a, 3.0)), OP("log10(a)", RA, 0, x.dout = BigInteger::log10(x.a)),
    OP("a / 0", RA, 0, x.o = x.a / BigInteger(0)), OP("a %= 0", RA, AA, x.a %= BigInteger(0)), OP("a /= 0", RA, AA, x.a /= BigInteger(0)),
    OP("div_rem(a, 0, r)", RA, AR, BigInteger z(0); x.o = BigInteger::div_rem(x.a, z, x.r)), OP("mod_pow(a, a, 0)", RA, 0, x.o = BigInteger::mod_pow(x.a, x.a, BigInteger(0))),
    OP("mod_pow(7, e, a)", RA, 0, x.o = BigInteger::mod_pow(BigInteger(7), BigInteger(int64_t(0x16789ABC3)), x.a)),
    OP("constants", 0, 0, x.o = BigInteger::zero() + BigInteger::one() - BigInteger::minus_one()),
};
const std::vector<Op> shifting{   // a and a count
    OP("a << k", RA, 0, x.o = x.a << x.k), OP("a >> k", RA, 0, x.o = x.a >> x.k), OP("a <<= k", RA, AA, x.a <<= x.k), OP("a >>= k", RA, AA, x.a >>= x.k),
};
const std::vector<Op> powers{OP("pow(a, k)", RA, 0, x.o = BigInteger::pow(x.a, x.k))};
const std::vector<Op> numbers{
    OP("BigInteger(double)", 0, 0, x.o = BigInteger(x.d)), OP("BigInteger(int64)", 0, 0, x.o = BigInteger((int64_t)(std::fabs(x.d) < 9e18 ? x.d : 9e18))),
    OP("BigInteger(uint64)", 0, 0, x.o = BigInteger((uint64_t)(std::fabs(x.d) < 1e19 ? std::fabs(x.d) : 1e19))),
    OP("r = BigInteger(double)", 0, AR, x.r = BigInteger(x.d)),
};
}
