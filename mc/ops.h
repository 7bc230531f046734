// Operations as values: in-place steps on an object, and complete calls with their operands ("instances").
#pragma once
#include "val.h"

// everything an observer can ask of an object, compared with a freshly built one
inline void indist(const char* when, const BigInteger& b, const Z& z, bool deep = true) {
    mc::step();
    if (!same(b, z)) mc::fail("%s: the object holds %s, want %s", when, show(b).c_str(), z.hex().c_str());
    BigInteger f = mk(z);
    auto bad = [&](const char* what) { mc::fail("%s: %s of the object differs from that of a fresh %s", when, what, z.hex().c_str()); };
    if (!(b == f) || !(f == b) || b != f || !b.equals(f)) bad("equality");
    if (b.compare_to(f) != 0 || f.compare_to(b) != 0 || b < f || b > f || !(b <= f)) bad("order");
    if (b.get_hash_code() != f.get_hash_code()) bad("hash code");
    if (b.sign() != f.sign() || b.is_zero() != f.is_zero() || b.is_one() != f.is_one() || b.is_even() != f.is_even() || b.is_power_of_two() != f.is_power_of_two() || b.get_bit_length() != f.get_bit_length()) bad("a predicate");
    if (!deep) return;
    if (b.to_string() != f.to_string()) bad("text");
    if (b.to_byte_array() != f.to_byte_array()) bad("bytes");
    if (b.to_uint32_array() != f.to_uint32_array()) bad("words");
    if (b.get_byte_count() != f.get_byte_count()) bad("byte count");
    Z one(1);
    { BigInteger c = b; c += f; if (!same(c, z + z)) bad("a sum"); }
    { BigInteger c = b; c *= b; if (!same(c, z * z)) bad("the square"); }
    { BigInteger c = b; c >>= 3; Z r; mpz_fdiv_q_2exp(r, z, 3); if (!same(c, r)) bad("a shift"); }
    { BigInteger c = b; c -= f; if (!c.is_zero()) bad("a difference"); }
    { BigInteger c = b; c ^= f; if (!c.is_zero()) bad("an exclusive or"); }
    { BigInteger c = b, d = f; double p = (double)c, q = (double)d; if (memcmp(&p, &q, 8)) bad("the double"); }
    { double p = BigInteger::log(b), q = BigInteger::log(f); if (!(p == q || (p != p && q != q))) bad("the logarithm"); }
}

// an in-place step: the library object and its model move together
struct Step { std::string name; std::function<void(BigInteger&, Z&)> f; };
std::vector<Step> all_steps(int level);

// one complete call: runs the operation and compares with the reference computed beforehand
struct Inst { std::string name; std::function<void()> f; };
std::vector<Inst> all_instances(int level);
