// C23: a user's program that computes with BigIntegers while its static objects are initialised, and again in main.
#include "table.h"
#include <cstdio>
#include <cinttypes>

namespace {
std::string render(const BigInteger& b) {
    byte_array y = b.to_byte_array(); static const char hx[] = "0123456789abcdef"; std::string o;
    for (auto c : y) { o += hx[c >> 4]; o += hx[c & 15]; }
    return o;
}
byte_array bytes(unsigned n, unsigned seed) { byte_array r; uint64_t x = seed; for (unsigned i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; r.push_back((unsigned char)(x >> 33)); } return r; }
struct In { BigInteger a, b; int k; double d; };
std::vector<std::pair<std::string, std::string>> suite() {
    std::vector<std::pair<std::string, std::string>> out;
    std::vector<In> in;
    in.push_back({BigInteger(bytes(13, 1)), BigInteger(bytes(6, 2)), 37, 1e20});
    in.push_back({BigInteger(-77), BigInteger(12), 3, -1e10});
    in.push_back({BigInteger(0), BigInteger(1), -33, 0.5});
    in.push_back({BigInteger((int32_t)INT_MIN), BigInteger(-1), 1, -2147483648.0});
    in.push_back({BigInteger(bytes(160, 5)), BigInteger(bytes(140, 4)), 9, 1e300});
    in.push_back({BigInteger((int64_t)1 << 31), BigInteger(2147483647), -2, 2147483648.0});
    for (auto* g : {&binary, &unary, &shifting, &powers, &numbers})
        for (auto& op : *g)
            for (size_t i = 0; i < in.size(); i++) {
                BigInteger a = in[i].a, b = in[i].b, c(7), r(-9); Ctx x(a, b, c, r);
                x.k = in[i].k; x.d = in[i].d; x.by = bytes(5 + 7 * i, i); x.ua = {1, 2, (uint32_t)i}; x.s = i % 2 ? "-123456789012345678901234567890" : "4294967296";
                std::string o;
                try { op.f(x); o = "ok"; } catch (const std::exception& e) { o = std::string("error ") + ename(err_of(e)); }
                o += "|" + render(x.o) + "|" + render(a) + "|" + render(r) + "|" + x.so + "|";
                for (auto v : x.bo) o += std::to_string(v) + ",";
                for (auto v : x.uo) o += std::to_string(v) + ",";
                uint64_t q; memcpy(&q, &x.dout, 8); o += std::to_string(x.lo) + "," + std::to_string(q) + (x.refused ? "R" : "");
                out.push_back({std::string(op.name) + " #" + std::to_string(i), o});
            }
    auto put = [&](const char* n, const BigInteger& b) { out.push_back({n, render(b)}); };
    put("zero()", BigInteger::zero()); put("one()", BigInteger::one()); put("minus_one()", BigInteger::minus_one()); put("BigInteger()", BigInteger());
    put("INT_MIN", BigInteger((int32_t)INT_MIN)); put("INT_MIN from int64", BigInteger((int64_t)INT_MIN)); put("INT_MIN from bytes", BigInteger(byte_array{0, 0, 0, 0x80}));
    put("INT_MIN - 1", BigInteger((int32_t)INT_MIN) - BigInteger(1)); put("-(2^31)", -(BigInteger(1) << 31)); put("parse", BigInteger::parse("-2147483648")); put("uint64", BigInteger(uint64_t(~0ull))); put("double", BigInteger(-2147483648.0));
    put("limbs", BigInteger(uint_array{0x80000000u}, true));
    return out;
}
// objects made one by one in a static initialiser, as users write them
BigInteger g_zero = BigInteger::zero(), g_one = BigInteger::one(), g_minus = BigInteger::minus_one(), g_min((int32_t)INT_MIN), g_parsed = BigInteger::parse("340282366920938463463374607431768211456");
const BigInteger g_product = BigInteger(1000000007) * BigInteger(998244353), g_power = BigInteger::pow(BigInteger(3), 100), g_shift = BigInteger(1) << 31, g_neg = BigInteger(5) - BigInteger(6);
std::vector<std::pair<std::string, std::string>> g_early = suite();
}
int main() {
    auto now = suite(); int bad = 0;
    auto differ = [&](const std::string& n, const std::string& a, const std::string& b) { if (a != b && bad++ < 3) printf("%s: %s when computed during static initialisation, %s later\n", n.c_str(), a.substr(0, 200).c_str(), b.substr(0, 200).c_str()); };
    if (now.size() != g_early.size()) { printf("the static object itself is lost\n"); return 1; }
    for (size_t i = 0; i < now.size(); i++) differ(now[i].first, g_early[i].second, now[i].second);
    auto obj = [&](const char* n, const BigInteger& g, const BigInteger& w) { differ(n, render(g), render(w)); if (!(g == w) && bad++ < 3) printf("%s: not equal to the same value made later\n", n); };
    obj("zero()", g_zero, BigInteger::zero()); obj("one()", g_one, BigInteger::one()); obj("minus_one()", g_minus, BigInteger::minus_one()); obj("INT_MIN", g_min, BigInteger((int32_t)INT_MIN));
    obj("parsed", g_parsed, BigInteger::parse("340282366920938463463374607431768211456")); obj("product", g_product, BigInteger(1000000007) * BigInteger(998244353)); obj("power", g_power, BigInteger::pow(BigInteger(3), 100)); obj("shift", g_shift, BigInteger(1) << 31); obj("difference", g_neg, BigInteger(-1));
    obj("zero() and 0", g_zero, BigInteger(0)); obj("one() and 1", g_one, BigInteger(1)); obj("minus_one() and -1", g_minus, BigInteger(-1)); obj("shift and bytes", g_shift, BigInteger(byte_array{0, 0, 0, 0x80, 0}));
    uint64_t h = 1469598103934665603ull; for (auto& p : now) for (unsigned char c : p.second) h = (h ^ c) * 1099511628211ull;
    printf("results %zu fingerprint %016" PRIx64 "\n", now.size(), h);
    return bad ? 1 : 0;
}
