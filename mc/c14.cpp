// C14 logarithms
#include "val.h"
#include <cmath>
#include <limits>
// ln(v) in long double: exponent and leading 128 bits
static long double lnz(const Z& z) {
    size_t n = mpz_sizeinbase(z, 2); if (n <= 64) return logl((long double)mpz_get_ui(z));
    Z t; mpz_fdiv_q_2exp(t, z, n - 64); long double m = (long double)mpz_get_ui(t); return logl(m) + (long double)(n - 64) * 0.693147180559945309417232121458176568L;
}
static void near(const char* what, double got, long double want) {
    mc::step(); long double err = fabsl((long double)got - want), tol = 1e-12L * fabsl(want) ;
    if (!(err <= tol)) mc::fail("%s: got %.17g, want %.20Lg", what, got, want);
}
static void nanq(const char* what, double got) { mc::step(); if (!std::isnan(got)) mc::fail("%s: got %.17g, want NaN", what, got); }
static void lg(const Item& x, double base) {
    int s = x.z.sgn(); bool one = mpz_cmp_si(x.z.z, 1) == 0; double g = BigInteger::log(x.b, base); uint64_t gb; memcpy(&gb, &g, 8); mc::outcome(gb);
    if (s < 0) return nanq("log of a negative value", g);
    if (std::isnan(base) || base < 0) return nanq("log in a base that is negative or NaN", g);
    if (base == 1.0) return nanq("log in base 1", g);
    if (one) { mc::step(); if (g != 0) mc::fail("log of one: got %.17g", g); return; }
    if (std::isinf(base) || base == 0) return nanq("log in base 0 or infinity", g);
    if (s == 0) { mc::step(); double w = base > 1 ? -INFINITY : INFINITY; if (g != w) mc::fail("log of zero: got %g, want %g", g, w); return; }
    near("log(v, base)", g, lnz(x.z) / logl((long double)base));
}
static void natural(const Item& x) {
    int s = x.z.sgn(); double a = BigInteger::log(x.b), b = BigInteger::log10(x.b); uint64_t gb; memcpy(&gb, &a, 8); mc::outcome(gb);
    if (s < 0) { nanq("log of a negative value", a); nanq("log10 of a negative value", b); return; }
    if (s == 0) { mc::step(2); if (a != -INFINITY || b != -INFINITY) mc::fail("log of zero: got %g and %g", a, b); return; }
    if (mpz_cmp_si(x.z.z, 1) == 0) { mc::step(2); if (a != 0 || b != 0) mc::fail("log of one: got %g and %g", a, b); return; }
    near("log(v)", a, lnz(x.z)); near("log10(v)", b, lnz(x.z) / 2.302585092994045684017991454684364208L);
}
static std::vector<double> bases(int L) {
    std::vector<double> b{2, 10, 2.7182818284590451, 0.5, 1, 0, -0.0, INFINITY, -INFINITY, NAN, -1, -2, -0.5, 3, 0.1, 16, 1e308, 1e-308, 5e-324, 1.7976931348623157e308};
    auto nx = [](double x, int k) { for (; k > 0; k--) x = std::nextafter(x, 4.0); for (; k < 0; k++) x = std::nextafter(x, 0.0); return x; };
    for (int k : {-4, -1, 1, 4}) b.push_back(nx(1.0, k));
    if (L) { for (int i = 4; i <= 100; i += 3) b.push_back(i); for (int e = -1074; e <= 1023; e += 37) b.push_back(std::ldexp(1.0, e)); for (int e = 2; e <= 52; e += 5) { b.push_back(1 + std::ldexp(1.0, -e)); b.push_back(1 - std::ldexp(1.0, -e)); } for (double v : {1.5, 0.99, 1.01, 0.75, 1e10, 1e100, 1e-10, 1e-100, 4294967296.0, 65536.0, 3.14159, 0.3333333333333333}) b.push_back(v); }
    return b;
}
static mc::Space byb(const std::string& name, U u, std::vector<double> bs) {
    uint64_t k = bs.size(); mc::Space s; s.name = name; s.n = u->size() * k; s.strands = 64; s.run = [=](uint64_t i) { const Item& x = u->at(i / k); uint64_t bb; double d = bs[i % k]; memcpy(&bb, &d, 8); mc::state(mc::comb(x.fp, bb)); lg(x, d); };
    s.describe = [=](uint64_t i) { return "v=" + u->str(i / k) + cstr(" base=%.17g", bs[i % k]); }; return s;
}
MC_MODULE(C14) {
    int L = R.level; auto bs = bases(L);
    { int n = L == 0 ? 20 : L == 1 ? 1500 : 10000; R.add(byb("small, every base", UB().small(L == 0 ? -3 : -20, n), bs)); }
    R.add(byb("2^k+d, every base", UB().pow2(L == 0 ? 70 : L == 1 ? 300 : 1100, -1, 1), bs));
    R.add(byb("boundary words, every base", L == 0 ? (U)UB().words(1, 2, A3).words(3, 3, A2) : (U)UB().words(1, 3, A8, false).words(1, 2, A5).words(4, 5, A3, false), bs));
    R.add(byb("every length, every base", UB().longs(L == 0 ? len0() : cat(range(1, 70), {100, 1000, 10000, 100000}), L == 0 ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 1, 2, 3, 4, 6, 8, 9, 12}), bs));
    { int n = L == 0 ? 100 : L == 1 ? 300000 : 3000000; R.add(singles("ln, log10: small", UB().small(-100, n), natural)); }
    R.add(singles("ln, log10: 2^k+d", UB().pow2(L == 0 ? 70 : 3000, -3, 3), natural));
    R.add(singles("ln, log10: boundary words", L == 0 ? (U)UB().words(1, 2, A5) : L == 1 ? (U)UB().words(1, 4, A16, false).words(5, 6, A3) : (U)UB().words(1, 4, A16).words(5, 5, A8).words(6, 8, A3), natural));
    R.add(singles("ln, log10: every length", UB().longs(L == 0 ? len1() : cat(range(1, 300), {1000, 10000, 100000, 1000000}), L == 0 ? std::vector<int>{0, 1, 2} : range(0, NPAT - 1)), natural));
    // powers of ten: the case users check by eye
    { int K = L == 0 ? 30 : 1500; mc::Space s; s.name = "log10 of 10^k+d"; s.n = K * 3; auto make = [=](uint64_t i) { Z z; mpz_ui_pow_ui(z, 10, i / 3); return z + Z((long)(i % 3) - 1); }; s.run = [=](uint64_t i) { Z z = make(i); Item x{mk(z), z, z.fp()}; mc::state(x.fp); natural(x); lg(x, 10.0); }; s.describe = [=](uint64_t i) { return cstr("v=10^%d%+d", (int)(i / 3), (int)(i % 3) - 1); }; R.add(s); }
    if (L) R.add(huge(L, [](const Item& x) { natural(x); lg(x, 2.0); lg(x, 0.75); }));
    if (L >= 3) {   // the deepest exploration
        R.add(smalls("deep: ln, log10 of small", -100, 10000000, natural));
        R.add(singles("deep: ln, log10 of words", UB().words(1, 5, A16, false).words(6, 6, A8, false).words(9, 13, A3, false), natural));
        R.add(singles("deep: ln, log10 of 2^k+d", UB().pow2(9000, -3, 3), natural));
        R.add(byb("deep: words, every base", UB().words(1, 3, A16, false), bs));
    }
}
