// C13 floating point
#include "val.h"
#include <cmath>
#include <limits>
static double mkd(uint64_t bits) { double d; memcpy(&d, &bits, 8); return d; }
static uint64_t bitsd(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
// reference: z truncated toward zero to 53 significant bits, infinite from 2^1024 on
static double ref_double(const Z& z) {
    if (z.sgn() == 0) return 0.0;
    size_t n = mpz_sizeinbase(z, 2); if (n > 1024) return z.sgn() < 0 ? -INFINITY : INFINITY;
    Z a; mpz_abs(a, z); long sh = n > 53 ? (long)n - 53 : 0; Z t; mpz_tdiv_q_2exp(t, a, sh);
    double d = std::ldexp((double)mpz_get_ui(t), sh); return z.sgn() < 0 ? -d : d;
}
template <class T> static auto classes(double d, T*) -> decltype(T::double_IsNaN(d), T::double_IsInfinity(d), T::double_IsFinite(d), void()) {
    if (T::double_IsNaN(d) != std::isnan(d) || T::double_IsInfinity(d) != std::isinf(d) || T::double_IsFinite(d) != std::isfinite(d)) mc::fail("double_IsNaN, double_IsInfinity, double_IsFinite of %a: %d %d %d", d, T::double_IsNaN(d), T::double_IsInfinity(d), T::double_IsFinite(d));
}
static void classes(double, ...) {}
static void from_double(double d) {
    classes(d, (BigInteger*)nullptr);
    mc::state(bitsd(d)); mc::step();
    if (std::isnan(d) || std::isinf(d)) { Err e = trap([&] { BigInteger b(d); }); if (e != Err::Overflow) mc::fail("construction from %g: %s", d, ename(e)); mc::outcome(3); return; }
    Z w; mpz_set_d(w, std::trunc(d)); mc::outcome(w.fp());
    BigInteger b(d); if (!same(b, w)) mc::fail("construction from the double %a: got %s, want %s", d, show(b).c_str(), w.hex().c_str());
    BigInteger f = mk(w); if (!(b == f) || b.get_hash_code() != f.get_hash_code()) mc::fail("construction from the double %a: not equal to a fresh value", d);
    double back = (double)b, want = std::trunc(d); if (back != want) mc::fail("the double %a and back: got %a, want %a", d, back, want);
}
static void to_double(const Item& x) {
    BigInteger b = x.b; double w = ref_double(x.z); double g = (double)b; mc::outcome(bitsd(w)); mc::step(2);
    if (bitsd(g) != bitsd(w)) mc::fail("conversion to double: got %a, want %a", g, w);
    float fw = (float)w, fg = (float)b; if (!(fg == fw)) mc::fail("conversion to float: got %a, want %a", (double)fg, (double)fw);
    if (!same(b, x.z)) mc::fail("the converted object changed");
    if (std::isfinite(w)) { BigInteger r(w); Z z; mpz_set_d(z, w); if (!same(r, z)) mc::fail("the double %a back: got %s", w, show(r).c_str()); }
}
static std::vector<uint64_t> mantissas(int L) {
    std::vector<uint64_t> m{0, 1, (1ull << 52) - 1, 1ull << 51, (1ull << 51) - 1, (1ull << 51) + 1, 0x5555555555555ull, 0xAAAAAAAAAAAAAull, 0x9E3779B97F4A7ull};
    if (L) { for (int i = 1; i < 52; i++) { m.push_back(1ull << i); m.push_back((1ull << i) - 1); m.push_back(((1ull << 52) - 1) ^ ((1ull << i) - 1)); if (L >= 2) { m.push_back((1ull << i) + 1); m.push_back(((1ull << 52) - 1) ^ (1ull << i)); for (int j = 0; j < i; j++) m.push_back((1ull << i) | (1ull << j)); } } }
    return m;
}
MC_MODULE(C13) {
    int L = R.level;
    { auto m = mantissas(L); uint64_t k = m.size(); std::vector<int> ex; if (L == 0) { for (int e = 1000; e < 1160; e += 3) ex.push_back(e); for (int e : {0, 1, 2, 2046, 2047}) ex.push_back(e); } else for (int e = 0; e < 2048; e++) ex.push_back(e);
      mc::Space s; s.name = "doubles: every exponent"; s.n = ex.size() * k * 2; s.strands = 64; auto d = [=](uint64_t i) { return mkd((i & 1) << 63 | (uint64_t)ex[i / 2 / k] << 52 | m[i / 2 % k]); }; s.run = [=](uint64_t i) { from_double(d(i)); }; s.describe = [=](uint64_t i) { return cstr("the double %a", d(i)); }; R.add(s); }
    { int n = L == 0 ? 100 : L == 1 ? 400000 : 4000000; mc::Space s; s.name = "halves and quarters"; s.n = 2 * n + 1; auto d = [=](uint64_t i) { return ((double)i - n) / 4; }; s.run = [=](uint64_t i) { from_double(d(i)); }; s.describe = [=](uint64_t i) { return cstr("the double %g", d(i)); }; R.add(s); }
    { const int D = L == 0 ? 3 : 40; mc::Space s; s.name = "doubles next to 2^k"; s.n = 1100ull * (2 * D + 1) * 2; auto d = [=](uint64_t i) { int k = i / 2 / (2 * D + 1) - 20; double v = std::ldexp(1.0, k); if (std::isinf(v)) v = std::numeric_limits<double>::max(); uint64_t b = bitsd(v) + (i / 2 % (2 * D + 1)) - D; v = mkd(b); return i & 1 ? -v : v; }; s.run = [=](uint64_t i) { from_double(d(i)); }; s.describe = [=](uint64_t i) { return cstr("the double %a", d(i)); }; R.add(s); }
    // to double
    { int n = L == 0 ? 50 : 100000; R.add(singles("to double: small", UB().small(-n, n), to_double)); }
    R.add(singles("to double: 2^k+d", UB().pow2(L == 0 ? 140 : 1200, L == 0 ? -2 : -9, L == 0 ? 2 : 9), to_double));
    R.add(singles("to double: runs of ones", UB().runs(L == 0 ? std::vector<int>{0, 1, 10, 52, 53, 54, 63, 64, 65, 96, 128, 970, 971, 1023, 1024, 1025} : cat(range(0, L == 1 ? 200 : 600), {900, 959, 960, 961, 969, 970, 971, 972, 991, 992, 993, 1000, 1022, 1023, 1024, 1025, 1056, 1057, 1088})), to_double));
    R.add(singles("to double: boundary words", L == 0 ? (U)UB().words(0, 2, A5).words(3, 4, A2) : L == 1 ? (U)UB().words(0, 3, A16).words(4, 4, A8).words(5, 7, A3) : (U)UB().words(0, 4, A16).words(5, 5, A8).words(6, 9, A3), to_double));
    R.add(singles("to double: every length", UB().longs(L == 0 ? len1() : cat(range(1, 70), {100, 1000}), range(0, NPAT - 1)), to_double));
    // around the 53rd bit and at the overflow threshold: (mantissa, tail) over patterns
    { std::vector<uint64_t> hi{1ull << 52, (1ull << 53) - 1, (1ull << 52) + 1, 0x1999999999999Aull, (1ull << 53) - 2}, lo{0, 1, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF}; std::vector<int> sh; if (L == 0) sh = {1, 11, 12, 64, 970, 971}; else { for (int i = 0; i <= 980; i++) sh.push_back(i); } uint64_t a = hi.size(), b = lo.size() * 2; mc::Space s; s.name = "to double: tails below the 53rd bit"; s.n = a * b * sh.size() * 2; s.strands = 64;
      auto make = [=](uint64_t i) { Z v = Z::u64(hi[i / 2 % a]); int n = sh[i / 2 / a / b]; uint64_t k = i / 2 / a % b; mpz_mul_2exp(v, v, n); Z t = Z::u64(lo[k / 2]); if (k & 1) { if (n >= 32) mpz_mul_2exp(t, t, n - 32); else mpz_fdiv_q_2exp(t, t, 32 - n); } else { Z m(1); mpz_mul_2exp(m, m, n); mpz_fdiv_r_2exp(t, t, n); } v = v + t; if (i & 1) mpz_neg(v, v); return v; };
      s.run = [=](uint64_t i) { Z z = make(i); Item x{mk(z), z, z.fp()}; mc::state(x.fp); to_double(x); }; s.describe = [=](uint64_t i) { return "a=" + make(i).hex(); }; R.add(s); }
    if (L) R.add(huge(L, [](const Item& x) { BigInteger b = x.b; double w = x.z.sgn() < 0 ? -INFINITY : INFINITY; mc::step(2); double g = (double)b; float f = (float)b; if (g != w || f != (float)w) mc::fail("conversion to double and float: got %a and %a, want %a", g, (double)f, w); }));
    if (L >= 3) {   // the deepest exploration
        { int n = 40000000; mc::Space s; s.name = "deep: halves and quarters"; s.n = 2 * n + 1; s.strands = 128; auto d = [=](uint64_t i) { return ((double)i - n) / 4; }; s.run = [=](uint64_t i) { from_double(d(i)); }; s.describe = [=](uint64_t i) { return cstr("the double %g", d(i)); }; R.add(s); }
        { mc::Space s; s.name = "deep: every float"; s.n = 1ull << 24; s.strands = 256; auto f = [](uint64_t i, unsigned j) { uint32_t b = i << 8 | j; float v; memcpy(&v, &b, 4); return v; };   // all 2^32 floats, through double
          s.run = [=](uint64_t i) { mc::state(mc::comb(i, 0xF10A7)); for (unsigned j = 0; j < 256; j++) { float v = f(i, j); if (std::isnan(v) || std::isinf(v)) continue; BigInteger b((double)v); mc::step(); float t = std::trunc(v); if ((float)b != t || (double)b != (double)t) mc::fail("the float %a and back: got %a and %a", (double)v, (double)(float)b, (double)b); } };
          s.describe = [=](uint64_t i) { return cstr("floats 0x%08lx..", i << 8); }; R.add(s); }
        R.add(smalls("deep: to double, small", -5000000, 5000000, to_double));
        R.add(singles("deep: to double, words", UB().words(4, 5, A16).words(6, 6, A8).words(10, 12, A3), to_double));
        R.add(singles("deep: to double, 2^k+d", UB().pow2(1200, -200, 200), to_double));
    }
}
