// C03 division and remainder
#include "val.h"

static void dv(const Item& x, const Item& y) {
    if (y.z.sgn() == 0) {
        BigInteger r(77);
        auto chk = [&](const char* w, Err e, const BigInteger& a) { expect_err(w, e, Err::DivZero); if (!same(a, x.z)) mc::fail("%s: the dividend changed to %s", w, show(a).c_str()); };
        { BigInteger a = x.b; chk("a / 0", trap([&] { a / y.b; }), a); chk("a /= 0", trap([&] { a /= y.b; }), a); }
        { BigInteger a = x.b; chk("a % 0", trap([&] { a % y.b; }), a); chk("a %= 0", trap([&] { a %= y.b; }), a); }
        { BigInteger a = x.b; chk("divide(a, 0)", trap([&] { BigInteger::divide(a, y.b); }), a); chk("remainder(a, 0)", trap([&] { BigInteger::remainder(a, y.b); }), a); }
        { BigInteger a = x.b, b = y.b; chk("div_rem(a, 0)", trap([&] { BigInteger::div_rem(a, b, r); }), a); expect("the remainder argument after div_rem(a, 0)", r, Z(77)); }
        return;
    }
    Z q, m; mpz_tdiv_qr(q, m, x.z, y.z);
    mc::outcome(mc::comb(q.fp(), m.fp()));
    { BigInteger r = x.b / y.b; expect("a / b", r, q); }
    { BigInteger r = x.b % y.b; expect("a % b", r, m); }
    { BigInteger a = x.b; BigInteger& r = (a /= y.b); if (&r != &a) mc::fail("a /= b does not return a"); expect("a /= b", a, q); }
    { BigInteger a = x.b; BigInteger& r = (a %= y.b); if (&r != &a) mc::fail("a %%= b does not return a"); expect("a %= b", a, m); }
    { BigInteger a = x.b; expect("divide(a, b)", BigInteger::divide(a, y.b), q); }
    { BigInteger a = x.b; expect("remainder(a, b)", BigInteger::remainder(a, y.b), m); }
    { BigInteger a = x.b, b = y.b, r; BigInteger d = BigInteger::div_rem(a, b, r); expect("quotient of div_rem(a, b)", d, q); expect("remainder of div_rem(a, b)", r, m); }
}
static void dv_lean(const Item& x, const Item& y) {
    if (y.z.sgn() == 0) return;
    Z q, m; mpz_tdiv_qr(q, m, x.z, y.z);
    BigInteger a = x.b, b = y.b, r; BigInteger d = BigInteger::div_rem(a, b, r);
    expect("quotient of div_rem(a, b)", d, q); expect("remainder of div_rem(a, b)", r, m);
    a /= b; expect("a /= b", a, q);
    BigInteger c = x.b; c %= b; expect("a %= b", c, m);
}
// dividends made from divisor, quotient and remainder
static mc::Space constructed(const std::string& name, U bs, U qs, bool lean) {
    uint64_t nb = bs->size(), nq = qs->size();
    mc::Space s; s.name = name; s.n = nb * nq * 5 * 4; s.strands = 128;
    auto make = [=](uint64_t i, Z& a, Z& b) {
        b = bs->specs[i / 20 / nq].z(); Z q = qs->specs[i / 20 % nq].z(); Z r;
        switch (i % 5) { case 0: break; case 1: r = Z(1); break; case 2: r = b - Z(1); break; case 3: mpz_fdiv_q_2exp(r, b, 1); break; case 4: mpz_fdiv_q_2exp(r, b, 32); break; }
        if (!(r < b)) r = Z(0);
        a = q * b + r;
        if (i / 5 & 1) a = -a;
        if (i / 10 & 1) b = -b;
    };
    s.run = [=](uint64_t i) { Z a, b; make(i, a, b); if (b.sgn() == 0) return; Item x{mk(a), a, a.fp()}, y{mk(b), b, b.fp()}; mc::state(mc::comb(x.fp, y.fp)); if (lean) dv_lean(x, y); else dv(x, y); };
    s.describe = [=](uint64_t i) { Z a, b; make(i, a, b); return "a=" + a.hex() + " b=" + b.hex(); };
    return s;
}

MC_MODULE(C03) {
    int L = R.level;
    { int n = L == 0 ? 16 : L == 1 ? 200 : 500; U u = UB().small(-n, n); R.add(pairs("small / small", u, u, dv)); }
    { U u = L == 0 ? (U)UB().words(0, 2, A5) : (U)UB().words(0, 3, A8); R.add(pairs("boundary words / boundary words", u, u, dv)); }
    { U u = L == 0 ? (U)UB().words(3, 4, A3, false) : L == 1 ? (U)UB().words(4, 5, A5, false) : (U)UB().words(4, 6, A5, false);
      U v = L == 0 ? (U)UB().words(1, 3, A3) : L == 1 ? (U)UB().words(1, 3, A8) : (U)UB().words(1, 4, A5).words(1, 3, A9);
      R.add(pairs("long boundary words / shorter ones", u, v, dv_lean)); }
    { U u = L == 0 ? (U)UB().words(0, 5, A2, false) : (U)UB().words(0, 6, A3, false); R.add(pairs("carry words / carry words", u, u, dv_lean)); }
    { int k = L == 0 ? 66 : L == 1 ? 180 : 400; U u = UB().pow2(k, -2, 2); R.add(pairs("2^k+d / 2^k+d", u, u, dv_lean)); }
    { U u = UB().runs(range(0, L == 0 ? 70 : 200, L == 0 ? 13 : 6)); R.add(pairs("runs / runs", u, u, dv_lean)); }
    // a = q*b + r
    { U b = L == 0 ? (U)UB().words(1, 2, A5, false) : (U)UB().words(1, 3, A8, false);
      U q = L == 0 ? (U)UB().words(0, 2, A3, false) : L == 1 ? (U)UB().words(0, 2, A8, false) : (U)UB().words(0, 3, A8, false);
      R.add(constructed("a = q*b + r over boundary words", b, q, L != 0)); }
    // divisors under every shift (normalisation by 0..31)
    { UB bb; int step = L == 0 ? 5 : 1;
      for (int n : L == 0 ? std::vector<int>{2, 3, 5} : std::vector<int>{1, 2, 3, 4, 5, 8, 17}) for (int p : {0, 1, 2, 3, 4, 7, 10}) for (int s = 0; s < 32; s += step) {
          Limbs m = pattern(p, n); m[n - 1] |= 0x80000000; Z z = Z::from(m, false); mpz_fdiv_q_2exp(z, z, s); bb.add(Spec::of(z)); }
      U q = L == 0 ? (U)UB().words(1, 2, A2, false) : (U)UB().words(1, 2, A5, false).longs({3, 4, 7}, {0, 2, 3, 5, 7, 9}, false);
      R.add(constructed("divisors under every normalisation shift", bb, q, L != 0)); }
    // the quotient-digit estimate at its extremes: dividend prefix equal to, one below, one above the divisor prefix
    { UB bb, aa; std::vector<uint32_t> hi{0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0xC0000000, 1, 2, 3, 0x7FFFFFFF};
      for (uint32_t h : hi) for (uint32_t m : {0u, 1u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu}) for (uint32_t l : {0u, 1u, 2u, 0xFFFFFFFFu, 0xFFFFFFFEu}) {
          bb.add(Spec({l, m, h}, false)); if (L) bb.add(Spec({l, 0, m, h}, false)), bb.add(Spec({0xFFFFFFFF, l, m, h}, false)); }
      U b = bb; uint64_t nb = b->size();
      mc::Space s; s.name = "quotient digit estimates"; s.strands = 64;
      // a = b * 2^(32 j) + d * 2^(32 t) for small d
      std::vector<int> ds{-2, -1, 0, 1, 2}; int J = L == 0 ? 3 : 4;
      s.n = nb * J * 6 * 5;
      auto make = [=](uint64_t i, Z& a, Z& bz) { bz = b->specs[i % nb].z(); uint64_t k = i / nb; int j = k % J; k /= J; int t = k % 6; k /= 6; int d = ds[k];
          a = bz; mpz_mul_2exp(a, a, 32 * (j + 1)); Z e(d); mpz_mul_2exp(e, e, 32 * t + (t & 1 ? 31 : 0)); a = a + e; };
      s.run = [=](uint64_t i) { Z a, bz; make(i, a, bz); Item x{mk(a), a, a.fp()}, y{mk(bz), bz, bz.fp()}; mc::state(mc::comb(x.fp, y.fp)); dv_lean(x, y); };
      s.describe = [=](uint64_t i) { Z a, bz; make(i, a, bz); return "a=" + a.hex() + " b=" + bz.hex(); };
      R.add(s); }
    // every length
    { auto ls = L == 0 ? len0() : L == 1 ? cat(range(1, 40), {63, 64, 65, 127, 128, 129, 255, 256, 300}) : cat(range(1, 100), {127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024});
      U u = UB().longs(ls, L == 0 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2, 3, 5, 7, 9}, false);
      U v = UB().longs(ls, L == 0 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2, 3, 5, 7, 11}, true);
      R.add(pairs("length / length", u, v, dv_lean)); }
    if (L) { U u = UB().longs({1000, 1024, 4096, 10000}, {0, 2, 8}, true), v = UB().small(-3, 3).words(1, 2, A5).longs({3, 4, 32, 33, 500, 999, 1000, 1001, 5000}, {0, 1, 2, 3}, true); R.add(pairs("very long", u, v, dv_lean)); }
    // a zero divisor
    { U u = UB().small(-50, 50).words(0, 3, A5).longs({1, 2, 3, 10, 32, 33, 100, 1000}, range(0, NPAT - 1)); U z = UB().small(0, 0); R.add(pairs("zero divisor", u, z, dv)); }
    // the identity a = q*b + r on the library's own results
    { U u = L == 0 ? (U)UB().words(0, 2, A3) : (U)UB().words(0, 3, A5).longs({4, 5, 33}, {0, 2, 7}); R.add(pairs("q*b + r gives a back", u, u, [](const Item& x, const Item& y) {
          if (y.z.sgn() == 0) return;
          BigInteger a = x.b, b = y.b, r; BigInteger q = BigInteger::div_rem(a, b, r); expect("div_rem(a,b)*b + rem", q * b + r, x.z);
          expect("(a/b)*b + a%b", (x.b / y.b) * y.b + x.b % y.b, x.z); })); }
    if (L >= 2) { U u = UB().longs({65535, 65536, 65537}, {0, 2, 7}), v = UB().small(-3, 3).words(1, 1, A3, false).longs({2, 3, 33, 65533, 65534, 65535, 65536}, {0, 1, 2}, false); R.add(pairs("lengths beyond 16 bits", u, v, dv_lean)); }
    if (L >= 3) {   // the deepest exploration
        { U u = UB().words(0, 3, A16), v = UB().words(1, 3, A16, false); R.add(pairs("deep: words over 16 limbs", u, v, dv_lean)); }
        { U u = UB().words(4, 7, A5, false), v = UB().words(2, 4, A5, false); R.add(pairs("deep: long boundary words / shorter ones", u, v, dv_lean)); }
        { U u = UB().words(0, 8, A3, false); R.add(pairs("deep: carry words", u, u, dv_lean)); }
        { U u = UB().pow2(1000, -2, 2); R.add(pairs("deep: 2^k+d", u, u, dv_lean)); }
        { U b = UB().words(1, 3, A16, false), q = UB().words(0, 2, A16, false); R.add(constructed("deep: a = q*b + r", b, q, true)); }
        { U b = UB().words(4, 5, A5, false), q = UB().words(1, 3, A8, false); R.add(constructed("deep: a = q*b + r, longer divisors", b, q, true)); }
        { U u = UB().longs(range(1, 300), {0, 1, 2, 3, 5, 7, 9}, false), v = UB().longs(range(1, 300), {0, 1, 2, 3, 5, 7, 11}, false); R.add(pairs("deep: length / length", u, v, dv_lean)); }
        { U u = UB().small(-3000, 3000); R.add(pairs("deep: small", u, u, dv_lean)); }
    }
}
