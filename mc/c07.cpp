// C07 shifts
#include "val.h"
#include <climits>

static Z shl(const Z& v, long n) { Z r; if (n >= 0) mpz_mul_2exp(r, v, n); else mpz_fdiv_q_2exp(r, v, -n); return r; }
static void sh(const Item& x, long n) {
    if (n == 0 || (n > 0 ? n : -n) <= 40000) {
        Z l = shl(x.z, n), r = shl(x.z, -n);
        mc::outcome(mc::comb(l.fp(), r.fp()));
        expect("v << n", x.b << (int)n, l);
        expect("v >> n", x.b >> (int)n, r);
        { BigInteger a = x.b; BigInteger& q = (a <<= (int)n); if (&q != &a) mc::fail("v <<= n does not return v"); expect("v <<= n", a, l); }
        { BigInteger a = x.b; BigInteger& q = (a >>= (int)n); if (&q != &a) mc::fail("v >>= n does not return v"); expect("v >>= n", a, r); }
        return;
    }
    // counts whose growing direction is not affordable everywhere: only the shrinking direction
    Z r = shl(x.z, n > 0 ? -n : n); mc::outcome(r.fp());
    if (n > 0) { expect("v >> n", x.b >> (int)n, r); BigInteger a = x.b; a >>= (int)n; expect("v >>= n", a, r); }
    else { expect("v << -n", x.b << (int)n, r); BigInteger a = x.b; a <<= (int)n; expect("v <<= -n", a, r); }
    if (x.z.sgn() == 0) { if (n > 0) expect("0 << 0-sized", x.b << (int)std::min(n, 100000l), Z(0)); }
}
static void sh_lean(const Item& x, long n) {
    Z l = shl(x.z, n), r = shl(x.z, -n);
    { BigInteger a = x.b; a <<= (int)n; expect("v <<= n", a, l); }
    { BigInteger a = x.b; a >>= (int)n; expect("v >>= n", a, r); }
}
static mc::Space shifts(const std::string& name, U u, std::vector<long> ns, void (*f)(const Item&, long)) {
    uint64_t k = ns.size(); mc::Space s; s.name = name; s.n = u->size() * k; s.strands = 64;
    s.run = [=](uint64_t i) { const Item& x = u->at(i / k); long n = ns[i % k]; mc::state(mc::comb(x.fp, (uint64_t)n + 99991)); f(x, n); };
    s.describe = [=](uint64_t i) { return "v=" + u->str(i / k) + " n=" + std::to_string(ns[i % k]); };
    return s;
}
static std::vector<long> counts(int a, int step, int far) {
    std::vector<long> v{0};
    for (int i = 1; i <= a; i += step) { v.push_back(i); v.push_back(-i); }
    for (int k = 1; k * 32 <= far; k++) for (int d : {-1, 0, 1}) { int i = 32 * k + d; if (i > a || step > 1) { v.push_back(i); v.push_back(-i); } }
    return v;
}
MC_MODULE(C07) {
    int L = R.level;
    { int n = L == 0 ? 20 : L == 1 ? 300 : 1500; R.add(shifts("small, every count", UB().small(-n, n), counts(L == 0 ? 70 : 200, L == 0 ? 3 : 1, L == 0 ? 96 : 640), sh)); }
    { U u = L == 0 ? (U)UB().words(0, 2, A5) : (U)UB().words(0, 3, A8); R.add(shifts("boundary words, every count", u, counts(L == 0 ? 66 : 140, L == 0 ? 5 : 1, L == 0 ? 96 : 320), sh)); }
    { U u = L == 0 ? (U)UB().words(3, 4, A2) : L == 1 ? (U)UB().words(4, 6, A3) : (U)UB().words(4, 7, A3).words(4, 5, A5); R.add(shifts("carry words, every count", u, counts(L == 0 ? 66 : L == 1 ? 130 : 260, L == 0 ? 5 : 1, L == 0 ? 96 : 260), L == 0 ? sh : sh_lean)); }
    { int k = L == 0 ? 70 : L == 1 ? 170 : 330; U u = UB().pow2(k, -2, 2); R.add(shifts("2^k+d, every count", u, counts(L == 0 ? 66 : L == 1 ? 170 : 330, L == 0 ? 7 : 1, L == 0 ? 64 : 352), L == 0 ? sh : sh_lean)); }
    { U u = UB().runs(range(0, L == 0 ? 70 : L == 1 ? 230 : 400, L == 0 ? 13 : 5)); R.add(shifts("runs of ones", u, counts(L == 0 ? 66 : 260, L == 0 ? 7 : 1, L == 0 ? 64 : 260), L == 0 ? sh : sh_lean)); }
    { auto ls = L == 0 ? len0() : L == 1 ? cat(range(1, 40), {63, 64, 65, 127, 128, 129, 256, 257, 1000}) : cat(range(1, 140), {255, 256, 257, 511, 512, 513, 1000, 1024});
      U u = UB().longs(ls, L == 0 ? std::vector<int>{0, 1, 2, 3} : range(0, NPAT - 1)); auto ns = counts(L == 0 ? 34 : 66, L == 0 ? 7 : 1, L == 0 ? 64 : 1120);
      R.add(shifts("every length", u, ns, L == 0 ? sh : sh_lean)); }
    // the shift meets the length of the value: count = 32*length + d and bit length + d
    { auto ls = L == 0 ? len0() : cat(range(1, 70), {100, 128, 256, 500, 1000, 1024, 4096}); auto u = (U)UB().longs(ls, L == 0 ? std::vector<int>{0, 1, 3} : range(0, NPAT - 1));
      mc::Space s; s.name = "count meets the length"; const int D = 68; s.n = u->size() * D; s.strands = 64;
      auto cnt = [=](uint64_t i) -> long { long m = (long)u->specs[i / D].m.size() * 32; return m + (long)(i % D) - 34; };
      s.run = [=](uint64_t i) { const Item& x = u->at(i / D); long n = cnt(i); mc::state(mc::comb(x.fp, n)); Z r = shl(x.z, -n); mc::outcome(r.fp()); expect("v >> n", x.b >> (int)n, r); expect("v << -n", x.b << (int)-n, r); if (n >= 0 && n <= 4000) { BigInteger a = x.b; a <<= (int)n; a >>= (int)n; expect("(v << n) >> n", a, x.z); } };
      s.describe = [=](uint64_t i) { return "v=" + u->str(i / D) + " n=" + std::to_string(cnt(i)); }; R.add(s); }
    // far counts, shrinking
    { std::vector<long> ns{}; for (long b : {50000l, 65536l, 100000l, 1000000l, 0x3FFFFFFFl, 0x40000000l, 0x7FFFFF00l, 0x7FFFFFDFl, 0x7FFFFFE0l, 0x7FFFFFE1l, 0x7FFFFFFEl, 0x7FFFFFFFl}) { ns.push_back(b); ns.push_back(-b); } ns.push_back(-0x7FFFFFFFl - 1);
      U u = UB().small(-9, 9).words(1, 2, A5).words(3, 3, A2).longs({4, 5, 33, 100, 1000}, {0, 1, 2, 3, 8}); R.add(shifts("far counts to the right", u, ns, sh)); }
    // far counts, growing
    if (L) { std::vector<long> ns{}; for (long b : {4095l, 4096l, 4097l, 10000l, 32767l, 32768l, 32769l, 39999l}) { ns.push_back(b); ns.push_back(-b); }
      U u = UB().small(-5, 5).words(1, 2, A5).longs({3, 33, 1000, 1250, 1251}, {0, 1, 2, 3, 8}); R.add(shifts("far counts to the left", u, ns, sh)); }
    if (L && !getenv("MC_NOHUGE")) { // counts of hundreds of millions to 2^31 - 1 and -2^31 in the growing direction, and back
      std::vector<long> ns{100000000, 0x3FFFFFE0, 0x40000001, 0x7FFFFFC0, 0x7FFFFFDF, 0x7FFFFFFF, -0x7FFFFFFFl - 1};
      if (L <= 2) ns = {0x40000001, 0x7FFFFFFF, -0x7FFFFFFFl - 1};
      auto vs = std::make_shared<std::vector<long>>(std::vector<long>{1, -1, -3, 0x80000001l}); if (L <= 2) *vs = {1, -3};
      uint64_t nv = vs->size(); mc::Space s; s.name = "huge counts to the left and back"; s.n = nv * ns.size(); s.strands = s.n; s.hang_s = 240; s.mem = 12ull << 30;
      s.run = [=](uint64_t i) { Z v((*vs)[i % nv]); long n = ns[i / nv]; BigInteger b = mk(v); mc::state(mc::comb(v.fp(), n)); long bits = n < 0 ? -n : n;
          Z l; mpz_mul_2exp(l, v, bits);
          if (n > 0) { b <<= (int)n; if (!same(b, l)) mc::fail("v << %ld is wrong", n); mc::step(); b >>= (int)n; expect("(v << n) >> n", b, v); }
          else { b >>= (int)n; if (!same(b, l)) mc::fail("v >> %ld is wrong", n); mc::step(); b <<= (int)n; expect("(v >> INT_MIN) << INT_MIN", b, v); } };
      s.describe = [=](uint64_t i) { return "v=" + std::to_string((*vs)[i % nv]) + " n=" + std::to_string(ns[i / nv]); }; R.add(s);
      mc::Space t; t.name = "values of 2^31 bits and more, to the right"; std::vector<std::pair<long, long>> ps{{0x7FFFFFFFl, 31}, {0x80000000l, 5}, {0x80000020l, 0x7FFFFFFFl}}; if (L >= 3) ps = {{0x7FFFFFFFl, 1}, {0x7FFFFFFFl, 31}, {0x80000000l, 5}, {0x80000000l, 32}, {0x80000020l, 0x7FFFFFFFl}, {0x80000020l, 0x7FFFFFE0l}};
      t.n = ps.size() * 2; t.strands = t.n; t.hang_s = 240; t.mem = 12ull << 30;
      t.run = [=](uint64_t i) { auto p = ps[i / 2]; Z v(1); mpz_mul_2exp(v, v, p.first); if (i & 1) { v = v + Z(1); mpz_neg(v, v); } BigInteger b; if (!build(Spec::of(v), b)) mc::fail("cannot build"); mc::state(mc::comb(p.first, p.second)); Z r; mpz_fdiv_q_2exp(r, v, p.second); b >>= (int)p.second; if (!same(b, r)) mc::fail("v >> n is wrong"); mc::step(); };
      t.describe = [=](uint64_t i) { auto p = ps[i / 2]; return cstr("v=%s2^%ld%s n=%ld", i & 1 ? "-(" : "", p.first, i & 1 ? "+1)" : "", p.second); }; R.add(t); }
    // shifts compose
    if (L) { U u = UB().small(-8, 8).words(1, 3, A3); std::vector<long> ns; for (int k = 0; k < 70; k += 1) ns.push_back(k); uint64_t k = ns.size(); mc::Space s; s.name = "two shifts compose"; s.n = u->size() * k * k; s.strands = 64;
      s.run = [=](uint64_t i) { const Item& x = u->at(i / k / k); int p = i / k % k, q = i % k; mc::state(mc::comb(x.fp, p * 1000 + q)); BigInteger a = x.b; a <<= p; a >>= q; expect("(v << p) >> q", a, shl(x.z, p - q)); BigInteger b = x.b; b >>= p; b >>= q; expect("(v >> p) >> q", b, shl(x.z, -p - q)); b = x.b; b >>= p; b <<= q; expect("(v >> p) << q", b, shl(shl(x.z, -p), q)); };
      s.describe = [=](uint64_t i) { return "v=" + u->str(i / k / k) + cstr(" p=%d q=%d", (int)(i / k % k), (int)(i % k)); }; R.add(s); }
    if (L >= 3) {   // the deepest exploration
        R.add(shifts("deep: small, every count", UB().small(-6000, 6000), counts(400, 1, 1280), sh_lean));
        { U u = UB().words(0, 3, A16); R.add(shifts("deep: words over 16 limbs, every count", u, counts(200, 1, 320), sh_lean)); }
        { U u = UB().words(4, 8, A3).words(4, 5, A8); R.add(shifts("deep: carry words, every count", u, counts(300, 1, 320), sh_lean)); }
        { U u = UB().longs(range(1, 300), range(0, NPAT - 1)); R.add(shifts("deep: every length", u, counts(140, 1, 2100), sh_lean)); }
        { U u = UB().pow2(700, -2, 2); R.add(shifts("deep: 2^k+d, every count", u, counts(700, 1, 704), sh_lean)); }
    }
}
