// C02 multiplication, squaring
#include "val.h"

static void mul(const Item& x, const Item& y) {
    Z p = x.z * y.z;
    { BigInteger r = x.b * y.b; expect("a * b", r, p); mc::outcome(p.fp()); }
    { BigInteger a = x.b; BigInteger& r = (a *= y.b); if (&r != &a) mc::fail("a *= b does not return a"); expect("a *= b", a, p); }
    { BigInteger a = x.b; expect("multiply(a, b)", BigInteger::multiply(a, y.b), p); }
}
static void mul_lean(const Item& x, const Item& y) {
    Z p = x.z * y.z;
    BigInteger r = x.b; r *= y.b; expect("a *= b", r, p);
}
static void square(const Item& x) {
    Z p = x.z * x.z;
    { BigInteger a = x.b; a *= a; expect("a *= a", a, p); }
    { BigInteger a = x.b, b = x.b; expect("a * b with equal values", a * b, p); }
    { BigInteger a = x.b, b = -a; expect("a * -a", a * b, -p); expect("-a * a", b * a, -p); expect("-a * -a", b * b, p); }
    expect("pow(a, 2)", BigInteger::pow(x.b, 2), p);
    { BigInteger a = x.b; expect("multiply(a, a)", BigInteger::multiply(a, a), p); }
}
// words made of blocks of equal limbs: zero, all ones, a lone one
static Limbs blocks(uint64_t code, int nb, int bs, int len) {
    Limbs m(len, 0);
    for (int k = 0; k < nb; k++, code /= 4) {
        int lo = k * bs, hi = k + 1 == nb ? len : lo + bs;
        for (int i = lo; i < hi && i < len; i++)
            switch (code % 4) { case 0: break; case 1: m[i] = 0xFFFFFFFF; break; case 2: m[i] = i == lo ? 1 : 0; break; case 3: m[i] = i == hi - 1 ? 0x80000000 : 0; }
    }
    if (!m[len - 1]) m[len - 1] = 1;
    return m;
}
static U blockU(int nb, int len) {
    UB b; uint64_t n = 1; for (int i = 0; i < nb; i++) n *= 4;
    for (uint64_t c = 0; c < n; c++) b.add(Spec(blocks(c, nb, len / nb, len), false));
    return b;
}
// length x length x pattern x pattern
static mc::Space lengths(const std::string& name, std::vector<int> ls, std::vector<int> ms, std::vector<int> pats, bool alldown) {
    struct P { int l, m; }; auto v = std::make_shared<std::vector<P>>();
    for (int l : ls) for (int m : ms) if (!alldown || m <= l) v->push_back({l, m});
    uint64_t np = pats.size(), np2 = np * np;
    mc::Space s; s.name = name; s.n = v->size() * np2; s.strands = 128;
    auto dec = [=](uint64_t i, int& l, int& m, int& p, int& q) { l = (*v)[i / np2].l; m = (*v)[i / np2].m; p = pats[i % np2 / np]; q = pats[i % np]; };
    s.run = [=](uint64_t i) {
        int l, m, p, q; dec(i, l, m, p, q);
        Spec a(pattern(p, l), (i / np) & 1), b(pattern(q, m), i & 1);
        Item x{mk(a), a.z(), 0}, y{mk(b), b.z(), 0};
        mc::state(mc::comb(x.z.fp(), y.z.fp()));
        Z z = x.z * y.z;
        BigInteger r = x.b * y.b; expect("a * b", r, z); mc::outcome(z.fp());
        BigInteger t = y.b * x.b; expect("b * a", t, z);
    };
    s.describe = [=](uint64_t i) { int l, m, p, q; dec(i, l, m, p, q);
        return cstr("a=pattern %d of %d words (sign %d), b=pattern %d of %d words (sign %d)", p, l, int((i / np) & 1), q, m, int(i & 1)); };
    return s;
}

MC_MODULE(C02) {
    int L = R.level;
    { int n = L == 0 ? 20 : 300; U u = UB().small(-n, n); R.add(pairs("small x small", u, u, mul)); }
    { U u = L == 0 ? (U)UB().words(0, 2, A5) : (U)UB().words(0, 3, A8); R.add(pairs("boundary words x boundary words", u, u, mul)); }
    { int k = L == 0 ? 70 : L == 1 ? 160 : 400; U u = UB().pow2(k, -2, 2); R.add(pairs("2^k+d x 2^k+d", u, u, mul)); }
    { U u = UB().runs(range(0, L == 0 ? 66 : 200, L == 0 ? 11 : 7)); R.add(pairs("runs x runs", u, u, mul)); }
    { U u = L == 0 ? (U)UB().words(0, 4, A2, false) : (U)UB().words(0, 6, A3, false); R.add(pairs("carry words x carry words", u, u, mul_lean)); }
    std::vector<int> pats{0, 1, 2, 5, 7, 9, 10, 12};
    if (L == 0) R.add(lengths("length x length", len0(), len0(), {0, 1, 2, 9}, true));
    else R.add(lengths("length x length", range(1, L == 1 ? 100 : 200), range(1, L == 1 ? 100 : 200), pats, true));
    if (L == 0) R.add(lengths("around the allocation threshold", {254, 255, 256, 257, 258, 300, 513}, {1, 2, 31, 32, 33, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 513}, {0, 2}, true));
    if (L > 0) {
        R.add(lengths("around the allocation threshold", range(245, 270), L == 1 ? std::vector<int>{31, 32, 33, 64, 127, 128, 129, 200, 245, 250, 254, 255, 256, 257, 258, 260, 262} : range(30, 262, 2), pats, true));
        R.add(lengths("large", {300, 383, 384, 385, 511, 512, 513, 640, 767, 1000, 1023, 1024, 1025, 2047, 2048, 2049}, {1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025}, {0, 1, 2, 9, 10}, true));
        R.add(lengths("very different lengths", {500, 2000, 5000, 10000, 32768}, cat(range(1, 5), {30, 31, 32, 33, 34, 35, 36, 48, 63, 64, 65, 66, 100, 128}), {0, 1, 2, 8}, true));
    }
    if (L >= 2) R.add(lengths("very large", {4095, 4096, 4097, 8191, 8192, 8193}, {32, 33, 1000, 4095, 4096, 4097}, {0, 2, 9}, true));
    // block words around the Karatsuba split
    for (int len : L == 0 ? std::vector<int>{33, 65} : L == 1 ? std::vector<int>{32, 33, 63, 64, 65, 66, 96, 97, 128, 130} : range(32, 140, 3)) {
        U u = blockU(4, len);
        R.add(pairs(cstr("block words of %d limbs, all pairs", len), u, u, mul_lean));
        U v = blockU(4, len + 7);
        if (L > 0) R.add(pairs(cstr("block words of %d x %d limbs", len + 7, len), v, u, mul_lean));
    }
    // squares
    { UB b; b.small(-2000, 2000).words(0, 3, A9).pow2(L == 0 ? 200 : 2200, -2, 2).longs(L == 0 ? cat(range(1, 10), {31, 32, 33, 63, 64, 65}) : cat(range(1, 300), {511, 512, 513, 1000, 1023, 1024, 1025}), range(0, NPAT - 1));
      if (L) for (int len : {32, 33, 64, 65, 66, 128, 129}) b.merge(blockU(6, len));
      if (L >= 2) for (int len : {34, 40, 63, 67, 96, 100, 130, 256, 257}) b.merge(blockU(6, len));
      U u = b; R.add(singles("squares", u, square)); }
    if (L >= 2) R.add(lengths("lengths beyond 16 bits", {65535, 65536, 65537}, {1, 2, 31, 32, 33, 64}, {0, 1, 2, 7}, true));
    if (L >= 3) {   // the deepest exploration
        { U u = UB().words(0, 3, A16, false), v = UB().words(0, 3, A16); R.add(pairs("deep: words over 16 limbs", u, v, mul_lean)); }
        { U u = UB().words(0, 8, A3, false); R.add(pairs("deep: carry words", u, u, mul_lean)); }
        R.add(lengths("deep: length x length", range(200, 330), range(1, 330), {0, 1, 2, 5, 7, 9}, true));
        for (int len : {32, 33, 64, 65, 66, 97, 129, 257}) { U u = blockU(5, len); R.add(pairs(cstr("deep: block words of %d limbs", len), u, u, mul_lean)); U v = blockU(5, 2 * len + 3); R.add(pairs(cstr("deep: block words of %d x %d limbs", 2 * len + 3, len), v, u, mul_lean)); }
        R.add(lengths("deep: very large", {1500, 3000, 5000, 6144, 12288, 16384, 16385, 20000}, {32, 33, 63, 64, 65, 1000, 1500, 2999, 3000, 3001, 5000, 8192, 12288, 16384}, {0, 2, 9, 10}, true));
    }
}
// with scaled-down thresholds (BIGINTEGERCPP_MC_THRESHOLD): short words reach every level of the recursion
MC_MODULE(C02small) {
    int L = R.level;
    { U u = L == 0 ? (U)UB().words(0, 4, A3, false).words(5, 5, A2, false) : L == 1 ? (U)UB().words(0, 7, A3, false) : (U)UB().words(0, 8, A3, false);
      U v = L == 0 ? u : L == 1 ? (U)UB().words(0, 6, A3, false) : (U)UB().words(0, 8, A3, false);
      R.add(pairs("scaled: all words over {0,1,ff} x the same", u, v, mul_lean)); }
    if (L) { U u = UB().words(4, 4, A5, false), v = L == 1 ? (U)UB().words(4, 4, A5, false) : (U)UB().words(4, 5, A5, false); R.add(pairs("scaled: boundary words of 4 limbs", u, v, mul)); }
    { U u = L == 0 ? (U)UB().words(4, 6, A3, false) : (U)UB().words(4, 10, A3, false).words(4, 6, A5, false); R.add(singles("scaled: squares of words", u, square)); }
    R.add(lengths("scaled: length x length", range(1, L == 0 ? 12 : 48), range(1, L == 0 ? 12 : 48), L == 0 ? std::vector<int>{0, 1, 2, 9} : range(0, NPAT - 1), true));
    if (L >= 3) {   // the deepest exploration
        { U u = UB().words(0, 9, A3, false), v = UB().words(0, 8, A3, false); R.add(pairs("scaled, deep: all words over {0,1,ff}", u, v, mul_lean)); }
        { U u = UB().words(4, 5, A5, false); R.add(pairs("scaled, deep: boundary words", u, u, mul_lean)); }
        { U u = UB().words(0, 14, A2, false); R.add(pairs("scaled, deep: words over {1,ff}", u, u, mul_lean)); }
        { U u = UB().words(4, 13, A3, false).words(4, 8, A5, false); R.add(singles("scaled, deep: squares of words", u, square)); }
        R.add(lengths("scaled, deep: length x length", range(1, 130), range(1, 130), range(0, NPAT - 1), true));
    }
}
