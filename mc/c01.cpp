// C01 addition, subtraction, increment, decrement, negation, absolute value
#include "val.h"

static void addsub(const Item& x, const Item& y) {
    Z s = x.z + y.z, d = x.z - y.z;
    { BigInteger r = x.b + y.b; expect("a + b", r, s); mc::outcome(s.fp()); }
    { BigInteger r = x.b - y.b; expect("a - b", r, d); }
    { BigInteger a = x.b; BigInteger& r = (a += y.b); if (&r != &a) mc::fail("a += b does not return a"); expect("a += b", a, s); }
    { BigInteger a = x.b; BigInteger& r = (a -= y.b); if (&r != &a) mc::fail("a -= b does not return a"); expect("a -= b", a, d); }
    { BigInteger a = x.b; expect("add(a, b)", BigInteger::add(a, y.b), s); }
    { BigInteger a = x.b; expect("subtract(a, b)", BigInteger::subtract(a, y.b), d); }
}
// same facts in fewer forms, for the very large products
static void addsub_lean(const Item& x, const Item& y) {
    Z s = x.z + y.z, d = x.z - y.z;
    { BigInteger r = x.b; r += y.b; expect("a += b", r, s); }
    { BigInteger r = x.b; r -= y.b; expect("a -= b", r, d); }
}
// three-operand chains: results are operands again (a + b - c, a - b + c in place)
static void unary(const Item& x) {
    Z one(1);
    { BigInteger a = x.b; BigInteger& r = ++a; if (&r != &a) mc::fail("++a does not return a"); expect("++a", a, x.z + one); }
    { BigInteger a = x.b; BigInteger& r = --a; if (&r != &a) mc::fail("--a does not return a"); expect("--a", a, x.z - one); }
    { BigInteger a = x.b; BigInteger old = a++; expect("a after a++", a, x.z + one); expect("value of a++", old, x.z); }
    { BigInteger a = x.b; BigInteger old = a--; expect("a after a--", a, x.z - one); expect("value of a--", old, x.z); }
    { BigInteger a = x.b; expect("-a", -a, -x.z); expect("+a", +a, x.z); expect("a after -a", a, x.z); }
    { BigInteger a = x.b; expect("-(-a)", -(-a), x.z); }
    expect("negate(a)", BigInteger::negate(x.b), -x.z);
    { BigInteger a = x.b; expect("abs(a)", BigInteger::abs(a), x.z.sgn() < 0 ? -x.z : x.z); }
    { BigInteger a = x.b; a += a; expect("a += a", a, x.z + x.z); }
    { BigInteger a = x.b; a -= a; expect("a -= a", a, Z(0)); }
    { BigInteger a = x.b; ++a; ++a; --a; a++; a--; --a; expect("a after ++ ++ -- ++ -- --", a, x.z); }
}

// the forms that take limbs and signs, for values of equal sign (if the class offers them)
template <class T> static auto by_limbs(const Item& x, const Item& y, T*) -> decltype(std::declval<T&>().add(std::declval<Limbs&>(), 0, std::declval<Limbs&>(), 0), std::declval<T&>().subtract(std::declval<Limbs&>(), 0, std::declval<Limbs&>(), 0), void()) {
    if (x.z.sgn() * y.z.sgn() < 0) return;
    if (x.z.sgn() == 0 || y.z.sgn() == 0) return;
    T t; T a = x.b, b = y.b; Limbs l = a.get_bits(), r = b.get_bits();
    expect("add(limbs of a, sign of a, limbs of b, sign of b)", t.add(l, a.sign_internal(), r, b.sign_internal()), x.z + y.z);
    expect("subtract(limbs of a, sign of a, limbs of b, sign of b)", t.subtract(l, a.sign_internal(), r, b.sign_internal()), x.z - y.z);
}
static void by_limbs(const Item&, const Item&, ...) {}
MC_MODULE(C01) {
    int L = R.level;
    { U u = L == 0 ? (U)UB().small(-3, 3).words(1, 2, A3).longs({3, 7, 33}, {0, 1, 2}) : (U)UB().small(-9, 9).words(1, 3, A5).longs({4, 5, 9, 32, 33, 70}, {0, 1, 2, 8}); R.add(pairs("forms on limbs", u, u, [](const Item& x, const Item& y) { by_limbs(x, y, (BigInteger*)nullptr); })); }
    // 1. all small integers
    { int n = L == 0 ? 20 : L == 1 ? 300 : 700; U u = UB().small(-n, n); R.add(pairs("small x small", u, u, addsub)); }
    // 2. all words of boundary limbs
    { U u = L == 0 ? (U)UB().words(0, 2, A5) : (U)UB().words(0, 3, A8);
      if (L == 0) R.add(pairs("boundary words x boundary words", u, u, addsub));
      else R.add(pairs("boundary words x boundary words", u, u, addsub)); }
    { U u = L == 0 ? (U)UB().words(0, 4, A2) : L == 1 ? (U)UB().words(0, 6, A3) : (U)UB().words(0, 7, A3);
      R.add(pairs("carry words x carry words", u, u, addsub_lean)); }
    if (L >= 2) { U u = UB().words(0, 4, A8); R.add(pairs("boundary words 4 x 4", u, u, addsub_lean)); }
    // 3. powers of two and their neighbourhoods, runs of ones
    { int k = L == 0 ? 70 : L == 1 ? 200 : 520; U u = UB().pow2(k, -2, 2); R.add(pairs("2^k+d x 2^k+d", u, u, addsub)); }
    { U u = UB().runs(range(0, L == 0 ? 66 : L == 1 ? 200 : 300, L == 0 ? 11 : 5)); U v = UB().small(-3, 3).pow2(130, -1, 1).words(1, 3, A3);
      R.add(pairs("runs x mixed", u, v, addsub)); R.add(pairs("mixed x runs", v, u, addsub)); }
    // 4. every length with every pattern
    { auto lens = L == 0 ? len0() : L == 1
          ? cat(range(1, 40), {63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025})
          : cat(range(1, 140), {255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096});
      U u = UB().longs(lens, L == 0 ? std::vector<int>{0, 1, 2, 8} : std::vector<int>{0, 1, 2, 3, 5, 7, 8, 9});
      R.add(pairs("length x length", u, u, addsub)); }
    if (L > 0) {   // very long operands and carries
        U u = UB().longs({4095, 4096, 4097, 10000, 16384, 32768, 65535, 65536, 65537}, {0, 1, 2, 7, 8});
        U v = UB().small(-2, 2).words(1, 2, A3).longs({32, 256, 4096, 10000, 65536}, {0, 1, 2, 7});
        R.add(pairs("very long", u, v, addsub)); R.add(pairs("very long, swapped", v, u, addsub));
    }
    // 5. a single different limb at every position
    { UB b; int n = L == 0 ? 6 : L == 1 ? 40 : 80;
      for (int len = 1; len <= n; len++) for (int p = 0; p < len; p++) {
          Limbs o(len, 0xFFFFFFFF); o[p] = 0xFFFFFFFE; b.both(o); o[p] = 0; b.both(o);
          Limbs z(len, 0); z[len - 1] = 1; z[p] = 0xFFFFFFFF; b.both(z); z[p] = 0x80000000; b.both(z);
      }
      U u = b; U v = UB().small(-2, 2).both({0xFFFFFFFF}).both({0x80000000}).both({0, 1}).both({0xFFFFFFFF, 0xFFFFFFFF}).longs({3, 5, n / 2, n}, {0, 1, 8});
      R.add(pairs("walking limb x few", u, v, addsub)); R.add(pairs("few x walking limb", v, u, addsub)); }
    // 6. unary forms and steps
    { U u = UB().small(-2000, 2000).words(0, 3, A9).pow2(600, -3, 3).longs(range(1, 70), range(0, NPAT - 1)); R.add(singles("unary forms", u, unary)); }
    // 7. chains of three operands
    { U u = UB().small(-2, 2).words(0, 2, A5).words(3, 3, A2); uint64_t n = u->size();
      mc::Space s; s.name = "a + b - c, a - b + c in place"; s.n = n * n * n; if (L == 0) s.n = n * n;
      s.run = [=](uint64_t i) { auto &x = u->at(i % n), &y = u->at(i / n % n), &w = u->at(i / n / n);
          mc::state(mc::comb(mc::comb(x.fp, y.fp), w.fp));
          BigInteger a = x.b; a += y.b; a -= w.b; expect("(a += b) -= c", a, x.z + y.z - w.z);
          a -= x.b; a += w.b; expect("... -= a += c", a, y.z); };
      s.describe = [=](uint64_t i) { return "a=" + u->str(i % n) + " b=" + u->str(i / n % n) + " c=" + u->str(i / n / n); };
      s.strands = 64; R.add(s); }
    if (L >= 3) {   // the deepest exploration
        { U u = UB().words(0, 3, A16); R.add(pairs("deep: words over 16 limbs", u, u, addsub_lean)); }
        { U u = UB().words(0, 8, A3); R.add(pairs("deep: carry words", u, u, addsub_lean)); }
        { U u = UB().words(0, 5, A5); R.add(pairs("deep: words of five limbs", u, u, addsub_lean)); }
        { U u = UB().pow2(1100, -2, 2); R.add(pairs("deep: 2^k+d", u, u, addsub_lean)); }
        { U u = UB().small(-3000, 3000); R.add(pairs("deep: small", u, u, addsub)); }
        { U u = UB().longs(range(1, 400), {0, 1, 2, 3, 5, 7, 8, 9}); R.add(pairs("deep: length x length", u, u, addsub_lean)); }
    }
}
