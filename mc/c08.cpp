// C08 bitwise operators on infinite two's complement
#include "val.h"
static void bw(const Item& x, const Item& y) {
    Z a, o, e; mpz_and(a, x.z, y.z); mpz_ior(o, x.z, y.z); mpz_xor(e, x.z, y.z);
    mc::outcome(mc::comb(a.fp(), e.fp()));
    expect("a & b", x.b & y.b, a); expect("a | b", x.b | y.b, o); expect("a ^ b", x.b ^ y.b, e);
    { BigInteger t = x.b; BigInteger& r = (t &= y.b); if (&r != &t) mc::fail("a &= b does not return a"); expect("a &= b", t, a); }
    { BigInteger t = x.b; BigInteger& r = (t |= y.b); if (&r != &t) mc::fail("a |= b does not return a"); expect("a |= b", t, o); }
    { BigInteger t = x.b; BigInteger& r = (t ^= y.b); if (&r != &t) mc::fail("a ^= b does not return a"); expect("a ^= b", t, e); }
}
static void bw_lean(const Item& x, const Item& y) {
    Z a, o, e; mpz_and(a, x.z, y.z); mpz_ior(o, x.z, y.z); mpz_xor(e, x.z, y.z);
    { BigInteger t = x.b; t &= y.b; expect("a &= b", t, a); } { BigInteger t = x.b; t |= y.b; expect("a |= b", t, o); } { BigInteger t = x.b; t ^= y.b; expect("a ^= b", t, e); }
}
static void nt(const Item& x) {
    Z c; mpz_com(c, x.z); mc::outcome(c.fp());
    { BigInteger t = x.b; expect("~a", ~t, c); expect("a after ~a", t, x.z); }
    { BigInteger t = x.b; BigInteger u = ~t; expect("~~a", ~u, x.z); expect("a ^ ~a", t ^ u, Z(-1)); expect("a & ~a", t & u, Z(0)); expect("a | ~a", t | u, Z(-1)); }
    { BigInteger t = x.b; expect("a & a", t & t, x.z); expect("a | a", t | t, x.z); expect("a ^ a", t ^ t, Z(0)); }
}
MC_MODULE(C08) {
    int L = R.level;
    { int n = L == 0 ? 20 : L == 1 ? 270 : 1100; U u = UB().small(-n, n); R.add(pairs("small, small", u, u, bw)); R.add(singles("~ small", u, nt)); }
    { U u = L == 0 ? (U)UB().words(0, 2, A5) : (U)UB().words(0, 3, A8); R.add(pairs("boundary words", u, u, bw)); R.add(singles("~ boundary words", u, nt)); }
    { U u = L == 0 ? (U)UB().words(0, 4, A2) : L == 1 ? (U)UB().words(0, 6, A3) : (U)UB().words(0, 7, A3); R.add(pairs("carry words", u, u, bw_lean)); R.add(singles("~ carry words", u, nt)); }
    { int k = L == 0 ? 70 : L == 1 ? 200 : 400; U u = UB().pow2(k, -2, 2); R.add(pairs("2^k+d", u, u, bw)); R.add(singles("~ 2^k+d", u, nt)); }
    { U u = UB().runs(range(0, L == 0 ? 70 : L == 1 ? 160 : 300, L == 0 ? 13 : 7)); R.add(pairs("runs", u, u, bw)); R.add(singles("~ runs", u, nt)); }
    { auto ls = L == 0 ? len0() : L == 1 ? cat(range(1, 34), {63, 64, 65, 128, 129}) : cat(range(1, 100), {127, 128, 129, 255, 256, 257}); U u = UB().longs(ls, L == 0 ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2, 3, 4, 5, 8, 9}); R.add(pairs("every length", u, u, bw)); U w = UB().longs(ls, range(0, NPAT - 1)); R.add(singles("~ every length", w, nt)); }
    if (L) { U u = UB().longs({300, 1000, 1024, 4096}, {0, 1, 2, 3, 8}), v = UB().small(-3, 3).words(1, 2, A3).longs({299, 300, 301, 1000, 1024, 5000}, {0, 1, 2, 3, 8}); R.add(pairs("very long", u, v, bw)); R.add(pairs("very long, swapped", v, u, bw)); }
    if (L >= 2) { U u = UB().longs({32767, 32768, 65535, 65536, 65537}, {0, 1, 2, 3, 8}), v = UB().small(-2, 2).words(1, 1, A3).longs({32767, 65535, 65536}, {0, 1, 2, 3}); R.add(pairs("lengths beyond 16 bits", u, v, bw_lean)); R.add(singles("~ lengths beyond 16 bits", u, nt)); }
    if (L >= 3) {   // the deepest exploration
        { U u = UB().words(0, 3, A16); R.add(pairs("deep: words over 16 limbs", u, u, bw_lean)); }
        { U u = UB().words(0, 8, A3); R.add(pairs("deep: carry words", u, u, bw_lean)); }
        { U u = UB().pow2(1000, -2, 2); R.add(pairs("deep: 2^k+d", u, u, bw_lean)); }
        { U u = UB().small(-3000, 3000); R.add(pairs("deep: small, small", u, u, bw_lean)); }
        { U u = UB().longs(range(1, 260), {0, 1, 2, 3, 4, 5, 8, 9}); R.add(pairs("deep: every length", u, u, bw_lean)); }
    }
}
