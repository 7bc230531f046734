// C06 greatest common divisor
#include "val.h"
static void g(const Item& x, const Item& y) {
    Z r; mpz_gcd(r, x.z, y.z); mc::outcome(r.fp());
    expect("gcd(a, b)", BigInteger::greatest_common_divisor(x.b, y.b), r);
    expect("gcd(b, a)", BigInteger::greatest_common_divisor(y.b, x.b), r);
}
static mc::Space made(const std::string& name, uint64_t n, std::function<void(uint64_t, Z&, Z&)> make) {
    mc::Space s; s.name = name; s.n = n * 4; s.strands = 64;
    auto mk2 = [=](uint64_t i, Z& a, Z& b) { make(i / 4, a, b); if (i & 1) a = -a; if (i & 2) b = -b; };
    s.run = [=](uint64_t i) { Z a, b; mk2(i, a, b); Item x{mk(a), a, a.fp()}, y{mk(b), b, b.fp()}; mc::state(mc::comb(x.fp, y.fp)); g(x, y); };
    s.describe = [=](uint64_t i) { Z a, b; mk2(i, a, b); return "a=" + a.hex() + " b=" + b.hex(); };
    return s;
}
// the form that takes limbs, the longer one first (if the class offers it)
template <class T> static auto by_limbs(const Item& x, const Item& y, T*) -> decltype(T::greatest_common_divisor(std::declval<Limbs&>(), std::declval<Limbs&>()), void()) {
    Limbs l = x.z.limbs(), r = y.z.limbs(); if (l.size() < 1 || r.size() < 1) return; if (mpz_cmpabs(x.z, y.z) < 0) l.swap(r);
    Z w; mpz_gcd(w, x.z, y.z); expect("gcd(limbs, limbs)", T::greatest_common_divisor(l, r), w);
}
static void by_limbs(const Item&, const Item&, ...) {}
MC_MODULE(C06) {
    int L = R.level;
    { U u = L == 0 ? (U)UB().words(1, 2, A3).longs({3, 7, 33}, {0, 1, 2}) : (U)UB().words(1, 3, A5, false).longs({4, 5, 9, 32, 33, 70}, {0, 1, 2, 8}, false); R.add(pairs("forms on limbs", u, u, [](const Item& x, const Item& y) { by_limbs(x, y, (BigInteger*)nullptr); })); }
    { int n = L == 0 ? 16 : L == 1 ? 300 : 700; U u = UB().small(-n, n); R.add(pairs("small, small", u, u, g)); }
    { U u = L == 0 ? (U)UB().words(0, 2, A5) : (U)UB().words(0, 3, A8, false).words(0, 2, A5); R.add(pairs("boundary words", u, u, g)); }
    { U u = L == 0 ? (U)UB().words(3, 4, A2) : L == 1 ? (U)UB().words(3, 4, A5, false).words(5, 6, A3, false) : (U)UB().words(3, 4, A8, false).words(5, 7, A3, false); R.add(pairs("three words and more (Lehmer)", u, u, g)); }
    { int k = L == 0 ? 100 : L == 1 ? 260 : 500; U u = UB().pow2(k, -1, 1, L == 0 ? 90 : 0); U v = UB().pow2(k, -1, 1, 60); if (L) R.add(pairs("2^k+d", u, v, g)); else R.add(pairs("2^k+d", u, u, g)); }
    { U u = UB().runs(range(0, L == 0 ? 120 : 300, L == 0 ? 30 : 9)); R.add(pairs("runs", u, u, g)); }
    // common factor g*x, g*y
    { U gs = L == 0 ? (U)UB().words(1, 2, A2, false).longs({3}, {2}, false) : (U)UB().words(1, 2, A5, false).longs({3, 4, 6, 10}, {0, 2, 3, 7}, false);
      U xs = L == 0 ? (U)UB().words(1, 2, A2, false) : (U)UB().words(1, 2, A5, false).longs({3, 5}, {2, 12, 7}, false); uint64_t a = gs->size(), b = xs->size();
      R.add(made("common factors", a * b * b, [=](uint64_t i, Z& x, Z& y) { Z gg = gs->specs[i / b / b].z(); x = gg * xs->specs[i / b % b].z(); y = gg * xs->specs[i % b].z(); })); }
    // Fibonacci and other slow continued fractions, scaled
    { int N = L == 0 ? 300 : L == 1 ? 2200 : 6000; int st = L == 0 ? 23 : 1; uint64_t n = N / st;
      R.add(made("Fibonacci neighbours", n * 3, [=](uint64_t i, Z& x, Z& y) { int k = 2 + (i / 3) * st; Z a, b; mpz_fib2_ui(a, b, k); Z s = i % 3 == 0 ? Z(1) : i % 3 == 1 ? Z::from({7, 0, 1}, false) : Z::from(pattern(0, 4), false); x = a * s; y = b * s; }));
      R.add(made("Fibonacci with gaps", n * 4, [=](uint64_t i, Z& x, Z& y) { int k = 8 + (i / 4) * st; mpz_fib_ui(x, k); mpz_fib_ui(y, k - 2 - 1 - (i % 4)); })); }
    // constant partial quotients q: x_{n+1} = q x_n + x_{n-1}
    { std::vector<uint64_t> qs{1, 2, 3, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000ull, 0x100000001ull, 0xFFFFFFFFFFFFFFFFull}; int N = L == 0 ? 12 : L == 1 ? 60 : 150; uint64_t nq = qs.size();
      R.add(made("constant partial quotients", nq * N * 2, [=](uint64_t i, Z& x, Z& y) { Z a(1), b(i & 1 ? 1 : 0), q = Z::u64(qs[i / 2 / N]); for (int k = 0, n = 2 + i / 2 % N; k < n; k++) { Z t = q * a + b; b = a; a = t; } x = a; y = b; }));
      // partial quotients alternating between two values, with a common factor
      R.add(made("alternating partial quotients", nq * nq * N, [=](uint64_t i, Z& x, Z& y) { Z a(1), b(0), q[2] = {Z::u64(qs[i / N / nq]), Z::u64(qs[i / N % nq])}; for (int k = 0, n = 2 + i % N; k < n; k++) { Z t = q[k & 1] * a + b; b = a; a = t; } Z s = Z::from(pattern(2, 1 + i % 3), false); x = a * s; y = b * s; })); }
    // every word over a partial-quotient alphabet
    { std::vector<uint64_t> qs{1, 2, 0x80000000, 0xFFFFFFFF, 0x1000000000ull}; int N = L == 0 ? 5 : L == 1 ? 8 : 9; uint64_t n = 1; for (int k = 0; k < N; k++) n *= qs.size();
      R.add(made("all short continued fractions", n, [=](uint64_t i, Z& x, Z& y) { Z a = Z::from({5, 1}, false), b(0); for (int k = 0; k < N; k++, i /= 5) { Z t = Z::u64(qs[i % 5]) * a + b; b = a; a = t; } x = a; y = b; })); }
    // lengths and length gaps
    { U u = UB().longs(L == 0 ? len0() : cat(range(1, 16), {20, 31, 32, 33, 40, 64}), L == 0 ? std::vector<int>{0, 1, 2, 12} : range(0, NPAT - 1), false); R.add(pairs("length, length", u, u, g)); }
    if (L) { U u = UB().longs({100, 150, 200, 300}, {0, 2, 5, 12, 7}, false), v = UB().longs({1, 2, 3, 50, 98, 99, 100, 101, 150, 300}, {0, 2, 11, 12, 7}, false); R.add(pairs("long", u, v, g)); }
    // a = q*b + r with huge quotients
    { U bs = UB().longs({2, 3, 4}, {0, 2, 7, 12}, false), qs = L == 0 ? (U)UB().words(1, 3, A2, false) : (U)UB().words(1, 4, A3, false), rs = UB().small(0, 3).words(1, 2, A3, false); uint64_t nb = bs->size(), nq = qs->size(), nr = rs->size();
      R.add(made("a = q*b + r", nb * nq * nr, [=](uint64_t i, Z& x, Z& y) { y = bs->specs[i / nq / nr].z(); x = y * qs->specs[i / nr % nq].z() + rs->specs[i % nr].z(); })); }
    if (L >= 2) { U u = UB().longs({65535, 65536, 65537}, {0, 1, 2, 7}, false), v = UB().small(0, 6).words(1, 2, A5, false).longs({3, 4, 33}, {0, 2, 7}, false); R.add(pairs("lengths beyond 16 bits", u, v, g)); }
    if (L >= 3) {   // the deepest exploration
        { U u = UB().words(0, 3, A16, false); R.add(pairs("deep: words over 16 limbs", u, u, g)); }
        { U u = UB().words(3, 4, A9, false).words(5, 8, A3, false); R.add(pairs("deep: three words and more", u, u, g)); }
        { U u = UB().small(-2500, 2500); R.add(pairs("deep: small", u, u, g)); }
        { U u = UB().longs(range(1, 80), range(0, NPAT - 1), false); R.add(pairs("deep: length, length", u, u, g)); }
        { std::vector<uint64_t> qs{1, 2, 3, 0x80000000, 0xFFFFFFFF, 0x100000000ull, 0x1000000000ull}; int N = 9; uint64_t n = 1; for (int k = 0; k < N; k++) n *= qs.size();
          R.add(made("deep: all short continued fractions", n, [=](uint64_t i, Z& x, Z& y) { Z a = Z::from({5, 1}, false), b(0); for (int k = 0; k < N; k++, i /= 7) { Z t = Z::u64(qs[i % 7]) * a + b; b = a; a = t; } x = a; y = b; })); }
        { std::vector<uint64_t> qs{1, 2}; int N = 22; R.add(made("deep: continued fractions of 1 and 2", 1ull << N, [=](uint64_t i, Z& x, Z& y) { Z a = Z::from({1, 0, 1}, false), b = Z::from({3, 1}, false); for (int k = 0; k < N; k++, i /= 2) { Z t = Z::u64(qs[i % 2]) * a + b; b = a; a = t; } for (int k = 0; k < 60; k++) { Z t = a + b; b = a; a = t; } x = a; y = b; })); }
    }
}
