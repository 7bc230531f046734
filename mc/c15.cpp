// C15 predicates, sign, bit length
#include "val.h"
static void pr(const Item& x) {
    int s = x.z.sgn(); Z c = x.z; if (s < 0) mpz_com(c, x.z); uint64_t bl = c.sgn() == 0 ? 0 : mpz_sizeinbase(c, 2);
    expect_bool("is_zero", x.b.is_zero(), s == 0); expect_bool("is_one", x.b.is_one(), mpz_cmp_si(x.z.z, 1) == 0); expect_bool("is_even", x.b.is_even(), mpz_even_p(x.z.z));
    expect_bool("is_power_of_two", x.b.is_power_of_two(), s > 0 && mpz_popcount(x.z) == 1);
    int g = x.b.sign(); expect_i("sign", (g > 0) - (g < 0), s); expect_i("get_bit_length", x.b.get_bit_length(), bl);
    mc::outcome(mc::comb(bl, s + 2 + 4 * (mpz_even_p(x.z.z) ? 1 : 0)));
}
MC_MODULE(C15) {
    int L = R.level;
    { int n = L == 0 ? 300 : L == 1 ? 200000 : 3000000; R.add(singles("small", UB().small(-n, n), pr)); }
    R.add(singles("boundary words", L == 0 ? (U)UB().words(0, 2, A5).words(3, 4, A2) : L == 1 ? (U)UB().words(0, 4, A16).words(5, 8, A3) : (U)UB().words(0, 4, A16).words(5, 6, A8).words(7, 11, A3), pr));
    R.add(singles("2^k+d", UB().pow2(L == 0 ? 130 : 2200, -3, 3), pr));
    R.add(singles("runs", UB().runs(range(0, L == 0 ? 70 : 400, L == 0 ? 9 : 1)), pr));
    R.add(singles("every length", UB().longs(L == 0 ? len1() : cat(range(1, 300), {1000, 4096, 65536}), range(0, NPAT - 1)), pr));
    // two bits set, one bit cleared, in every position
    { int n = L == 0 ? 70 : L == 1 ? 330 : 700; mc::Space s; s.name = "two bits"; s.n = (uint64_t)n * n * 2; s.strands = 64; auto make = [=](uint64_t i) { Z a(1), b(1); mpz_mul_2exp(a, a, i / 2 / n); mpz_mul_2exp(b, b, i / 2 % n); Z r = a + b; if (i & 1) mpz_neg(r, r); return r; };
      s.run = [=](uint64_t i) { Z z = make(i); Item x{mk(z), z, z.fp()}; mc::state(x.fp); pr(x); }; s.describe = [=](uint64_t i) { return "a=" + make(i).hex(); }; R.add(s); }
    { int n = L == 0 ? 4 : 40; mc::Space s; s.name = "power of two plus a bit, long"; s.n = (uint64_t)n * n * 32; auto make = [=](uint64_t i) { int len = i / 32 / n + 1, pos = i / 32 % n; Limbs m(len, 0); m[len - 1] = 1u << (i % 32); if (pos < len - 1) m[pos] = 1u << (i % 32); return Z::from(m, false); }; s.run = [=](uint64_t i) { Z z = make(i); for (int k = 0; k < 2; k++) { Item x{mk(z), z, z.fp()}; mc::state(x.fp); pr(x); mpz_neg(z, z); } }; s.describe = [=](uint64_t i) { return "a=" + make(i).hex(); }; R.add(s); }
    if (L) R.add(huge(L, pr));
    if (L >= 3) {   // the deepest exploration
        R.add(smalls("deep: small", -10000000, 10000000, pr));
        R.add(singles("deep: words", UB().words(5, 5, A16).words(7, 7, A8).words(12, 13, A3), pr));
        { const int n = 2500; mc::Space s; s.name = "deep: two bits"; s.n = (uint64_t)n * n * 2; s.strands = 64; auto make = [=](uint64_t i) { Z a(1), b(1); mpz_mul_2exp(a, a, i / 2 / n); mpz_mul_2exp(b, b, i / 2 % n); Z r = a + b; if (i & 1) mpz_neg(r, r); return r; };
          s.run = [=](uint64_t i) { Z z = make(i); Item x{mk(z), z, z.fp()}; mc::state(x.fp); pr(x); }; s.describe = [=](uint64_t i) { return "a=" + make(i).hex(); }; R.add(s); }
    }
}
