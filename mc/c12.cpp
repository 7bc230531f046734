// C12 fixed-width integers
#include "val.h"
#include <climits>
// every integer conversion of a value
static void conv(const Item& x) {
    BigInteger b = x.b; mc::step(4);
    { bool fit = mpz_cmp_si(x.z.z, INT_MIN) >= 0 && mpz_cmp_si(x.z.z, INT_MAX) <= 0; int v = 0; Err e = trap([&] { v = (int)b; }); if (fit ? e != Err::None || mpz_cmp_si(x.z.z, v) : e != Err::Overflow) mc::fail("conversion to int: %s, %d", ename(e), v); }
    { bool fit = x.z.sgn() >= 0 && mpz_cmp_ui(x.z.z, UINT_MAX) <= 0; unsigned v = 0; Err e = trap([&] { v = (unsigned)b; }); if (fit ? e != Err::None || mpz_cmp_ui(x.z.z, v) : e != Err::Overflow) mc::fail("conversion to unsigned int: %s, %u", ename(e), v); }
    { bool fit = mpz_fits_slong_p(x.z); long v = 0; Err e = trap([&] { v = (long)b; }); if (fit ? e != Err::None || mpz_cmp_si(x.z.z, v) : e != Err::Overflow) mc::fail("conversion to long: %s, %ld", ename(e), v); }
    { bool fit = mpz_fits_ulong_p(x.z); unsigned long v = 0; Err e = trap([&] { v = (unsigned long)b; }); if (fit ? e != Err::None || mpz_cmp_ui(x.z.z, v) : e != Err::Overflow) mc::fail("conversion to unsigned long: %s, %lu", ename(e), v); }
    if (!same(b, x.z)) mc::fail("the converted object changed to %s", show(b).c_str());
    mc::outcome(x.fp);
}
template <class T, class F> static void ctor(const char* n, T v, F back) {
    Z w = v < 0 ? Z::i64((int64_t)v) : Z::u64((uint64_t)v); mc::state(mc::comb(w.fp(), sizeof(T) * 2 + (T(-1) < T(0)))); mc::step(2);
    BigInteger b(v); if (!same(b, w)) mc::fail("construction from %s %s: got %s", n, w.dec().c_str(), show(b).c_str());
    T r{}; Err e = trap([&] { r = back(b); }); if (e != Err::None || r != v) mc::fail("%s %s and back: %s, %lld", n, w.dec().c_str(), ename(e), (long long)r);
    BigInteger f = mk(w); if (!(b == f) || b.get_hash_code() != f.get_hash_code()) mc::fail("construction from %s %s: not equal to a fresh value", n, w.dec().c_str());
}
static void ints(uint64_t v) {
    ctor<int32_t>("int32", (int32_t)v, [](BigInteger& b) { return (int)b; }); ctor<uint32_t>("uint32", (uint32_t)v, [](BigInteger& b) { return (unsigned)b; });
    ctor<int64_t>("int64", (int64_t)v, [](BigInteger& b) { return (long)b; }); ctor<uint64_t>("uint64", v, [](BigInteger& b) { return (unsigned long)b; });
}
MC_MODULE(C12) {
    int L = R.level;
    // integers of the native types: every 64-bit pattern of 16-bit (and byte) words over a boundary alphabet
    { std::vector<uint64_t> a = L == 0 ? std::vector<uint64_t>{0, 1, 0x7FFF, 0x8000, 0xFFFF} : std::vector<uint64_t>{0, 1, 2, 0x00FF, 0x0100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFE, 0xFFFF}; uint64_t k = a.size(); mc::Space s; s.name = "64-bit words of boundary 16-bit words"; s.n = k * k * k * k; s.strands = 64;
      auto v = [=](uint64_t i) { return a[i % k] | a[i / k % k] << 16 | a[i / k / k % k] << 32 | a[i / k / k / k] << 48; }; s.run = [=](uint64_t i) { ints(v(i)); }; s.describe = [=](uint64_t i) { return cstr("0x%016lx", v(i)); }; R.add(s); }
    if (L) { std::vector<uint64_t> a{0, 1, 0x7F, 0x80, 0xFF}; if (L >= 2) a = {0, 1, 0x7F, 0x80, 0xFE, 0xFF}; uint64_t k = a.size(), n = 1; for (int i = 0; i < 8; i++) n *= k; mc::Space s; s.name = "64-bit words of boundary bytes"; s.n = n; s.strands = 64; auto v = [=](uint64_t i) { uint64_t r = 0; for (int j = 0; j < 8; j++, i /= k) r |= a[i % k] << (8 * j); return r; }; s.run = [=](uint64_t i) { ints(v(i)); }; s.describe = [=](uint64_t i) { return cstr("0x%016lx", v(i)); }; R.add(s); }
    { int d = L == 0 ? 4 : 40; mc::Space s; s.name = "2^k+d"; s.n = 65 * (2 * d + 1); auto v = [=](uint64_t i) { uint64_t k = i / (2 * d + 1); return (k == 64 ? 0 : 1ull << k) + (i % (2 * d + 1)) - d; }; s.run = [=](uint64_t i) { ints(v(i)); ints(0 - v(i)); }; s.describe = [=](uint64_t i) { return cstr("+-0x%016lx", v(i)); }; R.add(s); }
    if (L) { int n = L == 1 ? 1 << 21 : 1 << 24; mc::Space s; s.name = "neighbourhoods of the type bounds"; s.n = n; s.strands = 64; std::vector<uint64_t> base{0, 0x80000000ull, 0x100000000ull, 0x8000000000000000ull}; auto v = [=](uint64_t i) { return base[i & 3] + (i >> 2) - n / 8; }; s.run = [=](uint64_t i) { ints(v(i)); }; s.describe = [=](uint64_t i) { return cstr("0x%016lx", v(i)); }; R.add(s); }
    if (L >= 2) { mc::Space s; s.name = "all 32-bit words"; s.n = 1ull << 24; s.strands = 256; s.run = [=](uint64_t i) { for (uint64_t j = 0; j < 256; j++) { uint32_t v = i << 8 | j; { BigInteger b((int32_t)v); if ((int)b != (int32_t)v) mc::fail("int32 %d", (int32_t)v); } { BigInteger b((uint32_t)v); if ((unsigned)b != v) mc::fail("uint32 %u", v); } mc::step(2); } }; s.describe = [=](uint64_t i) { return cstr("0x%08lx..", i << 8); }; R.add(s); }
    // conversions of values of all sizes
    { int n = L == 0 ? 50 : 100000; R.add(singles("convert: small", UB().small(-n, n), conv)); }
    R.add(singles("convert: 2^k+d", UB().pow2(L == 0 ? 70 : 130, L == 0 ? -3 : -60, L == 0 ? 3 : 60), conv));
    R.add(singles("convert: boundary words", L == 0 ? (U)UB().words(0, 2, A5).words(3, 3, A3) : L == 1 ? (U)UB().words(0, 3, A16).words(4, 4, A5).words(5, 6, A3) : (U)UB().words(0, 3, A16).words(4, 4, A16).words(5, 8, A3), conv));
    R.add(singles("convert: runs", UB().runs(range(0, L == 0 ? 70 : 130, L == 0 ? 9 : 1)), conv));
    R.add(singles("convert: every length", UB().longs(L == 0 ? len1() : range(1, 300), range(0, NPAT - 1)), conv));
    // values congruent to representable ones modulo 2^32 and 2^64 (truncation must not pass as success)
    { U u = L == 0 ? (U)UB().small(-3, 3).words(1, 2, A3) : (U)UB().small(-70, 70).words(1, 2, A16); const int K = 12; mc::Space s; s.name = "congruent values"; s.n = u->size() * K * 2; auto make = [=](uint64_t i) { Z p(1); static const int ks[K] = {31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 128, 320}; mpz_mul_2exp(p, p, ks[i / 2 % K]); Z v = u->specs[i / 2 / K].z(); return i & 1 ? v - p : v + p; };
      s.run = [=](uint64_t i) { Z z = make(i); Item x{mk(z), z, z.fp()}; mc::state(x.fp); conv(x); }; s.describe = [=](uint64_t i) { return "a=" + make(i).hex(); }; R.add(s); }
    if (L) R.add(huge(L, [](const Item& x) {
        BigInteger b = x.b; mc::step(4);
        Err e[4] = {trap([&] { (void)(int)b; }), trap([&] { (void)(unsigned)b; }), trap([&] { (void)(long)b; }), trap([&] { (void)(unsigned long)b; })};
        for (int i = 0; i < 4; i++) if (e[i] != Err::Overflow) mc::fail("conversion %d (int, unsigned, long, unsigned long): %s, want the overflow error", i, ename(e[i])); }));
    if (L >= 3) {   // the deepest exploration
        { std::vector<uint64_t> a; for (int i = 0; i < 24; i++) a.push_back(i < 8 ? i : i < 16 ? 0x7FF8 + i : 0xFFE8 + i); uint64_t k = a.size(); mc::Space s; s.name = "deep: 64-bit words of 24 16-bit words"; s.n = k * k * k * k; s.strands = 128;
          auto v = [=](uint64_t i) { return a[i % k] | a[i / k % k] << 16 | a[i / k / k % k] << 32 | a[i / k / k / k] << 48; }; s.run = [=](uint64_t i) { ints(v(i)); }; s.describe = [=](uint64_t i) { return cstr("0x%016lx", v(i)); }; R.add(s); }
        { std::vector<uint64_t> a{0, 1, 2, 0x7E, 0x7F, 0x80, 0x81, 0xFE, 0xFF}; uint64_t k = a.size(), n = 1; for (int i = 0; i < 8; i++) n *= k; mc::Space s; s.name = "deep: 64-bit words of 9 bytes"; s.n = n; s.strands = 128; auto v = [=](uint64_t i) { uint64_t r = 0; for (int j = 0; j < 8; j++, i /= k) r |= a[i % k] << (8 * j); return r; }; s.run = [=](uint64_t i) { ints(v(i)); }; s.describe = [=](uint64_t i) { return cstr("0x%016lx", v(i)); }; R.add(s); }
        R.add(smalls("deep: convert small", -5000000, 5000000, conv));
        R.add(singles("deep: convert words", UB().words(4, 5, A16).words(6, 6, A8).words(9, 12, A3), conv));
    }
}
