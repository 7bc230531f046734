// C10 byte strings, limb arrays
#include "val.h"
#include <algorithm>
// reference: value of a byte string
static Z bytes_value(const byte_array& b, bool uns, bool be) {
    byte_array t = b; if (be) std::reverse(t.begin(), t.end());
    Z r; if (t.empty()) return r;
    mpz_import(r, t.size(), -1, 1, 0, 0, t.data());
    if (!uns && (t.back() & 0x80)) { Z m(1); mpz_mul_2exp(m, m, 8 * t.size()); r = r - m; }
    return r;
}
static byte_array bytes_of(const Z& z, bool uns, bool be) {
    byte_array r;
    if (z.sgn() == 0) { r.push_back(0); return r; }
    if (uns) { r.resize((mpz_sizeinbase(z, 2) + 7) / 8); size_t n; mpz_export(r.data(), &n, -1, 1, 0, 0, z); }
    else {
        Z c = z; if (z.sgn() < 0) mpz_com(c, z);
        size_t bits = c.sgn() == 0 ? 0 : mpz_sizeinbase(c, 2), len = bits / 8 + 1;
        Z m(1); mpz_mul_2exp(m, m, 8 * len); Z t = z.sgn() < 0 ? z + m : z;
        r.assign(len, 0); size_t n; mpz_export(r.data(), &n, -1, 1, 0, 0, t);
    }
    if (be) std::reverse(r.begin(), r.end());
    return r;
}
static std::string hx(const byte_array& b) { std::string s = "["; size_t n = b.size(); for (size_t i = 0; i < n; i++) { if (n > 40 && i == 16) { s += cstr("..(%zu)..", n); i = n - 16; } s += cstr("%02x", b[i]); } return s + "]"; }
static void dec(const byte_array& b, bool uns, bool be) {
    Z w = bytes_value(b, uns, be); mc::outcome(w.fp());
    BigInteger r(b, uns, be);
    mc::step();
    if (!same(r, w)) mc::fail("decoding %s %s %s: got %s, want %s", hx(b).c_str(), uns ? "unsigned" : "signed", be ? "big-endian" : "little-endian", show(r).c_str(), w.hex().c_str());
    if (!uns && !be) { BigInteger d(b); if (!same(d, w)) mc::fail("decoding %s with the default arguments: got %s", hx(b).c_str(), show(d).c_str()); }
    if (uns && !be) { BigInteger d(b, uns); if (!same(d, w)) mc::fail("decoding %s with default endianness: got %s", hx(b).c_str(), show(d).c_str()); }
    BigInteger f = mk(w); if (!(r == f) || r.get_hash_code() != f.get_hash_code()) mc::fail("decoding %s: not equal to a fresh %s", hx(b).c_str(), w.hex().c_str());
    if (!b.empty()) { byte_array again = r.to_byte_array(uns, be); byte_array want = bytes_of(w, uns, be); if (again != want) mc::fail("re-encoding of %s %s: got %s, want %s", hx(b).c_str(), uns ? "unsigned" : "signed", hx(again).c_str(), hx(want).c_str()); }
}
static void enc(const Item& x) {
    for (int f = 0; f < 4; f++) {
        bool uns = f & 1, be = f & 2; mc::step(5);
        if (uns && x.z.sgn() < 0) {
            int n = -7;
            Err e[5] = {trap([&] { x.b.to_byte_array(uns, be); }), trap([&] { x.b.to_byte_array(BigInteger::AllocateArray, uns, be, &n); }), trap([&] { x.b.get_byte_count(true); }), trap([&] { x.b.to_byte_array(BigInteger::Count, uns, be, &n); }), trap([&] { x.b.to_byte_array(BigInteger::AllocateArray, uns, be); })};
            for (Err q : e) if (q == Err::None) mc::fail("an unsigned encoding of a negative value does not raise an error");
            continue;
        }
        byte_array w = bytes_of(x.z, uns, be); mc::outcome(mc::fp_bytes(w.data(), w.size()));
        byte_array g = x.b.to_byte_array(uns, be);
        if (g != w) mc::fail("to_byte_array(unsigned=%d, big-endian=%d): got %s, want %s", uns, be, hx(g).c_str(), hx(w).c_str());
        int n = -7; g = x.b.to_byte_array(BigInteger::AllocateArray, uns, be, &n);
        if (g != w) mc::fail("to_byte_array(AllocateArray, unsigned=%d, big-endian=%d): got %s, want %s", uns, be, hx(g).c_str(), hx(w).c_str());
        g = x.b.to_byte_array(BigInteger::AllocateArray, uns, be);
        if (g != w) mc::fail("to_byte_array(AllocateArray) without bytesWritten: got %s, want %s", hx(g).c_str(), hx(w).c_str());
        n = -7; g = x.b.to_byte_array(BigInteger::Count, uns, be, &n);
        if (n != (int)w.size()) mc::fail("byte count (unsigned=%d): got %d, want %zu", uns, n, w.size());
        n = x.b.get_byte_count(uns); if (n != (int)w.size()) mc::fail("get_byte_count(%d): got %d, want %zu", uns, n, w.size());
        BigInteger back(w, uns, be); if (!same(back, x.z)) mc::fail("decoding the encoding %s: got %s", hx(w).c_str(), show(back).c_str());
    }
    { byte_array g = x.b.to_byte_array(), w = bytes_of(x.z, false, false); if (g != w) mc::fail("to_byte_array(): got %s, want %s", hx(g).c_str(), hx(w).c_str()); if (x.b.get_byte_count() != (int)w.size()) mc::fail("get_byte_count(): got %d, want %zu", x.b.get_byte_count(), w.size()); }
}
// limb arrays: every constructor and every query
static void limbs(const Spec& s, const Limbs& raw, bool neg) {
    Z w = Z::from(raw, neg); mc::state(w.fp()); mc::step(4);
    BigInteger b(raw, neg); if (!same(b, w)) mc::fail("BigInteger(limbs, %d): got %s, want %s", neg, show(b).c_str(), w.hex().c_str());
    BigInteger f = mk(w); if (!(b == f) || b.get_hash_code() != f.get_hash_code() || (raw.size() < 2000 && b.to_string() != f.to_string())) mc::fail("BigInteger(limbs): not equal to a fresh %s", w.hex().c_str());
    // to_uint32_array: minimal two's complement words
    Z c = w; if (w.sgn() < 0) mpz_com(c, w);
    size_t bits = c.sgn() == 0 ? 0 : mpz_sizeinbase(c, 2), len = bits / 32 + 1; Z m(1); mpz_mul_2exp(m, m, 32 * len); Z t = w.sgn() < 0 ? w + m : w;
    Limbs want(len, 0); size_t n; mpz_export(want.data(), &n, -1, 4, 0, 0, t);
    Limbs got = b.to_uint32_array(); if (w.sgn() == 0 ? !got.empty() && got != want : got != want) mc::fail("to_uint32_array: got %s, want %s", hexlimbs(got, false).c_str(), hexlimbs(want, false).c_str());
    (void)s;
}
static mc::Space limbspace(const std::string& name, U u, int pads) {
    mc::Space s; s.name = name; s.n = u->size() * pads; s.strands = 64;
    s.run = [=](uint64_t i) { const Spec& p = u->specs[i / pads]; Limbs l = p.m; for (uint64_t k = 0; k < i % pads; k++) l.push_back(0); limbs(p, l, p.neg); if (p.m.empty()) limbs(p, l, true); };
    s.describe = [=](uint64_t i) { return "limbs of " + u->str(i / pads) + cstr(" and %d zero limbs", (int)(i % pads)); }; return s;
}
static mc::Space words(const std::string& name, std::vector<unsigned char> alpha, int len, unsigned strands = 64) {
    uint64_t n = 1, k = alpha.size(); for (int i = 0; i < len; i++) n *= k;
    mc::Space s; s.name = name; s.n = n * 4; s.strands = strands;
    auto make = [=](uint64_t i) { byte_array b(len); for (int j = 0; j < len; j++, i /= k) b[j] = alpha[i % k]; return b; };
    s.run = [=](uint64_t i) { byte_array b = make(i / 4); mc::state(mc::fp_bytes(b.data(), b.size(), i % 4 + 7)); dec(b, i & 1, i & 2); };
    s.describe = [=](uint64_t i) { return hx(make(i / 4)) + (i & 1 ? " unsigned" : " signed") + (i & 2 ? " big-endian" : " little-endian"); }; return s;
}
MC_MODULE(C10) {
    int L = R.level;
    std::vector<unsigned char> all; for (int i = 0; i < 256; i++) all.push_back(i);
    R.add(words("no bytes", {0}, 0)); R.add(words("all 1-byte strings", all, 1)); R.add(words(L == 0 ? "2-byte strings" : "all 2-byte strings", L == 0 ? std::vector<unsigned char>{0, 1, 0x7F, 0x80, 0xAB, 0xFE, 0xFF} : all, 2));
    if (L >= 2) R.add(words("all 3-byte strings", all, 3, 256));
    std::vector<unsigned char> a3{0, 0x80, 0xFF}, a6{0, 1, 0x7F, 0x80, 0xFE, 0xFF}, a10{0, 1, 2, 0x0F, 0x7F, 0x80, 0x81, 0xF0, 0xFE, 0xFF};
    for (int n = 3; n <= (L == 0 ? 5 : L == 1 ? 10 : 14); n++) R.add(words(cstr("%d bytes of {00,80,ff}", n), a3, n));
    for (int n = 3; n <= (L == 0 ? 3 : L == 1 ? 7 : 9); n++) R.add(words(cstr("%d bytes of 6", n), a6, n));
    for (int n = 3; n <= (L == 0 ? 3 : L == 1 ? 5 : 7); n++) R.add(words(cstr("%d bytes of 10", n), a10, n));
    // padding of every length in front of / behind every value
    { U u = L == 0 ? (U)UB().small(-130, 130).words(1, 2, A3) : (U)UB().small(-300, 300).words(1, 3, A5).pow2(100, -1, 1); const int P = L == 0 ? 9 : 14; mc::Space s; s.name = "redundant leading bytes"; s.n = u->size() * P * 4; s.strands = 64;
      auto make = [=](uint64_t i) { bool uns = i & 1, be = i & 2; Z z = u->specs[i / 4 / P].z(); if (uns) mpz_abs(z, z); byte_array b = bytes_of(z, uns, false); for (uint64_t k = 0; k < i / 4 % P; k++) b.push_back(z.sgn() < 0 ? 255 : 0); if (be) std::reverse(b.begin(), b.end()); return b; };
      s.run = [=](uint64_t i) { byte_array b = make(i); mc::state(mc::fp_bytes(b.data(), b.size(), i % 4 + 7)); dec(b, i & 1, i & 2); };
      s.describe = [=](uint64_t i) { return hx(make(i)) + (i & 1 ? " unsigned" : " signed") + (i & 2 ? " big-endian" : " little-endian"); }; R.add(s); }
    // long strings: every length x leading bytes x filling
    { std::vector<int> lens = L == 0 ? len1() : cat(range(1, L == 1 ? 300 : 1100), {1023, 1024, 1025, 4095, 4096, 4097, 10000}); std::vector<unsigned char> lead{0, 1, 0x7F, 0x80, 0xFE, 0xFF}; const int F = 5; uint64_t per = lead.size() * lead.size() * F * 4;
      mc::Space s; s.name = "byte strings of every length"; s.n = lens.size() * per; s.strands = 64;
      auto make = [=](uint64_t i) { int len = lens[i / per]; uint64_t k = i % per / 4; byte_array b(len); int f = k % F; k /= F; for (int j = 0; j < len; j++) b[j] = f == 0 ? 0 : f == 1 ? 0xFF : f == 2 ? (unsigned char)(mc::mix(j + 5) >> 7) : f == 3 ? (j & 1 ? 0x80 : 0) : 0x80; b[len - 1] = lead[k % 6]; if (len > 1) b[len - 2] = lead[k / 6 % 6]; if (i & 2) std::reverse(b.begin(), b.end()); return b; };
      s.run = [=](uint64_t i) { byte_array b = make(i); mc::state(mc::fp_bytes(b.data(), b.size(), i % 4 + 7)); dec(b, i & 1, i & 2); };
      s.describe = [=](uint64_t i) { return hx(make(i)) + (i & 1 ? " unsigned" : " signed") + (i & 2 ? " big-endian" : " little-endian"); }; R.add(s); }
    { int n = L == 0 ? 300 : L == 1 ? 70000 : 1000000; R.add(singles("encode: small", UB().small(-n, n), enc)); }
    R.add(singles("encode: boundary words", L == 0 ? (U)UB().words(0, 2, A5).words(3, 3, A3) : L == 1 ? (U)UB().words(0, 3, A16).words(4, 4, A8).words(5, 7, A3) : (U)UB().words(0, 4, A16).words(5, 5, A8).words(6, 9, A3), enc));
    R.add(singles("encode: 2^k+d", UB().pow2(L == 0 ? 80 : L == 1 ? 700 : 3000, -3, 3), enc));
    R.add(singles("encode: runs", UB().runs(range(0, L == 0 ? 70 : 250, L == 0 ? 9 : 2)), enc));
    R.add(singles("encode: every length", UB().longs(L == 0 ? len1() : cat(range(1, 140), {255, 256, 257, 1000, 1024, 4096}), range(0, NPAT - 1)), enc));
    R.add(limbspace("limb arrays", L == 0 ? (U)UB().words(0, 3, A3) : (U)UB().small(-3, 3).words(0, 3, A8).words(4, 6, A3), 4));
    R.add(limbspace("limb arrays of every length", UB().longs(L == 0 ? len1() : cat(range(1, 70), {255, 256, 1000}), range(0, NPAT - 1)), 3));
    if (L) R.add(huge(L, [](const Item& x) {
        bool neg = x.z.sgn() < 0; Z c = x.z; if (neg) mpz_com(c, x.z); long bits = mpz_sizeinbase(c, 2);
        expect_i("get_byte_count", x.b.get_byte_count(), bits / 8 + 1); if (!neg) expect_i("get_byte_count(unsigned)", x.b.get_byte_count(true), (bits + 7) / 8);
        byte_array w = bytes_of(x.z, false, false), g = x.b.to_byte_array(); mc::step(2); if (g != w) mc::fail("to_byte_array is wrong (%zu bytes, want %zu)", g.size(), w.size());
        byte_array().swap(g); BigInteger r(w); if (!same(r, x.z)) mc::fail("decoding is wrong"); }));
    if (L >= 2) { U u = UB().longs({16383, 16384, 16385, 65535, 65536, 65537}, {0, 1, 2, 3, 7, 8}); R.add(singles("encode: lengths beyond 16 bits", u, enc)); R.add(limbspace("limb arrays beyond 16 bits", UB().longs({65535, 65536, 65537}, {0, 1, 2, 3}), 2)); }
    if (L >= 3) {   // the deepest exploration
        R.add(words("deep: 4 bytes of 48", [] { std::vector<unsigned char> a; for (int i = 0; i < 16; i++) { a.push_back(i); a.push_back(0x78 + i); a.push_back(0xF0 + i); } return a; }(), 4, 256));
        for (int n = 15; n <= 16; n++) R.add(words(cstr("deep: %d bytes of {00,80,ff}", n), a3, n, 256));
        R.add(words("deep: 10 bytes of 6", a6, 10, 256)); R.add(words("deep: 8 bytes of 10", a10, 8, 256));
        R.add(smalls("deep: encode small", -4000000, 4000000, enc));
        R.add(limbspace("deep: limb arrays", UB().words(0, 4, A16).words(5, 6, A8).words(7, 10, A3), 4));
    }
}
