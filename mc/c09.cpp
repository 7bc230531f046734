// C09 comparison, equality, hash code
#include "val.h"
#include <algorithm>
static int sg(int x) { return (x > 0) - (x < 0); }
static void cmp(const Item& x, const Item& y) {
    int c = sg(mpz_cmp(x.z, y.z)); mc::outcome(c + 5);
    int k = x.b.compare_to(y.b); mc::step();
    if (sg(k) != c) mc::fail("compare_to: got %d, want sign %d", k, c);
    bool got[8] = {x.b < y.b, x.b > y.b, x.b <= y.b, x.b >= y.b, x.b == y.b, x.b != y.b, x.b.equals(y.b), x.b.get_hash_code() == y.b.get_hash_code()};
    bool want[7] = {c < 0, c > 0, c <= 0, c >= 0, c == 0, c != 0, c == 0};
    static const char* nm[7] = {"a < b", "a > b", "a <= b", "a >= b", "a == b", "a != b", "a.equals(b)"};
    mc::step(8);
    for (int i = 0; i < 7; i++) if (got[i] != want[i]) mc::fail("%s: got %d, want %d", nm[i], got[i], want[i]);
    if (c == 0 && !got[7]) mc::fail("equal values have different hash codes");
}
// many ways to obtain the same value
static void routes(const Item& x) {
    std::vector<std::pair<const char*, BigInteger>> v;
    Spec s = Spec::of(x.z); Limbs l = s.m; Limbs pad = l; pad.push_back(0); pad.push_back(0);
    auto add = [&](const char* n, BigInteger b) { v.emplace_back(n, std::move(b)); };
    add("limbs", BigInteger(l, s.neg)); add("padded limbs", BigInteger(pad, s.neg));
    { BigInteger b = BigInteger::parse(x.z.dec()); add("parse", b); add("parse with leading zeros", BigInteger::parse((s.neg ? "-000" : "+000") + Z::from(l, false).dec())); }
    { BigInteger t = x.b; byte_array b = t.to_byte_array(); add("bytes", BigInteger(b)); for (int i = 0; i < 6; i++) b.push_back(s.neg ? 255 : 0); add("padded bytes", BigInteger(b)); std::reverse(b.begin(), b.end()); add("padded big-endian bytes", BigInteger(b, false, true)); }
    { BigInteger t = x.b; add("-(-a)", -(-t)); add("~~a", [&] { BigInteger u = ~t; return ~u; }()); }
    { BigInteger t = x.b; ++t; --t; add("++ --", t); } { BigInteger t = x.b; --t; ++t; add("-- ++", t); }
    for (const Spec& k : {Spec::i64(1), Spec::i64(-1), Spec({0xFFFFFFFF}, false), Spec({0xFFFFFFFF, 0xFFFFFFFF}, true), Spec(pattern(2, 5), false), Spec(pattern(0, 40), false)}) {
        BigInteger b = mk(k), t = x.b;
        add("a + b - b", t + b - b); add("a - b + b", t - b + b); add("b - (b - a)", b - (b - t)); add("a * b / b", t * b / b);
        add("(a * b + a) - a * b", (t * b + t) - t * b); add("a ^ b ^ b", t ^ b ^ b); add("(a & b) + (a & ~b)", [&] { BigInteger nb = ~b; return (t & b) + (t & nb); }()); add("(a | b) - (b & ~a)", [&] { BigInteger na = ~t; return (t | b) - (b & na); }());
        BigInteger q, bb = b, tt = t; BigInteger d = BigInteger::div_rem(tt, bb, q); add("q * b + r", d * b + q);
        if (s.m.size() <= 2) { BigInteger big = b * b * b + t; BigInteger bm = b * b; if (!(Z::from({1}, false) == Z::from(k.m, false)) && x.z.sgn() >= 0 && k.m.size() >= 5) add("(b^3 + a) mod b^2", big % bm); }
    }
    for (int n : {1, 31, 32, 33, 100}) { BigInteger t = x.b; t <<= n; t >>= n; add("<< >>", t); }
    if (mpz_fits_slong_p(x.z.z)) { long n = mpz_get_si(x.z.z); add("int64", BigInteger((int64_t)n)); if (n == (int)n) add("int32", BigInteger((int32_t)n)); if (n >= 0) add("uint64", BigInteger((uint64_t)n)); if (n == (long)(uint32_t)n) add("uint32", BigInteger((uint32_t)n)); if (n == (long)(double)n && n < (1l << 62) && n > -(1l << 62)) add("double", BigInteger((double)n)); }
    { BigInteger t = x.b; add("abs with sign", [&] { BigInteger a = BigInteger::abs(t); return s.neg ? BigInteger::negate(a) : a; }()); }
    { BigInteger t; BigInteger::try_parse(x.z.dec(), t); add("try_parse", t); }
    { BigInteger o(1); add("a * 1", x.b * o); add("a / 1", x.b / o); add("pow(a, 1)", BigInteger::pow(x.b, 1)); add("gcd with sign", [&] { BigInteger g = BigInteger::greatest_common_divisor(x.b, BigInteger(0)); return s.neg ? -g : g; }()); }
    int h = x.b.get_hash_code(); std::string txt = x.b.to_string();
    for (auto& p : v) {
        const BigInteger& b = p.second; mc::step();
        if (!(b == x.b) || !(x.b == b) || b != x.b || b.compare_to(x.b) != 0 || x.b.compare_to(b) != 0 || b < x.b || x.b < b) mc::fail("a value obtained by %s (%s) is not equal to a", p.first, show(b).c_str());
        if (b.get_hash_code() != h) mc::fail("a value obtained by %s has another hash code (%d, %d)", p.first, b.get_hash_code(), h);
        if (b.to_string() != txt) mc::fail("a value obtained by %s has another text", p.first);
    }
}
MC_MODULE(C09) {
    int L = R.level;
    { int n = L == 0 ? 20 : L == 1 ? 400 : 1200; U u = UB().small(-n, n); R.add(pairs("small, small", u, u, cmp)); }
    { U u = L == 0 ? (U)UB().words(0, 2, A5) : (U)UB().words(0, 3, A8); R.add(pairs("boundary words", u, u, cmp)); }
    { U u = L == 0 ? (U)UB().words(0, 4, A2) : L == 1 ? (U)UB().words(0, 6, A3) : (U)UB().words(0, 7, A3); R.add(pairs("carry words", u, u, cmp)); }
    { int k = L == 0 ? 70 : L == 1 ? 260 : 500; U u = UB().pow2(k, -2, 2); R.add(pairs("2^k+d", u, u, cmp)); }
    { auto ls = L == 0 ? len0() : L == 1 ? cat(range(1, 34), {63, 64, 65, 128, 129, 1000}) : cat(range(1, 100), {127, 128, 129, 255, 256, 257, 1000}); U u = UB().longs(ls, L == 0 ? std::vector<int>{0, 1, 2, 3} : range(0, NPAT - 1)); R.add(pairs("every length", u, u, cmp)); }
    // values that differ in exactly one limb
    { std::vector<int> ls = L == 0 ? std::vector<int>{2, 5} : std::vector<int>{1, 2, 3, 4, 5, 8, 17, 33, 64, 100}; struct C { int p, len, pos; uint32_t d; bool neg; }; auto cs = std::make_shared<std::vector<C>>();
      for (int len : ls) for (int p : {0, 2, 4, 6, 12, 13}) for (int pos = 0; pos < len; pos++) for (uint32_t d : {1u, 0x80000000u, 0xFFFFFFFFu}) for (int n = 0; n < 2; n++) cs->push_back({p, len, pos, d, (bool)n});
      mc::Space s; s.name = "one limb differs"; s.n = cs->size(); s.run = [=](uint64_t i) { const C& c = (*cs)[i]; Limbs a = pattern(c.p, c.len), b = a; b[c.pos] ^= c.d; Spec x(a, c.neg), y(b, c.neg); Item p{mk(x), x.z(), x.z().fp()}, q{mk(y), y.z(), y.z().fp()}; mc::state(mc::comb(p.fp, q.fp)); cmp(p, q); cmp(q, p); };
      s.describe = [=](uint64_t i) { const C& c = (*cs)[i]; return cstr("pattern %d of %d limbs, limb %d ^ %x, neg=%d", c.p, c.len, c.pos, c.d, c.neg); }; R.add(s); }
    { U u = L == 0 ? (U)UB().small(-3, 3).words(1, 2, A3) : (U)UB().small(-300, 300).words(1, 3, A8).pow2(140, -1, 1).longs(cat(range(4, 12), {31, 32, 33, 63, 64, 65}), {0, 1, 2, 3, 8}); R.add(singles("every route to a value", u, routes)); }
    // order is total and transitive on a chain of all kinds of values
    { UB b; b.small(-3, 3).words(1, 2, A5).words(3, 3, A2).longs({4, 33}, {0, 1}); U u = b; auto ord = std::make_shared<std::vector<uint64_t>>(); for (uint64_t i = 0; i < u->size(); i++) ord->push_back(i);
      std::vector<Z> zs; for (auto& s : u->specs) zs.push_back(s.z()); std::sort(ord->begin(), ord->end(), [&](uint64_t a, uint64_t c) { return zs[a] < zs[c]; });
      mc::Space s; s.name = "sorted chain"; s.n = u->size(); s.run = [=](uint64_t i) { const Item& a = u->at((*ord)[i]); for (uint64_t j = 0; j < u->size(); j++) { const Item& b = u->at((*ord)[j]); int c = sg(a.b.compare_to(b.b)), w = i < j ? -1 : i > j; mc::step(); if (c != w) mc::fail("compare_to of %s and %s: %d, want %d", a.z.hex().c_str(), b.z.hex().c_str(), c, w); } }; s.describe = [=](uint64_t i) { return "a=" + u->str((*ord)[i]); }; R.add(s); }
    if (L) R.add(huge(L, [](const Item& x) {
        BigInteger c = x.b; Item y{c, x.z, x.fp}; cmp(x, y); cmp(y, x);
        y.b += BigInteger(1); y.z = x.z + Z(1); cmp(x, y); cmp(y, x);
        y.b = BigInteger(x.z.sgn()); y.z = Z((long)x.z.sgn()); cmp(x, y); cmp(y, x); }));
    if (L >= 2) { U u = UB().small(-1, 1).longs({65534, 65535, 65536, 65537, 65538, 131072}, {0, 1, 2, 3, 8}); R.add(pairs("lengths beyond 16 bits", u, u, cmp)); }
    if (L >= 3) {   // the deepest exploration
        { U u = UB().words(0, 3, A16); R.add(pairs("deep: words over 16 limbs", u, u, cmp)); }
        { U u = UB().words(0, 8, A3); R.add(pairs("deep: carry words", u, u, cmp)); }
        { U u = UB().pow2(1000, -2, 2); R.add(pairs("deep: 2^k+d", u, u, cmp)); }
        { U u = UB().small(-3000, 3000).words(2, 3, A9).pow2(400, -2, 2).longs(range(4, 130), {0, 1, 2, 3, 8, 9}); R.add(singles("deep: every route to a value", u, routes)); }
    }
}
