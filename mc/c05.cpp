// C05 modular exponentiation
#include "val.h"
static void powm(const Item& v, const Item& e, const Item& m) {
    auto call = [&] { return BigInteger::mod_pow(v.b, e.b, m.b); };
    if (e.z.sgn() < 0 || m.z.sgn() == 0) {
        Err r = trap([&] { call(); }); mc::step();
        bool ok = (e.z.sgn() < 0 && r == Err::Range) || (m.z.sgn() == 0 && r == Err::DivZero);
        if (!ok) mc::fail("mod_pow: got %s, want %s", ename(r), e.z.sgn() < 0 ? "out-of-range error" : "divide-by-zero error");
        return;
    }
    Z a, b, r; mpz_abs(a, v.z); mpz_abs(b, m.z);
    mpz_powm(r, a, e.z, b);
    if (v.z.sgn() < 0 && mpz_odd_p(e.z.z)) mpz_neg(r, r);
    mc::outcome(r.fp());
    expect("mod_pow(v, e, m)", call(), r);
}
static mc::Space triples(const std::string& name, U v, U e, U m) {
    uint64_t ne = e->size(), nm = m->size(); mc::Space s; s.name = name; s.n = v->size() * ne * nm; s.strands = 128;
    s.run = [=](uint64_t i) { auto &x = v->at(i / ne % v->size()), &y = e->at(i % ne), &w = m->at(i / ne / v->size()); mc::state(mc::comb(mc::comb(x.fp, y.fp), w.fp)); powm(x, y, w); };
    s.describe = [=](uint64_t i) { return "v=" + v->str(i / ne % v->size()) + " e=" + e->str(i % ne) + " m=" + m->str(i / ne / v->size()); };
    return s;
}
static U exps(int L) {
    UB b; b.small(0, L == 0 ? 3 : 5);
    for (int k : {31, 32, 33, 63, 64, 65, 95, 96, 97}) { if (L == 0 && k > 65) break; for (int d : {-1, 0, 1}) { Z v(1); mpz_mul_2exp(v, v, k); b.add(Spec::of(v + Z(d))); } }
    b.add(Spec({0, 0, 1}, false)).add(Spec({0, 0, 3}, false)).add(Spec({5, 0, 1}, false)).add(Spec({0x80000000, 0x80000000}, false)).add(Spec({0x9E3779B9, 0x7F4A7C15, 0xF39CC060}, false));
    if (L) b.add(Spec({0, 0, 0, 1}, false)).add(Spec({1, 0, 0, 0x80000000}, false)).add(Spec({0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF}, false));
    return b;
}
// modulus of every length, values around it
static mc::Space bymod(const std::string& name, std::vector<int> lens, std::vector<int> pats, U es, int nv) {
    uint64_t nl = lens.size(), np = pats.size(), ne = es->size(); mc::Space s; s.name = name; s.n = nl * np * ne * nv * 2; s.strands = 128;
    auto make = [=](uint64_t i, Spec& v, Spec& m, uint64_t& ei) {
        ei = i % ne; uint64_t k = i / ne; int c = k % nv; k /= nv; bool neg = k & 1; k >>= 1; int p = pats[k % np], len = lens[k / np];
        m = Spec(pattern(p, len), ei & 1); Z mz = Z::from(m.m, false), r;
        switch (c) {
            case 0: r = Z(2); break; case 1: r = mz - Z(1); break;
            case 2: r = Z::from(pattern(12, len), false); break;                       // as long, usually larger
            case 3: r = Z::from(pattern(2, 2 * len), false); break;                    // twice as long
            case 4: r = Z::from(pattern(0, len), false); break;
            case 5: r = Z::from(pattern(2, std::max(1, len - 1)), false); break;
            case 6: r = mz * mz - Z(1); break; case 7: r = mz; break; case 8: r = mz + Z(1); break;
            case 9: r = Z::from(pattern(0, 2 * len + 1), false); break; case 10: r = Z(1); break; case 11: r = Z(0); break;
            case 12: mpz_fdiv_q_2exp(r, mz, 1); break;
        }
        v = Spec::of(r); if (neg) v = Spec(v.m, true);
    };
    s.run = [=](uint64_t i) { Spec v, m; uint64_t ei; make(i, v, m, ei); Item x{mk(v), v.z(), 0}, w{mk(m), m.z(), 0}; const Item& e = es->at(ei);
        mc::state(mc::comb(mc::comb(x.z.fp(), e.fp), w.z.fp())); powm(x, e, w); };
    s.describe = [=](uint64_t i) { Spec v, m; uint64_t ei; make(i, v, m, ei); return "v=" + v.str() + " e=" + es->str(ei) + " m=" + m.str(); };
    s.hang_s = 60;
    return s;
}
MC_MODULE(C05) {
    int L = R.level;
    { int n = L == 0 ? 5 : L == 1 ? 16 : 30; U u = UB().small(-n, n); R.add(triples("small", u, UB().small(-2, L == 0 ? 9 : L == 1 ? 50 : 130), u)); }
    { U v = L == 0 ? (U)UB().small(-2, 2).words(1, 2, A2) : (U)UB().small(-2, 2).words(1, 2, A5).words(3, 3, A2); U m = L == 0 ? (U)UB().small(-2, 2).words(1, 2, A3, false).words(3, 3, A2) : (U)UB().small(-2, 2).words(1, 2, A5).words(3, 3, A3);
      R.add(triples("boundary words", v, exps(L), m)); }
    if (L) { U v = UB().small(-3, 3).words(1, 2, A8).words(3, 4, A2), m = UB().small(-3, 3).words(1, 2, A9).words(3, 3, A5).words(4, 4, A2); R.add(triples("boundary words, short exponents", v, UB().small(0, L == 1 ? 5 : 17), m)); }
    { auto lens = L == 0 ? getenv("MC_LITE") ? std::vector<int>{1, 2, 3, 31, 32, 33} : cat(range(1, 9), {30, 31, 32, 33, 34, 40, 64, 65}) : L == 1 ? cat(range(1, 12), {16, 24, 30, 31, 32, 33, 34, 35, 36, 40, 48, 63, 64, 65, 66}) : cat(range(1, 80), {127, 128, 129, 130});
      auto pats = L == 0 ? std::vector<int>{0, 1, 2, 3} : L == 1 ? std::vector<int>{0, 1, 2, 3, 4, 5, 7, 12} : range(0, NPAT - 1);
      UB e; e.small(0, 5); e.add(Spec::i64(65537)).add(Spec({0, 1}, false)).add(Spec({5, 1}, false)).add(Spec({1, 0, 1}, false)).add(Spec::i64(0x7FFFFFFF)).add(Spec::i64(0xFFFFFFFF));
      if (L == 0) { UB f; f.small(0, 3).add(Spec({5, 1}, false)); R.add(bymod("modulus of every length", lens, pats, f, 13)); }
      else R.add(bymod("modulus of every length", lens, pats, e, 13));
      if (L) { UB f; f.small(2, 3).add(Spec({3, 0, 2}, false)); R.add(bymod("long modulus", L == 1 ? std::vector<int>{96, 128, 129, 200} : std::vector<int>{200, 255, 256, 257, 300, 512}, {0, 1, 2, 3}, f, 13)); } }
    // errors, whatever the size of the other arguments
    { U a = UB().small(-3, 3).words(1, 2, A3).longs({3, 32, 40}, {0, 2}); U e = UB().small(0, 3).words(1, 2, A2, false).longs({3, 32, 40}, {0, 2}, false); R.add(triples("zero modulus", a, e, UB().small(0, 0)));
      U ne = UB().small(-3, -1).add(Spec({0x80000000}, true)).add(Spec({0, 1}, true)).add(Spec({2, 1}, true)).add(Spec(pattern(0, 5), true)).add(Spec(pattern(2, 40), true)); U m = UB().small(-3, 3).words(1, 2, A3).longs({3, 31, 32, 33}, {0, 2}); R.add(triples("negative exponent", a, ne, m)); }
    if (L >= 2) { U v = UB().longs({65536, 65537}, {0, 2, 7}), e = UB().small(0, 3).small(7, 7), m = UB().small(1, 3).words(1, 2, A3, false).longs({3, 33, 40}, {0, 2}, false); R.add(triples("a base beyond 65536 limbs", v, e, m)); }
    if (L >= 2) { U v = UB().small(2, 3), e = UB().longs({5000, 20000}, {0, 2, 7}, false), m = UB().small(2, 3).words(1, 1, A3, false); R.add(triples("a very long exponent", v, e, m)); }
    if (L >= 3) {   // the deepest exploration
        { U u = UB().small(-60, 60); R.add(triples("deep: small", u, UB().small(-2, 300), u)); }
        { U v = UB().small(-3, 3).words(1, 3, A5).words(4, 4, A2), m = UB().small(-2, 2).words(1, 3, A5).words(4, 4, A3, false); R.add(triples("deep: boundary words", v, exps(L), m)); }
        { UB e; e.small(2, 5).add(Spec({5, 1}, false)).add(Spec({1, 0, 1}, false)).add(Spec({0xFFFFFFFF, 0xFFFFFFFF}, false)); R.add(bymod("deep: modulus of every length", range(1, 260), range(0, NPAT - 1), e, 13)); }
    }
}
MC_MODULE(C05small) {
    int L = R.level;
    U v = L == 0 ? (U)UB().words(0, 3, A2, false) : L == 1 ? (U)UB().words(0, 4, A3, false) : (U)UB().words(0, 6, A3, false).words(1, 3, A5, false);
    U m = L == 0 ? (U)UB().words(1, 3, A3, false) : L == 1 ? (U)UB().words(1, 4, A3, false).words(1, 3, A5, false) : (U)UB().words(1, 5, A3, false).words(1, 3, A8, false);
    UB e; e.small(0, 3).add(Spec({3, 1}, false)); if (L) e.add(Spec({0xFFFFFFFF, 0, 1}, false)).add(Spec({0, 1}, false));
    R.add(triples("scaled: words ^ e mod words", v, e, m));
    UB f; f.small(2, 5).add(Spec({5, 1}, false)); R.add(bymod("scaled: modulus of every length", range(1, L == 0 ? 8 : 40), L == 0 ? std::vector<int>{0, 1, 2} : range(0, NPAT - 1), f, 13));
    if (L >= 3) {   // the deepest exploration
        { U vv = UB().words(0, 6, A3, false).words(1, 4, A5, false), mm = UB().words(1, 6, A3, false).words(1, 4, A5, false); UB ee; ee.small(2, 3).add(Spec({3, 1}, false)).add(Spec({0xFFFFFFFF, 0, 1}, false)); R.add(triples("scaled, deep: words ^ e mod words", vv, ee, mm)); }
        { UB g; g.small(2, 5).add(Spec({5, 1}, false)).add(Spec({1, 0, 3}, false)); R.add(bymod("scaled, deep: modulus of every length", range(1, 150), range(0, NPAT - 1), g, 13)); }
    }
}
