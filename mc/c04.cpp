// C04 integer power
#include "val.h"
#include <climits>
static mc::Space powspace(const std::string& name, U u, std::vector<int> es, size_t maxbits = 400000) {
    uint64_t ne = es.size(); mc::Space s; s.name = name; s.n = u->size() * ne; s.strands = 64;
    s.run = [=](uint64_t i) {
        const Item& x = u->at(i / ne); int e = es[i % ne];
        mc::state(mc::comb(x.fp, (uint64_t)e));
        if (e < 0) { expect_err(cstr("pow(v, %d)", e).c_str(), trap([&] { BigInteger::pow(x.b, e); }), Err::Range); return; }
        Z p;
        if (mpz_cmpabs_ui(x.z, 1) <= 0) { p = e == 0 ? Z(1) : (e & 1) ? x.z : x.z * x.z; }
        else { if (mpz_sizeinbase(x.z, 2) * (size_t)e > maxbits) return; mpz_pow_ui(p, x.z, e); }
        mc::outcome(p.fp());
        expect(cstr("pow(v, %d)", e).c_str(), BigInteger::pow(x.b, e), p);
    };
    s.describe = [=](uint64_t i) { return "v=" + u->str(i / ne) + " e=" + std::to_string(es[i % ne]); };
    return s;
}
MC_MODULE(C04) {
    int L = R.level;
    { int n = L == 0 ? 12 : L == 1 ? 80 : 200; R.add(powspace("small ^ small", UB().small(-n, n), L == 0 ? cat(range(0, 12), {31, 32, 33, 64}) : range(0, L == 1 ? 200 : 400))); }
    { U u = L == 0 ? (U)UB().words(0, 2, A3) : (U)UB().words(0, 2, A9).words(3, 3, A5); R.add(powspace("boundary words ^ e", u, range(0, L == 0 ? 7 : L == 1 ? 40 : 100))); }
    { U u = UB().longs(L == 0 ? cat(range(1, 17), {31, 32, 33, 64, 65, 129}) : cat(range(1, 70), {127, 128, 129, 255, 256, 257}), L == 0 ? std::vector<int>{0, 1, 2} : range(0, NPAT - 1)); R.add(powspace("length ^ e", u, L == 0 ? range(0, 5) : L == 1 ? cat(range(0, 9), {15, 16, 17, 31, 32, 33}) : range(0, 40), L == 1 ? 60000 : 200000)); }
    { R.add(powspace("2^k+d ^ e", UB().pow2(L == 0 ? 34 : 70, -1, 1), L == 0 ? std::vector<int>{0, 1, 2, 3, 8} : range(0, 70))); }
    { U u = UB().small(-17, 17).pow2(33, 0, 0); std::vector<int> es; for (int k = 6; k <= (L == 0 ? 9 : L == 1 ? 13 : 15); k++) for (int d = -1; d <= 1; d++) es.push_back((1 << k) + d); es.push_back(1000); if (L) { es.push_back(5000); es.push_back(10000); }
      R.add(powspace("small ^ large", u, es)); }
    { R.add(powspace("0, 1, -1 ^ anything", UB().small(-1, 1), {0, 1, 2, 3, 31, 32, 33, 65535, 65536, 1 << 30, (1 << 30) + 1, INT_MAX - 1, INT_MAX})); }
    { R.add(powspace("negative exponents", UB().small(-20, 20).words(0, 3, A3).longs({10, 33}, {0, 2}), {-1, -2, -3, -31, -32, -65536, INT_MIN + 1, INT_MIN})); }
    { // pow against repeated multiplication, in place
      U u = UB().small(-12, 12).words(1, 2, A5); mc::Space s = singles("pow agrees with repeated multiplication", u, [](const Item& x) {
          BigInteger acc(1); for (int e = 0; e <= 24; e++) { if (!(acc == BigInteger::pow(x.b, e))) mc::fail("v*...*v (%d factors) is %s but pow(v,%d) is %s", e, show(acc).c_str(), e, show(BigInteger::pow(x.b, e)).c_str()); acc *= x.b; mc::step(2); } }); R.add(s); }
    if (L >= 2) R.add(powspace("results beyond 65536 limbs", UB().small(-3, -2).small(7, 7).words(3, 3, A2, false), {1, 21846, 43691, 65536, 800000, 2097151, 2097152, 2097153, 2200000}, 2300000));
    if (L >= 3) {   // the deepest exploration
        R.add(powspace("deep: small ^ small", UB().small(-1000, 1000), range(0, 600)));
        R.add(powspace("deep: boundary words ^ e", UB().words(0, 3, A9), range(0, 120)));
        R.add(powspace("deep: length ^ e", UB().longs(range(1, 130), range(0, NPAT - 1)), range(0, 40), 300000));
        R.add(powspace("deep: 2^k+d ^ e", UB().pow2(300, -2, 2), range(0, 100)));
        { std::vector<int> es = range(2000, 4000); for (int k = 12; k <= 18; k++) for (int d = -2; d <= 2; d++) es.push_back((1 << k) + d); R.add(powspace("deep: small ^ large", UB().small(-17, 17), es)); }
    }
}
MC_MODULE(C04small) {
    int L = R.level;
    R.add(powspace("scaled: words ^ e", L == 0 ? (U)UB().words(0, 3, A3, false) : (U)UB().words(0, 5, A3, false).words(1, 3, A8, false), range(0, L == 0 ? 5 : 20)));
    R.add(powspace("scaled: small ^ e", UB().small(-40, 40), range(0, L == 0 ? 40 : 300)));
    if (L >= 3) {   // the deepest exploration
        R.add(powspace("scaled, deep: words ^ e", UB().words(0, 7, A3, false).words(1, 4, A8, false), range(0, 30)));
        R.add(powspace("scaled, deep: small ^ e", UB().small(-300, 300), range(0, 1000)));
    }
}
