// C17 operands are not modified and may alias
#include "ops.h"
struct Snap { Limbs l; int s; explicit Snap(const BigInteger& b) : l(b.get_bits()), s(b.sign_internal()) {} bool operator==(const Snap& o) const { return l == o.l && s == o.s; } };
struct Tern { Z q, r; bool div = false; };
static Z tq(const Z& a, const Z& b) { Z r; mpz_tdiv_q(r, a, b); return r; }
static Z tr(const Z& a, const Z& b) { Z r; mpz_tdiv_r(r, a, b); return r; }
static Z ba(const Z& a, const Z& b) { Z r; mpz_and(r, a, b); return r; }
static Z bo(const Z& a, const Z& b) { Z r; mpz_ior(r, a, b); return r; }
static Z bx(const Z& a, const Z& b) { Z r; mpz_xor(r, a, b); return r; }
static Z gc(const Z& a, const Z& b) { Z r; mpz_gcd(r, a, b); return r; }
static Z pm(const Z& v, const Z& e, const Z& m) { Z a, b, r; mpz_abs(a, v); mpz_abs(b, m); mpz_powm(r, a, e, b); if (v.sgn() < 0 && mpz_odd_p(e.z)) mpz_neg(r, r); return r; }
static Z add_(const Z& a, const Z& b) { return a + b; }
static Z sub_(const Z& a, const Z& b) { return a - b; }
static Z mul_(const Z& a, const Z& b) { return a * b; }
struct Bin { const char* n; BigInteger (*pure)(BigInteger&, BigInteger&); BigInteger& (*assign)(BigInteger&, const BigInteger&); Z (*ref)(const Z&, const Z&); bool div; };
static const Bin bins[] = {
    {"+", [](BigInteger& a, BigInteger& b) { return a + b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a += b; }, add_, false},
    {"-", [](BigInteger& a, BigInteger& b) { return a - b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a -= b; }, sub_, false},
    {"*", [](BigInteger& a, BigInteger& b) { return a * b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a *= b; }, mul_, false},
    {"/", [](BigInteger& a, BigInteger& b) { return a / b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a /= b; }, tq, true},
    {"%", [](BigInteger& a, BigInteger& b) { return a % b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a %= b; }, tr, true},
    {"&", [](BigInteger& a, BigInteger& b) { return a & b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a &= b; }, ba, false},
    {"|", [](BigInteger& a, BigInteger& b) { return a | b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a |= b; }, bo, false},
    {"^", [](BigInteger& a, BigInteger& b) { return a ^ b; }, [](BigInteger& a, const BigInteger& b) -> BigInteger& { return a ^= b; }, bx, false},
    {"add()", [](BigInteger& a, BigInteger& b) { return BigInteger::add(a, b); }, nullptr, add_, false},
    {"subtract()", [](BigInteger& a, BigInteger& b) { return BigInteger::subtract(a, b); }, nullptr, sub_, false},
    {"multiply()", [](BigInteger& a, BigInteger& b) { return BigInteger::multiply(a, b); }, nullptr, mul_, false},
    {"divide()", [](BigInteger& a, BigInteger& b) { return BigInteger::divide(a, b); }, nullptr, tq, true},
    {"remainder()", [](BigInteger& a, BigInteger& b) { return BigInteger::remainder(a, b); }, nullptr, tr, true},
    {"gcd()", [](BigInteger& a, BigInteger& b) { return BigInteger::greatest_common_divisor(a, b); }, nullptr, gc, false},
};
// no operation changes an operand it does not assign
static void intact(const Item& x, const Item& y) {
    BigInteger a = x.b, b = y.b; Snap sa(a), sb(b);
    auto chk = [&](const char* op) { if (!(Snap(a) == sa)) mc::fail("%s changes its left operand to %s", op, show(a).c_str()); if (!(Snap(b) == sb)) mc::fail("%s changes its right operand to %s", op, show(b).c_str()); mc::step(); };
    for (auto& o : bins) {
        bool zd = o.div && y.z.sgn() == 0;
        Z w; if (!zd) w = o.ref(x.z, y.z);
        if (zd) expect_err(o.n, trap([&] { o.pure(a, b); }), Err::DivZero); else { BigInteger r = o.pure(a, b); expect(o.n, r, w); ++r; }
        chk(o.n);
        if (!o.assign) continue;
        BigInteger c = a;
        if (zd) { expect_err(o.n, trap([&] { o.assign(c, b); }), Err::DivZero); expect("the assigned object after the error", c, x.z); }
        else { BigInteger& q = o.assign(c, b); if (&q != &c) mc::fail("%s= does not return its left operand", o.n); expect(o.n, c, w); }
        chk(o.n);
    }
    if (y.z.sgn()) { BigInteger r; BigInteger q = BigInteger::div_rem(a, b, r); expect("div_rem", q, tq(x.z, y.z)); expect("div_rem remainder", r, tr(x.z, y.z)); chk("div_rem()"); }
    (void)(a == b); (void)(a < b); (void)(a >= b); (void)a.compare_to(b); (void)a.equals(b); chk("a comparison");
    if (y.z.sgn() && mpz_size(x.z.z) < 40) { BigInteger e(5); expect("mod_pow", BigInteger::mod_pow(a, e, b), pm(x.z, Z(5), y.z)); chk("mod_pow"); expect("the exponent", e, Z(5)); }
    if (x.z.sgn() >= 0 && y.z.sgn() && mpz_size(x.z.z) <= 4) { BigInteger v(-3); expect("mod_pow", BigInteger::mod_pow(v, a, b), pm(Z(-3), x.z, y.z)); chk("mod_pow"); expect("the value", v, Z(-3)); }
}
// one object in several argument positions
static void alias(const Item& x) {
    const Z& z = x.z; bool big = mpz_size(z.z) > 200;
    for (auto& o : bins) {
        if (o.div && z.sgn() == 0) { BigInteger a = x.b; expect_err(o.n, trap([&] { o.pure(a, a); }), Err::DivZero); expect("a after the error", a, z); if (o.assign) { expect_err(o.n, trap([&] { o.assign(a, a); }), Err::DivZero); expect("a after the error", a, z); } continue; }
        Z w = o.ref(z, z);
        { BigInteger a = x.b; BigInteger r = o.pure(a, a); expect(cstr("a %s a", o.n).c_str(), r, w); expect(cstr("a after a %s a", o.n).c_str(), a, z); }
        if (o.assign) { BigInteger a = x.b; BigInteger& q = o.assign(a, a); if (&q != &a) mc::fail("a %s= a does not return a", o.n); expect(cstr("a %s= a", o.n).c_str(), a, w); }
        { BigInteger a = x.b; a = o.pure(a, a); expect(cstr("a = a %s a", o.n).c_str(), a, w); }
    }
    { BigInteger a = x.b; const BigInteger& c = a; expect_bool("a == a", a == c, true); expect_bool("a < a", a < c, false); expect_bool("a != a", a != c, false); expect_i("a.compare_to(a)", a.compare_to(a), 0); }
    { BigInteger a = x.b; BigInteger& s = a; a = s; expect("a = a", a, z); }
    { BigInteger a = x.b; BigInteger& s = a; a = std::move(s); a = x.b; expect("a = move(a), assigned again", a, z); }
    { BigInteger a = x.b; a = -a; expect("a = -a", a, -z); a = x.b; a = +a; expect("a = +a", a, z); a = x.b; a = ~a; Z c; mpz_com(c, z); expect("a = ~a", a, c); }
    { BigInteger a = x.b; a = BigInteger::abs(a); Z c; mpz_abs(c, z); expect("a = abs(a)", a, c); a = x.b; a = BigInteger::negate(a); expect("a = negate(a)", a, -z); }
    { BigInteger a = x.b; a = a << 37; Z c; mpz_mul_2exp(c, z, 37); expect("a = a << 37", a, c); a = a >> 37; expect("a = a >> 37", a, z); }
    { BigInteger a = x.b; BigInteger r = ++a + a; Z one(1); (void)r; a = x.b; a = a++; expect("a = a++", a, z); a = ++a; expect("a = ++a", a, z + one); a = --a; expect("a = --a", a, z); }
    if (!big) { BigInteger a = x.b; a = BigInteger::pow(a, 3); expect("a = pow(a, 3)", a, z * z * z); }
    if (z.sgn() == 0) { BigInteger a = x.b; expect_err("mod_pow(a, a, a)", trap([&] { a = BigInteger::mod_pow(a, a, a); }), Err::DivZero); expect("a after the error", a, z); BigInteger r; expect_err("div_rem(a, a, a)", trap([&] { BigInteger::div_rem(a, a, a); }), Err::DivZero); expect("a after the error", a, z); return; }
    // three arguments, every partition with one object everywhere
    { BigInteger a = x.b, q = BigInteger::div_rem(a, a, a); expect("div_rem(a, a, a)", q, Z(1)); expect("remainder of div_rem(a, a, a)", a, Z(0)); }
    { BigInteger a = x.b, r, q = BigInteger::div_rem(a, a, r); expect("div_rem(a, a, r)", q, Z(1)); expect("remainder of div_rem(a, a, r)", r, Z(0)); expect("a after div_rem(a, a, r)", a, z); }
    { BigInteger a = x.b; a = BigInteger::div_rem(a, a, a); expect("a = div_rem(a, a, a)", a, Z(1)); }
    if (z.sgn() > 0 && mpz_size(z.z) <= 33) { BigInteger a = x.b; BigInteger r = BigInteger::mod_pow(a, a, a); expect("mod_pow(a, a, a)", r, Z(0)); expect("a after mod_pow(a, a, a)", a, z); }
}
// two objects in three argument positions
static void alias2(const Item& x, const Item& y) {
    if (y.z.sgn() == 0) {
        for (int k = 0; k < 3; k++) { BigInteger a = x.b, b = y.b, r(5); expect_err("div_rem by zero", trap([&] { BigInteger::div_rem(a, b, k == 0 ? r : k == 1 ? a : b); }), Err::DivZero); expect("the dividend after the error", a, x.z); expect("the divisor after the error", b, y.z); expect("the remainder argument after the error", r, Z(5)); }
        return;
    }
    Z q = tq(x.z, y.z), r = tr(x.z, y.z); mc::outcome(mc::comb(q.fp(), r.fp()));
    { BigInteger a = x.b, b = y.b; BigInteger t = BigInteger::div_rem(a, b, a); expect("div_rem(a, b, a)", t, q); expect("remainder of div_rem(a, b, a)", a, r); expect("b after div_rem(a, b, a)", b, y.z); }
    { BigInteger a = x.b, b = y.b; BigInteger t = BigInteger::div_rem(a, b, b); expect("div_rem(a, b, b)", t, q); expect("remainder of div_rem(a, b, b)", b, r); expect("a after div_rem(a, b, b)", a, x.z); }
    { BigInteger a = x.b, b = y.b, c; a = BigInteger::div_rem(a, b, c); expect("a = div_rem(a, b, c)", a, q); expect("remainder", c, r); }
    { BigInteger a = x.b, b = y.b, c; b = BigInteger::div_rem(a, b, c); expect("b = div_rem(a, b, c)", b, q); expect("remainder", c, r); }
    { BigInteger a = x.b, b = y.b, c; c = BigInteger::div_rem(a, b, c); expect("c = div_rem(a, b, c)", c, q); }
    for (auto& o : bins) { Z w = o.ref(x.z, y.z); BigInteger a = x.b, b = y.b; b = o.pure(a, b); expect(cstr("b = a %s b", o.n).c_str(), b, w); expect("a", a, x.z); b = y.b; a = o.pure(a, b); expect(cstr("a = a %s b", o.n).c_str(), a, w); expect("b", b, y.z); }
    { BigInteger a = x.b, b = y.b; a = BigInteger::mod_pow(a, BigInteger(3), b); Z w = pm(x.z, Z(3), y.z); expect("a = mod_pow(a, 3, b)", a, w); a = x.b; b = BigInteger::mod_pow(a, BigInteger(3), b); expect("b = mod_pow(a, 3, b)", b, w); expect("a", a, x.z); }
}
static void modpow_alias(const Item& x, const Item& y) {
    // x in two of the three positions
    const Z &a = x.z, &b = y.z;
    if (a.sgn() >= 0) { if (b.sgn()) { BigInteger p = x.b, m = y.b; expect("mod_pow(a, a, b)", BigInteger::mod_pow(p, p, m), pm(a, a, b)); expect("a", p, a); p = BigInteger::mod_pow(p, p, m); expect("a = mod_pow(a, a, b)", p, pm(a, a, b)); } }
    if (b.sgn() >= 0 && a.sgn()) { BigInteger p = x.b, e = y.b; expect("mod_pow(a, b, a)", BigInteger::mod_pow(p, e, p), pm(a, b, a)); expect("a", p, a); expect("b", e, b); }
    if (a.sgn() > 0) { BigInteger p = x.b, v = y.b; expect("mod_pow(b, a, a)", BigInteger::mod_pow(v, p, p), pm(b, a, a)); expect("a", p, a); expect("b", v, b); v = BigInteger::mod_pow(v, p, p); expect("b = mod_pow(b, a, a)", v, pm(b, a, a)); }
}
static void queries(const Item& x) {
    BigInteger a = x.b; Snap s(a); auto chk = [&](const char* op) { mc::step(); if (!(Snap(a) == s)) mc::fail("%s changes its operand to %s", op, show(a).c_str()); };
    (void)a.to_string(); chk("to_string"); (void)a.get_hash_code(); chk("get_hash_code"); (void)a.to_byte_array(); (void)a.to_byte_array(false, true); chk("to_byte_array"); (void)a.to_uint32_array(); chk("to_uint32_array"); (void)a.get_byte_count(); chk("get_byte_count"); trap([&] { a.to_byte_array(true); }); chk("to_byte_array(unsigned)");
    (void)a.get_bit_length(); (void)a.is_even(); (void)a.is_power_of_two(); (void)a.is_zero(); (void)a.is_one(); (void)a.sign(); chk("a predicate"); { Limbs l = a.get_bits(); for (auto& w : l) w ^= 0x5A5A5A5A; } chk("changing the result of get_bits"); { Limbs l = a.to_uint32_array(); for (auto& w : l) w = 1; } chk("changing the result of to_uint32_array");
    trap([&] { (void)(int)a; }); trap([&] { (void)(unsigned)a; }); trap([&] { (void)(long)a; }); trap([&] { (void)(unsigned long)a; }); chk("an integer conversion"); (void)(double)a; (void)(float)a; chk("a floating-point conversion");
    (void)BigInteger::log(a); (void)BigInteger::log(a, 3); (void)BigInteger::log10(a); chk("log");
    (void)-a; chk("-a"); (void)+a; chk("+a"); (void)~a; chk("~a"); (void)BigInteger::abs(a); chk("abs"); (void)BigInteger::negate(a); chk("negate"); (void)(a << 5); (void)(a << 32); (void)(a >> 7); (void)(a >> 64); (void)(a << -3); chk("a shift"); if (mpz_size(x.z.z) < 100) { (void)BigInteger::pow(a, 0); (void)BigInteger::pow(a, 2); } trap([&] { BigInteger::pow(a, -1); }); chk("pow"); { std::string t = a.to_string(); std::string u = t; BigInteger r; BigInteger::try_parse(t, r); (void)BigInteger::parse(t); if (t != u) mc::fail("parse changes its argument"); }
    { Limbs l = x.z.limbs(), m = l; BigInteger b(l, true); ++b; b <<= 1; if (l != m) mc::fail("the limb array passed to a constructor changed"); } { byte_array l = a.to_byte_array(), m = l; BigInteger b(l), c(l, true, true); ++b; c += b; if (l != m) mc::fail("the byte array passed to a constructor changed"); }
    // a returned object is independent of the operand it came from
    { BigInteger r = +a; ++r; r <<= 3; chk("changing +a"); r = BigInteger::abs(a); --r; r *= r; chk("changing abs(a)"); r = BigInteger::pow(a, 1); ++r; chk("changing pow(a, 1)"); r = BigInteger::greatest_common_divisor(a, BigInteger(0)); ++r; chk("changing gcd(a, 0)"); r = a << 0; ++r; chk("changing a << 0"); r = a + BigInteger(0); ++r; chk("changing a + 0"); r = a | a; ++r; chk("changing a | a"); }
}
static mc::Space copies(const std::string& name, U u, int level) {
    auto st = std::make_shared<std::vector<Step>>(all_steps(level)); uint64_t k = st->size();
    mc::Space s; s.name = name; s.n = u->size() * k * 4; s.strands = 64;
    s.run = [=](uint64_t i) {
        const Item& x = u->at(i / 4 / k); auto& f = (*st)[i / 4 % k]; int how = i % 4; BigInteger a = x.b; Z z = x.z; mc::step(); mc::state(mc::comb(x.fp, i));
        if (how == 0) { BigInteger c(a); Z w = z; f.f(c, w); expect("the original after its copy was changed", a, z); expect("the copy", c, w); f.f(a, z); expect("the copy after the original was changed", c, w); expect("the original", a, z); }
        if (how == 1) { BigInteger c; c = a; Z w = z; f.f(a, w); expect("the assigned copy after the original was changed", c, z); expect("the original", a, w); }
        if (how == 2) { std::vector<BigInteger> v(3, a); Z w = z; f.f(v[1], w); expect("neighbour in a vector", v[0], z); expect("neighbour in a vector", v[2], z); expect("element", v[1], w); v.push_back(v[1]); expect("element after growth", v[1], w); expect("new element", v[3], w); }
        if (how == 3) { BigInteger c = std::move(a); expect("the moved-to object", c, z); Z w = z; f.f(c, w); a = c; expect("the moved-from object assigned", a, w); f.f(a, w); expect("the moved-from object in use again", a, w); BigInteger d(17), e = std::move(d); d = BigInteger(4); f.f(d, w = Z(4)); expect("a moved-from small object", d, w); }
    };
    s.describe = [=](uint64_t i) { static const char* hn[] = {"copy construction", "copy assignment", "vector elements", "move"}; return std::string(hn[i % 4]) + ", a=" + u->str(i / 4 / k) + ", " + (*st)[i / 4 % k].name; };
    return s;
}
MC_MODULE(C17) {
    int L = R.level;
    U small = L == 0 ? (U)UB().small(-3, 3).words(1, 2, A3) : (U)UB().small(-20, 20).words(1, 2, A8).words(3, 3, A5);
    U lens = L == 0 ? (U)UB().longs(getenv("MC_LITE") ? std::vector<int>{3, 32, 33, 70} : cat(range(3, 9), {31, 32, 33, 34, 64, 65, 70, 129}), {0, 2}) : L == 1 ? (U)UB().longs(cat(range(3, 10), {31, 32, 33, 34, 63, 64, 65, 70, 128, 130}), {0, 1, 2, 3}) : (U)UB().longs(cat(range(3, 70), {127, 128, 129, 256, 257, 300, 512, 600}), {0, 1, 2, 3, 8});
    U all = UB().merge(small).merge(lens);
    R.add(pairs("operands stay as they are", L >= 2 ? (U)UB().merge(small).longs(cat(range(3, 40), {63, 64, 65, 66, 128, 130}), {0, 1, 2}) : L == 1 ? (U)UB().small(-5, 5).words(1, 2, A5).words(3, 3, A3).longs({4, 8, 31, 32, 33, 40, 65, 70}, {0, 1, 2}) : all, L == 0 ? small : (U)UB().small(-5, 5).words(1, 2, A5).words(3, 3, A3).longs({4, 8, 31, 32, 33, 40, 65, 70}, {0, 1, 2}), intact));
    R.add(singles("one object in every position", UB().merge(all).longs(L == 0 ? std::vector<int>{} : std::vector<int>{256, 300}, {0, 2}), alias));
    R.add(pairs("two objects in three positions", L ? (U)UB().small(-5, 5).words(1, 2, A5).words(3, 4, A3).longs({5, 8, 31, 32, 33, 40, 65}, {0, 1, 2}) : small, L ? (U)UB().small(-5, 5).words(1, 2, A5).words(3, 4, A3).longs({5, 8, 31, 32, 33, 40, 65}, {0, 1, 2}) : small, alias2));
    { U u = L == 0 ? (U)UB().small(-2, 3).words(1, 2, A2) : (U)UB().small(-9, 9).words(1, 2, A5).words(3, 3, A2).longs({4, 31, 32, 33}, {0, 2}); R.add(pairs("mod_pow with one object in two positions", u, u, modpow_alias)); }
    R.add(singles("queries change nothing", UB().merge(all).longs(L == 0 ? std::vector<int>{} : std::vector<int>{1000}, {0, 1, 2, 3}), queries));
    R.add(copies("copies are independent", L == 0 ? (U)UB().small(-1, 1).words(1, 2, A2) : (U)UB().small(-3, 3).words(1, 2, A5).longs({3, 4, 33, 40}, {0, 1, 2, 3}), L));
}
