#include "ops.h"
#include <climits>
static BigInteger P(const char* s) { return BigInteger::parse(s); }
std::vector<Step> all_steps(int level) {
    std::vector<Step> v;
    auto add = [&](const std::string& n, std::function<void(BigInteger&, Z&)> f) { v.push_back({n, std::move(f)}); };
    std::vector<Spec> ks{Spec::i64(1), Spec::i64(-3), Spec({0xFFFFFFFF}, false), Spec({1, 0x80000000}, true)};
    if (level >= 1) ks.push_back(Spec(pattern(2, 3), false));
    if (level >= 1) ks.push_back(Spec(pattern(0, 33), false));
    int i = 0;
    for (auto& s : ks) {
        auto z = std::make_shared<Z>(s.z()); auto b = std::make_shared<BigInteger>(mk(s)); std::string k = s.str(); bool few = i++ >= 4;
        add("+= " + k, [=](BigInteger& x, Z& y) { x += *b; y = y + *z; });
        add("-= " + k, [=](BigInteger& x, Z& y) { x -= *b; y = y - *z; });
        add("/= " + k, [=](BigInteger& x, Z& y) { x /= *b; mpz_tdiv_q(y, y, *z); });
        add("%= " + k, [=](BigInteger& x, Z& y) { x %= *b; mpz_tdiv_r(y, y, *z); });
        add("*= " + k, [=](BigInteger& x, Z& y) { if (mpz_size(y.z) > 60) return; x *= *b; y = y * *z; });
        if (few) continue;
        add("&= " + k, [=](BigInteger& x, Z& y) { x &= *b; mpz_and(y, y, *z); });
        add("|= " + k, [=](BigInteger& x, Z& y) { x |= *b; mpz_ior(y, y, *z); });
        add("^= " + k, [=](BigInteger& x, Z& y) { x ^= *b; mpz_xor(y, y, *z); });
    }
    for (int n : {1, 32, 37}) {
        add("<<= " + std::to_string(n), [=](BigInteger& x, Z& y) { if (mpz_size(y.z) > 60) return; x <<= n; mpz_mul_2exp(y, y, n); });
        add(">>= " + std::to_string(n), [=](BigInteger& x, Z& y) { x >>= n; mpz_fdiv_q_2exp(y, y, n); });
    }
    Z one(1);
    add("++x", [=](BigInteger& x, Z& y) { ++x; y = y + one; }); add("--x", [=](BigInteger& x, Z& y) { --x; y = y - one; });
    add("x++", [=](BigInteger& x, Z& y) { x++; y = y + one; }); add("x--", [=](BigInteger& x, Z& y) { x--; y = y - one; });
    add("x = -x", [=](BigInteger& x, Z& y) { x = -x; y = -y; }); add("x = ~x", [=](BigInteger& x, Z& y) { x = ~x; mpz_com(y, y); });
    add("x *= x", [=](BigInteger& x, Z& y) { if (mpz_size(y.z) > 60) return; x *= x; y = y * y; });
    add("x += x", [=](BigInteger& x, Z& y) { if (mpz_size(y.z) > 60) return; x += x; y = y + y; });
    add("x -= x", [=](BigInteger& x, Z& y) { x -= x; y = Z(0); });
    add("x = x", [=](BigInteger& x, Z&) { BigInteger& s = x; x = s; });
    add("copy and back", [=](BigInteger& x, Z&) { BigInteger c = x; ++x; x = c; });
    add("move out and back", [=](BigInteger& x, Z&) { BigInteger c = std::move(x); x = std::move(c); });
    add("swap with a temporary", [=](BigInteger& x, Z&) { BigInteger c(5); std::swap(c, x); std::swap(c, x); });
    // queries (anything they may remember must not show later)
    add("hash", [=](BigInteger& x, Z&) { (void)x.get_hash_code(); });
    add("to_string", [=](BigInteger& x, Z&) { (void)x.to_string(); });
    add("to_byte_array, bits, bit length", [=](BigInteger& x, Z&) { (void)x.to_byte_array(); (void)x.get_bits(); (void)x.to_uint32_array(); (void)x.get_byte_count(); (void)x.get_bit_length(); });
    add("predicates", [=](BigInteger& x, Z&) { (void)x.is_even(); (void)x.is_power_of_two(); (void)x.is_zero(); (void)x.is_one(); (void)x.sign(); });
    add("compare", [=](BigInteger& x, Z&) { (void)(x == BigInteger(7)); (void)(x < BigInteger(-1)); });
    add("double, log", [=](BigInteger& x, Z&) { (void)(double)x; (void)BigInteger::log(x); (void)trap([&] { (void)(int)x; (void)(unsigned long)x; }); });
    // failing steps
    add("/= 0", [=](BigInteger& x, Z&) { expect_err("x /= 0", trap([&] { x /= BigInteger(0); }), Err::DivZero); });
    add("%= 0", [=](BigInteger& x, Z&) { expect_err("x %= 0", trap([&] { x %= BigInteger(0); }), Err::DivZero); });
    add("pow(x, -1)", [=](BigInteger& x, Z&) { expect_err("pow(x, -1)", trap([&] { x = BigInteger::pow(x, -1); }), Err::Range); });
    add("mod_pow(x, x, 0)", [=](BigInteger& x, Z& y) { if (y.sgn() >= 0) expect_err("mod_pow(x, x, 0)", trap([&] { x = BigInteger::mod_pow(x, x, BigInteger(0)); }), Err::DivZero); });
    add("div_rem(x, 0, x)", [=](BigInteger& x, Z&) { BigInteger z(0); expect_err("div_rem(x, 0, x)", trap([&] { BigInteger::div_rem(x, z, x); }), Err::DivZero); });
    // results of other functions assigned
    add("x = pow(x, 2)", [=](BigInteger& x, Z& y) { if (mpz_size(y.z) > 40) return; x = BigInteger::pow(x, 2); y = y * y; });
    add("x = gcd(x, 6^20)", [=](BigInteger& x, Z& y) { Z m; mpz_ui_pow_ui(m, 6, 20); x = BigInteger::greatest_common_divisor(x, P("3656158440062976")); mpz_gcd(y, y, m); });
    add("x = mod_pow(x, 5, 10^40+1)", [=](BigInteger& x, Z& y) { Z m; mpz_ui_pow_ui(m, 10, 40); m = m + Z(1); x = BigInteger::mod_pow(x, BigInteger(5), P("10000000000000000000000000000000000000001")); Z t; mpz_abs(t, y); mpz_powm_ui(t, t, 5, m); if (y.sgn() < 0) mpz_neg(t, t); y = t; });
    add("x = parse(text of x)", [=](BigInteger& x, Z&) { x = BigInteger::parse(x.to_string()); });
    add("try_parse into x", [=](BigInteger& x, Z& y) { BigInteger::try_parse("-340282366920938463463374607431768211456", x); Z t(1); mpz_mul_2exp(t, t, 128); y = -t; });
    add("x = x / 7, remainder in x", [=](BigInteger& x, Z& y) { BigInteger s(7); BigInteger::div_rem(x, s, x); mpz_tdiv_r_ui(y, y, 7); (void)0; });
    add("x = bytes of x", [=](BigInteger& x, Z&) { x = BigInteger(x.to_byte_array()); });
    add("x = abs(x)", [=](BigInteger& x, Z& y) { x = BigInteger::abs(x); mpz_abs(y, y); });
    return v;
}

// ------------------------------------------------------------------------------------------------ complete calls
std::vector<Inst> all_instances(int level) {
    std::vector<Inst> v;
    auto add = [&](const std::string& n, std::function<void()> f) { v.push_back({n, std::move(f)}); };
    auto val = [&](const std::string& n, std::function<BigInteger()> f, Z want) { auto w = std::make_shared<Z>(std::move(want)); add(n, [=] { expect(n.c_str(), f(), *w); }); };
    auto B = [](const Z& z) { return std::make_shared<BigInteger>(mk(z)); };
    auto L = [](int p, int len) { return Z::from(pattern(p, len), false); };
    // --- modular powers: the same modulus again, moduli that agree in length, in the low or high limbs, in the hash of their ends
    {
        struct M { const char* n; Z z; }; std::vector<M> ms;
        auto vary = [&](int len, int pos) { Limbs l = pattern(2, len); l[pos] ^= 0x10; return Z::from(l, false); };
        ms.push_back({"M32", L(2, 32)}); ms.push_back({"M32 middle limb changed", vary(32, 16)}); ms.push_back({"M32 low limb changed", vary(32, 0)}); ms.push_back({"M32 high limb changed", vary(32, 31)});
        ms.push_back({"M33", L(2, 33)}); ms.push_back({"M31", L(2, 31)}); ms.push_back({"M2", L(2, 2)}); ms.push_back({"M1", Z::u64(1000000007)}); ms.push_back({"2^1023", L(3, 32)}); ms.push_back({"2^1024-1", L(0, 32)}); ms.push_back({"-M32", -L(2, 32)});
        if (level >= 1) { ms.push_back({"M40", L(2, 40)}); ms.push_back({"2^992", L(1, 32)}); ms.push_back({"M65", L(2, 65)}); }
        std::vector<std::pair<const char*, Z>> vs{{"v", L(12, 40)}, {"-v", -L(12, 40)}, {"3", Z(3)}}; std::vector<std::pair<const char*, Z>> es{{"5", Z(5)}, {"2^33+3", Z::u64((1ull << 33) + 3)}};
        for (auto& m : ms) for (auto& a : vs) for (auto& e : es) {
            if (level == 0 && (&a != &vs[0] || &e != &es[0])) continue;
            if (&a != &vs[0] && &e != &es[0]) continue;
            Z am, mm, r; mpz_abs(am, a.second); mpz_abs(mm, m.z); mpz_powm(r, am, e.second, mm); if (a.second.sgn() < 0 && mpz_odd_p(e.second.z)) mpz_neg(r, r);
            auto b = B(a.second), ee = B(e.second), mo = B(m.z); val(std::string("mod_pow(") + a.first + ", " + e.first + ", " + m.n + ")", [=] { return BigInteger::mod_pow(*b, *ee, *mo); }, r);
        }
    }
    // --- multiplication, squares, division, gcd over lengths around the switches
    std::vector<int> ls = level == 0 ? std::vector<int>{1, 2, 33, 70} : std::vector<int>{1, 2, 3, 5, 31, 32, 33, 40, 64, 65, 70, 130, 300};
    for (int n : ls) for (int m : ls) {
        if (m > n) continue; if (level >= 1 && n != m && m != 1 && m != 2 && m != 33 && !(n == 70 && m == 40)) continue;
        Z a = L(2, n), b = L(12, m), b2 = L(0, m); auto pa = B(a), pb = B(b), pb2 = B(b2); std::string nm = "(" + std::to_string(n) + "," + std::to_string(m) + ")";
        val("multiply" + nm, [=] { return *pa * *pb; }, a * b);
        if (n == m) { val("multiply other" + nm, [=] { return *pa * *pb2; }, a * b2); val("square" + nm, [=] { return *pa * *pa; }, a * a); }
        Z d = a * b2 + b, q, r; mpz_tdiv_qr(q, r, d, b); auto pd = B(d); auto wq = std::make_shared<Z>(q), wr = std::make_shared<Z>(r);
        add("div_rem" + nm, [=] { BigInteger x = *pd, y = *pb, rem; BigInteger qq = BigInteger::div_rem(x, y, rem); expect("quotient", qq, *wq); expect("remainder", rem, *wr); });
        Z dn = -d; mpz_tdiv_r(r, dn, b2); auto pn = B(dn); val("%" + nm, [=] { return *pn % *pb2; }, r);
        Z g, x = a * b, y = a * b2; mpz_gcd(g, x, y); auto px = B(x), py = B(y); val("gcd" + nm, [=] { return BigInteger::greatest_common_divisor(*px, *py); }, g);
    }
    for (int n : {1, 3, 20, 70}) { Z a = L(2, n), b = L(12, n); auto pa = B(a), pb = B(-b); Z t;
        val("a + b " + std::to_string(n), [=] { return *pa + *pb; }, a - b); val("a - b " + std::to_string(n), [=] { return *pa - *pb; }, a + b);
        mpz_and(t, a, -b); val("a & b " + std::to_string(n), [=] { return *pa & *pb; }, t); mpz_ior(t, a, -b); val("a | b " + std::to_string(n), [=] { return *pa | *pb; }, t); mpz_xor(t, a, -b); val("a ^ b " + std::to_string(n), [=] { return *pa ^ *pb; }, t);
        mpz_com(t, a); val("~a " + std::to_string(n), [=] { BigInteger x = *pa; return ~x; }, t);
        for (int k : {5, 64}) { mpz_mul_2exp(t, -b, k); val("b << k " + std::to_string(n), [=] { return *pb << k; }, t); mpz_fdiv_q_2exp(t, -b, k); val("b >> k " + std::to_string(n), [=] { return *pb >> k; }, t); }
    }
    // --- powers
    for (auto p : std::vector<std::pair<int, int>>{{3, 5}, {3, 200}, {7, 200}, {10, 9}, {10, 100}, {-10, 101}, {0, 0}, {2, 1000}}) { Z r, b(p.first); mpz_pow_ui(r, b, p.second); auto pb = B(b); int e = p.second; val("pow(" + std::to_string(p.first) + "," + std::to_string(e) + ")", [=] { return BigInteger::pow(*pb, e); }, r); }
    { Z a = L(2, 3), r; mpz_pow_ui(r, a, 30); auto pa = B(a); val("pow(three limbs, 30)", [=] { return BigInteger::pow(*pa, 30); }, r); }
    // --- text, bytes, numbers
    std::vector<Z> tv{Z(0), Z(7), Z(-7), L(2, 1), L(2, 3), -L(2, 3), L(0, 10), L(2, 40), -L(3, 40)}; if (level >= 1) tv.push_back(L(2, 100));
    for (size_t i = 0; i < tv.size(); i++) {
        Z z = tv[i]; auto b = B(z); std::string s = z.dec(), k = std::to_string(i);
        add("to_string " + k, [=] { expect_str("to_string", b->to_string(), s); });
        val("parse " + k, [=] { return BigInteger::parse(s); }, z);
        val("bytes " + k, [=] { return BigInteger(b->to_byte_array()); }, z);
        val("big-endian bytes " + k, [=] { return BigInteger(b->to_byte_array(false, true), false, true); }, z);
        auto h = std::make_shared<Z>(z);
        add("hash, bits, predicates " + k, [=] { indist("fresh", *b, *h, false); });
        add("relations " + k, [=] { BigInteger o(1); BigInteger x = *b + o; expect_bool("a < a+1", *b < x, true); expect_bool("a == a+1", *b == x, false); expect_bool("a >= a+1", *b >= x, false); });
        Z t; size_t n = z.sgn() ? mpz_sizeinbase(z, 2) : 0; if (n <= 1024) { Z am; mpz_abs(am, z); long sh = n > 53 ? (long)n - 53 : 0; mpz_tdiv_q_2exp(am, am, sh); double d = __builtin_ldexp((double)mpz_get_ui(am), sh); if (z.sgn() < 0) d = -d;
            add("double " + k, [=] { BigInteger x = *b; double g = (double)x; mc::step(); if (g != d) mc::fail("double: got %a, want %a", g, d); }); Z w; mpz_set_d(w, d); val("from double " + k, [=] { return BigInteger(d); }, w); }
        if (z.sgn() > 0 && !(z == Z(1))) { double l = (double)(mpz_sizeinbase(z, 2)); add("log " + k, [=] { double g = BigInteger::log(*b, 2.0); mc::step(); if (!(g <= l && g >= l - 1)) mc::fail("log2: %g, bit length %g", g, l); double t10 = BigInteger::log10(*b); if (!(t10 > g * 0.3010299 && t10 < g * 0.3010301)) mc::fail("log10: %g, log2 %g", t10, g); }); }
    }
    for (int64_t n : std::vector<int64_t>{0, 1, -1, INT_MIN, INT_MAX, LLONG_MIN, LLONG_MAX}) { Z z = Z::i64(n); val("from int64 " + z.dec(), [=] { return BigInteger(n); }, z); add("to int64 " + z.dec(), [=] { BigInteger b(n); expect_i("(long)", (long)b, n); }); }
    for (int i = 0; i < 3; i++) { val("constant " + std::to_string(i - 1), [=] { return i == 0 ? BigInteger::minus_one() : i == 1 ? BigInteger::zero() : BigInteger::one(); }, Z(i - 1)); }
    // a caller changes its own copy of a constant
    add("change copies of the constants", [] { BigInteger a = BigInteger::zero(), b = BigInteger::one(), c = BigInteger::minus_one(), d((int32_t)INT_MIN); ++a; b *= BigInteger(5); c <<= 40; d -= BigInteger(1); expect("zero + 1", a, Z(1)); expect("one * 5", b, Z(5)); expect("-1 << 40", c, Z(-(1l << 40))); expect("INT_MIN - 1", d, Z((long)INT_MIN - 1)); });
    // --- failing calls
    auto big = B(L(2, 40)), neg = B(-L(2, 2)), zero = B(Z(0));
    add("big / 0 fails", [=] { expect_err("big / 0", trap([&] { *big / *zero; }), Err::DivZero); });
    add("big % 0 fails", [=] { expect_err("big % 0", trap([&] { *big % *zero; }), Err::DivZero); });
    add("mod_pow(big, big, 0) fails", [=] { expect_err("mod_pow", trap([&] { BigInteger::mod_pow(*big, *big, *zero); }), Err::DivZero); });
    add("mod_pow(big, neg, big) fails", [=] { expect_err("mod_pow", trap([&] { BigInteger::mod_pow(*big, *neg, *big); }), Err::Range); });
    add("pow(big, -2) fails", [=] { expect_err("pow", trap([&] { BigInteger::pow(*big, -2); }), Err::Range); });
    add("(int)big fails", [=] { expect_err("int", trap([&] { BigInteger x = *big; (void)(int)x; }), Err::Overflow); });
    add("BigInteger(inf) fails", [=] { expect_err("inf", trap([&] { BigInteger x(1.0 / 0.0); }), Err::Overflow); });
    add("unsigned bytes of a negative value fail", [=] { mc::step(); if (trap([&] { neg->to_byte_array(true); }) == Err::None) mc::fail("no error"); });
    return v;
}
