// C16 results depend only on values, never on history
#include "ops.h"
#include <cmath>
#include <map>
#include <deque>
// every sequence of n calls out of a list
static mc::Space sequences(const std::string& name, std::shared_ptr<std::vector<Inst>> v, int n) {
    uint64_t k = v->size(), c = 1; for (int i = 0; i < n; i++) c *= k;
    mc::Space s; s.name = name; s.n = c; s.strands = 64; s.hang_s = 60;
    s.run = [=](uint64_t i) { mc::state(i * 8 + n); for (int j = 0; j < n; j++, i /= k) (*v)[i % k].f(); };
    s.describe = [=](uint64_t i) { std::string r; for (int j = 0; j < n; j++, i /= k) r += (j ? "; then " : "") + (*v)[i % k].name; return r; };
    return s;
}
// every sequence of n in-place steps on one object; after each sequence the object is compared with a fresh one
static mc::Space chains(const std::string& name, std::shared_ptr<std::vector<Step>> v, U start, int n, bool every) {
    uint64_t k = v->size(), c = start->size(); for (int i = 0; i < n; i++) c *= k;
    mc::Space s; s.name = name; s.n = c; s.strands = 128;
    s.run = [=](uint64_t i) {
        const Item& x = start->at(i % start->size()); i /= start->size();
        BigInteger b = x.b; Z z = x.z; mc::step(n);
        for (int j = 0; j < n; j++, i /= k) { (*v)[i % k].f(b, z); if (every) indist("after a step", b, z, false); }
        indist("after the sequence", b, z); mc::state(mc::comb(z.fp(), x.fp)); mc::outcome(z.fp());
        if (!same(x.b, x.z)) mc::fail("the object the sequence was copied from changed to %s", show(x.b).c_str());
    };
    s.describe = [=](uint64_t i) { std::string r = "x=" + start->str(i % start->size()); i /= start->size(); for (int j = 0; j < n; j++, i /= k) r += "; " + (*v)[i % k].name; return r; };
    return s;
}
// breadth-first search over the states of a machine of two registers
struct Trans { std::string name; std::function<bool(BigInteger&, BigInteger&, Z&, Z&)> f; };
static std::vector<Trans> machine() {
    std::vector<Trans> v; auto add = [&](const char* n, std::function<bool(BigInteger&, BigInteger&, Z&, Z&)> f) { v.push_back({n, std::move(f)}); };
    add("x += y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { x += y; p = p + q; return true; });
    add("x -= y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { x -= y; p = p - q; return true; });
    add("y -= x", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { y -= x; q = q - p; return true; });
    add("x *= y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { x *= y; p = p * q; return true; });
    add("x /= y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { if (q.sgn() == 0) { expect_err("x /= 0", trap([&] { x /= y; }), Err::DivZero); return true; } x /= y; mpz_tdiv_q(p, p, q); return true; });
    add("x %= y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { if (q.sgn() == 0) { expect_err("x %= 0", trap([&] { x %= y; }), Err::DivZero); return true; } x %= y; mpz_tdiv_r(p, p, q); return true; });
    add("x, y = div_rem(y, x)", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { if (p.sgn() == 0) return false; x = BigInteger::div_rem(y, x, y); Z a, b; mpz_tdiv_qr(a, b, q, p); p = a; q = b; return true; });
    add("x &= y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { x &= y; mpz_and(p, p, q); return true; });
    add("x |= y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { x |= y; mpz_ior(p, p, q); return true; });
    add("x ^= y", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { x ^= y; mpz_xor(p, p, q); return true; });
    add("swap", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { std::swap(x, y); mpz_swap(p, q); return true; });
    add("y = x", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { y = x; q = p; return true; });
    add("++x", [](BigInteger& x, BigInteger&, Z& p, Z&) { ++x; p = p + Z(1); return true; });
    add("--x", [](BigInteger& x, BigInteger&, Z& p, Z&) { --x; p = p - Z(1); return true; });
    add("x <<= 31", [](BigInteger& x, BigInteger&, Z& p, Z&) { x <<= 31; mpz_mul_2exp(p, p, 31); return true; });
    add("x >>= 33", [](BigInteger& x, BigInteger&, Z& p, Z&) { x >>= 33; mpz_fdiv_q_2exp(p, p, 33); return true; });
    add("x = -x", [](BigInteger& x, BigInteger&, Z& p, Z&) { x = -x; p = -p; return true; });
    add("x = ~x", [](BigInteger& x, BigInteger&, Z& p, Z&) { x = ~x; mpz_com(p, p); return true; });
    add("x = gcd(x, y)", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { x = BigInteger::greatest_common_divisor(x, y); mpz_gcd(p, p, q); return true; });
    add("x = mod_pow(x, 3, y)", [](BigInteger& x, BigInteger& y, Z& p, Z& q) { if (q.sgn() == 0) return false; x = BigInteger::mod_pow(x, BigInteger(3), y); Z a, m; mpz_abs(a, p); mpz_abs(m, q); mpz_powm_ui(a, a, 3, m); if (p.sgn() < 0) mpz_neg(a, a); p = a; return true; });
    add("x = parse(to_string(x))", [](BigInteger& x, BigInteger&, Z&, Z&) { x = BigInteger::parse(x.to_string()); return true; });
    return v;
}
static mc::Space bfs(const std::string& name, std::vector<std::pair<Spec, Spec>> init, size_t max_limbs, size_t max_states) {
    auto m = std::make_shared<std::vector<Trans>>(machine());
    mc::Space s; s.name = name; s.n = init.size(); s.strands = init.size(); s.hang_s = 300;
    s.run = [=](uint64_t i) {
        struct N { BigInteger x, y; Z p, q; std::string path; };
        std::map<std::pair<std::string, std::string>, int> seen; std::deque<N> fr;
        auto canon = [](const N& n) { auto k = [](const BigInteger& b) { Limbs l = b.get_bits(); std::string s((const char*)l.data(), l.size() * 4); int g = b.sign_internal(); s.append((const char*)&g, 4); return s; }; return std::make_pair(k(n.x), k(n.y)); };
        N a{mk(init[i].first), mk(init[i].second), init[i].first.z(), init[i].second.z(), ""}; seen[canon(a)] = 0; fr.push_back(a);
        while (!fr.empty() && seen.size() < max_states) {
            N n = std::move(fr.front()); fr.pop_front();
            mc::state(mc::comb(n.p.fp(), n.q.fp())); mc::outcome(n.p.fp());
            for (auto& t : *m) {
                N c = n; mc::step();
                if (!t.f(c.x, c.y, c.p, c.q)) continue;
                std::string when = n.path + t.name;
                if (!same(c.x, c.p)) mc::fail("x=%s y=%s: %s: x is %s, want %s", init[i].first.str().c_str(), init[i].second.str().c_str(), when.c_str(), show(c.x).c_str(), c.p.hex().c_str());
                if (!same(c.y, c.q)) mc::fail("x=%s y=%s: %s: y is %s, want %s", init[i].first.str().c_str(), init[i].second.str().c_str(), when.c_str(), show(c.y).c_str(), c.q.hex().c_str());
                if (!same(n.x, n.p) || !same(n.y, n.q)) mc::fail("%s: the registers copied from changed", when.c_str());
                if (mpz_size(c.p.z) * 2 > max_limbs || mpz_size(c.q.z) * 2 > max_limbs) continue;
                if (seen.insert({canon(c), 0}).second) { indist(when.c_str(), c.x, c.p); indist(when.c_str(), c.y, c.q); c.path = when + "; "; fr.push_back(std::move(c)); }
            }
        }
    };
    s.describe = [=](uint64_t i) { return "from x=" + init[i].first.str() + " y=" + init[i].second.str(); };
    return s;
}
// ---- families of values that agree in almost everything a cache could be keyed on: length, low limbs, high limbs, the
//      sum or exclusive or of the limbs, the nonzero limbs, the hash code
static std::vector<Spec> family(int len, int pat) {
    Limbs b = pattern(pat, len); std::vector<Spec> v; std::set<Spec> seen;
    auto add = [&](Limbs l, bool neg = false) { Spec s(std::move(l), neg); if (!s.m.empty() && seen.insert(s).second) v.push_back(s); };
    int n = len; std::set<int> pos{0, 1, n / 2, n - 2, n - 1};
    auto ok = [&](int p) { return p >= 0 && p < n; };
    add(b);
    for (int p : pos) if (ok(p)) for (uint32_t m : {1u, 0x10u, 0x10000000u}) { Limbs l = b; l[p] ^= m; add(l); }
    for (int p : pos) for (int q : pos) if (ok(p) && ok(q) && p < q) {
        { Limbs l = b; std::swap(l[p], l[q]); add(l); } { Limbs l = b; l[p]++; l[q]--; add(l); } { Limbs l = b; l[p] ^= 8; l[q] ^= 8; add(l); }
    }
    auto rot = [](uint32_t x) { return (x << 7) | (x >> 25); };
    for (int p : pos) if (p > 0 && ok(p)) { Limbs l = b; uint32_t d = 0x20; l[p] ^= d; l[p - 1] ^= rot(d); add(l); }   // the same hash code
    for (int p : pos) if (p > 1 && ok(p)) { Limbs l = b; uint32_t d = 0x20; l[p] ^= d; l[p - 2] ^= rot(rot(d)); add(l); }
    { Limbs l = b; l[n / 2] = 0; add(l); } { Limbs l = b; std::reverse(l.begin(), l.end()); add(l); }
    { Limbs l = b; l.insert(l.begin(), 0); add(l); } { Limbs l = b; l.insert(l.begin(), {0, 0}); add(l); } { Limbs l = b; l.push_back(1); add(l); } { Limbs l = b; l.insert(l.begin() + n / 2, 0); add(l); }
    if (n > 1) { Limbs l = b; l.pop_back(); add(l); l = b; l.erase(l.begin()); add(l); l = b; l.erase(l.begin() + n / 2); add(l); }
    { Limbs l = b; for (auto& x : l) x = ~x; add(l); }
    size_t k = v.size(); for (size_t i = 0; i < k; i += 3) add(v[i].m, true);
    return v;
}
struct NearOp { std::string name; std::function<std::function<void()>(const Z&)> make; };
static std::vector<NearOp> near_ops(int len, int level) {
    std::vector<NearOp> v; using F = std::function<void()>; using B = std::shared_ptr<BigInteger>;
    auto P = [](const Z& z) { return std::make_shared<BigInteger>(mk(z)); };
    auto val = [&](const std::string& n, std::function<BigInteger(const BigInteger&)> f, std::function<Z(const Z&)> ref, long limit = 1 << 20) { v.push_back({n, [=](const Z& x) -> F { if ((long)mpz_size(x.z) * 2 > limit) return [] {}; B b = P(x); auto w = std::make_shared<Z>(ref(x)); return [=] { mc::step(); expect(n.c_str(), f(*b), *w); }; }}); };
    v.push_back({"to_string", [=](const Z& x) -> F { B b = P(x); std::string s = x.dec(); return [=] { mc::step(); expect_str("to_string", b->to_string(), s); }; }});
    v.push_back({"parse", [=](const Z& x) -> F { std::string s = x.dec(); auto w = std::make_shared<Z>(x); return [=] { mc::step(); expect("parse", BigInteger::parse(s), *w); BigInteger r; if (!BigInteger::try_parse(s, r)) mc::fail("try_parse fails"); expect("try_parse", r, *w); }; }});
    v.push_back({"bytes", [=](const Z& x) -> F { B b = P(x); auto w = std::make_shared<Z>(x); return [=] { mc::step(); expect("bytes and back", BigInteger(b->to_byte_array()), *w); expect("big-endian bytes and back", BigInteger(b->to_byte_array(false, true), false, true), *w); size_t n = b->to_byte_array().size(); if ((size_t)b->get_byte_count() != n) mc::fail("get_byte_count is %d for %zu bytes", (int)b->get_byte_count(), n); }; }});
    v.push_back({"queries", [=](const Z& x) -> F { B b = P(x); auto w = std::make_shared<Z>(x); return [=] { mc::step(); indist("now", *b, *w, true); }; }});
    v.push_back({"bit length", [=](const Z& x) -> F { B b = P(x); Z t = x; if (x.sgn() < 0) { mpz_com(t, x); } long w = t.sgn() ? mpz_sizeinbase(t, 2) : 0; return [=] { mc::step(); expect_i("get_bit_length", (long)b->get_bit_length(), w); }; }});
    v.push_back({"log", [=](const Z& x) -> F { if (x.sgn() <= 0 || x == Z(1)) return [] {}; B b = P(x); long e; double m = mpz_get_d_2exp(&e, x); double w = __builtin_log2(m) + e; return [=] { mc::step(); double g = BigInteger::log(*b, 2.0), h = BigInteger::log(*b), t = BigInteger::log10(*b); if (!(__builtin_fabs(g - w) <= 1e-12 * w) || !(__builtin_fabs(h - w * 0.69314718055994530942) <= 1e-12 * w) || !(__builtin_fabs(t - w * 0.30102999566398119521) <= 1e-12 * w)) mc::fail("log2, ln, log10: got %.17g %.17g %.17g, log2 is %.17g", g, h, t, w); }; }});
    v.push_back({"double", [=](const Z& x) -> F { size_t n = mpz_sizeinbase(x, 2); if (n > 1024) return [] {}; B b = P(x); Z am; mpz_abs(am, x); long sh = n > 53 ? (long)n - 53 : 0; mpz_tdiv_q_2exp(am, am, sh); double d = __builtin_ldexp((double)mpz_get_ui(am), sh); if (x.sgn() < 0) d = -d; return [=] { mc::step(); BigInteger c = *b; double g = (double)c; if (g != d) mc::fail("double: got %a, want %a", g, d); }; }});
    // binary operations: the family as the left and as the right operand, against short, equally long and longer values
    std::vector<Spec> cs{Spec({0x12345677}, false), Spec(pattern(12, std::max(2, len)), false), Spec(pattern(2, len + len / 2 + 1), true)};
    if (level < 2) cs.erase(cs.begin() + 2);
    int ci = 0;
    for (auto& s : cs) {
        auto c = std::make_shared<Z>(s.z()); B cb = P(*c); std::string k = ci == 0 ? "short" : ci == 1 ? "equally long" : "longer"; ci++;
        auto bin = [&](const std::string& n, std::function<BigInteger(const BigInteger&, const BigInteger&)> f, std::function<void(Z&, const Z&, const Z&)> r) {
            val(n + " a " + k + " value", [=](const BigInteger& x) { return f(x, *cb); }, [=](const Z& x) { Z t; r(t, x, *c); return t; });
            val("a " + k + " value " + n, [=](const BigInteger& x) { return f(*cb, x); }, [=](const Z& x) { Z t; r(t, *c, x); return t; }); };
        bin("+", [](const BigInteger& a, const BigInteger& b) { return a + b; }, [](Z& t, const Z& a, const Z& b) { mpz_add(t, a, b); });
        bin("-", [](const BigInteger& a, const BigInteger& b) { return a - b; }, [](Z& t, const Z& a, const Z& b) { mpz_sub(t, a, b); });
        bin("*", [](const BigInteger& a, const BigInteger& b) { return a * b; }, [](Z& t, const Z& a, const Z& b) { mpz_mul(t, a, b); });
        bin("/", [](const BigInteger& a, const BigInteger& b) { return a / b; }, [](Z& t, const Z& a, const Z& b) { if (b.sgn()) mpz_tdiv_q(t, a, b); });
        bin("%", [](const BigInteger& a, const BigInteger& b) { return a % b; }, [](Z& t, const Z& a, const Z& b) { if (b.sgn()) mpz_tdiv_r(t, a, b); });
        bin("&", [](const BigInteger& a, const BigInteger& b) { return a & b; }, [](Z& t, const Z& a, const Z& b) { mpz_and(t, a, b); });
        bin("|", [](const BigInteger& a, const BigInteger& b) { return a | b; }, [](Z& t, const Z& a, const Z& b) { mpz_ior(t, a, b); });
        bin("^", [](const BigInteger& a, const BigInteger& b) { return a ^ b; }, [](Z& t, const Z& a, const Z& b) { mpz_xor(t, a, b); });
        bin("div_rem, quotient", [](const BigInteger& a, const BigInteger& b) { BigInteger x = a, y = b, r; return BigInteger::div_rem(x, y, r); }, [](Z& t, const Z& a, const Z& b) { if (b.sgn()) mpz_tdiv_q(t, a, b); });
        bin("div_rem, remainder", [](const BigInteger& a, const BigInteger& b) { BigInteger x = a, y = b, r; BigInteger::div_rem(x, y, r); return r; }, [](Z& t, const Z& a, const Z& b) { if (b.sgn()) mpz_tdiv_r(t, a, b); });
        bin("gcd", [](const BigInteger& a, const BigInteger& b) { return BigInteger::greatest_common_divisor(a, b); }, [](Z& t, const Z& a, const Z& b) { mpz_gcd(t, a, b); });
        // a common factor: the family times the value
        val("gcd with a multiple, " + k, [=](const BigInteger& x) { return BigInteger::greatest_common_divisor(x * *cb, *cb); }, [=](const Z&) { Z t; mpz_abs(t, *c); return t; });
        v.push_back({"relations, " + k, [=](const Z& x) -> F { B b = P(x); int w = mpz_cmp(x, *c), e = w < 0 ? -1 : w > 0; return [=] { mc::step(); int g = b->compare_to(*cb); if ((g < 0 ? -1 : g > 0) != e || (*b < *cb) != (e < 0) || (*b == *cb) != (e == 0) || (*b > *cb) != (e > 0)) mc::fail("relations: compare_to gives %d, want %d", g, e); }; }});
    }
    val("square", [](const BigInteger& x) { return x * x; }, [](const Z& x) { return x * x; });
    val("negation", [](const BigInteger& x) { BigInteger y = x; return -y; }, [](const Z& x) { return -x; });
    val("complement", [](const BigInteger& x) { BigInteger y = x; return ~y; }, [](const Z& x) { Z t; mpz_com(t, x); return t; });
    val("abs", [](const BigInteger& x) { BigInteger y = x; return BigInteger::abs(y); }, [](const Z& x) { Z t; mpz_abs(t, x); return t; });
    for (int n : {1, 32, 45}) {
        val("<< " + std::to_string(n), [=](const BigInteger& x) { return x << n; }, [=](const Z& x) { Z t; mpz_mul_2exp(t, x, n); return t; });
        val(">> " + std::to_string(n), [=](const BigInteger& x) { return x >> n; }, [=](const Z& x) { Z t; mpz_fdiv_q_2exp(t, x, n); return t; });
    }
    for (int e : {2, 3, 10}) val("^ " + std::to_string(e), [=](const BigInteger& x) { return BigInteger::pow(x, e); }, [=](const Z& x) { Z t; mpz_pow_ui(t, x, e); return t; }, 70);
    // modular powers: the family as base, as exponent, as modulus
    auto M = std::make_shared<Z>(Z::from(pattern(2, std::min(len, 40) + 1), false)); B mb = P(*M); auto V3 = std::make_shared<Z>(Z::from(pattern(12, std::min(len, 40) + 2), false)); B vb = P(*V3);
    auto powm = [](const Z& b, const Z& e, const Z& m) { Z a, mm, r; mpz_abs(a, b); mpz_abs(mm, m); if (!mm.sgn()) return Z(0); mpz_powm(r, a, e, mm); if (b.sgn() < 0 && mpz_odd_p(e.z)) mpz_neg(r, r); return r; };
    val("mod_pow, the base", [=](const BigInteger& x) { return BigInteger::mod_pow(x, BigInteger(5), *mb); }, [=](const Z& x) { return powm(x, Z(5), *M); });
    val("mod_pow, the modulus", [=](const BigInteger& x) { return BigInteger::mod_pow(*vb, BigInteger(5), x); }, [=](const Z& x) { return powm(*V3, Z(5), x); });
    if (len <= 8) v.push_back({"mod_pow, the exponent", [=](const Z& x) -> F { Z e; mpz_abs(e, x); B b = P(e); auto w = std::make_shared<Z>(powm(*V3, e, *M)); return [=] { mc::step(); expect("mod_pow", BigInteger::mod_pow(*vb, *b, *mb), *w); }; }});
    return v;
}
// f(a); f(b); f(a) for every operation and every ordered pair of a family
static mc::Space near_pairs(int len, int pat, int level) {
    struct St { std::vector<Spec> fam; std::vector<NearOp> ops; std::map<std::pair<size_t, size_t>, std::function<void()>> made; const std::function<void()>& get(size_t o, size_t i) { auto& f = made[{o, i}]; if (!f) f = ops[o].make(fam[i].z()); return f; } };
    auto st = std::make_shared<St>(); st->fam = family(len, pat); st->ops = near_ops(len, level); uint64_t k = st->fam.size();
    if (level < 2 && k > 24) { std::vector<Spec> f; for (size_t i = 0; i < k; i++) if (i % 2 == 0 || i < 8) f.push_back(st->fam[i]); st->fam = f; k = f.size(); }
    mc::Space s; s.name = cstr("families of similar values of %d limbs, pattern %d", len, pat); s.n = st->ops.size() * k * k; s.strands = 64;
    s.run = [=](uint64_t i) { size_t o = i / k / k, a = i / k % k, b = i % k; mc::state(mc::comb(i, len * 100 + pat)); auto& fa = st->get(o, a); auto& fb = st->get(o, b); fa(); fb(); fa(); };
    s.describe = [=](uint64_t i) { size_t o = i / k / k, a = i / k % k, b = i % k; return st->ops[o].name + " of a, b, a; a=" + st->fam[a].str() + " b=" + st->fam[b].str(); };
    return s;
}
// texts that agree in almost everything: parse(a); parse(b); parse(a)
static mc::Space near_texts(int n) {
    auto v = std::make_shared<std::vector<std::string>>(); std::set<std::string> seen; auto add = [&](std::string t) { if (seen.insert(t).second) v->push_back(t); };
    std::string b; for (int i = 0; i < n; i++) b += (char)('1' + (i * 7 + i / 9) % 9);
    std::set<int> pos{0, 1, n / 3, n / 2, 2 * n / 3, n - 2, n - 1}; add(b);
    for (int p : pos) if (p >= 0 && p < n) { for (char c : {'0', '5', '8'}) { std::string t = b; t[p] = c; add(t); } std::string t = b; t.erase(p, 1); add(t); t = b; t.insert(p, "4"); add(t); t = b; t[p] = 'x'; add(t); }
    for (int p : pos) for (int q : pos) if (p >= 0 && q < n && p < q) { std::string t = b; std::swap(t[p], t[q]); add(t); t = b; if (t[p] < '9' && t[q] > '0') { t[p]++; t[q]--; add(t); } }
    add("-" + b); add("+" + b); add("0" + b); add(b + "z"); add(b + " 1"); { std::string t = b; t[n / 2] = '-'; add(t); } add(std::string(n, '9')); add(std::string(n, '0'));
    auto w = std::make_shared<std::vector<Z>>();
    for (auto& t : *v) { size_t i = t[0] == '-' || t[0] == '+' ? 1 : 0, e = i; while (e < t.size() && t[e] >= '0' && t[e] <= '9') e++; Z z; std::string d = t.substr(i, e - i); if (!d.empty()) mpz_set_str(z, d.c_str(), 10); if (t[0] == '-') mpz_neg(z, z); w->push_back(z); }
    uint64_t k = v->size(); mc::Space s; s.name = cstr("families of similar texts of %d characters", n); s.n = k * k; s.strands = 16;
    s.run = [=](uint64_t i) { mc::state(i * 131 + n); for (uint64_t j : {i / k, i % k, i / k}) { mc::step(2); expect("parse", BigInteger::parse((*v)[j]), (*w)[j]); BigInteger r; if (!BigInteger::try_parse((*v)[j], r)) mc::fail("try_parse fails"); expect("try_parse", r, (*w)[j]); } };
    s.describe = [=](uint64_t i) { return "a=\"" + (*v)[i / k] + "\" b=\"" + (*v)[i % k] + "\""; };
    return s;
}
// calls whose machine-word arguments agree in almost everything
static void near_numbers(mc::Registry& R) {
    using V = std::vector<Inst>; auto P = [](const Z& z) { return std::make_shared<BigInteger>(mk(z)); };
    std::vector<Z> xs{Z(7), Z::u64(0xFFFFFFFFFFFFFFFFull), Z::from(pattern(2, 3), false), Z::from(pattern(2, 33), false), -Z::from(pattern(12, 4), false)};
    { auto v = std::make_shared<V>(); std::vector<double> bs;
      for (double b : {2.0, 3.0, 10.0, 0.5, 16.0, 1e10}) for (double f : {1.0, 1.0 + 1e-15, 1.0 + 1e-9, 1.0 - 1e-9, 1.0 + 3e-8, 1.0 + 1e-6, 1.0 + 1e-3, -1.0}) bs.push_back(b * f);
      for (double b : {1.0 + 1e-3, 1.0 + 1e-9, 1.0 - 1e-9, 0.0, 4.0, 8.0, 2.5, 2.718281828459045}) bs.push_back(b);
      for (double b : bs) for (auto& x : xs) { auto px = P(x); double w = NAN; bool nan = x.sgn() < 0 || b < 0 || b == 0; if (!nan) { long e; double m = mpz_get_d_2exp(&e, x); w = (double)((logl(m) + e * 0.693147180559945309417232121458176568L) / logl(b)); }
          v->push_back({cstr("log(%s, %.17g)", x.hex().c_str(), b), [=] { mc::step(); double g = BigInteger::log(*px, b); if (nan ? g == g : !(__builtin_fabs(g - w) <= 1e-12 * __builtin_fabs(w))) mc::fail("log: got %.17g, want %.17g", g, w); }}); }
      R.add(sequences("pairs of logarithms in similar bases", v, 2)); }
    { auto v = std::make_shared<V>(); for (double b : {1.0, 5.0, 1e9, 1e15, 1e19, 1e40, 1e290}) for (double f : {1.0, 1.0 + 0x1p-52, 1.0 + 0x1p-30, 1.0 + 0x1p-20, 1.0 + 0x1p-8, 0x1p20, 0x1p32, -1.0}) { double d = b * f; Z w; mpz_set_d(w, d); auto pw = std::make_shared<Z>(w);
          v->push_back({cstr("from the double %.17g", d), [=] { mc::step(2); BigInteger x(d); expect("from a double", x, *pw); double g = (double)x; if (g != __builtin_trunc(d)) mc::fail("to a double: got %.17g", g); }}); }
      R.add(sequences("pairs of similar doubles", v, 2)); }
    { auto v = std::make_shared<V>(); std::vector<int64_t> ns; for (int64_t b : {1l, 12345l, 0x7FFFFFFFl, 0x80000000l, 0x123456789l, 0x7FFFFFFFFFFFFFFFl}) for (int64_t m : {0l, 1l, 0x100l, 0x10000l, 0x100000000l, 0x1000000000000l}) { ns.push_back(b ^ m); ns.push_back(-(b ^ m)); }
      for (int64_t n : ns) { auto w = std::make_shared<Z>(Z::i64(n)), wu = std::make_shared<Z>(Z::u64((uint64_t)n)); v->push_back({cstr("from and to the integer %ld", n), [=] { mc::step(6); BigInteger x(n); expect("from int64", x, *w); expect_i("to long", (long)x, n); BigInteger y((uint64_t)n); expect("from uint64", y, *wu); if ((unsigned long)y != (uint64_t)n) mc::fail("to unsigned long: got %lu", (unsigned long)y); BigInteger z((int32_t)n); expect_i("int32", (int)z, (int32_t)n); BigInteger u((uint32_t)n); if ((unsigned)u != (uint32_t)n) mc::fail("uint32: got %u", (unsigned)u); }}); }
      R.add(sequences("pairs of similar machine integers", v, 2)); }
    { auto v = std::make_shared<V>(); for (auto& x : xs) { auto px = P(x); for (int e : {0, 1, 2, 3, 4, 5, 8, 16, 17, 32, 33, 64, 128, 255, 256, 257, 258}) { if (e > 64 && mpz_size(x.z) > 2) continue; Z r; mpz_pow_ui(r, x, e); auto w = std::make_shared<Z>(r); v->push_back({cstr("pow(%s, %d)", x.hex().c_str(), e), [=] { mc::step(); expect("pow", BigInteger::pow(*px, e), *w); }}); } }
      R.add(sequences("pairs of powers with similar exponents", v, 2)); }
    { auto v = std::make_shared<V>(); for (auto& x : xs) { auto px = P(x); for (int n : {0, 1, 2, 31, 32, 33, 64, 96, 256, 257, 288, 65536, 65537, -1, -32, -33, -256, -65536}) { Z l, r; if (n >= 0) { mpz_mul_2exp(l, x, n); mpz_fdiv_q_2exp(r, x, n); } else { mpz_fdiv_q_2exp(l, x, -n); mpz_mul_2exp(r, x, -n); } auto wl = std::make_shared<Z>(l), wr = std::make_shared<Z>(r); v->push_back({cstr("shift %s by %d", x.hex().c_str(), n), [=] { mc::step(2); expect("<<", *px << n, *wl); expect(">>", *px >> n, *wr); }}); } }
      R.add(sequences("pairs of shifts by similar counts", v, 2)); }
}
MC_MODULE(C16) {
    int L = R.level;
    auto in = std::make_shared<std::vector<Inst>>(all_instances(L >= 1 ? 1 : 0));
    auto core = std::make_shared<std::vector<Inst>>(); { auto c = all_instances(0); for (size_t i = 0; i < c.size(); i++) if (L || i % 4 == 0) core->push_back(c[i]); }
    R.add(sequences("each call alone", in, 1)); R.add(sequences("call pairs", L ? in : core, 2));
    if (L == 1) { auto few = std::make_shared<std::vector<Inst>>(); for (size_t i = 0; i < core->size(); i++) if (i % 2 == 0 || i < 14) few->push_back((*core)[i]); R.add(sequences("call triples", few, 3)); }
    if (L >= 2) R.add(sequences("call triples", core, 3));
    // the modular powers and gcds, deeper: caches keyed on part of an argument
    if (L) { auto mp = std::make_shared<std::vector<Inst>>(); for (auto& i : *in) if (i.name.find("mod_pow") == 0) mp->push_back(i); R.add(sequences("mod_pow triples", mp, 3)); }
    if (L >= 2) { auto a = all_instances(0); auto mp = std::make_shared<std::vector<Inst>>(); for (auto& i : a) if (i.name.find("mod_pow") == 0) mp->push_back(i); R.add(sequences("mod_pow quadruples", mp, 4)); }
    auto st = std::make_shared<std::vector<Step>>(all_steps(L));
    U s1 = UB().small(-2, 2).words(1, 2, A3).add(Spec({0x80000000}, true)).add(Spec({0x80000000}, false)).longs({4, 33}, {0, 2, 3});
    R.add(chains("one step", st, s1, 1, true)); R.add(chains("two steps", st, L ? s1 : (U)UB().small(-1, 1).words(1, 2, A2), 2, true));
    if (L) R.add(chains("three steps", st, UB().small(0, 1).add(Spec({0x80000000}, true)).add(Spec({0xFFFFFFFF, 0xFFFFFFFF}, true)).add(Spec(pattern(2, 4), false)), 3, false));
    if (L >= 2) { auto few = std::make_shared<std::vector<Step>>(); auto a = all_steps(0); for (size_t i = 0; i < a.size(); i++) if (i % 2 == 0 || a[i].name.size() < 5) few->push_back(a[i]); R.add(chains("four steps", few, UB().small(1, 1).add(Spec({0xFFFFFFFF, 0xFFFFFFFF}, true)), 4, false)); }
    { std::vector<std::pair<Spec, Spec>> init; std::vector<Spec> v{Spec::i64(0), Spec::i64(1), Spec::i64(-1), Spec({0x80000000}, true), Spec({0xFFFFFFFF}, false), Spec({0, 1}, true), Spec({0xFFFFFFFF, 0xFFFFFFFF}, false), Spec({1, 0, 1}, true)}; for (auto& a : v) for (auto& b : v) if (L || init.size() < 6) init.push_back({a, b}); R.add(bfs("two registers, breadth first", init, 8, L == 0 ? 400 : L == 1 ? 4000 : L == 2 ? 60000 : 250000)); }
    if (L >= 3) {   // the deepest exploration
        R.add(sequences("deep: call triples, all calls", in, 3));
        R.add(chains("deep: four steps", std::make_shared<std::vector<Step>>(all_steps(0)), UB().small(1, 1).add(Spec({0x80000000}, true)).add(Spec({0xFFFFFFFF, 0xFFFFFFFF}, true)), 4, false));
    }
    for (int len : L == 0 ? std::vector<int>{2, 33} : L == 1 ? std::vector<int>{1, 2, 3, 5, 33, 40} : L == 2 ? std::vector<int>{1, 2, 3, 4, 8, 33, 40, 70} : cat(range(1, 40), {63, 64, 65, 66, 70, 100, 130, 200})) for (int pat : L <= 1 || (L == 2 && len != 3) ? std::vector<int>{2} : std::vector<int>{2, 0, 12}) R.add(near_pairs(len, pat, L));
    for (int n : L == 0 ? std::vector<int>{9, 40} : std::vector<int>{1, 2, 5, 9, 10, 18, 19, 20, 38, 40, 64, 100, 200, 400}) R.add(near_texts(n));
    if (L) near_numbers(R);
    // long repetitions of one call (counters, pools, static buffers that fill up)
    { uint64_t reps = L == 0 ? 300 : L == 1 ? 3000 : 70000; mc::Space s; s.name = "the same call many times"; s.n = in->size(); s.strands = in->size(); s.hang_s = 300; s.run = [=](uint64_t i) { auto& f = (*in)[i].f; mc::state(i + 1000003); for (uint64_t k = 0; k < reps; k++) f(); }; s.describe = [=](uint64_t i) { return cstr("%lu times ", reps) + (*in)[i].name; }; R.add(s); }
}
