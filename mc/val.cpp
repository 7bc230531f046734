#include "val.h"
#include <cstdarg>
#include <climits>
#include <new>

const Limbs A2{1u, 0xFFFFFFFFu};
const Limbs A3{0u, 1u, 0xFFFFFFFFu};
const Limbs A5{0u, 1u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu};
const Limbs A8{0u, 1u, 2u, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu};
const Limbs A9{0u, 1u, 2u, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x9E3779B9u};
const Limbs A16{0u, 1u, 2u, 3u, 0xFFu, 0x100u, 0xFFFFu, 0x10000u, 0x3B9ACA00u, 0x7FFFFFFEu, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0x9E3779B9u, 0xFFFFFFFEu, 0xFFFFFFFFu};

std::string hexlimbs(const Limbs& m, bool neg) {
    if (m.empty()) return "0";
    std::string r = neg ? "-0x" : "0x"; char b[16];
    size_t n = m.size();
    if (n <= 24) { for (size_t i = n; i-- > 0;) { snprintf(b, sizeof b, i + 1 == n ? "%x" : "_%08x", m[i]); r += b; } return r; }
    for (size_t i = n; i-- > n - 6;) { snprintf(b, sizeof b, i + 1 == n ? "%x" : "_%08x", m[i]); r += b; }
    r += "_..";
    for (size_t i = 6; i-- > 0;) { snprintf(b, sizeof b, "_%08x", m[i]); r += b; }
    snprintf(b, sizeof b, "(%zu)", n); return r + b;
}
std::string Z::hex() const { return hexlimbs(limbs(), sgn() < 0); }
std::string Spec::str() const { return hexlimbs(m, neg); }

Z decode(const BigInteger& b) {
    Limbs l = b.get_bits(); int s = b.sign_internal();
    if (l.empty()) return Z(s);
    return Z::from(l, s < 0);
}
std::string show(const BigInteger& b) {
    Limbs l = b.get_bits();
    return hexlimbs(decode(b).limbs(), decode(b).sgn() < 0) + cstr(" [sign %d, %zu words]", b.sign_internal(), l.size());
}
static bool build_raw(const Spec& s, int how, BigInteger& out) {
    try {
        if (how == 0) out = BigInteger(s.m, s.neg);
        else if (how == 1) {
            Z z = s.z();
            size_t nb = s.m.size() * 4 + 1; Z t = z;
            if (s.neg) { Z one(1); mpz_mul_2exp(one, one, nb * 8); t = one + z; }
            byte_array by(nb, 0); size_t n = 0;
            mpz_export(by.data(), &n, -1, 1, 0, 0, t);
            out = BigInteger(by);
        } else out = BigInteger::parse(s.z().dec());
    } catch (...) { return false; }
    Limbs l = out.get_bits(); int sg = out.sign_internal();
    if (l.empty()) { Spec d = Spec::i64(sg); return d.m == s.m && d.neg == s.neg; }
    return l == s.m && (sg < 0) == s.neg;
}
bool build(const Spec& s, BigInteger& out) {
    for (int how = 0; how < 3; how++) if (build_raw(s, how, out)) return true;
    return false;
}
BigInteger mk(const Spec& s) {
    BigInteger b;
    if (!build(s, b)) mc::fail("the value %s cannot be constructed from limbs, bytes or text", s.str().c_str());
    return b;
}

bool same(const BigInteger& b, const Z& z) {
    const Limbs l = b.get_bits(); int s = b.sign_internal();
    size_t n = mpz_size(z.z);
    if (l.empty()) return mpz_cmp_si(z.z, s) == 0;
    bool canonical = l.back() != 0 && (l.size() > 1 || l[0] >= 0x80000000u) && (s == 1 || s == -1);
    if (!canonical) {
        // tolerated only if nobody can tell: it must be indistinguishable from a fresh object
        if (!(Z::from(l, s < 0) == z)) return false;
        BigInteger f;
        if (!build(Spec::of(z), f)) return false;
        return b == f && f == b && b.compare_to(f) == 0 && f.compare_to(b) == 0 && b.get_hash_code() == f.get_hash_code();
    }
    if ((s < 0) != (mpz_sgn(z.z) < 0) || (l.size() + 1) / 2 != n) return false;
    const uint32_t* p = (const uint32_t*)mpz_limbs_read(z.z);
    if (l.size() & 1) { if (p[l.size()] != 0) return false; }
    return memcmp(p, l.data(), l.size() * 4) == 0;
}
void expect(const char* what, const BigInteger& got, const Z& want) {
    mc::step();
    if (!same(got, want)) mc::fail("%s: got %s, want %s", what, show(got).c_str(), want.hex().c_str());
}
void expect_bool(const char* what, bool got, bool want) { mc::step(); if (got != want) mc::fail("%s: got %d, want %d", what, got, want); }
void expect_i(const char* what, long long got, long long want) { mc::step(); if (got != want) mc::fail("%s: got %lld, want %lld", what, got, want); }
void expect_str(const char* what, const std::string& got, const std::string& want) {
    mc::step();
    if (got != want) mc::fail("%s: got \"%s\" (%zu chars), want \"%s\" (%zu chars)", what, got.substr(0, 400).c_str(), got.size(), want.substr(0, 400).c_str(), want.size());
}
const char* ename(Err e) {
    switch (e) { case Err::None: return "no error"; case Err::DivZero: return "divide-by-zero error"; case Err::Range: return "out-of-range error";
        case Err::Overflow: return "overflow error"; case Err::Alloc: return "allocation failure"; default: return "another error"; }
}
Err err_of(const std::exception& e) {
    std::string n = typeid(e).name();
    if (n.find("DivideByZero") != std::string::npos) return Err::DivZero;
    if (dynamic_cast<const std::out_of_range*>(&e)) return Err::Range;
    if (dynamic_cast<const std::overflow_error*>(&e)) return Err::Overflow;
    if (dynamic_cast<const std::bad_alloc*>(&e)) return Err::Alloc;
    return Err::Other;
}
void expect_err(const char* what, Err got, Err want) { mc::step(); if (got != want) mc::fail("%s: got %s, want %s", what, ename(got), ename(want)); }
std::string cstr(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); char b[1024]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}

Limbs pattern(int p, int L) {
    Limbs m(L, 0);
    auto gen = [](uint64_t s) { return (uint32_t)(mc::mix(s) >> 16); };
    switch (p) {
        case 0: for (auto& x : m) x = 0xFFFFFFFF; break;
        case 1: m[L - 1] = 1; break;
        case 2: for (int i = 0; i < L; i++) m[i] = gen(i * 2654435761ull + 12345); if (!m[L - 1]) m[L - 1] = 1; break;
        case 3: m[L - 1] = 0x80000000; break;
        case 4: m[L - 1] = 1; m[0] |= 1; if (L == 1) m[0] = 3; break;
        case 5: for (int i = 0; i < L; i++) m[i] = ((L - 1 - i) & 1) ? 0 : 0xFFFFFFFF; break;
        case 6: for (auto& x : m) x = 0x80000000; break;
        case 7: for (auto& x : m) x = 0xFFFFFFFF; m[L - 1] = 1; break;
        case 8: for (auto& x : m) x = 0xFFFFFFFF; m[0] = 0; if (L == 1) m[0] = 0xFFFFFFFE; break;
        case 9: for (int i = 0; i < L; i++) m[i] = i >= L / 2 ? 0xFFFFFFFF : 0; break;
        case 10: for (int i = 0; i < L; i++) m[i] = i < L / 2 ? 0xFFFFFFFF : 0; m[L - 1] = 0x7FFFFFFF; break;
        case 11: for (auto& x : m) x = 0x7FFFFFFF; break;
        case 12: for (int i = 0; i < L; i++) m[i] = gen(i * 40503ull + 977); m[L - 1] |= 0x80000000; break;
        case 13: for (int i = 0; i < L; i++) m[i] = 1; break;
    }
    return m;
}
std::vector<int> range(int a, int b, int step) { std::vector<int> r; for (int i = a; i <= b; i += step) r.push_back(i); return r; }
std::vector<int> cat(std::vector<int> a, const std::vector<int>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static bool lite() { static bool l = getenv("MC_LITE"); return l; }   // the slow instruments (memcheck) see fewer lengths
const std::vector<int>& len0() { static std::vector<int> v = lite() ? std::vector<int>{1, 2, 3, 4, 5, 9, 14, 32, 33, 34, 65} : cat(range(1, 20), {31, 32, 33, 34, 47, 63, 64, 65, 66, 100, 129, 257}); return v; }
const std::vector<int>& len1() { static std::vector<int> v = lite() ? std::vector<int>{1, 2, 3, 4, 8, 9, 16, 17, 32, 33, 65} : cat(range(1, 70), {127, 128, 129, 255, 256, 257, 300}); return v; }
UB& UB::words(int minlen, int maxlen, const Limbs& alpha, bool signs) {
    for (int L = minlen; L <= maxlen; L++) {
        std::vector<size_t> d(L, 0);
        for (;;) {
            if (L == 0 || alpha[d[L - 1]] != 0) {
                Limbs m(L); for (int i = 0; i < L; i++) m[i] = alpha[d[i]];
                if (signs) both(m); else add(Spec(m, false));
            }
            int i = 0; for (; i < L; i++) { if (++d[i] < alpha.size()) break; d[i] = 0; }
            if (i == L) break;
        }
    }
    return *this;
}
UB& UB::pow2(int kmax, int dlo, int dhi, int kmin) {
    for (int k = kmin; k <= kmax; k++) for (int d = dlo; d <= dhi; d++) {
        Z v(1); mpz_mul_2exp(v, v, k); v = v + Z(d); add(Spec::of(v)); add(Spec::of(-v));
    }
    return *this;
}
UB& UB::runs(const std::vector<int>& bits) {
    for (int a : bits) for (int b : bits) if (b < a) {
        Z x(1), y(1); mpz_mul_2exp(x, x, a); mpz_mul_2exp(y, y, b); x = x - y; add(Spec::of(x)); add(Spec::of(-x));
    }
    return *this;
}
UB& UB::longs(const std::vector<int>& lens, const std::vector<int>& pats, bool signs) {
    for (int L : lens) for (int p : pats) { Limbs m = pattern(p, L); if (signs) both(m); else add(Spec(m, false)); }
    return *this;
}

mc::Space pairs(const std::string& name, U a, U b, std::function<void(const Item&, const Item&)> f) {
    mc::Space s; s.name = name; uint64_t nb = b->size(); s.n = (uint64_t)a->size() * nb; s.strands = 64;
    s.run = [=](uint64_t i) {
        const Item &x = a->at(i / nb), &y = b->at(i % nb);
        mc::state(mc::comb(x.fp, y.fp));
        f(x, y);
    };
    s.describe = [=](uint64_t i) { return "a=" + a->str(i / nb) + " b=" + b->str(i % nb); };
    return s;
}
mc::Space huge(int level, std::function<void(const Item&)> f) {
    // bit counts around 2^31 (where an int overflows) and 2^32
    struct P { long p, d; };
    std::vector<P> ps{{0x7FFFFFFFl - 40, 0}, {0x80000000l + 1000, 7}, {0x80000000l, -1}, {0x100000000l + 9, 1}};
    if (level >= 3) for (P q : {P{0x7FFFFFFFl, 0}, P{0x7FFFFFFFl, -1}, P{0x80000000l, 0}, P{0x80000000l, 1}, P{0xFFFFFFFFl, 0}, P{0x100000000l, -1}, P{0x100000000l, 0}}) ps.push_back(q);
    mc::Space s; s.name = "values of 2^31 bits and more"; s.n = getenv("MC_NOHUGE") ? 0 : ps.size() * 2; s.strands = s.n; s.hang_s = 240; s.mem = 12ull << 30; s.serial = true;
    s.run = [=](uint64_t i) {
        P p = ps[i / 2]; Z v(1); mpz_mul_2exp(v, v, p.p); v = v + Z(p.d); if (i & 1) mpz_neg(v, v);
        BigInteger b; if (!build(Spec::of(v), b)) mc::fail("cannot build a value of %ld bits", p.p);
        mc::state(mc::comb(p.p, p.d * 2 + (i & 1))); Item x{std::move(b), std::move(v), mc::comb(p.p, i)}; f(x);
    };
    s.describe = [=](uint64_t i) { P p = ps[i / 2]; return cstr("a=%s(2^%ld%+ld)", i & 1 ? "-" : "", p.p, p.d); };
    return s;
}
mc::Space smalls(const std::string& name, long lo, long hi, std::function<void(const Item&)> f) {
    mc::Space s; s.name = name; s.n = hi - lo + 1;
    s.run = [=](uint64_t i) { Z z(lo + (long)i); Item x{mk(z), z, z.fp()}; mc::state(x.fp); f(x); };
    s.describe = [=](uint64_t i) { return "a=" + std::to_string(lo + (long)i); };
    return s;
}
mc::Space singles(const std::string& name, U a, std::function<void(const Item&)> f) {
    mc::Space s; s.name = name; s.n = a->size();
    s.run = [=](uint64_t i) { const Item& x = a->at(i); mc::state(x.fp); f(x); };
    s.describe = [=](uint64_t i) { return "a=" + a->str(i); };
    return s;
}
