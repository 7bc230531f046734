// Integer values, the GMP reference, and the finite universes of operands the checks enumerate.
#pragma once
#include "mc.h"
#include "bigintegercpp/BigInteger.h"
#include <gmp.h>
#include <map>
#include <memory>
#include <set>
#include <typeinfo>
#include <stdexcept>

using Limbs = std::vector<uint32_t>;

// ---------------------------------------------------------------- reference integers
class Z {
public:
    mpz_t z;
    Z() { mpz_init(z); }
    Z(long v) { mpz_init_set_si(z, v); }
    Z(const Z& o) { mpz_init_set(z, o.z); }
    Z(Z&& o) noexcept { mpz_init(z); mpz_swap(z, o.z); }
    Z& operator=(const Z& o) { mpz_set(z, o.z); return *this; }
    Z& operator=(Z&& o) noexcept { mpz_swap(z, o.z); return *this; }
    ~Z() { mpz_clear(z); }
    operator mpz_srcptr() const { return z; }
    operator mpz_ptr() { return z; }
    static Z from(const Limbs& m, bool neg) {
        Z r; if (!m.empty()) mpz_import(r.z, m.size(), -1, 4, 0, 0, m.data());
        if (neg) mpz_neg(r.z, r.z);
        return r;
    }
    static Z u64(uint64_t v) { Z r; mpz_import(r.z, 1, -1, 8, 0, 0, &v); return r; }
    static Z i64(int64_t v) { Z r = u64(v < 0 ? 0 - (uint64_t)v : (uint64_t)v); if (v < 0) mpz_neg(r.z, r.z); return r; }
    int sgn() const { return mpz_sgn(z); }
    Limbs limbs() const {
        Limbs l((mpz_sizeinbase(z, 2) + 31) / 32); size_t n = 0;
        mpz_export(l.data(), &n, -1, 4, 0, 0, z); l.resize(n); return l;
    }
    std::string hex() const;
    std::string dec() const { char* s = mpz_get_str(nullptr, 10, z); std::string r = s; free(s); return r; }
    uint64_t fp() const { return mc::fp_bytes(mpz_limbs_read(z), mpz_size(z) * 8, mpz_sgn(z) < 0 ? 77 : 33); }
};
inline Z operator+(const Z& a, const Z& b) { Z r; mpz_add(r, a, b); return r; }
inline Z operator-(const Z& a, const Z& b) { Z r; mpz_sub(r, a, b); return r; }
inline Z operator*(const Z& a, const Z& b) { Z r; mpz_mul(r, a, b); return r; }
inline Z operator-(const Z& a) { Z r; mpz_neg(r, a); return r; }
inline bool operator==(const Z& a, const Z& b) { return mpz_cmp(a, b) == 0; }
inline bool operator<(const Z& a, const Z& b) { return mpz_cmp(a, b) < 0; }

// ---------------------------------------------------------------- specifications of values
struct Spec {
    Limbs m; bool neg = false;
    Spec() = default;
    Spec(Limbs l, bool n) : m(std::move(l)), neg(n) { while (!m.empty() && !m.back()) m.pop_back(); if (m.empty()) neg = false; }
    static Spec i64(int64_t v) { uint64_t u = v < 0 ? 0 - (uint64_t)v : v; return Spec({(uint32_t)u, (uint32_t)(u >> 32)}, v < 0); }
    static Spec of(const Z& z) { return Spec(z.limbs(), z.sgn() < 0); }
    Z z() const { return Z::from(m, neg); }
    bool operator<(const Spec& o) const { return neg != o.neg ? neg < o.neg : m < o.m; }
    std::string str() const;
};
std::string hexlimbs(const Limbs& m, bool neg);

// One operand, in the library and in the model.
struct Item { BigInteger b; Z z; uint64_t fp; };

// Builds the library object for a value; false if no way of constructing it yields the value.
bool build(const Spec& s, BigInteger& out);
BigInteger mk(const Spec& s);              // fails over to other constructors; skips the case if impossible
inline BigInteger mk(const Z& z) { return mk(Spec::of(z)); }

struct Universe {
    std::vector<Spec> specs;
    std::vector<std::unique_ptr<Item>> items;
    size_t size() const { return specs.size(); }
    const Item& at(size_t i) {
        if (items.size() != specs.size()) items.resize(specs.size());
        auto& p = items[i];
        if (!p) { p.reset(new Item{mk(specs[i]), specs[i].z(), 0}); p->fp = p->z.fp(); }
        return *p;
    }
    std::string str(size_t i) const { return specs[i].str(); }
};
using U = std::shared_ptr<Universe>;

struct UB {   // universe builder, keeps insertion order (simplest first), drops duplicates
    U u = std::make_shared<Universe>();
    std::set<Spec> seen;
    UB& add(Spec s) { if (seen.insert(s).second) u->specs.push_back(std::move(s)); return *this; }
    UB& both(Limbs l) { add(Spec(l, false)); add(Spec(std::move(l), true)); return *this; }
    UB& small(int lo, int hi) { add(Spec::i64(0)); for (int v = 1; v <= std::max(hi, -lo); v++) { if (v <= hi) add(Spec::i64(v)); if (-v >= lo) add(Spec::i64(-v)); } return *this; }
    // all limb words of minlen..maxlen over an alphabet, both signs
    UB& words(int minlen, int maxlen, const Limbs& alpha, bool signs = true);
    UB& pow2(int kmax, int dlo, int dhi, int kmin = 0);
    UB& runs(const std::vector<int>& bits);                  // +-(2^a - 2^b)
    UB& longs(const std::vector<int>& lens, const std::vector<int>& pats, bool signs = true);
    UB& merge(const U& o) { for (auto& s : o->specs) add(s); return *this; }
    operator U() { return u; }
};
constexpr int NPAT = 14;
Limbs pattern(int p, int len);
std::vector<int> range(int a, int b, int step = 1);
std::vector<int> cat(std::vector<int> a, const std::vector<int>& b);
const std::vector<int>& len0();      // lengths for the smallest spaces
const std::vector<int>& len1();      // the same, for single operands
extern const Limbs A2, A3, A5, A8, A9, A16;

// ---------------------------------------------------------------- comparing library values with the model
struct View { Limbs bits; int sign; };
bool same(const BigInteger& b, const Z& z);     // the value b denotes is z (and it is equal to a fresh z)
Z decode(const BigInteger& b);
std::string show(const BigInteger& b);
void expect(const char* what, const BigInteger& got, const Z& want);
void expect_bool(const char* what, bool got, bool want);
void expect_i(const char* what, long long got, long long want);
void expect_str(const char* what, const std::string& got, const std::string& want);

enum class Err { None, DivZero, Range, Overflow, Other, Alloc };
const char* ename(Err e);
Err err_of(const std::exception& e);
template <class F> Err trap(F f) {
    try { f(); return Err::None; }
    catch (const std::exception& e) { return err_of(e); }
    catch (...) { return Err::Other; }
}
void expect_err(const char* what, Err got, Err want);
std::string cstr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// pair space helper
mc::Space pairs(const std::string& name, U a, U b, std::function<void(const Item&, const Item&)> f);
mc::Space singles(const std::string& name, U a, std::function<void(const Item&)> f);
mc::Space smalls(const std::string& name, long lo, long hi, std::function<void(const Item&)> f);   // every value from lo to hi
// values of 2^31 bits and more: +-(2^p + d); the function must not print them
mc::Space huge(int level, std::function<void(const Item&)> f);
