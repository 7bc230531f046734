// C19: every allocation of every operation fails, one at a time and from one on; domain errors leave everything intact.
#include "ops.h"
#include "table.h"
#include <climits>
#include <cmath>
extern "C" { long mc_live(); void mc_arm(long at, int persistent); long mc_disarm(); int mc_failed(); }

namespace {
struct Own { BigInteger a, b, c, r; };
struct Call : Own, Ctx { Call() : Ctx(Own::a, Own::b, Own::c, Own::r) {} using Ctx::a; using Ctx::b; using Ctx::c; using Ctx::r; };
struct Result { Err err = Err::None; Z a, b, c, r, o; std::string so; byte_array bo; uint_array uo; double d = 0; long long lo = 0; bool refused = false; };
uint64_t fp(const Result& r) { uint64_t h = (uint64_t)r.err; for (const Z* z : {&r.a, &r.r, &r.o}) h = mc::comb(h, z->fp()); h = mc::comb(h, mc::fp_str(r.so)); h = mc::comb(h, mc::fp_bytes(r.bo.data(), r.bo.size())); h = mc::comb(h, r.lo); return h; }
Result snapshot(const Ctx& x, Err e) {
    Result s; s.err = e; s.a = decode(x.a); s.b = decode(x.b); s.c = decode(x.c); s.r = decode(x.r); s.o = decode(x.o);
    s.so = x.so; s.bo = x.bo; s.uo = x.uo; s.d = x.dout; s.lo = x.lo; s.refused = x.refused; return s;
}
bool eq(const Result& p, const Result& q) {
    return p.err == q.err && p.a == q.a && p.b == q.b && p.c == q.c && p.r == q.r && p.o == q.o && p.so == q.so && p.bo == q.bo && p.uo == q.uo && !memcmp(&p.d, &q.d, sizeof(double)) && p.lo == q.lo && p.refused == q.refused;
}
// which error, found out without allocating
Err call(const Op& op, Ctx& x, std::string* what = nullptr) {
    try { op.f(x); return Err::None; }
    catch (const std::bad_alloc&) { return Err::Alloc; }
    catch (const std::exception& e) { long n = mc_disarm(); Err r = err_of(e); if (what) *what = e.what(); mc_arm(0, 0); (void)n; return r; }
    catch (...) { mc_disarm(); mc::fail("%s: raises something that is not a std::exception", op.name); }
}
// an object that survived a failure: holds some integer, and is indistinguishable from that integer made afresh
void valid(const char* when, const BigInteger& b) { Z z = decode(b); indist(when, b, z, true); }

const std::vector<Inst>& after() { static std::vector<Inst> v = all_instances(0); return v; }

void check(const Op& op, const std::function<void(Ctx&)>& setup, uint64_t tag) {
    // 0. a warm-up, then the call that does not fail, twice: the reference and the number of allocations
    { Call x; setup(x); mc_arm(0, 0); call(op, x); mc_disarm(); }
    long base = mc_live();
    Result ref; long n; Result before;
    {
        Call x; setup(x); before = snapshot(x, Err::None);
        mc_arm(0, 0); Err e = call(op, x); n = mc_disarm();
        mc::step(); mc::state(mc::comb(tag, ~0ull));
        if (e == Err::Alloc) mc::fail("%s: raised an undocumented error (%s)", op.name, ename(e));
        ref = snapshot(x, e);
        if (!(ref.b == before.b) || !(ref.c == before.c)) mc::fail("%s: an operand that is only read changed", op.name);
        if (!(op.assigns & AA) && !(ref.a == before.a)) mc::fail("%s: the operand a changed", op.name);
        if (e != Err::None && (!(ref.a == before.a) || !(ref.r == before.r))) mc::fail("%s: failed with %s, but changed an object it assigns", op.name, ename(e));
        valid("after the call", x.a); valid("after the call", x.r);
    }
    (void)base;
    mc::outcome(fp(ref));
    auto once = [&](long k, int persistent) {
        Call x; setup(x); Result was = snapshot(x, Err::None);
        mc_arm(k, persistent); Err e = call(op, x); mc_disarm();
        const char* how = persistent ? "and every later allocation fails" : "fails";
        mc::step();
        if (e == Err::None && !x.refused) {   // the failure was absorbed: then the result is the right one
            if (!eq(snapshot(x, e), ref)) mc::fail("%s: when allocation %ld %s, the call succeeds with a wrong result", op.name, k, how);
        }
        if (!same(x.b, was.b) || !same(x.c, was.c)) mc::fail("%s: when allocation %ld %s, an operand that is only read changes", op.name, k, how);
        if (!(op.assigns & AA) && !same(x.a, was.a)) mc::fail("%s: when allocation %ld %s, the operand a changes from %s to %s", op.name, k, how, was.a.hex().c_str(), show(x.a).c_str());
        if (!(op.assigns & AR) && !same(x.r, was.r)) mc::fail("%s: when allocation %ld %s, an unrelated object changes", op.name, k, how);
        if (op.assigns & AA) valid(cstr("%s: when allocation %ld %s", op.name, k, how).c_str(), x.a);
        if (op.assigns & AR) valid(cstr("%s: when allocation %ld %s", op.name, k, how).c_str(), x.r);
        if (k <= 1) valid(cstr("%s: when allocation %ld %s", op.name, k, how).c_str(), x.o);
    };
    for (int persistent = 0; persistent < 2; persistent++)
        for (long k = 1; k <= n; k++) {
            mc::state(mc::comb(tag, k * 2 + persistent));
            long l0 = mc_live(); once(k, persistent); long l1 = mc_live();
            if (l1 != l0) {   // memory kept by a cache is not lost: does it grow each time?
                once(k, persistent); long l2 = mc_live(); once(k, persistent); long l3 = mc_live();
                if (l2 > l1 && l3 > l2) mc::fail("%s: when allocation %ld %s, %ld blocks are lost", op.name, k, persistent ? "and all later ones fail" : "fails", l3 - l2);
            }
            // the same call later
            if (k <= 4 || k == n || k % 16 == 0) { Call x; setup(x); mc_arm(0, 0); Err e = call(op, x); mc_disarm(); if (!eq(snapshot(x, e), ref)) mc::fail("%s: after a call in which allocation %ld failed, the same call gives another result", op.name, k); }
        }
    auto& in = after(); in[tag % in.size()].f(); in[(tag / 7) % in.size()].f();
}

struct Group { std::string name; const std::vector<Op>* ops; std::vector<Spec> as, bs; std::vector<int> ks; std::vector<double> ds; };
}

static void faults(mc::Registry& R, bool small) {
    auto S = [](int p, int len, bool neg = false) { return Spec(pattern(p, len), neg); };
    std::vector<Spec> v0{Spec::i64(0), Spec::i64(1), Spec::i64(-1), Spec::i64(5), Spec::i64(INT_MIN), Spec::i64(2147483648ll), Spec::i64(-4294967296ll), Spec::i64(-2147483649ll),
                         S(2, 2), S(2, 3, true), S(0, 4), S(3, 5, true), S(2, 9)};
    std::vector<Spec> big{S(2, 33), S(12, 40, true), S(0, 70)};
    if (R.level >= 1) { for (auto s : {S(1, 2), S(1, 3), S(12, 6, true), S(2, 34, true), S(2, 65)}) v0.push_back(s); }
    if (R.level >= 2) for (auto s : {S(0, 2, true), S(4, 3), S(5, 4, true), S(6, 5), S(7, 7, true), S(8, 8), S(9, 12), S(2, 31), S(2, 32, true), S(1, 33), S(0, 33, true), S(2, 64), S(2, 128), S(12, 140, true)}) v0.push_back(s);
    auto v = v0; if (!small) for (auto& s : big) v.push_back(s);
    if (small) { v.clear(); for (auto& s : v0) if (s.m.size() <= (R.level >= 2 ? 14 : 9)) v.push_back(s); v.push_back(S(2, 14)); }
    std::vector<int> sh{0, 1, 5, 31, 32, 33, 64, 100, -1, -32, -70};
    std::vector<Spec> pb{Spec::i64(0), Spec::i64(1), Spec::i64(-1), Spec::i64(2), Spec::i64(3), Spec::i64(-10), S(2, 1), S(2, 2, true), S(2, 5)};
    std::vector<int> pe{0, 1, 2, 3, 7, 20, 100, -1, INT_MIN}; if (R.level >= 1) { pe.push_back(64); if (!small) pe.push_back(333); }
    if (small && R.level < 2) pb.pop_back();
    std::vector<double> ds{0.0, 1.0, -1.5, 2147483648.0, -4294967296.0, 1e10, 1e20, -1e100, 1e308, 5e-324, 1.0 / 0.0, -1.0 / 0.0, std::nan("")};
    auto groups = std::make_shared<std::vector<Group>>();
    groups->push_back({"two operands", &binary, v, v, {0}, {0}});
    groups->push_back({"one operand", &unary, v, {Spec::i64(3)}, {0}, {0}});
    groups->push_back({"shifts", &shifting, v, {Spec::i64(3)}, sh, {0}});
    groups->push_back({"powers", &powers, pb, {Spec::i64(3)}, pe, {0}});
    groups->push_back({"numbers", &numbers, {Spec::i64(3)}, {Spec::i64(3)}, {0}, ds});
    for (size_t gi = 0; gi < groups->size(); gi++) {
        auto at = [groups, gi](uint64_t i, const Op*& op, const Spec*& a, const Spec*& b, int& k, double& d) {
            auto& g = (*groups)[gi];
            op = &(*g.ops)[i % g.ops->size()]; i /= g.ops->size(); a = &g.as[i % g.as.size()]; i /= g.as.size(); b = &g.bs[i % g.bs.size()]; i /= g.bs.size(); k = g.ks[i % g.ks.size()]; i /= g.ks.size(); d = g.ds[i];
        };
        auto& g = (*groups)[gi]; mc::Space s; s.name = "faults: " + g.name; s.n = (uint64_t)g.ops->size() * g.as.size() * g.bs.size() * g.ks.size() * g.ds.size(); s.strands = 128;
        s.describe = [=](uint64_t i) { const Op* op; const Spec *a, *b; int k; double d; at(i, op, a, b, k, d); return std::string(op->name) + "  a=" + a->str() + " b=" + b->str() + " k=" + std::to_string(k) + cstr(" d=%g", d); };
        s.run = [=](uint64_t i) {
            const Op* op; const Spec *a, *b; int k; double d; at(i, op, a, b, k, d);
            BigInteger ba = mk(*a), bb = mk(*b), br = mk(Spec({7, 8, 9}, true)); Z za = a->z(); std::string text = za.dec(); byte_array by = ba.to_byte_array(); uint_array ua(a->m.begin(), a->m.end());
            check(*op, [&](Ctx& x) { x.a = ba; x.b = bb; x.c = br; x.r = br; x.k = k; x.d = d; x.s = text; x.by = by; x.ua = ua; }, mc::comb(gi, i));
        };
        R.add(s);
    }
}

MC_MODULE(C19) { faults(R, false); }
MC_MODULE(C19small) { faults(R, true); }
