// C20: every pair of operations in two threads (and some in three), on shared and on distinct objects, under every schedule.
#include "mc.h"
#include "table.h"
#include "mcsched.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <array>
#include <mutex>
#include <atomic>
#include <shared_mutex>
#include <thread>
#include <ctime>

extern int c_plain; extern std::atomic<int> c_at, c_key, c_val; extern std::mutex c_mu;   // for the controls
int c_plain; std::atomic<int> c_at{0}, c_key{0}, c_val{0}; std::mutex c_mu;

namespace {
struct Obj { BigInteger a, b, c, r; };
// what one thread does: the operation on the shared operands, on own copies where it assigns
struct Work {
    const Op* op; const Obj* sh; int mode;                // mode 0: operands shared with other threads; 1: own copies of everything
    int times = 1;                                        // how often in a row
    int k; double d; std::string s; byte_array by; uint_array ua;
    std::string out;
};
void render(std::string& o, const BigInteger& b) {
    byte_array y = b.to_byte_array(); static const char hx[] = "0123456789abcdef";
    o += '|'; for (size_t i = 0; i < y.size(); i++) { o += hx[y[i] >> 4]; o += hx[y[i] & 15]; }
}
void perform1(Work& w) {
    Obj own; BigInteger* a = const_cast<BigInteger*>(&w.sh->a); BigInteger* b = const_cast<BigInteger*>(&w.sh->b);
    if (w.mode == 1) { own.a = w.sh->a; own.b = w.sh->b; a = &own.a; b = &own.b; }
    else if (w.op->assigns & AA) { own.a = w.sh->a; a = &own.a; }
    own.c = w.sh->c; own.r = w.sh->r;
    Ctx x(*a, *b, own.c, own.r); x.k = w.k; x.d = w.d; x.s = w.s; x.by = w.by; x.ua = w.ua;
    std::string o;
    try { w.op->f(x); o = "ok"; } catch (const std::exception& e) { o = ename(err_of(e)); }
    render(o, x.o); render(o, *a); render(o, own.r); o += '|'; o += x.so; o += '|';
    for (auto v : x.bo) o += (char)v;
    for (auto v : x.uo) { o += '.'; o += std::to_string(v); }
    o += std::to_string(x.lo); uint64_t q; memcpy(&q, &x.dout, 8); o += ','; o += std::to_string(q); o += x.refused ? 'R' : ' ';
    w.out = std::move(o);
}
void perform(Work& w) {
    for (int i = 0; i < w.times; i++) { std::string before = std::move(w.out); perform1(w); if (i && w.out != before) { w.out += " the first time, but then "; w.out += before; return; } }
}
void body(int t, void* arg) { perform(((Work*)arg)[t]); }

template <class T> T* shm(size_t n = 1) { return (T*)mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
sched::Execution* X() { static sched::Execution* x = shm<sched::Execution>(); return x; }
struct Ref { int set; uint32_t len; char s[1 << 20]; };

struct Val { Spec a, b; int k; double d; };
// objects of a value in a fresh process: made without the library's arithmetic
void make(Obj& o, const Val& v) { o.a = mk(v.a); o.b = mk(v.b); o.c = BigInteger(7); o.r = BigInteger(-9); }
void fill(Work& w, const Op* op, const Obj* sh, int mode, const Val& v) {
    w.op = op; w.sh = sh; w.mode = mode; w.k = v.k; w.d = v.d; Z z = v.a.z(); w.s = z.dec();
    Limbs l = v.a.m; w.by.clear(); for (auto x : l) for (int i = 0; i < 4; i++) w.by.push_back((x >> (8 * i)) & 255); w.by.push_back(0); w.ua.assign(l.begin(), l.end());
}
using Maker = std::function<void(Obj& sh0, Obj& sh1, std::vector<Work>& ws)>;

// fork, run f there, and say how it ended
int in_child(const std::function<void()>& f) {
    pid_t p = fork(); if (p < 0) mc::fail("fork failed");
    if (p == 0) { alarm(60); f(); _exit(0); }
    int st; waitpid(p, &st, 0); return st;
}
// what a call returns when it runs alone
std::string reference(const std::function<void(Work&, Obj&)>& prepare) {
    static Ref* r = shm<Ref>();
    r->set = 0;
    int st = in_child([&] { Obj o; std::vector<Work> w(1); prepare(w[0], o); perform(w[0]); r->len = std::min<size_t>(w[0].out.size(), sizeof r->s); memcpy(r->s, w[0].out.data(), r->len); r->set = 1; });
    if (st || !r->set) { if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77); mc::fail("the call alone ended with status %d", st); }
    return std::string(r->s, r->len);
}

uint64_t explore(int n, const std::function<void(Obj&, Obj&, std::vector<Work>&)>& prepare, const std::vector<std::string>& want, int bound, uint64_t tag, bool expect_ok = true, std::string* found = nullptr) {
    struct Pfx { std::vector<uint8_t> p; int pre; };
    std::vector<Pfx> todo{{{}, 0}}; uint64_t runs = 0; const uint64_t CAP = 4000;
    auto X_ = X();
    static const time_t t0 = time(nullptr); time_t el = time(nullptr) - t0;   // an implementation that synchronises a great deal
    if (el > 240 && bound > 1) { bound = 1; mc::g_skipped++; } if (el > 420 && bound > 0) { bound = 0; mc::g_skipped++; }
    while (!todo.empty()) {
        Pfx f = std::move(todo.back()); todo.pop_back();
        if (++runs > CAP) { if (!found) mc::g_skipped++; break; }
        X_->nprefix = (int)f.p.size(); memcpy(X_->prefix, f.p.data(), f.p.size()); X_->error = 0; X_->npoints = 0;
        int st = in_child([&] {
            Obj s0, s1; std::vector<Work> ws(n); prepare(s0, s1, ws);
            std::array<Obj, 2> before{s0, s1};
            sched::execute(X_, n, body, ws.data());
            for (int t = 0; t < n; t++) if (ws[t].out != want[t]) { if (found) _exit(79); mc::fail("thread %d (%s) computes %s, alone it computes %s", t, ws[t].op->name, ws[t].out.substr(0, 600).c_str(), want[t].substr(0, 600).c_str()); }
            for (auto p : {std::make_pair(&s0, &before[0]), std::make_pair(&s1, &before[1])}) if (!(p.first->a == p.second->a) || !(p.first->b == p.second->b)) mc::fail("a shared operand changed");
        });
        std::string sch = " [schedule:"; for (int i = 0, last = -1; i < X_->npoints && i < 60; i++) { if (X_->points[i].chosen != last) { last = X_->points[i].chosen; sch += cstr(" %d@%d", last, i); } } sch += "]";
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79)) { if (found) { *found = "wrong result"; return runs; } _exit(77); }
        if (X_->error) { if (found) { *found = X_->msg; return runs; } mc::fail("%s%s", X_->msg, sch.c_str()); }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) mc::fail("the threads do not finish%s", sch.c_str());
        if (st) { if (found) { *found = "crash"; return runs; } mc::fail("the threads crash (status %d)%s", st, sch.c_str()); }
        if (!found) mc::step(X_->npoints + X_->accesses);
        if (X_->overflow && !found) mc::g_skipped++;
        if (!found) { uint64_t h = mc::comb(tag, runs); mc::state(h); for (int i = 0; i < X_->npoints; i++) mc::state(mc::comb(h, i)); }
        // the schedules that branch off after the prefix: wherever a thread starts, ends or waits, every choice; elsewhere
        // a preemption only where the operation it delays conflicts with a later one of the other thread
        std::vector<uint8_t> useful(X_->npoints, 0);
        {
            std::map<const void*, std::pair<unsigned, unsigned>> later;   // object -> threads that will access, write it
            for (int i = X_->nops - 1; i >= 0; i--) {
                auto& o = X_->ops[i]; auto& l = later[o.obj];
                if (o.point >= 0) useful[o.point] = o.write ? l.first : l.second;
                l.first |= 1u << o.thread; if (o.write) l.second |= 1u << o.thread;
            }
        }
        int pre = f.pre;
        for (int i = (int)f.p.size(); i < X_->npoints; i++) {
            auto& q = X_->points[i];
            for (int t = 0; t < n; t++) {
                if (!(q.enabled >> t & 1) || t == q.chosen) continue;
                bool free_ = q.free_switch || q.cur == 255;
                if (!free_ && !(useful[i] >> t & 1)) continue;
                int cost = pre + (!free_ && t != q.cur);
                if (cost > bound) continue;
                Pfx g; g.pre = cost; g.p.reserve(i + 1); for (int j = 0; j < i; j++) g.p.push_back(X_->points[j].chosen); g.p.push_back(t); todo.push_back(std::move(g));
            }
        }
    }
    mc::outcome(mc::comb(runs, X_->granules));
    (void)expect_ok;
    return runs;
}

// positive controls: the explorer must find these
const std::vector<Op> controls{
    OP("control: unsynchronised counter", 0, 0, x.lo = ++c_plain ? 1 : 1),
    OP("control: atomic counter read back", 0, 0, c_at.store(0); c_at.fetch_add(1); x.lo = c_at.load()),
    OP("control: atomic check then act", 0, 0, int e = c_at.load(); c_at.store(e + 1); c_at.store(c_at.load() - 1); x.lo = c_at.load()),
    OP("control: two atomics that belong together", 0, 0, c_key.store(x.k); c_val.store(x.k * 2); x.lo = c_key.load() == x.k ? c_val.load() - x.k * 2 : 0),
};
const std::vector<Op> clean{   // and must be quiet here
    OP("control: counter under a mutex", 0, 0, std::lock_guard<std::mutex> g(c_mu); ++c_plain; x.lo = 1),
    OP("control: local static", 0, 0, static BigInteger s = BigInteger(5) * BigInteger(6); x.o = s + BigInteger(1)),
    OP("control: thread local", 0, 0, static thread_local int n = 0; n++; x.lo = n),
    OP("control: call_once", 0, 0, static std::once_flag f; static int v; std::call_once(f, [] { v = 3; }); x.lo = v),
    OP("control: shared mutex", 0, 0, static std::shared_mutex m; static int v = 1; { std::shared_lock<std::shared_mutex> g(m); x.lo = v; } { std::unique_lock<std::shared_mutex> g(m); v = 1; }),
    OP("control: spin lock", 0, 0, static std::atomic_flag f = ATOMIC_FLAG_INIT; static int v = 0; while (f.test_and_set(std::memory_order_acquire)) std::this_thread::yield(); ++v; f.clear(std::memory_order_release)),
    OP("control: published with release", 0, 0, static std::atomic<int*> p{nullptr}; int* q = p.load(std::memory_order_acquire); if (!q) { int* n = new int(4); int* e = nullptr; if (p.compare_exchange_strong(e, n, std::memory_order_acq_rel)) q = n; else { delete n; q = e; } } x.lo = *q),
};
}

MC_MODULE(C20) {
    auto S = [](int p, int len, bool neg = false) { return Spec(pattern(p, len), neg); };
    auto ops = std::make_shared<std::vector<Op>>();
    for (auto* g : {&binary, &unary, &shifting, &powers, &numbers}) for (auto& o : *g) ops->push_back(o);
    const int level = R.level;
    // first and second thread's operands: the same objects, or others
    struct Cfg { const char* name; Val v0, v1; int mode0, mode1, times = 1; };
    auto cf = std::make_shared<std::vector<Cfg>>();
    Val small{Spec::i64(-77), Spec::i64(12), 3, -1e10}, two{S(2, 3), S(12, 2, true), 37, 1e20}, five{S(2, 5, true), S(12, 4), 7, -3.5};
    Val big{S(2, 40), S(12, 34), 2, 1e300}, big2{S(12, 41, true), S(2, 33), 3, -1e300}, one{Spec::i64(-1), S(2, 2), 33, 4294967296.0};
    cf->push_back({"the same three-limb objects", two, two, 0, 0});
    cf->push_back({"different objects", two, five, 0, 0});
    cf->push_back({"the same small objects", small, small, 0, 0});
    cf->push_back({"small and large", one, big, 0, 0});
    Val long1{S(2, 97, true), S(12, 66), 5, -2.5}, long2{S(12, 70), S(2, 65), 5, 2.5}, long3{S(2, 210), S(12, 140, true), 5, 1e18}, long4{S(12, 203), S(2, 131), 4, -1e18};
    cf->push_back({"different longer objects, twice", long1, long2, 0, 0, 2});
    cf->push_back({"different objects, twice", two, five, 0, 0, 2});
    if (level >= 1) {
        cf->push_back({"the same large objects", big, big, 0, 0});
        cf->push_back({"different large objects", big, big2, 0, 0});
        cf->push_back({"own copies", five, five, 1, 1});
        cf->push_back({"the same longer objects", long1, long1, 0, 0});
        cf->push_back({"different objects of two hundred words", long3, long4, 0, 0});
    }
    const size_t n = ops->size(); const int bound = level >= 2 ? 3 : 2;
    auto refs = std::make_shared<std::map<std::string, std::string>>();
    auto ref = [refs](const Op* op, const Val& v, int mode, const std::string& key) -> const std::string& {
        auto it = refs->find(key); if (it != refs->end()) return it->second;
        return (*refs)[key] = reference([&](Work& w, Obj& o) { make(o, v); fill(w, op, &o, mode, v); });
    };
    for (size_t ci = 0; ci < cf->size(); ci++) {
        mc::Space s; s.name = std::string("every pair of operations: ") + (*cf)[ci].name; s.strands = 64; s.hang_s = 100;
        s.n = n * (n + 1) / 2;
        auto dec = [n](uint64_t i, size_t& p, size_t& q) { p = 0; while (i >= n - p) { i -= n - p; p++; } q = p + i; };
        s.describe = [=](uint64_t i) { size_t p, q; dec(i, p, q); return std::string((*ops)[p].name) + "  ||  " + (*ops)[q].name; };
        s.run = [=](uint64_t i) {
            size_t p, q; dec(i, p, q); auto& c = (*cf)[ci]; const Op *a = &(*ops)[p], *b = &(*ops)[q];
            bool shared = &c.v0 == &c.v1 || (c.v0.a.m == c.v1.a.m && c.v0.a.neg == c.v1.a.neg);
            std::vector<std::string> want{ref(a, c.v0, c.mode0, "0" + std::to_string(p)), ref(b, c.v1, c.mode1, (shared ? "0" : "1") + std::to_string(q))};
            explore(2, [&](Obj& o0, Obj& o1, std::vector<Work>& ws) { make(o0, c.v0); if (!shared) make(o1, c.v1); fill(ws[0], a, &o0, c.mode0, c.v0); fill(ws[1], b, shared ? &o0 : &o1, c.mode1, c.v1); for (auto& w : ws) w.times = c.times; }, want, bound, mc::comb(ci, i));
        };
        // the reference cache belongs to one strand's process and one configuration
        auto run = s.run; s.run = [=](uint64_t i) { static size_t last = ~0ull; if (last != ci) { refs->clear(); last = ci; } run(i); };
        R.add(s);
    }
    {   // three threads: an operation against itself twice more
        mc::Space s; s.name = "three threads"; s.strands = 32; s.hang_s = 100; s.n = n * 2;
        s.describe = [=](uint64_t i) { return std::string((*ops)[i / 2].name) + " three times" + (i % 2 ? ", large" : ""); };
        s.run = [=](uint64_t i) {
            const Op* a = &(*ops)[i / 2]; const Val& v = i % 2 ? big : two; const Val& w2 = i % 2 ? big2 : five;
            std::string r0 = reference([&](Work& w, Obj& o) { make(o, v); fill(w, a, &o, 0, v); }), r1 = reference([&](Work& w, Obj& o) { make(o, w2); fill(w, a, &o, 0, w2); });
            explore(3, [&](Obj& o0, Obj& o1, std::vector<Work>& ws) { make(o0, v); make(o1, w2); fill(ws[0], a, &o0, 0, v); fill(ws[1], a, &o1, 0, w2); fill(ws[2], a, &o0, 0, v); }, {r0, r1, r0}, bound - 1, mc::comb(99, i));
        };
        R.add(s);
    }
    {   // does the explorer see what it must, and nothing else?
        mc::Space s; s.name = "controls"; s.strands = 1; s.hang_s = 100; s.n = controls.size() + clean.size();
        s.describe = [=](uint64_t i) { return std::string(i < controls.size() ? controls[i].name : clean[i - controls.size()].name); };
        s.run = [=](uint64_t i) {
            bool bad = i < controls.size(); const Op* op = bad ? &controls[i] : &clean[i - controls.size()];
            Val v = small, w = small; v.k = 3; w.k = 4;
            std::string r0 = reference([&](Work& x, Obj& o) { make(o, v); fill(x, op, &o, 0, v); }), r1 = reference([&](Work& x, Obj& o) { make(o, w); fill(x, op, &o, 0, w); });
            std::string found;
            uint64_t nruns = explore(2, [&](Obj& o0, Obj&, std::vector<Work>& ws) { make(o0, v); fill(ws[0], op, &o0, 0, v); fill(ws[1], op, &o0, 0, w); }, {r0, r1}, 2, mc::comb(98, i), false, &found);
            if (bad != !found.empty()) mc::broken(std::string(op->name) + (bad ? " is not found in " + std::to_string(nruns) + " runs" : " raises an alarm: " + found));
        };
        R.add(s);
    }
}
