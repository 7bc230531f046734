#include "mcsched.h"
#include <cstddef>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);
namespace sched {
static __thread int me = -1;          // the thread's number while it runs under the scheduler
static __thread int quiet = 0;        // inside this runtime
static Execution* X; static int N;
static bool active;
struct Thr { int done; const void* waits; uintptr_t stk_lo, stk_hi; char *arena, *top, *end; uint32_t vc[MAXT], relf[MAXT], acqp[MAXT]; pthread_t th; void (*body)(int, void*); void* arg; int spin; };
static Thr T[MAXT];
static int turn = -1;
static long total_points;

static void fwait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0); }
[[noreturn]] static void stop(int kind, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(X->msg, sizeof X->msg, fmt, ap); va_end(ap); X->error = kind; _exit(78);
}
static void hand(int t) {   // give the token to t and wait until it comes back
    if (t == me) return;
    __atomic_store_n(&turn, t, __ATOMIC_SEQ_CST); fwake(&turn);
}
static void await() { for (;;) { int v = __atomic_load_n(&turn, __ATOMIC_SEQ_CST); if (v == me) return; fwait(&turn, v); } }

static int enabled_mask() { int m = 0; for (int i = 0; i < N; i++) if (!T[i].done && !T[i].waits) m |= 1 << i; return m; }
// decide who goes on; cur is the thread that was running (it may have ended or be blocked)
static int decide(int cur, bool free_switch) {
    int en = enabled_mask();
    if (!en) { for (int i = 0; i < N; i++) if (!T[i].done) stop(2, "deadlock: thread %d waits for ever", i); return -1; }
    if (++total_points > 2000000) stop(3, "no progress: 2000000 synchronisation operations");
    int c;
    bool only = (en & (en - 1)) == 0;
    if (only) return __builtin_ctz(en);
    if (X->npoints >= MAXP) { X->overflow = 1; if (!free_switch && cur >= 0 && (en >> cur & 1)) { if (++T[cur].spin < 64) return cur; T[cur].spin = 0; } for (int k = 1; k <= N; k++) if (en >> ((cur + k) % N) & 1) return (cur + k) % N; }
    int i = X->npoints++;
    // a thread that spins alone lets the others run, at no cost
    bool can = cur >= 0 && (en >> cur & 1);
    if (can && ++T[cur].spin > 200) { free_switch = true; T[cur].spin = 0; int k = 1; while (!(en >> ((cur + k) % N) & 1)) k++; c = (cur + k) % N; }
    else c = can ? cur : __builtin_ctz(en);
    if (i < X->nprefix) { c = X->prefix[i]; if (!(en >> c & 1)) stop(3, "the schedule could not be replayed at point %d", i); }
    X->points[i] = {(uint8_t)en, (uint8_t)(can ? cur : 255), (uint8_t)c, (uint8_t)(free_switch || !can)};
    if (c != cur && cur >= 0) T[cur].spin = 0;
    return c;
}
static void point(const void* obj, bool write) {   // before a visible operation
    int before = X->npoints;
    int c = decide(me, false);
    int pt = X->npoints > before ? before : -1;
    if (c != me) { hand(c); await(); }
    if (X->nops < MAXO) X->ops[X->nops++] = {obj, pt, (uint8_t)me, write};
}
static void block(const void* on) {
    T[me].waits = on;
    int c = decide(me, true); hand(c); await();
}
static void wake(const void* on) { for (int i = 0; i < N; i++) if (T[i].waits == on) T[i].waits = nullptr; }

// ---------------------------------------------------------------- happens-before
static void join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
struct Sync { const void* p; uint32_t vc[MAXT]; int owner, count, readers[MAXT], state; };
static Sync sy[4096];
static Sync* sync_of(const void* p) {
    size_t h = ((uintptr_t)p >> 2) * 0x9E3779B97F4A7C15ull >> 52;
    for (int k = 0; k < 4096; k++, h = (h + 1) & 4095) { if (sy[h].p == p) return &sy[h]; if (!sy[h].p) { sy[h].p = p; sy[h].owner = -1; return &sy[h]; } }
    stop(3, "too many synchronisation objects");
}
static void acquire(Sync* s) { join(T[me].vc, s->vc); }
static void release(Sync* s) { join(s->vc, T[me].vc); T[me].vc[me]++; }

struct Cell { uintptr_t key; uint32_t w[8][MAXT], r[8][MAXT]; };
static Cell* cells; static const int NB = 22; static const size_t NC = (size_t)1 << NB;
static size_t ncells;
static Cell* cell(uintptr_t k) {
    size_t h = ((k >> 7) * 0x9E3779B97F4A7C15ull >> (64 - (NB - 7)) << 7) | (k & 127);
    if (ncells > NC / 4 * 3) { X->overflow = 1; return nullptr; }
    for (size_t n = 0; n < NC; n++, h = (h + 1) & (NC - 1)) { if (cells[h].key == k) return &cells[h]; if (!cells[h].key) { cells[h].key = k; ncells++; return &cells[h]; } }
    return nullptr;
}
static const char* where(uintptr_t p, char* buf, size_t n) {
    Dl_info d;
    for (int i = 0; i < N; i++) if (p >= (uintptr_t)T[i].arena && p < (uintptr_t)T[i].end) { snprintf(buf, n, "memory allocated by thread %d", i); return buf; }
    if (dladdr((void*)p, &d) && d.dli_sname) { int st; char* q = __cxa_demangle(d.dli_sname, nullptr, nullptr, &st); snprintf(buf, n, "%s+%ld", q ? q : d.dli_sname, (long)(p - (uintptr_t)d.dli_saddr)); return buf; }
    if (dladdr((void*)p, &d) && d.dli_fname) { snprintf(buf, n, "a static object"); return buf; }
    snprintf(buf, n, "a shared object"); return buf;
}
static void access(uintptr_t p, size_t n, bool write, const void* pc) {
    if (me < 0 || quiet || !n) return;
    if (p >= T[me].stk_lo && p < T[me].stk_hi) return;
    quiet++;
    X->accesses++;
    uint32_t* vc = T[me].vc;
    for (size_t i = 0; i < n;) {
        uintptr_t g = (p + i) >> 3; Cell* c = cell(g);
        if (!c) break;
        do {
            int b = (p + i) & 7;
            for (int u = 0; u < N; u++) {
                if (u == me) continue;
                bool ww = c->w[b][u] > vc[u], rr = write && c->r[b][u] > vc[u];
                if (ww || rr) { char a[300], f[300]; stop(1, "data race: thread %d %s %s, which thread %d %s without synchronisation (in %s)", me, write ? "writes" : "reads", where(p + i, a, sizeof a), u, ww ? "writes" : "reads", where((uintptr_t)pc, f, sizeof f)); }
            }
            if (write) c->w[b][me] = vc[me]; else c->r[b][me] = vc[me];
            i++;
        } while (i < n && (p + i) >> 3 == g);
    }
    quiet--;
}
static void* body_(void* a) {
    int t = (int)(intptr_t)a; me = t;
    await();
    T[t].body(t, T[t].arg);
    quiet++;
    T[t].done = 1;
    int left = 0; for (int i = 0; i < N; i++) left |= !T[i].done;
    if (left) { int c = decide(-1, true); hand(c); }
    me = -1;
    return nullptr;
}
static char *region;
void execute(Execution* x, int n, void (*body)(int, void*), void* arg) {
    X = x; N = n; x->npoints = 0; x->nops = 0; x->overflow = 0; x->error = 0; x->accesses = 0;
    const size_t ST = 4 << 20, AR = 256 << 20;
    region = (char*)mmap((void*)0x700000000000, n * (ST + AR), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    cells = (Cell*)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (region == MAP_FAILED || cells == MAP_FAILED) { stop(3, "no memory"); }
    active = true;
    for (int t = 0; t < n; t++) {
        Thr& h = T[t]; memset(&h, 0, sizeof h);
        h.stk_lo = (uintptr_t)region + t * (ST + AR); h.stk_hi = h.stk_lo + ST; h.arena = h.top = (char*)h.stk_hi; h.end = h.arena + AR; h.body = body; h.arg = arg; h.vc[t] = 1;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*)h.stk_lo, ST);
        if (pthread_create(&h.th, &at, body_, (void*)(intptr_t)t)) stop(3, "no thread");
    }
    { int c = decide(-1, true); __atomic_store_n(&turn, c, __ATOMIC_SEQ_CST); fwake(&turn); }
    for (int t = 0; t < n; t++) pthread_join(T[t].th, nullptr);
    active = false;
    x->granules = ncells;
}

// ---------------------------------------------------------------- memory: every thread has its own arena, nothing is reused
static bool in_arena(void* p) { return region && (char*)p >= region && (char*)p < region + (size_t)N * ((4 << 20) + (256u << 20)); }
static void* a_malloc(size_t n, size_t al) {
    Thr& h = T[me]; uintptr_t q = (uintptr_t)h.top + 16; if (al < 16) al = 16; q = (q + al - 1) & ~(al - 1);
    if (q + n > (uintptr_t)h.end) return nullptr;
    ((size_t*)q)[-1] = n; h.top = (char*)((q + n + 15) & ~15ull); memset((void*)q, 0xA5, n); return (void*)q;
}
static size_t a_size(void* p) { return in_arena(p) ? ((size_t*)p)[-1] : malloc_usable_size(p); }
}
using namespace sched;
extern "C" {
void* malloc(size_t n) { if (me >= 0) return a_malloc(n, 16); return __libc_malloc(n); }
void free(void* p) {
    if (!p) return;
    if (me >= 0) { access((uintptr_t)p, a_size(p), true, __builtin_return_address(0)); return; }
    if (in_arena(p)) return;
    __libc_free(p);
}
void* calloc(size_t a, size_t b) { if (me >= 0) { void* p = a_malloc(a * b, 16); if (p) memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void* realloc(void* q, size_t n) {
    if (me < 0 && !in_arena(q)) return __libc_realloc(q, n);
    void* p = malloc(n); if (p && q) { size_t o = a_size(q); memcpy(p, q, o < n ? o : n); free(q); } return p;
}
void* memalign(size_t a, size_t n) { if (me >= 0) return a_malloc(n, a); return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- what the instrumentation calls
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
#define RW(N) \
    void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
    void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { access((uintptr_t)p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, PC); return memset(d, c, n); }

// atomics: a visible operation each, executed while the thread holds the token
static inline bool on() { return me >= 0 && !quiet; }
static inline bool acq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void a_load(const volatile void* p, int mo) { quiet++; Sync* s = sync_of((const void*)p); if (acq(mo)) acquire(s); else join(T[me].acqp, s->vc); quiet--; }
static void a_store(const volatile void* p, int mo) { quiet++; Sync* s = sync_of((const void*)p); memset(s->vc, 0, sizeof s->vc); if (rel(mo)) release(s); else join(s->vc, T[me].relf); wake(p ? (const void*)p : nullptr); T[me].spin = 0; quiet--; }
static void a_rmw(const volatile void* p, int mo) { quiet++; Sync* s = sync_of((const void*)p); if (acq(mo)) acquire(s); else join(T[me].acqp, s->vc); if (rel(mo)) release(s); else join(s->vc, T[me].relf); quiet--; }
static void pt(const volatile void* p, bool w) { quiet++; point((const void*)p, w); quiet--; }
#define ATOM(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY* p, int mo) { if (on()) { pt(p, false); a_load(p, mo); } return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_store(p, mo); } __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_rmw(p, mo); } return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_rmw(p, mo); } return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_rmw(p, mo); } return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_rmw(p, mo); } return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_rmw(p, mo); } return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_rmw(p, mo); } return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) { if (on()) { pt(p, true); a_rmw(p, mo); } return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    static bool cas##B(volatile TY* p, TY* e, TY v, int mo, int fmo) { if (on()) { pt(p, true); bool ok = *p == *e; if (ok) a_rmw(p, mo); else a_load(p, fmo); } return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo) { return cas##B(p, e, v, mo, fmo); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo) { return cas##B(p, e, v, mo, fmo); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int fmo) { cas##B(p, &e, v, mo, fmo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
static int fence_;
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    pt(&fence_, false); quiet++;
    if (acq(mo)) join(T[me].vc, T[me].acqp);
    if (mo == __ATOMIC_SEQ_CST) { Sync* s = sync_of(&fence_); acquire(s); release(s); }
    if (rel(mo)) { memcpy(T[me].relf, T[me].vc, sizeof T[me].vc); T[me].vc[me]++; }
    quiet--;
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks, emulated
static int lock_(const void* m, int kind, bool try_) {   // kind: 0 exclusive, 1 exclusive and recursive, 2 shared
    quiet++; point(m, true);
    Sync* s = sync_of(m);
    for (;;) {
        int rd = 0; for (int i = 0; i < MAXT; i++) rd += s->readers[i];
        bool ok = kind == 2 ? s->owner < 0 : (s->owner < 0 && rd == 0) || (kind == 1 && s->owner == me);
        if (ok) break;
        if (try_) { quiet--; return EBUSY; }
        block(m);
    }
    if (kind == 2) s->readers[me]++; else { s->owner = me; s->count++; }
    acquire(s); T[me].spin = 0; quiet--; return 0;
}
static int unlock_(const void* m) {
    quiet++; point(m, true); Sync* s = sync_of(m);
    if (s->owner == me) { if (--s->count == 0) s->owner = -1; } else if (s->readers[me]) s->readers[me]--; else stop(1, "a thread unlocks what it has not locked");
    release(s); wake(m); quiet--; return 0;
}
#define WRAP(R, F, ...) R __real_##F(__VA_ARGS__); R __wrap_##F(__VA_ARGS__)
static int mkind(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE ? 1 : 0; }
WRAP(int, pthread_mutex_lock, pthread_mutex_t* m) { return on() ? lock_(m, mkind(m), false) : __real_pthread_mutex_lock(m); }
WRAP(int, pthread_mutex_trylock, pthread_mutex_t* m) { return on() ? lock_(m, mkind(m), true) : __real_pthread_mutex_trylock(m); }
WRAP(int, pthread_mutex_unlock, pthread_mutex_t* m) { return on() ? unlock_(m) : __real_pthread_mutex_unlock(m); }
WRAP(int, pthread_rwlock_rdlock, pthread_rwlock_t* m) { return on() ? lock_(m, 2, false) : __real_pthread_rwlock_rdlock(m); }
WRAP(int, pthread_rwlock_wrlock, pthread_rwlock_t* m) { return on() ? lock_(m, 0, false) : __real_pthread_rwlock_wrlock(m); }
WRAP(int, pthread_rwlock_tryrdlock, pthread_rwlock_t* m) { return on() ? lock_(m, 2, true) : __real_pthread_rwlock_tryrdlock(m); }
WRAP(int, pthread_rwlock_trywrlock, pthread_rwlock_t* m) { return on() ? lock_(m, 0, true) : __real_pthread_rwlock_trywrlock(m); }
WRAP(int, pthread_rwlock_unlock, pthread_rwlock_t* m) { return on() ? unlock_(m) : __real_pthread_rwlock_unlock(m); }
WRAP(int, sched_yield) { if (on()) { T[me].spin = 1000; pt(&fence_, false); } return 0; }
int once_(const void* o, void (*f)(), volatile int* real) {
    quiet++; point(o, true); Sync* s = sync_of(o);
    while (s->state == 1) block(o);
    if (s->state == 0 && real && *real != 0) s->state = 2;   // done before the threads started
    if (s->state == 2) { acquire(s); quiet--; return 0; }
    s->state = 1; acquire(s); quiet--;
    try { f(); } catch (...) { quiet++; s->state = 0; release(s); wake(o); quiet--; throw; }
    quiet++; point(o, true); s->state = 2; release(s); wake(o); quiet--; return 0;
}
WRAP(int, pthread_once, pthread_once_t* o, void (*f)()) { if (!on()) return __real_pthread_once(o, f); return once_(o, f, o); }
// initialisation of function-local statics
int __cxa_guard_acquire(uint64_t* g) {
    char* b = (char*)g;
    if (!on()) return *b == 0;
    quiet++; point(g, true); Sync* s = sync_of(g);
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { acquire(s); quiet--; return 0; }
        if (s->state == 0) { s->state = 1; acquire(s); quiet--; return 1; }
        block(g);
    }
}
void __cxa_guard_release(uint64_t* g) { if (on()) { quiet++; point(g, true); Sync* s = sync_of(g); s->state = 0; release(s); wake(g); quiet--; } __atomic_store_n((char*)g, 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(uint64_t* g) { if (on()) { quiet++; point(g, true); Sync* s = sync_of(g); s->state = 0; release(s); wake(g); quiet--; } }
// ---------------------------------------------------------------- the C library
#define RD(p, n) access((uintptr_t)(p), (n), false, PC)
#define WR(p, n) access((uintptr_t)(p), (n), true, PC)
WRAP(void*, memcpy, void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return __real_memcpy(d, s, n); }
WRAP(void*, memmove, void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return __real_memmove(d, s, n); }
WRAP(void*, memset, void* d, int c, size_t n) { WR(d, n); return __real_memset(d, c, n); }
WRAP(int, memcmp, const void* a, const void* b, size_t n) { RD(a, n); RD(b, n); return __real_memcmp(a, b, n); }
WRAP(int, bcmp, const void* a, const void* b, size_t n) { RD(a, n); RD(b, n); return __real_bcmp(a, b, n); }
WRAP(void*, memchr, const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); RD(a, r ? (size_t)((char*)r - (char*)a) + 1 : n); return r; }
WRAP(size_t, strlen, const char* s) { size_t n = __real_strlen(s); RD(s, n + 1); return n; }
WRAP(char*, strcpy, char* d, const char* s) { size_t n = __real_strlen(s) + 1; RD(s, n); WR(d, n); return __real_strcpy(d, s); }
WRAP(char*, strncpy, char* d, const char* s, size_t n) { RD(s, strnlen(s, n)); WR(d, n); return __real_strncpy(d, s, n); }
WRAP(char*, strcat, char* d, const char* s) { size_t n = __real_strlen(s) + 1, m = __real_strlen(d); RD(s, n); RD(d, m); WR(d + m, n); return __real_strcat(d, s); }
WRAP(int, strcmp, const char* a, const char* b) { RD(a, __real_strlen(a) + 1); RD(b, __real_strlen(b) + 1); return __real_strcmp(a, b); }
WRAP(int, vsnprintf, char* d, size_t n, const char* f, va_list ap) { int r = __real_vsnprintf(d, n, f, ap); if (r >= 0) WR(d, (size_t)r + 1 < n ? (size_t)r + 1 : n); return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __real_vsnprintf(d, n, f, ap); va_end(ap); if (r >= 0) WR(d, (size_t)r + 1 < n ? (size_t)r + 1 : n); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); if (r >= 0) WR(d, (size_t)r + 1); return r; }
static int libc_state;   // functions of the C library that are documented not to be thread-safe
WRAP(char*, strtok, char* s, const char* d) { WR(&libc_state, 4); return __real_strtok(s, d); }
WRAP(int, rand) { return __real_rand(); }
WRAP(char*, setlocale, int c, const char* l) { WR(&libc_state, 4); return __real_setlocale(c, l); }
WRAP(int, feholdexcept, void* e) { return __real_feholdexcept(e); }
}
