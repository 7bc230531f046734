// Interposes the allocator: counts live blocks, and makes chosen allocations fail (C18 leaks, C19 faults).
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static long live_, count_, fail_at_; static int armed_, persistent_, failed_;
long mc_live() { return live_; }
// from now on the at-th allocation fails (and all later ones, if persistent); 0: none fails, only count
void mc_arm(long at, int persistent) { count_ = 0; fail_at_ = at; persistent_ = persistent; failed_ = 0; armed_ = 1; }
long mc_disarm() { armed_ = 0; return count_; }
int mc_failed() { return failed_; }
static bool refuse() {
    if (!armed_) return false;
    count_++;
    if (fail_at_ && (persistent_ ? count_ >= fail_at_ : count_ == fail_at_)) { failed_++; return true; }
    return false;
}
void* malloc(size_t n) { if (refuse()) { errno = ENOMEM; return nullptr; } void* p = __libc_malloc(n); if (p) live_++; return p; }
void free(void* p) { if (p) live_--; __libc_free(p); }
void* calloc(size_t a, size_t b) { if (refuse()) { errno = ENOMEM; return nullptr; } void* p = __libc_calloc(a, b); if (p) live_++; return p; }
void* realloc(void* q, size_t n) { if (refuse()) { errno = ENOMEM; return nullptr; } void* p = __libc_realloc(q, n); if (!q && p) live_++; if (q && n == 0 && !p) live_--; return p; }
void* memalign(size_t a, size_t n) { if (refuse()) { errno = ENOMEM; return nullptr; } void* p = __libc_memalign(a, n); if (p) live_++; return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
static void* get(size_t n) { for (;;) { void* p = malloc(n ? n : 1); if (p) return p; std::new_handler h = std::get_new_handler(); if (!h) throw std::bad_alloc(); h(); } }
static void* nt(size_t n) noexcept { return malloc(n ? n : 1); }
static void* geta(size_t n, std::align_val_t a) { void* p = memalign((size_t)a, n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nt(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nt(n); }
void* operator new(size_t n, std::align_val_t a) { return geta(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return geta(n, a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
