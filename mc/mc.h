// Explicit-state exploration engine: enumerates finite spaces of cases, runs every case on the real
// library in forked, deterministic strands, contains crashes and hangs, and replays every failure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Space {
    std::string name;                                   // unique, stable
    uint64_t n = 0;                                     // number of cases, all of them are run
    std::function<void(uint64_t)> run;                  // one case: drives the library and the model in lockstep
    std::function<std::string(uint64_t)> describe;      // the case, written out
    unsigned strands = 32;                              // deterministic partition into processes
    unsigned hang_s = 20;                               // a case running longer than this is examined as a hang
    uint64_t mem = 0;                                   // address-space limit override (bytes)
    bool serial = false;                                // needs the machine for itself (huge memory)
};

// level: 0 = reduced (used under sanitizers / in build-configuration products), 1 = quick, 2 = thorough
struct Registry {
    int level = 1;
    std::vector<Space> spaces;
    void add(Space s) { spaces.push_back(std::move(s)); }
};
using Module = void (*)(Registry&);
struct ModuleReg {
    ModuleReg(const char* name, Module m);
};
#define MC_MODULE(NAME) \
    static void mc_register_##NAME(mc::Registry& R); \
    static mc::ModuleReg mc_reg_##NAME(#NAME, mc_register_##NAME); \
    static void mc_register_##NAME(mc::Registry& R)

// ---- used while a case runs ----
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail_str(const std::string& s);
[[noreturn]] void broken(const std::string& s);   // the check itself does not work
void state(uint64_t fingerprint);      // a state of the explored machine was reached
void outcome(uint64_t fingerprint);    // an observed result (to count distinct outcomes)
extern uint64_t g_transitions;         // operations applied to the implementation
extern uint64_t g_skipped;             // cases skipped (construction impossible), reported
inline void step(uint64_t k = 1) { g_transitions += k; }
bool replaying();
extern bool g_sanitizer;               // the binary is sanitizer-instrumented

inline uint64_t mix(uint64_t h) {
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h;
}
inline uint64_t comb(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15); }
inline uint64_t fp_bytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = seed;
    while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = comb(h, w); c += 8; n -= 8; }
    uint64_t w = 0; if (n) memcpy(&w, c, n);
    return comb(h, w ^ (uint64_t(n) << 56));
}
inline uint64_t fp_str(const std::string& s) { return fp_bytes(s.data(), s.size()); }

int main_(int argc, char** argv);
}
