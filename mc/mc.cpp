#include "mc.h"
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <csignal>
#include <algorithm>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define MC_SAN 1
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define MC_SAN 1
#endif
#endif

namespace mc {
uint64_t g_transitions = 0, g_skipped = 0;
#ifdef MC_SAN
bool g_sanitizer = true;
#else
bool g_sanitizer = false;
#endif

static std::vector<std::pair<std::string, Module>>& modules() {
    static std::vector<std::pair<std::string, Module>> m;
    return m;
}
ModuleReg::ModuleReg(const char* name, Module m) { modules().push_back({name, m}); }

extern "C" long mc_live() __attribute__((weak));   // live heap blocks, when the allocator is interposed

struct Slot {
    volatile uint64_t idx;      // case being run
    volatile uint64_t done;     // cases completed
    volatile int status;        // 0 running, 1 finished, 2 violation
    char msg[6000];
};
struct Totals {
    uint64_t transitions, skipped, cases;
    uint64_t nstates, noutcomes;
    uint64_t states_full, outcomes_full;
};
static Slot* g_slot;           // of this child
static Totals* T;
static uint64_t* g_tab_s; static uint64_t g_mask_s;
static uint64_t* g_tab_o; static uint64_t g_mask_o;
static bool g_replay;
static uint64_t g_new_s, g_new_o;
bool replaying() { return g_replay; }

static void insert(uint64_t* tab, uint64_t mask, uint64_t fp, uint64_t& fresh, uint64_t& total, uint64_t& full) {
    if (!tab) return;
    if (!fp) fp = 1;
    uint64_t i = fp & mask;
    for (int probes = 0; probes < 64; probes++, i = (i + 1) & mask) {
        uint64_t cur = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
        if (cur == fp) return;
        if (cur == 0) {
            uint64_t exp = 0;
            if (__atomic_compare_exchange_n(&tab[i], &exp, fp, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { fresh++; return; }
            if (exp == fp) return;
        }
    }
    __atomic_add_fetch(&full, 1, __ATOMIC_RELAXED);   // table saturated here: the count is a lower bound
    (void)total;
}
void state(uint64_t fp) { insert(g_tab_s, g_mask_s, mix(fp), g_new_s, T->nstates, T->states_full); }
void outcome(uint64_t fp) { insert(g_tab_o, g_mask_o, mix(fp ^ 0x5bd1e995), g_new_o, T->noutcomes, T->outcomes_full); }

void fail_str(const std::string& s) {
    snprintf(g_slot->msg, sizeof g_slot->msg, "%s", s.c_str());
    g_slot->status = 2;
    _exit(77);
}
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_slot->msg, sizeof g_slot->msg, fmt, ap);
    va_end(ap);
    g_slot->status = 2;
    _exit(77);
}

void broken(const std::string& m) {
    snprintf(g_slot->msg, sizeof g_slot->msg, "%s", m.c_str());
    g_slot->status = 3;
    _exit(76);
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string demangle(const char* n) {
    int st; char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d ? d : n; free(d); return r;
}

static uint64_t g_mem = 2560ull << 20;   // the address space of a worker, on top of what it starts with (tables, operands)
static std::set<std::string> g_known;   // "space|describe" of recorded findings

// run cases [from,to) of space s in this (child) process
[[noreturn]] static void child(const Space& s, uint64_t from, uint64_t to, Slot* slot) {
    g_slot = slot;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!g_sanitizer) {
        uint64_t m = s.mem ? s.mem : g_mem, pages = 0;
        if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%lu", &pages) != 1) pages = 0; fclose(f); }
        m += pages ? pages * 4096 : 8ull << 30;
        rlimit rl{m, m}; setrlimit(RLIMIT_AS, &rl);
    }
    rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    rlimit st{512u << 20, 512u << 20}; (void)st;
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0 && !getenv("MC_STDERR")) {
        if (!g_sanitizer) dup2(fd, 2);
    }
    const bool leaks = mc_live != nullptr && getenv("MC_LEAKS");
    g_transitions = g_skipped = 0; g_new_s = g_new_o = 0;
    uint64_t done = 0;
    for (uint64_t i = from; i < to; i++) {
        slot->idx = i;
        try {
            s.run(i);
            if (leaks) {   // what a call allocates and keeps once may be a cache; what it keeps every time is lost
                long a = mc_live(); s.run(i); long b = mc_live(); s.run(i); long c = mc_live();
                if (b > a && c > b) fail("memory leak: %ld blocks remain allocated after each repetition of the case", c - b);
            }
        } catch (const std::exception& e) {
            fail("unexpected exception %s: %s", demangle(typeid(e).name()).c_str(), e.what());
        } catch (...) {
            fail("unexpected exception of unknown type");
        }
        slot->done = ++done;
    }
    __atomic_add_fetch(&T->transitions, g_transitions, __ATOMIC_RELAXED);
    __atomic_add_fetch(&T->skipped, g_skipped, __ATOMIC_RELAXED);
    __atomic_add_fetch(&T->cases, done, __ATOMIC_RELAXED);
    __atomic_add_fetch(&T->nstates, g_new_s, __ATOMIC_RELAXED);
    __atomic_add_fetch(&T->noutcomes, g_new_o, __ATOMIC_RELAXED);
    slot->status = 1;
    _exit(0);
}

struct Outcome { int kind = 0; /*0 ok 1 violation 2 hang 3 killed*/ std::string msg; uint64_t idx = 0; };

static std::string slurp(const std::string& p, size_t max = 3000) {
    std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); std::string r = ss.str();
    if (r.size() > max) r.resize(max);
    return r;
}
static std::string g_tmp;     // scratch directory for sanitizer logs

static Outcome classify(const Space&, Slot* slot, int st, bool hung, const std::string& errfile) {
    Outcome o; o.idx = slot->idx;
    if (hung) { o.kind = 2; o.msg = "does not terminate"; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot->status == 1) return o;
    if (slot->status == 2) { o.kind = 1; o.msg = slot->msg; return o; }
    if (slot->status == 3) { o.kind = 4; o.msg = slot->msg; return o; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGTERM || WTERMSIG(st) == SIGINT)) {
        o.kind = 3; o.msg = "killed"; return o;
    }
    o.kind = 1;
    std::string err = errfile.empty() ? "" : slurp(errfile);
    char b[200];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(b, sizeof b, "process ended with status %d", WEXITSTATUS(st));
    o.msg = b;
    if (!err.empty()) o.msg += "\n" + err;
    return o;
}

static pid_t spawn(const Space& s, uint64_t a, uint64_t b, Slot* slot, const std::string& errfile) {
    slot->idx = a; slot->done = 0; slot->status = 0; slot->msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        if (!errfile.empty()) {
            int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (fd >= 0) dup2(fd, 2);
        }
        child(s, a, b, slot);
    }
    return p;
}

// run one range in a fresh process and wait for it
static Outcome run_range(const Space& s, uint64_t a, uint64_t b, unsigned hang_s) {
    Slot* slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string ef = g_tmp + "/err.replay";
    pid_t p = spawn(s, a, b, slot, ef);
    uint64_t last = ~0ull; double t = now(); bool hung = false; int st;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (slot->idx != last) { last = slot->idx; t = now(); }
        else if (now() - t > hang_s) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(500);
    }
    Outcome o = classify(s, slot, st, hung, ef);
    munmap(slot, sizeof(Slot));
    return o;
}

struct Task { size_t space; uint64_t a, b; };
struct Violation { size_t space; uint64_t a, idx; Outcome o; };

static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

int main_(int argc, char** argv) {
    std::string property, out, replay_dir = ".", replay, knownf; std::vector<std::string> mods, only;
    int level = 1, jobs = 8; double budget = 1e9; unsigned hang_scale = 1; unsigned tabbits = 24;
    std::string prefix;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return std::string(argv[++i]); };
        if (a == "--property") property = nx();
        else if (a == "--module") mods.push_back(nx());
        else if (a == "--space") only.push_back(nx());
        else if (a == "--level") level = atoi(nx().c_str());
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--replay-dir") replay_dir = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--known") knownf = nx();
        else if (a == "--hang-scale") hang_scale = atoi(nx().c_str());
        else if (a == "--tabbits") tabbits = atoi(nx().c_str());
        else if (a == "--mem") g_mem = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--list") only.push_back("\1list");
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (getenv("MC_SANITIZED")) g_sanitizer = true;
    // fixed addresses, so that a failing history fails again when it is replayed
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_REEXEC")) {
        setenv("MC_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (!g_sanitizer) { const char* p = getenv("MC_PERTURB"); mallopt(M_PERTURB, p ? atoi(p) : 0xA5); }
    char tmpl[] = "/tmp/mcXXXXXX"; g_tmp = mkdtemp(tmpl);
    struct Rm { ~Rm() { std::string c = g_tmp; for (const char* f : {"/err.replay"}) unlink((c + f).c_str());
        for (int i = 0; i < 256; i++) unlink((c + "/err." + std::to_string(i)).c_str()); rmdir(c.c_str()); } } rm;

    std::map<std::string, uint64_t> rp; std::string rspace;
    if (!replay.empty()) {
        std::ifstream f(replay); std::string line;
        mods.clear();
        while (std::getline(f, line)) {
            auto p = line.find('='); if (p == std::string::npos) continue;
            std::string k = line.substr(0, p), v = line.substr(p + 1);
            if (k == "property") property = v;
            else if (k == "module") mods.push_back(v);
            else if (k == "space") rspace = v;
            else if (k == "level") level = atoi(v.c_str());
            else if (k == "from" || k == "to") rp[k] = strtoull(v.c_str(), nullptr, 10);
        }
        g_replay = true;
    }
    if (!knownf.empty()) { std::ifstream f(knownf); std::string line; while (std::getline(f, line)) if (!line.empty()) g_known.insert(line); }

    Registry R; R.level = level;
    std::vector<std::string> smod;
    for (auto& m : modules()) {
        if (!mods.empty() && std::find(mods.begin(), mods.end(), m.first) == mods.end()) continue;
        size_t before = R.spaces.size();
        m.second(R);
        for (size_t i = before; i < R.spaces.size(); i++) smod.push_back(m.first);
    }
    if (R.spaces.empty()) { fprintf(stderr, "no spaces\n"); return 2; }
    if (only.size() == 1 && only[0] == "\1list") {
        for (size_t i = 0; i < R.spaces.size(); i++) printf("%-4s %-50s %12llu  e.g. %s\n", smod[i].c_str(), R.spaces[i].name.c_str(), (unsigned long long)R.spaces[i].n, R.spaces[i].n ? R.spaces[i].describe(R.spaces[i].n / 2).substr(0,100).c_str() : "");
        return 0;
    }

    T = (Totals*)mmap(nullptr, sizeof(Totals), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    if (!replay.empty()) {
        for (size_t k = 0; k < R.spaces.size(); k++) if (R.spaces[k].name == rspace) {
            auto& s = R.spaces[k];
            printf("replay: space %s cases [%llu,%llu): last case %s\n", s.name.c_str(), (unsigned long long)rp["from"], (unsigned long long)rp["to"], s.describe(rp["to"] - 1).c_str());
            Outcome o = run_range(s, rp["from"], rp["to"], s.hang_s * 4 * hang_scale);
            if (o.kind == 0) { printf("held\n"); return 0; }
            printf("VIOLATION property=%s replay=%s\n%s\n", property.c_str(), replay.c_str(), o.msg.c_str());
            return 1;
        }
        fprintf(stderr, "no space %s\n", rspace.c_str()); return 2;
    }

    auto table = [&](unsigned bits, uint64_t& mask) {
        void* p = mmap(nullptr, 8ull << bits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mask = (1ull << bits) - 1; return p == MAP_FAILED ? nullptr : (uint64_t*)p;
    };
    g_tab_s = table(tabbits, g_mask_s); g_tab_o = table(tabbits, g_mask_o);

    double t0 = now();
    std::vector<Task> tasks;
    for (int pass = 0; pass < 2; pass++)
    for (size_t k = 0; k < R.spaces.size(); k++) {
        auto& s = R.spaces[k];
        if (s.serial != (pass == 1)) continue;
        if (!only.empty() && std::find(only.begin(), only.end(), s.name) == only.end()) continue;
        uint64_t ns = std::max<uint64_t>(1, std::min<uint64_t>(s.strands, s.n));
        if (s.n == 0) continue;
        for (uint64_t j = 0; j < ns; j++) {
            uint64_t a = (uint64_t)((__uint128_t)s.n * j / ns), b = (uint64_t)((__uint128_t)s.n * (j + 1) / ns);
            if (a < b) tasks.push_back({k, a, b});
        }
    }
    struct Run { pid_t pid = 0; Task t; Slot* slot; uint64_t last; double since; std::string ef; double cpu; };
    std::vector<Run> run(jobs);
    for (auto& r : run) r.slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < jobs; i++) run[i].ef = g_tmp + "/err." + std::to_string(i);
    std::vector<Violation> found; std::vector<std::string> known_hit;
    std::map<uint64_t, int> killed_retry;
    size_t next = 0; size_t live = 0; bool stop = false; int rc = 0;
    std::vector<double> wall(R.spaces.size(), 0); std::vector<uint64_t> done_tasks(R.spaces.size(), 0);
    std::vector<Task> requeue;
    auto cputime = [](pid_t p) -> double {   // user+sys seconds of a child, to tell a hang from a starved machine
        std::ifstream f("/proc/" + std::to_string(p) + "/stat"); std::string l; std::getline(f, l);
        auto q = l.rfind(')'); if (q == std::string::npos) return 0;
        std::istringstream is(l.substr(q + 2)); std::string w; double u = 0;
        for (int i = 0; i < 13 && (is >> w); i++) if (i >= 11) u += atof(w.c_str());
        return u / sysconf(_SC_CLK_TCK);
    };
    while (true) {
        // start
        if (!stop) for (auto& r : run) if (!r.pid) {
            Task t;
            if (!requeue.empty()) { t = requeue.back(); }
            else if (next < tasks.size()) t = tasks[next];
            else break;
            if (R.spaces[t.space].serial && live > 0) break;
            bool serial_live = false;
            for (auto& q : run) if (q.pid && R.spaces[q.t.space].serial) serial_live = true;
            if (serial_live) break;
            if (!requeue.empty()) requeue.pop_back(); else next++;
            r.t = t; r.last = ~0ull; r.since = now(); r.cpu = 0;
            r.pid = spawn(R.spaces[t.space], t.a, t.b, r.slot, r.ef);
            live++;
        }
        if (live == 0) break;
        for (auto& r : run) if (r.pid) {
            int st; pid_t p = waitpid(r.pid, &st, WNOHANG);
            auto& s = R.spaces[r.t.space];
            bool hung = false;
            if (p == 0) {
                uint64_t cur = r.slot->idx * 1000003ull + r.slot->done;
                if (cur != r.last) { r.last = cur; r.since = now(); r.cpu = -1; }
                else if (now() - r.since > s.hang_s * hang_scale) {
                    hung = true; kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0);
                }
                if (!hung) continue;
            }
            live--; r.pid = 0;
            Outcome o = classify(s, r.slot, st, hung, r.ef);
            if (o.kind == 0) { done_tasks[r.t.space]++; continue; }
            if (o.kind == 4) { fprintf(stderr, "error: the check is broken: %s case %llu: %s\n", s.name.c_str(), (unsigned long long)o.idx, o.msg.c_str()); rc = 2; stop = true; continue; }
            if (o.kind == 3) {
                if (killed_retry[r.t.a * 4096 + r.t.space]++ < 2) { requeue.push_back(r.t); continue; }
                fprintf(stderr, "error: case range [%llu,%llu) of %s was killed repeatedly\n", (unsigned long long)r.t.a, (unsigned long long)r.t.b, s.name.c_str());
                rc = 2; stop = true; continue;
            }
            if (g_known.count(s.name + "|" + s.describe(o.idx))) {
                known_hit.push_back(s.name + "|" + s.describe(o.idx));
                if (o.idx + 1 < r.t.b) requeue.push_back({r.t.space, o.idx + 1, r.t.b});
                continue;
            }
            if (o.kind == 2) {   // a suspected hang is examined alone, and then with its history, before it is believed
                unsigned lim = s.hang_s * 4 * hang_scale;
                if (run_range(s, o.idx, o.idx + 1, lim).kind == 0 && run_range(s, r.t.a, o.idx + 1, lim).kind == 0) {
                    if (o.idx + 1 < r.t.b) requeue.push_back({r.t.space, o.idx + 1, r.t.b});
                    continue;
                }
            }
            found.push_back({r.t.space, r.t.a, o.idx, o}); stop = true;
            for (auto& q : run) if (q.pid) { kill(q.pid, SIGKILL); int st2; waitpid(q.pid, &st2, 0); q.pid = 0; live--; }
        }
        usleep(300);
        (void)cputime; (void)budget;
    }
    std::string vio_replay, vio_msg, vio_desc, vio_space;
    if (!found.empty()) {
        std::sort(found.begin(), found.end(), [](const Violation& x, const Violation& y) { return x.space != y.space ? x.space < y.space : x.idx < y.idx; });
        bool ok = false;
        for (auto& v : found) {
            auto& s = R.spaces[v.space];
            uint64_t from = v.idx; Outcome o; bool rep = false;
            unsigned lim = s.hang_s * 4 * hang_scale;
            // replay alone, then with growing histories, then the whole strand
            o = run_range(s, v.idx, v.idx + 1, lim); rep = o.kind == 1 || o.kind == 2;
            if (!rep && v.o.kind != 2) {
                for (uint64_t w = 2; !rep; w *= 8) {
                    from = v.idx - v.a >= w ? v.idx - w : v.a;
                    o = run_range(s, from, v.idx + 1, lim); rep = (o.kind == 1 || o.kind == 2);
                    if (from == v.a) break;
                }
                for (int t = 0; t < 2 && !rep; t++) { from = v.a; o = run_range(s, v.a, v.idx + 1, lim); rep = (o.kind == 1 || o.kind == 2); }
            }
            if (!rep) { fprintf(stderr, "note: not reproduced: %s case %llu: %s\n", s.name.c_str(), (unsigned long long)v.idx, v.o.msg.c_str()); continue; }
            if (o.idx != v.idx) v.idx = o.idx;
            ok = true;
            std::string path = replay_dir + "/" + property + ".replay";
            std::ofstream f(path);
            f << "property=" << property << "\nmodule=" << smod[v.space] << "\nlevel=" << level << "\nspace=" << s.name << "\nfrom=" << from << "\nto=" << v.idx + 1 << "\n";
            f << "# case: " << s.describe(v.idx) << "\n";
            std::istringstream is(o.msg); std::string l; while (std::getline(is, l)) f << "# " << l << "\n";
            vio_replay = path; vio_msg = o.msg; vio_desc = s.describe(v.idx); vio_space = s.name;
            break;
        }
        if (!ok) rc = 2; else rc = 1;
    }
    double dt = now() - t0;
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"property\":\"" << property << "\",\"level\":" << level << ",\"rc\":" << rc << ",\"wall_s\":" << dt;
        f << ",\"cases\":" << T->cases << ",\"transitions\":" << T->transitions << ",\"skipped\":" << T->skipped;
        f << ",\"states\":" << T->nstates << ",\"states_lower_bound\":" << (T->states_full ? "true" : "false");
        f << ",\"outcomes\":" << T->noutcomes;
        f << ",\"complete\":" << (rc == 0 && !stop ? "true" : "false");
        f << ",\"known\":["; for (size_t i = 0; i < known_hit.size(); i++) f << (i ? "," : "") << "\"" << jesc(known_hit[i]) << "\""; f << "]";
        if (rc == 1) f << ",\"violation\":{\"space\":\"" << jesc(vio_space) << "\",\"case\":\"" << jesc(vio_desc) << "\",\"msg\":\"" << jesc(vio_msg) << "\",\"replay\":\"" << jesc(vio_replay) << "\"}";
        f << ",\"spaces\":[";
        bool first = true;
        for (size_t k = 0; k < R.spaces.size(); k++) {
            auto& s = R.spaces[k];
            if (s.n == 0) continue;
            if (!only.empty() && std::find(only.begin(), only.end(), s.name) == only.end()) continue;
            f << (first ? "" : ",") << "{\"name\":\"" << jesc(s.name) << "\",\"cases\":" << s.n << ",\"sample\":\"" << jesc(s.describe(s.n / 2).substr(0, 300)) << "\"}";
            first = false;
        }
        f << "]}\n";
    }
    if (rc == 1) {
        printf("case: %s: %s\n%s\n", vio_space.c_str(), vio_desc.substr(0, 2000).c_str(), vio_msg.substr(0, 3000).c_str());
        printf("VIOLATION property=%s replay=%s\n", property.c_str(), vio_replay.c_str());
    }
    fflush(stdout);
    return rc;
}
}
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main_(argc, argv); }
#endif
