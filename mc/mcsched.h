// Stateless model checker for threads: the library is compiled with -fsanitize=thread, and this runtime takes the place
// of ThreadSanitizer's. It serialises the threads, decides at every synchronisation operation who runs next, and checks
// every memory access for happens-before races. Since executions without races are determined by the order of their
// synchronisation operations, choosing at those alone covers every interleaving of the accesses in between.
#pragma once
#include <cstdint>
namespace sched {
constexpr int MAXT = 4, MAXP = 4096, MAXO = 1 << 16;
struct Point { uint8_t enabled, cur, chosen, free_switch; };   // who could run, who ran before, who was chosen
struct Sop { const void* obj; int point; uint8_t thread, write; };   // a synchronisation operation, in the order of execution
struct Execution {             // shared between the process that explores and the one that executes
    int nprefix; uint8_t prefix[MAXP];
    int npoints; Point points[MAXP];
    int nops; Sop ops[MAXO];
    int overflow;              // more points than MAXP: the rest ran without choices
    uint64_t accesses;         // instrumented memory accesses
    uint64_t granules;         // distinct 8-byte words touched
    int error;                 // 0 none, 1 race, 2 deadlock, 3 no progress
    char msg[1500];
};
// runs body(t) for t in [0,n) as threads under the schedule x->prefix (then without preemptions)
void execute(Execution* x, int n, void (*body)(int t, void* arg), void* arg);
}
