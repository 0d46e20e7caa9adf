#ifndef VERIF_RT27_H
#define VERIF_RT27_H
#include <stdint.h>
namespace rt27 {
struct Access {
    uint64_t addr, pos;
    uint32_t size;
    bool write;
};
struct Switch {  // hand over when this thread reaches its pos-th function entry / memory access
    int thread;
    bool entry;
    uint64_t pos;
};
struct Stats {
    uint64_t accesses[2], entries[2], trace_len[2], switches;
    Access* trace[2];
    bool deadlock;
};
// Runs f0 and f1 in a thread each, one at a time: 'first' starts, permission moves at the given switches, in order, and
// when a thread ends.
Stats run(void (*f0)(void*), void* a0, void (*f1)(void*), void* a1, int first, const Switch* sw, uint64_t n, bool tracing);
}  // namespace rt27
#endif
