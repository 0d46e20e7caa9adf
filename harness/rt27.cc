// Controlled scheduling of two real threads at the memory accesses of instrumented code. The code under test is compiled
// with -fsanitize=thread but linked against these callbacks instead of the sanitizer's: every access is a point where the
// scheduler may hand the only run permission to the other thread. This file itself is not instrumented.
#include "rt27.h"

#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>

static rt27::Access* g_trace[2];
static uint64_t g_cap[2], g_len[2];
static bool g_tracing, g_deadlock;
static sem_t g_sem[2], g_ready;
static volatile bool g_done[2];
static const rt27::Switch* g_sw;
static uint64_t g_nsw, g_at;
static uint64_t g_count[2], g_entries[2], g_switches;
static thread_local int me = -1;

namespace {
void hand_over() {  // the other thread runs; returns when permission comes back
    int o = 1 - me;
    if (g_done[o]) return;
    g_switches++;
    sem_post(&g_sem[o]);
    while (sem_wait(&g_sem[me])) {
    }
}
inline void point(bool entry) {
    uint64_t k = entry ? g_entries[me]++ : g_count[me]++;
    if (g_at < g_nsw) {
        auto& s = g_sw[g_at];
        if (s.thread == me && s.entry == entry && s.pos == k) {
            g_at++;
            hand_over();
        }
    }
}
inline void access(void* p, uint32_t size, bool write) {
    if (me < 0) return;
    if (g_tracing) {
        if (g_len[me] == g_cap[me]) {
            g_cap[me] = g_cap[me] ? g_cap[me] * 2 : 65536;
            g_trace[me] = (rt27::Access*)realloc(g_trace[me], g_cap[me] * sizeof(rt27::Access));
        }
        g_trace[me][g_len[me]++] = {(uint64_t)p, g_count[me], size, write};
    }
    point(false);
}
struct Job {
    int id;
    void (*f)(void*);
    void* arg;
};
void* body(void* v) {
    Job* j = (Job*)v;
    void* volatile mine = malloc(64);  // takes a heap arena of its own while the other thread is alive
    free(mine);
    sem_post(&g_ready);
    while (sem_wait(&g_sem[j->id])) {
    }
    me = j->id;
    j->f(j->arg);
    me = -1;
    g_done[j->id] = true;
    sem_post(&g_sem[1 - j->id]);
    return nullptr;
}
}  // namespace
namespace rt27 {
Stats run(void (*f0)(void*), void* a0, void (*f1)(void*), void* a1, int first, const Switch* sw, uint64_t n, bool tracing) {
    g_tracing = tracing;
    g_sw = sw;
    g_nsw = n;
    g_at = 0;
    g_switches = 0;
    g_deadlock = false;
    for (int k = 0; k < 2; k++) {
        g_len[k] = g_count[k] = g_entries[k] = 0;
        g_done[k] = false;
        sem_init(&g_sem[k], 0, 0);
    }
    sem_init(&g_ready, 0, 0);
    Job j[2] = {{0, f0, a0}, {1, f1, a1}};
    pthread_t t[2];
    for (int k = 0; k < 2; k++)
        if (pthread_create(&t[k], nullptr, body, &j[k])) abort();
    for (int k = 0; k < 2; k++)
        while (sem_wait(&g_ready)) {
        }
    sem_post(&g_sem[first]);
    pthread_join(t[0], nullptr);
    pthread_join(t[1], nullptr);
    Stats s;
    for (int k = 0; k < 2; k++) s.accesses[k] = g_count[k], s.entries[k] = g_entries[k], s.trace[k] = g_trace[k], s.trace_len[k] = g_len[k];
    s.switches = g_switches;
    s.deadlock = g_deadlock;
    return s;
}
}  // namespace rt27

// A thread that needs what the other one holds lets it go on.
static bool give_way() {
    if (g_done[1 - me]) {
        g_deadlock = true;
        return false;
    }
    hand_over();
    return true;
}
extern "C" {
int __real___cxa_guard_acquire(uint64_t* g);
int __wrap___cxa_guard_acquire(uint64_t* g) {
    while (me >= 0 && !*(volatile char*)g && ((volatile char*)g)[1])
        if (!give_way()) break;
    return __real___cxa_guard_acquire(g);
}
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (me < 0) return __real_pthread_mutex_lock(m);
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        if (!give_way()) return __real_pthread_mutex_lock(m);
    }
}
int __real_pthread_once(pthread_once_t* o, void (*f)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (me < 0) return __real_pthread_once(o, f);
    volatile int* s = (volatile int*)o;  // bit 1: done, bit 0: being done (as in the C library)
    while (*s & 1)
        if (!give_way()) break;
    return __real_pthread_once(o, f);
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    int r = EBUSY;
    while (me >= 0 && (r = pthread_rwlock_tryrdlock(m)) == EBUSY && give_way()) {
    }
    return r == EBUSY ? __real_pthread_rwlock_rdlock(m) : r;
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    int r = EBUSY;
    while (me >= 0 && (r = pthread_rwlock_trywrlock(m)) == EBUSY && give_way()) {
    }
    return r == EBUSY ? __real_pthread_rwlock_wrlock(m) : r;
}
void __tsan_init() {}
void __tsan_func_entry(void*) {
    if (me >= 0) point(true);
}
void __tsan_func_exit() {}
#define RW(N)                                                           \
    void __tsan_read##N(void* p) { access(p, N, false); }               \
    void __tsan_write##N(void* p) { access(p, N, true); }               \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false); }     \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true); }     \
    void __tsan_volatile_read##N(void* p) { access(p, N, false); }      \
    void __tsan_volatile_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, (uint32_t)n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, (uint32_t)n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
// A thread that spins on an atomic object lets the other one go on.
static void* g_spin_at;
static uint32_t g_spins;
static void atomic_access(void* p, uint32_t size, bool write) {
    access(p, size, write);
    if (me < 0) return;
    if (p != g_spin_at) g_spin_at = p, g_spins = 0;
    if (++g_spins >= 1000) {
        g_spins = 0;
        hand_over();
    }
}
#define AT(B, T)                                                                                                                   \
    T __tsan_atomic##B##_load(const volatile T* a, int) { atomic_access((void*)a, B / 8, false); return __atomic_load_n(a, 5); }            \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); __atomic_store_n(a, v, 5); }             \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); return __atomic_exchange_n(a, v, 5); }   \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); return __atomic_fetch_add(a, v, 5); }   \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); return __atomic_fetch_sub(a, v, 5); }   \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); return __atomic_fetch_and(a, v, 5); }   \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); return __atomic_fetch_or(a, v, 5); }     \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); return __atomic_fetch_xor(a, v, 5); }   \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { atomic_access((void*)a, B / 8, true); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                                           \
        atomic_access((void*)a, B / 8, true);                                                                                             \
        return __atomic_compare_exchange_n(a, c, v, false, 5, 5);                                                                  \
    }                                                                                                                              \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                                             \
        atomic_access((void*)a, B / 8, true);                                                                                             \
        return __atomic_compare_exchange_n(a, c, v, false, 5, 5);                                                                  \
    }                                                                                                                              \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                                                 \
        atomic_access((void*)a, B / 8, true);                                                                                             \
        __atomic_compare_exchange_n(a, &c, v, false, 5, 5);                                                                        \
        return c;                                                                                                                  \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
