// rt.cpp - a controlled scheduler and dependence checker for instrumented code.
// Compiled code calls GOMP_*/omp_* for parallel regions and __tsan_* for every memory access. Here a region's
// threads are real threads of which exactly one runs at a time; it is passed on only at synchronization
// operations, where the driver's choices (a prefix, then the default) decide who continues. All accesses of a
// region between two barriers are entered in a shadow table: two of different threads to a common byte, at
// least one a write, neither both atomic nor under a common lock, are a conflict. Without conflicts and without
// synchronization operations all interleavings of a region are equivalent (one Mazurkiewicz trace).
#include "rt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <cstdarg>
#include <new>
#define EXPORT extern "C" __attribute__((visibility("default")))
#define PC ((uintptr_t)__builtin_return_address(0))
namespace {
const int MAXT = 34;
enum St { IDLE, READY, DONE, BARRIER, WAITLOCK };
struct Th { sem_t sem; pthread_t th; bool made; St st; RtFn fn; void* data; const void* want; unsigned singles, shares; uint32_t locks; void* share; };
Th T[MAXT];
int K = 1, reverse_ = 0, team = 1, cur = 0; bool active = false, region = false; 
__thread int self = 0, mute = 0, nest = 0;
uint64_t regionGen = 1;
RtReport R; short prefix[4096]; int nprefix;
// ---- shadow ----
struct Rec { uint32_t tid, flags, locks; uint8_t mask; uint32_t next; uintptr_t pc; };
struct Ent { uintptr_t key; uint32_t gen, head; };
const uint32_t NE = 1u << 20, NR = 1u << 22;
Ent* E; Rec* P; uint32_t gen = 1, used = 1, entries = 0;
uintptr_t ign[16][2]; int nign = 0;
bool alone() { return !region || team < 2 || mute || nest; }
void clear() { ++gen; used = 1; entries = 0; }
void bad(const char* why) { fprintf(stderr, "rt: %s\n", why); _exit(3); }
void conflict(uintptr_t a, const Rec& x, uint32_t tid, bool w, bool at, uintptr_t pc) {
    if (R.race) return;
    R.race = 1; R.pc[0] = x.pc; R.pc[1] = pc;
    snprintf(R.text, sizeof R.text, "thread %u %s%s and thread %u %s%s the same location without synchronization", x.tid, (x.flags & 1) ? "writes" : "reads", (x.flags & 2) ? " (atomically)" : "", tid, w ? "writes" : "reads", at ? " (atomically)" : ""); (void)a;
}
void touch1(uintptr_t key, uint8_t mask, bool w, bool at, uintptr_t pc) {
    uint32_t h = (uint32_t)((key * 0x9e3779b97f4a7c15ULL) >> 44) & (NE - 1);
    while (E[h].gen == gen && E[h].key != key) h = (h + 1) & (NE - 1);
    if (E[h].gen != gen) { E[h].gen = gen; E[h].key = key; E[h].head = 0; ++R.locations; if (++entries > NE - NE / 4) bad("shadow table full"); }
    uint32_t flags = (w ? 1 : 0) | (at ? 2 : 0), tid = (uint32_t)self, locks = T[self].locks; bool have = false;
    for (uint32_t r = E[h].head; r; r = P[r].next) {
        Rec& x = P[r];
        if (x.tid == tid) { if (x.flags == flags && x.locks == locks) { x.mask |= mask; have = true; } continue; }
        if (!(x.mask & mask) || !((x.flags | flags) & 1) || (x.locks & locks) || (x.flags & flags & 2)) continue;
        conflict(key << 3, x, tid, w, at, pc);
    }
    if (!have) { if (used >= NR) bad("shadow pool full"); P[used] = Rec{tid, flags, locks, mask, E[h].head, pc}; E[h].head = used++; }
}
void touch(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
    if (!region || team < 2 || mute || !n) return;
    ++R.accesses;
    for (int i = 0; i < nign; ++i) if (a < ign[i][1] && a + n > ign[i][0]) return;
    uintptr_t b = a + n;
    for (uintptr_t k = a >> 3; k <= (b - 1) >> 3; ++k) {
        uintptr_t lo = k << 3, s = a > lo ? a - lo : 0, e = b < lo + 8 ? b - lo : 8;
        touch1(k, (uint8_t)(((1u << (e - s)) - 1) << s), w, at, pc);
    }
}
// ---- scheduling ----
bool ready(int t) { return T[t].st == READY; }
int decide(bool mayStay) { // who runs next; candidates: the running thread first if it may stay, then the others
    int c[MAXT], n = 0; if (mayStay) c[n++] = self;
    for (int i = 0; i < team; ++i) { int t = reverse_ ? team - 1 - i : i; if (ready(t) && !(mayStay && t == self)) c[n++] = t; }
    if (!n) return -1;
    int k = 0; ++R.choices;
    if (n > 1) {
        if (R.nlog < nprefix) { k = prefix[R.nlog]; if (k >= n) { R.diverged = 1; k = 0; } }
        if (R.nlog < 4096) { R.log[R.nlog].n = (short)n; R.log[R.nlog].taken = (short)k; R.log[R.nlog].cost = mayStay && k ? 1 : 0; ++R.nlog; }
    }
    return c[k];
}
void wait(int t) { while (sem_wait(&T[t].sem)) {} cur = t; }
void pass(int t) { if (t == self) return; int me = self; sem_post(&T[t].sem); wait(me); }
void releaseBarrier() { ++R.barriers; clear(); for (int i = 0; i < team; ++i) if (T[i].st == BARRIER) T[i].st = READY; }
void yieldBlocked() { // the running thread cannot continue now
    for (;;) {
        int n = decide(false);
        if (n >= 0) { pass(n); if (T[self].st == READY) return; continue; }
        bool all = true; for (int i = 0; i < team; ++i) if (T[i].st != BARRIER) all = false;
        if (all) { releaseBarrier(); continue; }
        R.deadlock = 1; bad("deadlock: no thread of the parallel region can continue");
    }
}
void syncPoint() { if (alone()) return; ++R.syncs; int n = decide(true); if (n >= 0 && n != self) pass(n); }
bool finish() { // the running thread has finished its part; false: it was the last one
    T[self].st = DONE;
    int n = decide(false);
    if (n < 0) {
        bool any = false; for (int i = 0; i < team; ++i) any |= T[i].st == BARRIER || T[i].st == WAITLOCK;
        if (any) { R.deadlock = 1; bad("deadlock: threads wait for others that have ended"); }
        if (self != 0) sem_post(&T[0].sem); // everything done: back to the thread that opened the region
        return false;
    }
    sem_post(&T[n].sem);
    return true;
}
void* worker(void* p) { self = (int)(intptr_t)p; for (;;) { wait(self); T[self].fn(T[self].data); finish(); } return nullptr; }
void parallel(RtFn fn, void* data, unsigned n) {
    ++R.regions;
    if (!active || region || n < 2) { ++nest; fn(data); --nest; return; } // nested regions have one thread
    if (n >= MAXT) n = MAXT - 1;
    ++R.multi; if ((int)n > R.maxThreads) R.maxThreads = (int)n;
    team = (int)n; region = true; ++regionGen; clear();
    for (int i = 0; i < team; ++i) {
        T[i].st = READY; T[i].fn = fn; T[i].data = data; T[i].singles = T[i].shares = 0; T[i].locks = 0; T[i].share = nullptr;
        if (i && !T[i].made) { T[i].made = true; sem_init(&T[i].sem, 0, 0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20); if (pthread_create(&T[i].th, &a, worker, (void*)(intptr_t)i)) bad("no thread"); pthread_attr_destroy(&a); }
    }
    if (!T[0].made) { T[0].made = true; sem_init(&T[0].sem, 0, 0); }
    int f = decide(false); if (f != 0) { sem_post(&T[f].sem); wait(0); }
    fn(data); if (finish()) wait(0); // woken again by the last of the others
    region = false; team = 1; cur = 0; clear();
}
// ---- locks ----
struct Lock { const void* key; int owner, depth; }; Lock L[30]; int nl = 0;
int lockId(const void* k) { for (int i = 0; i < nl; ++i) if (L[i].key == k) return i; if (nl >= 30) { for (int i = 0; i < nl; ++i) if (L[i].owner < 0) { L[i].key = k; return i; } bad("too many locks"); } L[nl] = Lock{k, -1, 0}; return nl++; }
void lock(const void* k) {
    if (alone()) return;
    int i = lockId(k); syncPoint();
    while (L[i].owner >= 0 && L[i].owner != self) { T[self].st = WAITLOCK; T[self].want = k; yieldBlocked(); }
    L[i].owner = self; ++L[i].depth; T[self].locks |= 1u << i;
}
void unlock(const void* k) {
    if (alone()) return;
    int i = lockId(k); if (L[i].owner != self) return;
    if (--L[i].depth == 0) { L[i].owner = -1; T[self].locks &= ~(1u << i); for (int t = 0; t < team; ++t) if (T[t].st == WAITLOCK && T[t].want == k) T[t].st = READY; syncPoint(); }
}
char theCritical, theAtomic;
// ---- work shares (dynamic loops, sections, singles) ----
struct Share { uint64_t gen; unsigned long long next, end, incr, chunk; bool up; } S[4096];
Share* share(bool& first) { Share* s = &S[T[self].shares++ % 4096]; first = s->gen != regionGen; s->gen = regionGen; T[self].share = s; return s; }
template <class I> bool grab(Share* s, I* a, I* b) {
    syncPoint(); I n = (I)s->next, e = (I)s->end; bool more = s->up ? n < e : n > e; if (!more) return false;
    I st = (I)(s->incr * s->chunk); I to = (I)(n + st);
    if (s->up ? (to > e || to < n) : (to < e || to > n)) to = e;
    *a = n; *b = to; s->next = (unsigned long long)to; return true;
}
template <class I> bool start(I from, I to, I incr, I chunk, bool up, I* a, I* b) {
    bool first; Share* s = share(first); if (first) { s->next = (unsigned long long)from; s->end = (unsigned long long)to; s->incr = (unsigned long long)incr; s->chunk = chunk > 0 ? (unsigned long long)chunk : 1; s->up = up; }
    return grab(s, a, b);
}
void barrier() { if (alone()) return; T[self].st = BARRIER; bool all = true; for (int i = 0; i < team; ++i) if (T[i].st != BARRIER) all = false; if (all) { releaseBarrier(); return; } yieldBlocked(); }
void begin(int k, int rev, const short* p, int n) {
    if (!E) { E = (Ent*)calloc(NE, sizeof(Ent)); P = (Rec*)malloc(sizeof(Rec) * (size_t)NR); if (!E || !P) bad("no memory"); }
    memset(&R, 0, offsetof(RtReport, log)); K = k; reverse_ = rev; nprefix = n; if (n) memcpy(prefix, p, sizeof(short) * (size_t)n); active = true; clear();
}
struct Freed { void** p; size_t n, cap; } freed;
void flush() { for (size_t i = 0; i < freed.n; ++i) free(freed.p[i]); freed.n = 0; }
void end(RtReport* r) { active = false; flush(); memcpy(r, &R, sizeof R); }
int threadNum() { return region && !nest ? self : 0; }
void ignore(uintptr_t a, size_t n) { for (int i = 0; i < nign; ++i) if (ign[i][0] == a) return; if (nign < 16) { ign[nign][0] = a; ign[nign][1] = a + n; ++nign; } }
const RtApi api = {begin, end, parallel, threadNum, ignore};
void drop(void* p) { // memory released while a run is recorded is not reused before its end
    if (!active || !p) { free(p); return; }
    if (freed.n == freed.cap) { freed.cap = freed.cap ? freed.cap * 2 : 1024; freed.p = (void**)realloc(freed.p, freed.cap * sizeof(void*)); }
    freed.p[freed.n++] = p;
}
void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
} // namespace
EXPORT const RtApi* rt_api() { return &api; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, std::align_val_t a) { void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { drop(p); }
extern "C" {
// ---- OpenMP ----
void GOMP_parallel(RtFn fn, void* data, unsigned n, unsigned) { parallel(fn, data, n ? n : (unsigned)K); }
unsigned GOMP_parallel_reductions(RtFn fn, void* data, unsigned n, unsigned) { unsigned k = n ? n : (unsigned)K; parallel(fn, data, k); return k; }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { lock(&theCritical); }
void GOMP_critical_end() { unlock(&theCritical); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&theAtomic); }
void GOMP_atomic_end() { unlock(&theAtomic); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
bool GOMP_single_start() { if (alone()) return true; syncPoint(); bool first; share(first); return first; }
void* GOMP_single_copy_start() { bad("single copyprivate is not supported"); return nullptr; }
int omp_get_num_threads() { return region && !nest ? team : 1; }
int omp_get_max_threads() { return K; }
int omp_get_thread_num() { return threadNum(); }
int omp_get_num_procs() { return K; }
int omp_in_parallel() { return region && team > 1; }
int omp_get_level() { return region; }
int omp_get_thread_limit() { return MAXT - 1; }
void omp_set_num_threads(int k) { K = k < 1 ? 1 : k >= MAXT ? MAXT - 1 : k; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return 0; } double omp_get_wtick() { return 1; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void* p) { lock(p); } void omp_unset_lock(void* p) { unlock(p); }
void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {} void omp_set_nest_lock(void* p) { lock(p); } void omp_unset_nest_lock(void* p) { unlock(p); }
#define LOOPS(kind) \
bool GOMP_loop_##kind##_start(long a, long b, long inc, long chunk, long* x, long* y) { return start<long>(a, b, inc, chunk, inc > 0, x, y); } \
bool GOMP_loop_##kind##_next(long* x, long* y) { return grab<long>((Share*)T[self].share, x, y); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long chunk, unsigned long long* x, unsigned long long* y) { return start<unsigned long long>(a, b, inc, chunk, up, x, y); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long* x, unsigned long long* y) { return grab<unsigned long long>((Share*)T[self].share, x, y); } \
void GOMP_parallel_loop_##kind(RtFn fn, void* data, unsigned n, long a, long b, long inc, long chunk, unsigned) { ploop(fn, data, n, a, b, inc, chunk); }
#define LOOPSR(kind) \
bool GOMP_loop_##kind##_start(long a, long b, long inc, long* x, long* y) { return start<long>(a, b, inc, 1, inc > 0, x, y); } \
bool GOMP_loop_##kind##_next(long* x, long* y) { return grab<long>((Share*)T[self].share, x, y); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long* x, unsigned long long* y) { return start<unsigned long long>(a, b, inc, 1, up, x, y); } \
bool GOMP_loop_ull_##kind##_next(unsigned long long* x, unsigned long long* y) { return grab<unsigned long long>((Share*)T[self].share, x, y); } \
void GOMP_parallel_loop_##kind(RtFn fn, void* data, unsigned n, long a, long b, long inc, unsigned) { ploop(fn, data, n, a, b, inc, 1); }
static void ploop(RtFn fn, void* data, unsigned n, long a, long b, long inc, long chunk) { // the loop is share 0 of every thread
    if (!n) n = (unsigned)K;
    Share one = {}; bool team1 = !active || region || n < 2; Share& s = team1 ? one : S[0]; void* outer = T[self].share;
    s.gen = regionGen + 1; s.next = (unsigned long long)a; s.end = (unsigned long long)b; s.incr = (unsigned long long)inc; s.chunk = chunk > 0 ? (unsigned long long)chunk : 1; s.up = inc > 0;
    if (team1) { T[self].share = &s; parallel(fn, data, n); T[self].share = outer; return; }
    struct Arg { RtFn fn; void* data; } arg = {fn, data};
    parallel([](void* p) { Arg* q = (Arg*)p; T[self].share = &S[0]; T[self].shares = 1; q->fn(q->data); }, &arg, n);
}
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
LOOPSR(runtime) LOOPSR(maybe_nonmonotonic_runtime) LOOPSR(nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
unsigned GOMP_sections_next() { long a, b; return grab<long>((Share*)T[self].share, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return start<long>(1, (long)n + 1, 1, 1, true, &a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(RtFn fn, void* data, unsigned n, unsigned count, unsigned) { ploop(fn, data, n, 1, (long)count + 1, 1, 1); }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
// ---- thread sanitizer instrumentation ----
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) \
void __tsan_read##n(void* p) { touch((uintptr_t)p, n, false, false, PC); } void __tsan_write##n(void* p) { touch((uintptr_t)p, n, true, false, PC); } \
void __tsan_unaligned_read##n(void* p) { touch((uintptr_t)p, n, false, false, PC); } void __tsan_unaligned_write##n(void* p) { touch((uintptr_t)p, n, true, false, PC); } \
void __tsan_volatile_read##n(void* p) { touch((uintptr_t)p, n, false, false, PC); } void __tsan_volatile_write##n(void* p) { touch((uintptr_t)p, n, true, false, PC); } \
void __tsan_unaligned_volatile_read##n(void* p) { touch((uintptr_t)p, n, false, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { touch((uintptr_t)p, n, true, false, PC); } \
void __tsan_read_write##n(void* p) { touch((uintptr_t)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { touch((uintptr_t)p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { touch((uintptr_t)p, sizeof p, true, false, PC); }
void __tsan_vptr_read(void** p) { touch((uintptr_t)p, sizeof p, false, false, PC); }
#define AT(n, U) \
U __tsan_atomic##n##_load(const volatile U* p, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, false, true, PC); return __atomic_load_n(p, 5); } \
void __tsan_atomic##n##_store(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); __atomic_store_n(p, v, 5); } \
U __tsan_atomic##n##_exchange(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_exchange_n(p, v, 5); } \
U __tsan_atomic##n##_fetch_add(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_fetch_add(p, v, 5); } \
U __tsan_atomic##n##_fetch_sub(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_fetch_sub(p, v, 5); } \
U __tsan_atomic##n##_fetch_and(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_fetch_and(p, v, 5); } \
U __tsan_atomic##n##_fetch_or(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_fetch_or(p, v, 5); } \
U __tsan_atomic##n##_fetch_xor(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_fetch_xor(p, v, 5); } \
U __tsan_atomic##n##_fetch_nand(volatile U* p, U v, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile U* p, U* e, U v, int, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile U* p, U* e, U v, int, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); return __atomic_compare_exchange_n(p, e, v, false, 5, 5); } \
U __tsan_atomic##n##_compare_exchange_val(volatile U* p, U e, U v, int, int) { syncPoint(); touch((uintptr_t)p, sizeof *p, true, true, PC); __atomic_compare_exchange_n(p, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { syncPoint(); }
void __tsan_atomic_signal_fence(int) {}
// ---- library calls of the instrumented code (linked with --wrap) ----
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { touch((uintptr_t)s, n, false, false, PC); touch((uintptr_t)d, n, true, false, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { touch((uintptr_t)s, n, false, false, PC); touch((uintptr_t)d, n, true, false, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { touch((uintptr_t)d, n, true, false, PC); return __real_memset(d, c, n); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!alone()) { lock(m); return 0; } return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!alone()) { unlock(m); return 0; } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!alone()) { syncPoint(); int i = lockId(m); if (L[i].owner >= 0 && L[i].owner != self) return 16; lock(m); return 0; } return __real_pthread_mutex_trylock(m); }
// the initialisation of a function-local static is ordered before every use of it
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r) ++mute; return r; }
void __wrap___cxa_guard_release(void* g) { --mute; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) { --mute; __real___cxa_guard_abort(g); }
}
