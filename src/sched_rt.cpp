// A deterministic replacement for libgomp and for the run-time library of -fsanitize=thread.
//
// A parallel region is run by T logical threads one after another, in an order chosen by the
// monitor (T up to 4096: usually one parallel iteration each).  The compiler's instrumentation
// reports every load and store of the code under test; a shadow of the touched memory finds
// every pair of accesses to one location by two logical threads of one region of which at
// least one is a write.  Such a pair is a race, whether or not it changes a value, and whatever
// order the threads happen to run in: the detection does not depend on the schedule observed.
//
// Everything here is compiled without instrumentation.
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <unordered_set>
#include <vector>

namespace
{
struct Slot {
    uintptr_t key;
    uint32_t epoch;
    int w, r; // last writer, a reader (-1: none); r == -2: several
    const void *wpc, *rpc;
};
const size_t BITS = 21, N = size_t(1) << BITS;
Slot* tab = (Slot*)calloc(N, sizeof(Slot));
uint32_t epoch = 0;
size_t used = 0;
int tid = -1, nthreads = 1; // of the running logical thread
int defThreads = 1, defOrder = 0;
uint64_t rng = 1;
int ignoring = 0;
char* frame = nullptr; // stack of the region's caller: everything below is private
bool touched = false;
uint64_t schedHash;
VfRace race;
bool raced = false;
VfStats S;
std::unordered_set<uint64_t>* seen = nullptr;

uint64_t next()
{
    rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
    return rng;
}
Slot* find(uintptr_t key)
{
    size_t i = (key * 0x9E3779B97F4A7C15ull) >> (64 - BITS);
    for (;; i = (i + 1) & (N - 1)) {
        Slot& s = tab[i];
        if (s.epoch == epoch && s.key == key) return &s;
        if (s.epoch != epoch) {
            if (used > N / 2) return nullptr;
            ++used;
            s.epoch = epoch, s.key = key, s.w = s.r = -1;
            return &s;
        }
    }
}
void conflict(const void* a, int sz, int other, int ow, int w, const void* p1, const void* p2)
{
    if (raced) return;
    raced = true;
    race = {(const char*)a, sz, other, tid, ow, w, nthreads, p1, p2};
}
inline void one(uintptr_t g, const void* a, int sz, bool w, const void* pc)
{
    Slot* s = find(g);
    if (!s) return;
    ++S.conflictsChecked;
    if (s->w >= 0 && s->w != tid) conflict(a, sz, s->w, 1, w, s->wpc, pc);
    if (w) {
        if (s->r != -1 && s->r != tid) conflict(a, sz, s->r, 0, 1, s->rpc, pc);
        s->w = tid, s->wpc = pc;
    } else {
        if (s->r == -1) s->r = tid, s->rpc = pc;
        else if (s->r != tid) s->r = -2;
    }
}
// memory whose stores are noted, by sequential code too
struct Watch {
    uintptr_t lo, hi;
    unsigned char* mark;
};
std::vector<Watch>* watches = nullptr;
void note(uintptr_t a, size_t sz)
{
    for (auto& w : *watches)
        if (a < w.hi && a + sz > w.lo) {
            ++S.stores;
            for (uintptr_t b = a < w.lo ? w.lo : a; b < a + sz && b < w.hi; ++b) w.mark[b - w.lo] = 1;
        }
}
void access(const void* a, size_t sz, bool w, const void* pc)
{
    if (w && watches && sz) note((uintptr_t)a, sz);
    if (tid < 0 || ignoring || !sz) return;
    char* p = (char*)a;
    if (p < frame && p > frame - (8 << 20)) return; // private
    if (!touched && (p < frame || p > frame + (8 << 20))) touched = true, ++S.threads, schedHash = (schedHash ^ uint64_t(tid + 1)) * 1099511628211ull;
    ++S.accesses;
    uintptr_t b = (uintptr_t)a;
    for (uintptr_t g = b >> 2; g <= (b + sz - 1) >> 2; ++g) one(g, a, int(sz), w, pc);
}
// memory given back may serve another logical thread
void forget(void* p)
{
    if (tid < 0 || !p) return;
    size_t sz = malloc_usable_size(p);
    for (uintptr_t g = (uintptr_t)p >> 2; g <= ((uintptr_t)p + sz) >> 2; ++g)
        if (Slot* s = find(g)) s->w = s->r = -1;
}
struct Region {
    int T, ord, nt;
    std::vector<int> perm;
};
} // namespace

#define PC __builtin_return_address(0)
extern "C" {
void vf_sched_begin(uint64_t seed, int threads, int order)
{
    rng = seed * 0x9E3779B97F4A7C15ull | 1;
    for (int k = 0; k < 4; ++k) next();
    defThreads = threads, defOrder = order;
    raced = false;
}
void vf_sched_watch(const void* p, size_t n, unsigned char* mark)
{
    if (!p) {
        delete watches;
        watches = nullptr;
        return;
    }
    if (!watches) watches = new std::vector<Watch>;
    watches->push_back({(uintptr_t)p, (uintptr_t)p + n, mark});
}
int vf_sched_race(VfRace* r)
{
    if (raced) *r = race;
    return raced;
}
void vf_sched_stats(VfStats* s)
{
    *s = S;
    s->schedules = seen ? seen->size() : 0;
}

// ------------------------------------------------------------------ OpenMP
int omp_get_thread_num() { return tid < 0 ? 0 : tid; }
int omp_get_num_threads() { return tid < 0 ? 1 : nthreads; }
int omp_get_max_threads() { return tid < 0 ? (defThreads > 0 ? defThreads : 4) : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return tid >= 0; }
int omp_get_level() { return tid >= 0; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_num_threads(int) {}
double omp_get_wtime() { return 0; }
double omp_get_wtick() { return 1e-9; }
int omp_get_active_level() { return tid >= 0 && nthreads > 1; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_team_size(int l) { return l == 1 ? omp_get_num_threads() : 1; }
int omp_get_ancestor_thread_num(int l) { return l == 1 ? omp_get_thread_num() : 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2, *c = 1; }
int omp_in_final() { return 0; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void*) { ++ignoring; }
void omp_unset_lock(void*) { --ignoring; }
int omp_test_lock(void*) { ++ignoring; return 1; }

// loops shared out inside a region: the n-th loop of every logical thread is the same one
struct Share {
    __int128 next, end, incr, chunk;
};
static std::vector<Share> shares;
static int share = -1, shareLeft = 0;
static bool lastAsked = false;
static bool shareChunk(__int128* a, __int128* b)
{
    if (share < 0 || shareLeft-- <= 0) return false;
    Share& s = shares[share];
    if (s.incr > 0 ? s.next >= s.end : s.next <= s.end) return false;
    *a = s.next, s.next += (s.chunk > 0 ? s.chunk : 1) * s.incr;
    if (s.incr > 0 ? s.next > s.end : s.next < s.end) s.next = s.end;
    *b = s.next;
    return true;
}
static bool shareStart(__int128 s, __int128 e, __int128 i, __int128 c, __int128* a, __int128* b)
{
    if (++share == (int)shares.size()) shares.push_back({s, e, i, c});
    shareLeft = lastAsked || tid < 0 || nthreads == 1 ? 1 << 30 : 1;
    return shareChunk(a, b);
}

static void region(void (*fn)(void*), void* data, unsigned n, void (*per)(int))
{
    if (tid >= 0) { // nested: one thread
        int t = tid, k = nthreads;
        // the inner team's only member; its accesses stay those of the outer logical thread
        nthreads = 1;
        fn(data);
        nthreads = k, tid = t;
        return;
    }
    static const int sizes[] = {1, 2, 3, 4, 7, 16, 64, 300, 1024, 4096, 4096};
    int T = n ? int(n) : defThreads > 0 ? defThreads : sizes[next() % 11];
    int ord = defOrder < 3 ? defOrder : int(next() % 3);
    static std::vector<int> perm;
    perm.resize(T);
    for (int i = 0; i < T; ++i) perm[i] = ord == 1 ? T - 1 - i : i;
    if (ord == 2)
        for (int i = T - 1; i > 0; --i) std::swap(perm[i], perm[next() % (i + 1)]);
    if (++epoch == 0) memset(tab, 0, N * sizeof(Slot)), epoch = 1;
    used = 0;
    ++S.regions;
    schedHash = 1469598103934665603ull ^ T;
    frame = (char*)__builtin_frame_address(0);
    nthreads = T;
    shares.clear();
    for (int i = 0; i < T; ++i) {
        tid = perm[i], touched = false, lastAsked = i == T - 1, share = -1;
        if (per) per(i);
        fn(data);
    }
    tid = -1, nthreads = 1, frame = nullptr;
    if (!seen) seen = new std::unordered_set<uint64_t>;
    if (seen->size() < 4000000) seen->insert(schedHash);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { region(fn, data, n, nullptr); }

// work shared out in chunks: every chunk goes to the thread that asks first
static long lNext, lEnd, lIncr, lChunk;
static bool chunk(long* a, long* b)
{
    if (lIncr > 0 ? lNext >= lEnd : lNext <= lEnd) return false;
    long c = lChunk > 0 ? lChunk : 1;
    *a = lNext;
    long e = lNext + c * lIncr;
    if (lIncr > 0 ? e > lEnd : e < lEnd) e = lEnd;
    *b = lNext = e;
    return true;
}
// a logical thread takes one chunk unless it is the last one asked
static int lLeft;
static void loopStart(long s, long e, long i, long c) { lNext = s, lEnd = e, lIncr = i, lChunk = c; }
static void perThread(int i) { lLeft = i == nthreads - 1 ? 1 << 30 : 1; }
#define LOOP(kind)                                                                                         \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
    {                                                                                                      \
        loopStart(s, e, i, c);                                                                             \
        region(fn, d, n, perThread);                                                                       \
    }                                                                                                      \
    bool GOMP_loop_##kind##_next(long* a, long* b)                                                         \
    {                                                                                                      \
        __int128 x, y;                                                                                     \
        if (share < 0) return lLeft-- > 0 && chunk(a, b);                                                  \
        return shareChunk(&x, &y) && (*a = long(x), *b = long(y), true);                                   \
    }
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
void GOMP_loop_end_nowait()
{
    if (tid < 0) shares.clear(), share = -1;
}
typedef unsigned long long ull;
static bool give(bool r, __int128 a, __int128 b, long* x, long* y) { return r && (*x = long(a), *y = long(b), true); }
static bool giveU(bool r, __int128 a, __int128 b, ull* x, ull* y) { return r && (*x = ull(a), *y = ull(b), true); }
#define INNER(kind)                                                                                        \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* x, long* y)                         \
    {                                                                                                      \
        __int128 a, b;                                                                                     \
        bool r = shareStart(s, e, i, c, &a, &b);                                                           \
        return give(r, a, b, x, y);                                                                        \
    }                                                                                                      \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull c, ull* x, ull* y)                  \
    {                                                                                                      \
        __int128 a, b;                                                                                     \
        bool r = shareStart(s, e, up ? __int128(i) : -__int128(0 - i), c, &a, &b);                          \
        return giveU(r, a, b, x, y);                                                                       \
    }                                                                                                      \
    bool GOMP_loop_ull_##kind##_next(ull* x, ull* y)                                                        \
    {                                                                                                      \
        __int128 a, b;                                                                                     \
        bool r = shareChunk(&a, &b);                                                                       \
        return giveU(r, a, b, x, y);                                                                       \
    }
INNER(static)
INNER(dynamic)
INNER(guided)
INNER(nonmonotonic_dynamic)
INNER(nonmonotonic_guided)
#define RUNTIME(kind)                                                                                                                              \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long* x, long* y) { return GOMP_loop_dynamic_start(s, e, i, 1, x, y); }                  \
    bool GOMP_loop_##kind##_next(long* x, long* y) { return GOMP_loop_dynamic_next(x, y); }                                                        \
    bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull i, ull* x, ull* y) { return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, x, y); } \
    bool GOMP_loop_ull_##kind##_next(ull* x, ull* y) { return GOMP_loop_ull_dynamic_next(x, y); }                                                  \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
RUNTIME(runtime)
RUNTIME(nonmonotonic_runtime)
RUNTIME(maybe_nonmonotonic_runtime)
bool GOMP_single_start()
{
    // the logical thread that comes first runs it
    __int128 a, b;
    return shareStart(0, 1, 1, 1, &a, &b);
}
void GOMP_critical_start() { ++ignoring; } // ordered by the lock: cannot race with each other
void GOMP_critical_end() { --ignoring; }
void GOMP_critical_name_start(void**) { ++ignoring; }
void GOMP_critical_name_end(void**) { --ignoring; }
void GOMP_atomic_start() { ++ignoring; }
void GOMP_atomic_end() { --ignoring; }
void GOMP_barrier()
{
    if (nthreads > 1) {
        fprintf(stderr, "sched_rt: a barrier inside a parallel region is not supported\n");
        _Exit(9);
    }
}
void GOMP_loop_end()
{
    GOMP_barrier();
    GOMP_loop_end_nowait();
}

// ------------------------------------------------------------------ instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() { ++ignoring; }
void __tsan_ignore_thread_end() { --ignoring; }
#define RW(n)                                                                    \
    void __tsan_read##n(void* a) { access(a, n, false, PC); }                    \
    void __tsan_write##n(void* a) { access(a, n, true, PC); }                    \
    void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); }           \
    void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); }           \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); }          \
    void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); }          \
    void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
#define NOTE if (watches) note((uintptr_t)a, sizeof *a)
#define ATOMIC(n, T)                                                                                                  \
    T __tsan_atomic##n##_load(const volatile T* a, int) { return *a; }                                                \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { NOTE; *a = v; }                                                \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { NOTE; T o = *a; *a = v; return o; }                            \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { NOTE; T o = *a; *a = (T)(o + v); return o; }                    \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { NOTE; T o = *a; *a = (T)(o - v); return o; }                    \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { NOTE; T o = *a; *a = (T)(o & v); return o; }                    \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { NOTE; T o = *a; *a = (T)(o | v); return o; }                     \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int)                                \
    {                                                                                                                 \
        if (*a == *e) { NOTE; *a = v; return 1; }                                                                           \
        *e = *a;                                                                                                      \
        return 0;                                                                                                     \
    }                                                                                                                 \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int f, int g) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, f, g); }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ library calls (ld --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void __real_free(void*);
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false, PC), access(d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false, PC), access(d, n, true, PC);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    access(d, n, true, PC);
    return __real_memset(d, c, n);
}
void __wrap_free(void* p)
{
    forget(p);
    __real_free(p);
}
// the first use of a function's static initialises it under a lock
int __wrap___cxa_guard_acquire(void* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (r) ++ignoring;
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    --ignoring;
    __real___cxa_guard_release(g);
}
}
void* operator new(size_t n)
{
    if (void* p = malloc(n ? n : 1)) return p;
    throw std::bad_alloc();
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
