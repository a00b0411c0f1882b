// Parallel regions: every iteration of a worksharing loop is run as a thread of its own, one after the other in a
// chosen order, and the memory each one touches is recorded. Two iterations that touch the same byte, one of them
// writing, without both being in atomic operations or critical sections are reported.
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>

extern "C" {
extern char __libc_single_threaded;
int __race_order = 0;          // 0 forward, 1 backward, 2 odd before even
long __race_regions = 0, __race_iterations = 0, __race_accesses = 0, __race_conflicts = 0;
void __real_free(void *);
}

namespace {
bool inRegion = false, busy = false;
int guarded = 0, thread_ = 0, threads_ = 1, phase = 0;
char *base = nullptr;   // stack above this belongs to the code around the region

struct Entry {
    int thread, phase;
    uint8_t read, write, atomic;
};
struct Cell {
    uintptr_t key;
    Entry *e;
    int n, cap;
};
Cell *tab = nullptr;
size_t cap = 0, used = 0;

Cell &cell(uintptr_t k) {
    if (2 * (used + 1) > cap) {
        size_t nc = cap ? cap * 2 : 4096;
        Cell *nt = (Cell *)calloc(nc, sizeof(Cell));
        for (size_t i = 0; i < cap; i++)
            if (tab[i].key) {
                size_t j = tab[i].key * 0x9E3779B97F4A7C15ull % nc;
                while (nt[j].key) j = (j + 1) % nc;
                nt[j] = tab[i];
            }
        __real_free(tab);
        tab = nt;
        cap = nc;
    }
    size_t j = k * 0x9E3779B97F4A7C15ull % cap;
    while (tab[j].key && tab[j].key != k) j = (j + 1) % cap;
    if (!tab[j].key) {
        tab[j].key = k;
        used++;
    }
    return tab[j];
}
void clear() {
    for (size_t i = 0; i < cap; i++) __real_free(tab[i].e);
    __real_free(tab);
    tab = nullptr;
    cap = used = 0;
}
void touch(uintptr_t k, uint8_t mask, int wr) {
    Cell &c = cell(k);
    Entry *mine = nullptr;
    for (int i = 0; i < c.n; i++) {
        Entry &e = c.e[i];
        if (e.phase != phase) continue;
        if (e.thread == thread_) {
            mine = &e;
            continue;
        }
        uint8_t other = wr == 2 ? (uint8_t)(e.read | e.write) : wr ? (uint8_t)(e.read | e.write | e.atomic) : (uint8_t)(e.write | e.atomic);
        if (other & mask) {
            if (!__race_conflicts++ && getenv("SYM_RACE")) fprintf(stderr, "race at %p, iterations %d and %d, write %d\n", (void *)(k * 8), e.thread, thread_, wr);
        }
    }
    if (!mine) {
        if (c.n == c.cap) {
            c.cap = c.cap ? 2 * c.cap : 2;
            c.e = (Entry *)realloc(c.e, c.cap * sizeof(Entry));
        }
        mine = &c.e[c.n++];
        *mine = { thread_, phase, 0, 0, 0 };
    }
    (wr == 2 ? mine->atomic : wr ? mine->write : mine->read) |= mask;
}
int orderOf(int t, int n) {
    if (__race_order == 1) return n - 1 - t;
    if (__race_order == 2) return t < n / 2 ? 2 * t + 1 : 2 * (t - n / 2);
    return t;
}
// the part of a loop that the current thread runs: one iteration
template <typename T, typename S>
void share(int *last, T *lower, T *upper, S *stride, S incr) {
    phase++;
    long long n = incr > 0 ? ((long long)*upper - (long long)*lower) / (long long)incr + 1 : ((long long)*lower - (long long)*upper) / -(long long)incr + 1;
    if ((incr > 0 && *upper < *lower) || (incr < 0 && *upper > *lower)) n = 0;
    if (!inRegion || n <= 0) {
        if (last) *last = 1;
        return;
    }
    if (n > threads_) threads_ = (int)n;
    int i = orderOf(thread_, threads_);
    if (last) *last = i == n - 1;
    if (stride) *stride = (S)(n * incr);
    if (i >= n) {   // no iteration left for this thread
        *lower = (T)(*upper + incr);
        return;
    }
    __race_iterations++;
    *lower = (T)(*lower + i * (long long)incr);
    *upper = *lower;
}
long long dLower, dUpper, dStep;
bool dDone;
}  // namespace

extern "C" {
void __symfp_access(void *p, long n, int wr) {
    if (!inRegion || busy || n <= 0) return;
    char *q = (char *)p, *sp = (char *)__builtin_frame_address(0);
    if (q < base && q > sp - (1 << 16)) return;   // the thread's own stack
    busy = true;
    __race_accesses++;
    if (guarded) wr = 2;
    for (long i = 0; i < n;) {
        uintptr_t a = (uintptr_t)(q + i);
        int off = a & 7, len = (int)(8 - off < n - i ? 8 - off : n - i);
        touch(a >> 3, (uint8_t)(((1u << len) - 1) << off), wr);
        i += len;
    }
    busy = false;
}
// after an error has been caught in the middle of a region
void __race_reset(void) {
    inRegion = busy = false;
    guarded = thread_ = 0;
    threads_ = 1;
    clear();
}
typedef void (*Fn)(int *, int *, ...);
void __kmpc_fork_call(void *, int argc, Fn fn, ...) {
    void *a[16] = { 0 };
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < argc && i < 16; i++) a[i] = va_arg(ap, void *);
    va_end(ap);
    if (argc > 16 || inRegion) {
        fprintf(stderr, "parallel region not supported\n");
        _Exit(90);
    }
    clear();
    __libc_single_threaded = 0;
    inRegion = true;
    __race_regions++;
    base = (char *)__builtin_frame_address(0);
    threads_ = 1;
    for (thread_ = 0; thread_ < threads_; thread_++) {
        phase = 0;
        dDone = true;
        int gtid = thread_, btid = 0;
        fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
    }
    inRegion = false;
    thread_ = 0;
    threads_ = 1;
    clear();
}
void __kmpc_push_num_threads(void *, int, int) {}
void __kmpc_serialized_parallel(void *, int) {}
void __kmpc_end_serialized_parallel(void *, int) {}
int __kmpc_global_thread_num(void *) { return thread_; }
void __kmpc_for_static_init_4(void *, int, int, int *l, int *lo, int *up, int *st, int incr, int) { share<int, int>(l, lo, up, st, incr); }
void __kmpc_for_static_init_4u(void *, int, int, int *l, unsigned *lo, unsigned *up, int *st, int incr, int) { share<unsigned, int>(l, lo, up, st, incr); }
void __kmpc_for_static_init_8(void *, int, int, int *l, long *lo, long *up, long *st, long incr, long) { share<long, long>(l, lo, up, st, incr); }
void __kmpc_for_static_init_8u(void *, int, int, int *l, unsigned long *lo, unsigned long *up, long *st, long incr, long) { share<unsigned long, long>(l, lo, up, st, incr); }
void __kmpc_for_static_fini(void *, int) { phase++; }
#define DISPATCH(S, T, I)                                                                        \
    void __kmpc_dispatch_init_##S(void *, int, int, T lb, T ub, I st, I) {                       \
        T lo = lb, up = ub;                                                                      \
        int last;                                                                                \
        I stride;                                                                                \
        share<T, I>(&last, &lo, &up, &stride, st);                                               \
        dLower = (long long)lo;                                                                  \
        dUpper = (long long)up;                                                                  \
        dStep = st;                                                                              \
        dDone = st > 0 ? dLower > dUpper : dLower < dUpper;                                      \
    }                                                                                            \
    int __kmpc_dispatch_next_##S(void *, int, int *last, T *lo, T *up, I *st) {                  \
        if (dDone) return 0;                                                                     \
        dDone = true;                                                                            \
        *lo = (T)dLower;                                                                         \
        *up = (T)dUpper;                                                                         \
        if (st) *st = (I)dStep;                                                                  \
        if (last) *last = 0;                                                                     \
        return 1;                                                                                \
    }                                                                                            \
    void __kmpc_dispatch_fini_##S(void *, int) {}
DISPATCH(4, int, int)
DISPATCH(4u, unsigned, int)
DISPATCH(8, long, long)
DISPATCH(8u, unsigned long, long)
void __kmpc_barrier(void *, int) { phase++; }
void __kmpc_critical(void *, int, void *) { guarded++; }
void __kmpc_end_critical(void *, int, void *) { guarded--; }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void *, void *) { guarded++; return 1; }
void __kmpc_end_reduce_nowait(void *, int, void *) { guarded--; }
int __kmpc_reduce(void *, int, int, size_t, void *, void *, void *) { guarded++; return 1; }
void __kmpc_end_reduce(void *, int, void *) { guarded--; }
int __kmpc_single(void *, int) { return thread_ == 0; }
void __kmpc_end_single(void *, int) {}
int __kmpc_master(void *, int) { return thread_ == 0; }
void __kmpc_end_master(void *, int) {}
void omp_set_num_threads(int) {}
int omp_get_num_threads(void) { return threads_; }
int omp_get_max_threads(void) { return 64; }
int omp_get_thread_num(void) { return thread_; }
int omp_get_num_procs(void) { return 64; }
int omp_in_parallel(void) { return inRegion; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { return (double)clock() / CLOCKS_PER_SEC; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *) { guarded++; }
void omp_unset_lock(void *) { guarded--; }
// memory given back by an iteration is not handed out again within the region
void __wrap_free(void *p) {
    if (!inRegion || busy) __real_free(p);
}
}
void operator delete(void *p) noexcept { if (!inRegion) __real_free(p); }
void operator delete(void *p, size_t) noexcept { if (!inRegion) __real_free(p); }
void operator delete[](void *p) noexcept { if (!inRegion) __real_free(p); }
void operator delete[](void *p, size_t) noexcept { if (!inRegion) __real_free(p); }
