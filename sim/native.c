/* Runtime of the simulated native layer.  The kernels of DynaPhoPy are compiled with the compiler's thread instrumentation
   and linked against this file instead of the OpenMP, sanitizer and allocation libraries:
   - OpenMP threads are coroutines; a seeded scheduler decides at every instrumented memory access which one runs;
   - memory comes from an arena with guard zones, seeded contents and a quarantine, and may be refused on plan;
   - every instrumented access is checked against the arena's state.
   Everything is a function of the seed and the plan given to nat_arm. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

/* -------------------------------------------------------------------------------- seeded numbers */
static uint64_t mix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

/* ----------------------------------------------------------------------------------- violations */
static char message[512];
static long violations;

static void violation(const char *fmt, ...) {
    if (violations++ == 0) {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(message, sizeof message, fmt, ap);
        va_end(ap);
    }
}

/* ----------------------------------------------------------------------------------------- arena */
#define ARENA (768ull << 20)
#define GUARD 64
#define MAXB (1 << 20)
enum { FREE_SPACE = 0, LIVE = 1, GUARD_ZONE = 2, RELEASED = 3 };
typedef struct { char *p; size_t n; int live; int kind; } block;
static char *arena;
static unsigned char *shadow;
static size_t top;
static block *blocks;
static long nblocks;
static int checking;                 /* a kernel call is in progress */
static int poison_mode;
static uint64_t poison_rng = 1;
static size_t fail_min = (size_t)-1; /* allocations of this size or more may fail */
static long fail_at = -1;            /* the one that fails, counted from nat_arm */
static long fail_count = 0;          /* how many from there on */
static long big_seen, failed;
static long live_blocks[2];
static size_t live_bytes[2];
static long allocations;
static unsigned char *region_of;     /* kind of the last failure */
static int failed_kind = -1;

static void arena_init(void) {
    if (arena) return;
    arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = mmap(NULL, MAXB * sizeof(block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || shadow == MAP_FAILED || blocks == MAP_FAILED) { fprintf(stderr, "no room for the arena\n"); _exit(77); }
}

static void fill(char *p, size_t n) {
    size_t i;
    double d;
    switch (poison_mode) {
    case 0: memset(p, 0, n); return;
    case 1: d = __builtin_nan(""); break;
    case 2: for (i = 0; i < n; i++) p[i] = (char)mix(&poison_rng); return;
    case 3: d = 3.7e30; break;
    case 4: memset(p, 0xAA, n); return;
    case 5: /* plausible numbers */
        for (i = 0; i + 8 <= n; i += 8) { d = ((double)(mix(&poison_rng) >> 11) / 9007199254740992.0 - 0.5) * 8; memcpy(p + i, &d, 8); }
        for (; i < n; i++) p[i] = 1;
        return;
    default: d = -1e-3;
    }
    for (i = 0; i + 8 <= n; i += 8) memcpy(p + i, &d, 8);
    for (; i < n; i++) p[i] = 0x5A;
}

static int refused(size_t n, int kind) {
    if (n < fail_min) return 0;
    long k = big_seen++;
    if (fail_at >= 0 && k >= fail_at && k < fail_at + fail_count) { failed++; failed_kind = kind; return 1; }
    return 0;
}

static void *take(size_t n, int kind, int zero) {
    arena_init();
    if (n > ARENA / 4) return NULL;
    size_t room = GUARD + ((n + 63) & ~(size_t)63) + GUARD;
    if (top + room > ARENA || nblocks >= MAXB) { fprintf(stderr, "arena exhausted\n"); _exit(78); }
    char *base = arena + top;
    top += room;
    memset(base, 0xC5, room);
    memset(shadow + (base - arena), GUARD_ZONE, room);
    memset(shadow + (base - arena) + GUARD, LIVE, n);
    block *b = &blocks[nblocks++];
    b->p = base + GUARD; b->n = n; b->live = 1; b->kind = kind;
    /* the block number is kept in the guard zone */
    long id = nblocks - 1;
    memcpy(base, &id, sizeof id);
    if (zero) memset(b->p, 0, n); else fill(b->p, n);
    live_blocks[kind]++;
    live_bytes[kind] += n;
    allocations++;
    return b->p;
}

/* reuse the room of released blocks at the end, once much of the arena is taken */
static void trim(void) {
    if (top < ARENA / 3 && nblocks < MAXB / 3) return;
    while (nblocks && !blocks[nblocks - 1].live) {
        block *b = &blocks[--nblocks];
        top = (size_t)(b->p - GUARD - arena);
    }
}

static block *owner(void *p) {
    if (!arena || (char *)p < arena + GUARD || (char *)p >= arena + top) return NULL;
    long id;
    memcpy(&id, (char *)p - GUARD, sizeof id);
    if (id < 0 || id >= nblocks || blocks[id].p != p) return NULL;
    return &blocks[id];
}

static void guard_check(block *b) {
    size_t room = GUARD + ((b->n + 63) & ~(size_t)63) + GUARD;
    char *base = b->p - GUARD;
    for (size_t i = sizeof(long); i < GUARD; i++)
        if ((unsigned char)base[i] != 0xC5) { violation("memory before a block of %zu bytes was overwritten", b->n); break; }
    for (size_t i = GUARD + b->n; i < room; i++)
        if ((unsigned char)base[i] != 0xC5) { violation("memory after a block of %zu bytes was overwritten", b->n); break; }
}

static void drop(void *p, int kind) {
    if (!p) return;
    block *b = owner(p);
    if (!b) { violation("free of a pointer that was not allocated"); return; }
    if (!b->live) { violation("memory block of %zu bytes freed twice", b->n); return; }
    if (b->kind != kind) { violation("memory block of %zu bytes freed by the wrong allocator", b->n); return; }
    guard_check(b);
    b->live = 0;
    memset(shadow + (b->p - arena), RELEASED, b->n);
    fill(b->p, b->n);
    live_blocks[kind]--;
    live_bytes[kind] -= b->n;
}

void *__wrap_malloc(size_t n) { return refused(n, 0) ? NULL : take(n, 0, 0); }
void *__wrap_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return NULL;
    return refused(n, 0) ? NULL : take(n, 0, 1);
}
void __wrap_free(void *p) { drop(p, 0); }
void *__wrap_realloc(void *p, size_t n) {
    if (refused(n, 0)) return NULL;
    void *q = take(n, 0, 0);
    block *b = p ? owner(p) : NULL;
    if (p && !b) violation("realloc of a pointer that was not allocated");
    if (q && b) memcpy(q, p, b->n < n ? b->n : n);
    if (q && b) drop(p, 0);
    return q;
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
    if (refused(n, 0)) return 12;
    *out = take(n, 0, 0);
    return *out ? 0 : 12;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return refused(n, 0) ? NULL : take(n, 0, 0); }

/* memory of numpy arrays: full accounting (1) or seeded contents only (2) */
static int numpy_mode = 1;
typedef struct { size_t n; size_t pad; } head;
static long light_fills;

static void *np_malloc(void *ctx, size_t n) {
    if (numpy_mode == 1) return refused(n, 1) ? NULL : take(n, 1, 0);
    char *p = malloc(n + 64);
    if (!p) return NULL;
    ((head *)p)->n = n;
    fill(p + 64, n);
    light_fills++;
    return p + 64;
}
static void *np_calloc(void *ctx, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return NULL;
    if (numpy_mode == 1) return refused(n, 1) ? NULL : take(n, 1, 1);
    char *p = calloc(1, n + 64);
    if (!p) return NULL;
    ((head *)p)->n = n;
    return p + 64;
}
static void np_free(void *ctx, void *p, size_t n) {
    if (!p) return;
    if (arena && (char *)p >= arena && (char *)p < arena + ARENA) { drop(p, 1); return; }
    char *q = (char *)p - 64;
    size_t m = ((head *)q)->n;
    fill(p, m < 4096 ? m : 4096);
    free(q);
}
static void *np_realloc(void *ctx, void *p, size_t n) {
    if (!p) return np_malloc(ctx, n);
    size_t old = (arena && (char *)p >= arena && (char *)p < arena + ARENA) ? (owner(p) ? owner(p)->n : 0) : ((head *)((char *)p - 64))->n;
    void *q = np_malloc(ctx, n);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    np_free(ctx, p, old);
    return q;
}
typedef struct {
    char name[127];
    uint8_t version;
    struct {
        void *ctx;
        void *(*malloc)(void *, size_t);
        void *(*calloc)(void *, size_t, size_t);
        void *(*realloc)(void *, void *, size_t);
        void (*free)(void *, void *, size_t);
    } allocator;
} handler;
handler nat_handler = { "simulated", 1, { NULL, np_malloc, np_calloc, np_realloc, np_free } };

/* ------------------------------------------------------------------------------------- OpenMP */
#define MAXT 64
#define STACK (256 << 10)
enum { RUN, WAIT_BARRIER, WAIT_LOCK, DONE };
typedef struct { ucontext_t ctx; char *stack; int state; void *lock; int shares, serial; uint64_t seen; long prio; } thread;
static thread th[MAXT];
static ucontext_t main_ctx;
static int nthreads = 1, cur = -1, active, in_parallel, in_barrier;
static void (*region_fn)(void *);
static void *region_data;
#define ALONE (cur < 0 || th[cur].serial)   /* outside of regions, or in a nested one */
static uint64_t sched_rng = 1;
static int policy;                   /* 0 at random, 1 priorities with change points, 2 conflict directed, 3 one after the other, 4 round robin */
static double switch_p = 0.1;
static int max_threads = 1;
static int granted;                  /* the most threads a region really gets (0: as many as asked for) */
static long switches, accesses, regions, conflicts;
static uint64_t schedule_hash = 1469598103934665603ull;
static long change_at[8];
static int nchange;
static long step_limit = 400000000;

/* what was touched by whom in this region (conflict directed scheduling) */
#define TAB (1 << 14)
static struct { uintptr_t a; int tid; int wrote; int shared; long region; } touched[TAB];

static void pick_next(int leave);
static void mixhash(uint64_t v) { schedule_hash = (schedule_hash ^ v) * 1099511628211ull; }

static void entry(void) {
    region_fn(region_data);
    th[cur].state = DONE;
    pick_next(1);
}

static int runnable(void) {
    int list[MAXT], n = 0;
    for (int i = 0; i < active; i++) if (th[i].state == RUN) list[n++] = i;
    if (!n) return -1;
    if (policy == 1) {
        int best = list[0];
        for (int i = 1; i < n; i++) if (th[list[i]].prio > th[best].prio) best = list[i];
        return best;
    }
    if (policy == 3) return list[n - 1];
    if (policy == 4) {
        for (int i = 0; i < n; i++) if (list[i] > cur) return list[i];
        return list[0];
    }
    return list[mix(&sched_rng) % n];
}

static void go(int next) {
    int prev = cur;
    if (next == prev) return;
    switches++;
    mixhash(((uint64_t)next << 32) ^ (uint64_t)accesses);
    cur = next;
    if (prev >= 0) swapcontext(&th[prev].ctx, &th[next].ctx);
    else swapcontext(&main_ctx, &th[next].ctx);
}

static void pick_next(int leave) {
    int next = runnable();
    if (next < 0) {
        int done = 1;
        for (int i = 0; i < active; i++) if (th[i].state != DONE) done = 0;
        if (!done) {
            fprintf(stderr, "threads wait for each other for ever\n");
            abort();
        }
        int prev = cur;
        cur = -1;
        swapcontext(&th[prev].ctx, &main_ctx);
        return;
    }
    go(next);
}

static void yield_point(uintptr_t a, int write) {
    if (cur < 0 || active < 2) return;
    int sw = 0;
    if (policy == 2) {
        size_t h = ((a >> 3) * 11400714819323198485ull) >> 50;
        if (touched[h].a == (a >> 3) && touched[h].region == regions) {
            if (touched[h].tid != cur) touched[h].shared = 1;
            if (write) touched[h].wrote = 1;
            touched[h].tid = cur;
            if (touched[h].shared && touched[h].wrote) { conflicts++; sw = (mix(&sched_rng) & 3) != 0; }
        } else {
            touched[h].a = a >> 3; touched[h].tid = cur; touched[h].wrote = write; touched[h].shared = 0; touched[h].region = regions;
        }
        if (!sw) sw = (double)(mix(&sched_rng) >> 11) / 9007199254740992.0 < switch_p;
    } else if (policy == 1) {
        for (int i = 0; i < nchange; i++) if (accesses == change_at[i]) { th[cur].prio = -accesses; sw = 1; }
    } else if (policy == 3) {
        sw = 0;
    } else {
        sw = (double)(mix(&sched_rng) >> 11) / 9007199254740992.0 < switch_p;
    }
    if (sw) pick_next(0);
}

static void access_hook(void *addr, size_t n, int write) {
    char *a = addr;
    if (checking && arena && a + n > arena && a < arena + ARENA) {
        size_t off = a - arena;
        for (size_t i = 0; i < n; i++)
            if (shadow[off + i] != LIVE) {
                violation("%s of %zu bytes %s", write ? "write" : "read", n, shadow[off + i] == RELEASED ? "in released memory" : "outside of the allocated blocks");
                break;
            }
    }
    accesses++;
    if (accesses > step_limit) { fprintf(stderr, "step limit\n"); abort(); }
    yield_point((uintptr_t)a, write);
}

static void run_region(void (*fn)(void *), void *data, unsigned n, int constructs) {
    if (in_parallel) {                 /* nested: one thread */
        int me = cur, was = me >= 0 ? th[me].serial : 0;
        if (me >= 0) th[me].serial = 1;
        fn(data);
        if (me >= 0) th[me].serial = was;
        return;
    }
    if (n == 0) n = max_threads;
    if (n > MAXT) n = MAXT;
    if (granted > 0 && n > granted) n = granted;
    regions++;
    in_parallel = 1;
    region_fn = fn;
    region_data = data;
    active = n;
    in_barrier = 0;
    for (unsigned i = 0; i < n; i++) {
        getcontext(&th[i].ctx);
        if (!th[i].stack) th[i].stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        th[i].ctx.uc_stack.ss_sp = th[i].stack;
        th[i].ctx.uc_stack.ss_size = STACK;
        th[i].ctx.uc_link = NULL;
        th[i].state = RUN;
        th[i].shares = constructs;
        th[i].serial = 0;
        th[i].lock = NULL;
        th[i].prio = (long)(mix(&sched_rng) >> 8);
        makecontext(&th[i].ctx, entry, 0);
    }
    cur = -1;
    go(runnable());
    in_parallel = 0;
    active = 0;
    cur = -1;
}

/* -------------------------------------------------------------------- OpenMP entry points (libgomp) */
#define SHARES 512
static struct { long next, end, incr, chunk; int guided, started; } share[SHARES];

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { if (!in_parallel) memset(share, 0, sizeof share); run_region(fn, data, n, 0); }
void GOMP_barrier(void) {
    if (ALONE || active < 2) return;
    int n = 0;
    for (int i = 0; i < active; i++) if (th[i].state != DONE) n++;
    if (++in_barrier >= n) {
        in_barrier = 0;
        for (int i = 0; i < active; i++) if (th[i].state == WAIT_BARRIER) th[i].state = RUN;
        pick_next(0);
        return;
    }
    th[cur].state = WAIT_BARRIER;
    pick_next(0);
}

typedef struct { int taken; int by; } slock;
static slock named[64];
static void *named_key[64];
static slock crit, atom;
static void lock(slock *l) {
    if (cur < 0) return;
    while (l->taken) { th[cur].state = WAIT_LOCK; th[cur].lock = l; pick_next(0); }
    l->taken = 1;
    l->by = cur;
}
static void unlock(slock *l) {
    if (cur < 0) return;
    l->taken = 0;
    for (int i = 0; i < active; i++) if (th[i].state == WAIT_LOCK && th[i].lock == l) th[i].state = RUN;
    yield_point(0, 0);
}
static slock *find_lock(void *key) {
    for (int i = 0; i < 64; i++) {
        if (named_key[i] == key) return &named[i];
        if (!named_key[i]) { named_key[i] = key; return &named[i]; }
    }
    return &crit;
}
void GOMP_critical_start(void) { lock(&crit); }
void GOMP_critical_end(void) { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(find_lock(p)); }
void GOMP_critical_name_end(void **p) { unlock(find_lock(p)); }
void GOMP_atomic_start(void) { lock(&atom); }
void GOMP_atomic_end(void) { unlock(&atom); }

static int my_share(void) { int k = ALONE ? (SHARES - 1) : th[cur].shares++; return k % SHARES; }
static int now_share(void) { int k = ALONE ? (SHARES - 1) : th[cur].shares - 1; return k % SHARES; }

static bool share_next(int k, long *a, long *b) {
    yield_point(0, 0);
    long left = share[k].incr > 0 ? (share[k].end - share[k].next + share[k].incr - 1) / share[k].incr : (share[k].next - share[k].end - share[k].incr - 1) / -share[k].incr;
    if (left <= 0) return false;
    long c = share[k].chunk > 0 ? share[k].chunk : 1;
    if (share[k].guided) { long g = left / (2 * (active > 0 ? active : 1)); if (g > c) c = g; }
    if (c > left) c = left;
    *a = share[k].next;
    share[k].next += c * share[k].incr;
    *b = share[k].next;
    yield_point(0, 0);
    return true;
}
static bool loop_start(long s, long e, long i, long c, long *a, long *b, int guided) {
    int k = my_share();
    if (k == (SHARES - 1) || !share[k].started) { share[k].started = 1; share[k].next = s; share[k].end = e; share[k].incr = i; share[k].chunk = c; share[k].guided = guided; }
    return share_next(k, a, b);
}
#define LOOPS(name, G) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b, G); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return share_next(now_share(), a, b); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned flags) { \
        int k = in_parallel ? SHARES - 1 : 0; \
        if (!in_parallel) memset(share, 0, sizeof share); \
        share[k].started = 1; share[k].next = s; share[k].end = e; share[k].incr = i; share[k].chunk = c; share[k].guided = G; \
        run_region(fn, data, n, 1); }
LOOPS(static, 0)
LOOPS(dynamic, 0)
LOOPS(guided, 1)
LOOPS(nonmonotonic_dynamic, 0)
LOOPS(nonmonotonic_guided, 1)
#define RLOOPS(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b, 0); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return share_next(now_share(), a, b); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned flags) { \
        int k = in_parallel ? SHARES - 1 : 0; \
        if (!in_parallel) memset(share, 0, sizeof share); \
        share[k].started = 1; share[k].next = s; share[k].end = e; share[k].incr = i; share[k].chunk = 1; share[k].guided = 0; \
        run_region(fn, data, n, 1); }
RLOOPS(runtime)
RLOOPS(nonmonotonic_runtime)
RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_single_start(void) {
    int k = my_share();
    yield_point(0, 0);
    if (share[k].started && k != (SHARES - 1)) return false;
    share[k].started = 1;
    return true;
}
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, n + 1, 1, 1, &a, &b, 0) ? a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return share_next(now_share(), &a, &b) ? a : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool cond, unsigned flags, void **dep, int prio, void *detach) {
    if (cpy) {
        char *buf = malloc(sz + al);
        char *arg = (char *)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1));
        cpy(arg, data);
        fn(arg);
        free(buf);
    } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}

int omp_get_num_threads(void) { return !ALONE ? active : 1; }
int omp_get_thread_num(void) { return !ALONE ? cur : 0; }
int omp_get_max_threads(void) { return max_threads; }
void omp_set_num_threads(int n) { if (n > 0) max_threads = n > MAXT ? MAXT : n; }
int omp_get_num_procs(void) { return max_threads; }
int omp_in_parallel(void) { return in_parallel; }
double omp_get_wtime(void) { return accesses * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_set_dynamic(int x) {}
int omp_get_dynamic(void) { return granted > 0; }
void omp_set_nested(int x) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return in_parallel; }
int omp_get_active_level(void) { return in_parallel; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_max_active_levels(int x) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_schedule(int a, int b) {}
void omp_init_lock(void **l) { *l = NULL; }
void omp_destroy_lock(void **l) {}
void omp_set_lock(void **l) { lock(find_lock(l)); }
void omp_unset_lock(void **l) { unlock(find_lock(l)); }
int omp_test_lock(void **l) { slock *s = find_lock(l); if (s->taken) return 0; lock(s); return 1; }

/* ------------------------------------------------------------------------- thread instrumentation */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *a) { access_hook(a, n, 0); } \
    void __tsan_write##n(void *a) { access_hook(a, n, 1); } \
    void __tsan_unaligned_read##n(void *a) { access_hook(a, n, 0); } \
    void __tsan_unaligned_write##n(void *a) { access_hook(a, n, 1); } \
    void __tsan_read##n##_pc(void *a, void *pc) { access_hook(a, n, 0); } \
    void __tsan_write##n##_pc(void *a, void *pc) { access_hook(a, n, 1); } \
    void __tsan_volatile_read##n(void *a) { access_hook(a, n, 0); } \
    void __tsan_volatile_write##n(void *a) { access_hook(a, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access_hook(a, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access_hook(a, n, 1); } \
    void __tsan_read_write##n(void *a) { access_hook(a, n, 0); access_hook(a, n, 1); } \
    void __tsan_unaligned_read_write##n(void *a) { access_hook(a, n, 0); access_hook(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access_hook(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { access_hook(a, n, 1); }
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo) { access_hook((void *)a, sizeof(T), 0); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { access_hook((void *)a, sizeof(T), 1); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { access_hook((void *)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { access_hook((void *)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { access_hook((void *)a, sizeof(T), 1); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

static void range_hook(const void *a, size_t n, int w) { if (n) access_hook((void *)a, n, w); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { range_hook(s, n, 0); range_hook(d, n, 1); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { range_hook(s, n, 0); range_hook(d, n, 1); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { range_hook(d, n, 1); return memset(d, c, n); }

/* ---------------------------------------------------------------------------------------- control */
void nat_heap(int mode, uint64_t seed) { poison_mode = mode; poison_rng = seed * 2654435761u + 88172645463325252ull; }
void nat_numpy(int mode) { numpy_mode = mode; }
void nat_plan(size_t min, long at, long count) { fail_min = min; fail_at = at; fail_count = count; big_seen = 0; failed = 0; failed_kind = -1; }
long nat_failed(void) { return failed; }
int nat_failed_kind(void) { return failed_kind; }
long nat_big(void) { return big_seen; }
void nat_begin(void) { checking = 1; }
void nat_end(void) { checking = 0; trim(); }
void nat_schedule(int threads, int pol, double p, uint64_t seed, long span) {
    max_threads = threads < 1 ? 1 : (threads > MAXT ? MAXT : threads);
    policy = pol;
    switch_p = p;
    sched_rng = seed * 0x2545F4914F6CDD1Dull + 1442695040888963407ull;
    schedule_hash = 1469598103934665603ull;
    accesses = switches = conflicts = 0;
    nchange = 5;
    for (int i = 0; i < nchange; i++) change_at[i] = span > 0 ? (long)(mix(&sched_rng) % span) : -1;
    crit.taken = atom.taken = 0;
    memset(named, 0, sizeof named);
}
long nat_stat(int k) {
    switch (k) {
    case 0: return live_blocks[0];
    case 1: return live_blocks[1];
    case 2: return (long)live_bytes[0];
    case 3: return (long)live_bytes[1];
    case 4: return violations;
    case 5: return switches;
    case 6: return accesses;
    case 7: return regions;
    case 8: return allocations;
    case 9: return conflicts;
    case 10: return light_fills;
    }
    return -1;
}
uint64_t nat_hash(void) { return schedule_hash; }
const char *nat_message(void) { return message; }
/* guard zones of everything that is alive */
void nat_scan(void) { for (long i = 0; i < nblocks; i++) if (blocks[i].live) guard_check(&blocks[i]); }
void nat_clear(void) { violations = 0; message[0] = 0; }
void nat_granted(int n) { granted = n; }
