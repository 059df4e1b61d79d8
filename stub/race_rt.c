/*
    The run time the library is linked with in the "race" build, in place of libgomp and of ThreadSanitizer's.

    The library's C files are compiled with -fopenmp -fsanitize=thread, so every parallel region comes here as GOMP_parallel
    and every access to memory as __tsan_read/write.  Threads of a team are real ones (with their own stacks and thread-local
    storage), but exactly one holds the baton at any moment: which one, and where it hands over, is decided by the plan given by
    the check.  While recording, each access of a team's threads is kept with the locks held, and two accesses of different
    threads to the same bytes, one of them a write and no lock in common, are a conflict.
*/
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>

#define MAX_TEAM 1024
#define MAX_CONFLICTS 4096
#define MAX_LOCKS 6

/* --- the plan -------------------------------------------------------------------------------- */
static int team_size = 1;           /* threads per team */
static int order_kind = 0;          /* 0 as numbered, 1 reversed, 2 rotated by order_arg, 3 permutation number order_arg */
static long order_arg = 0;
static int recording = 0;
static long preempt_region = -1;    /* at the preempt_step-th visible step of preempt_thread in this region, */
static long preempt_step = -1;      /* preempt_other runs to its end (or until it blocks) */
static int preempt_thread = -1, preempt_other = -1;
static uintptr_t watch[MAX_CONFLICTS];
static size_t n_watch = 0;

/* --- what happened ---------------------------------------------------------------------------- */
struct conflict {
    uintptr_t addr;
    long region;
    int t1, t2;
    int w1, w2;
    uintptr_t pc1, pc2;
    int kind;                       /* 0 plain memory, else what a library changes behind the pointer */
};
static struct conflict conflicts[MAX_CONFLICTS];
static size_t n_conflicts = 0;
static unsigned long long n_accesses = 0, n_regions = 0, n_granules = 0, n_locked = 0, n_pairs = 0, n_working = 0;
static long steps[MAX_TEAM];        /* visible steps of the threads of preempt_region */
static int blocked_forever = 0;

/* --- threads of a team ------------------------------------------------------------------------- */
struct team;
struct worker {
    int id;
    struct team *team;
    sem_t go;
    pthread_t thread;
    int done, waiting_lock, at_barrier, started;
    unsigned locks;
    unsigned long long accesses;
};
struct team {
    void (*fn)(void *);
    void *data;
    int size;
    long region;
    struct worker *workers;
    sem_t main_go;
    int arrived;
    long single;
    long loop_next, loop_end, loop_incr, loop_chunk;
    int loop_started, loop_generation;
};
static __thread struct worker *me = NULL;
static struct team *current = NULL;     /* the team being run */
static long region_count = 0;
static int lock_owner[MAX_LOCKS + 2];   /* worker id + 1 */
static void *lock_names[MAX_LOCKS + 2];

/* --- the record: 4-byte granules ----------------------------------------------------------------- */
struct access {
    int16_t tid;
    uint8_t mask, write, locks, kind;
    uintptr_t pc;
};
struct granule {
    uintptr_t key;
    unsigned generation;
    uint8_t n, reported;
    struct access a[6];
};
static struct granule *table = NULL;
static size_t table_size = 0, table_used = 0;
static unsigned generation = 1;

static size_t slot_of(uintptr_t key)
{
    size_t i = (key * 0x9E3779B97F4A7C15ull) >> 20;
    return i & (table_size - 1);
}

static void table_clear(void)
{
    if (!table){
        table_size = (size_t)1 << 21;
        table = calloc(table_size, sizeof *table);
    }
    ++generation;
    table_used = 0;
}

static struct granule *lookup(uintptr_t key, int create);

static void grow(void)
{
    struct granule *old = table;
    size_t n = table_size;
    table_size *= 2;
    table = calloc(table_size, sizeof *table);
    table_used = 0;
    for (size_t i = 0; i < n; ++i){
        if (old[i].generation == generation){
            struct granule *g = lookup(old[i].key, 1);
            *g = old[i];
        }
    }
    free(old);
}

static struct granule *lookup(uintptr_t key, int create)
{
    size_t i = slot_of(key);
    while (table[i].generation == generation){
        if (table[i].key == key) return &table[i];
        i = (i + 1) & (table_size - 1);
    }
    if (!create) return NULL;
    if (2 * table_used > table_size){
        grow();
        return lookup(key, 1);
    }
    ++table_used;
    ++n_granules;
    table[i].key = key;
    table[i].generation = generation;
    table[i].n = 0;
    table[i].reported = 0;
    return &table[i];
}

static void note(uintptr_t key, uint8_t mask, int write, uintptr_t pc, int kind)
{
    struct granule *g = lookup(key, 1);
    struct access *same = NULL;
    for (int i = 0; i < g->n; ++i){
        struct access *x = &g->a[i];
        if (x->tid == me->id){
            if (x->write == write && x->locks == me->locks) same = x;
            continue;
        }
        if ((x->mask & mask) && (x->write || write)){
            if (x->locks & me->locks){
                ++n_locked;
                continue;
            }
            if (!g->reported && n_conflicts < MAX_CONFLICTS){
                struct conflict *c = &conflicts[n_conflicts++];
                c->addr = key << 2;
                c->region = me->team->region;
                c->t1 = x->tid, c->t2 = me->id;
                c->w1 = x->write, c->w2 = write;
                c->pc1 = x->pc, c->pc2 = pc;
                c->kind = x->kind > kind ? x->kind : kind;
                g->reported = 1;
            }
        }
    }
    if (same){
        same->mask |= mask;
        return;
    }
    /* two threads for each kind of access are enough: any later thread differs from one of them */
    int n = 0;
    for (int i = 0; i < g->n; ++i)
        n += g->a[i].write == write && g->a[i].locks == me->locks;
    if (n < 2 && g->n < 6){
        struct access *x = &g->a[g->n++];
        x->tid = me->id, x->mask = mask, x->write = write, x->locks = me->locks, x->pc = pc, x->kind = kind;
    }
}

static void forget(void *p, size_t size)
{
    if (!me || !recording || !p) return;
    for (uintptr_t k = (uintptr_t)p >> 2; k <= ((uintptr_t)p + size - 1) >> 2; ++k){
        struct granule *g = lookup(k, 0);
        if (g) g->n = 0;
    }
}

/* --- handing over ---------------------------------------------------------------------------------- */
static int pick(struct team *team)
{
    /* the next runnable thread in the order of the plan */
    static int perm[MAX_TEAM];
    int n = team->size;
    for (int i = 0; i < n; ++i) perm[i] = i;
    if (order_kind == 1) for (int i = 0; i < n; ++i) perm[i] = n - 1 - i;
    if (order_kind == 2) for (int i = 0; i < n; ++i) perm[i] = (i + order_arg) % n;
    if (order_kind == 3){
        long code = order_arg;
        for (int i = n - 1; i > 0; --i){
            int j = code % (i + 1), t = perm[i];
            code /= i + 1;
            perm[i] = perm[j], perm[j] = t;
        }
    }
    for (int i = 0; i < n; ++i){
        struct worker *w = &team->workers[perm[i]];
        if (w->done || w->at_barrier) continue;
        if (w->waiting_lock >= 0 && lock_owner[w->waiting_lock]) continue;
        return perm[i];
    }
    return -1;
}

static void wake(struct team *team, int i)
{
    if (i < 0) sem_post(&team->main_go);
    else sem_post(&team->workers[i].go);
}

static void yield_to(int i)
{
    struct worker *w = me;
    if (i == w->id) return;
    wake(w->team, i);
    while (sem_wait(&w->go) && errno == EINTR);
}

static void visible(uintptr_t addr)
{
    if (!me || me->team->region != preempt_region) return;
    if (addr){
        size_t i;
        for (i = 0; i < n_watch; ++i) if (watch[i] == addr >> 2) break;
        if (i == n_watch) return;
    }
    long step = steps[me->id]++;
    if (me->id == preempt_thread && step == preempt_step && preempt_other < me->team->size){
        struct worker *o = &me->team->workers[preempt_other];
        if (!o->done && !o->at_barrier && !(o->waiting_lock >= 0 && lock_owner[o->waiting_lock])){
            yield_to(preempt_other);
        }
    }
}

static void access_range(void *p, size_t size, int write, uintptr_t pc, int kind)
{
    if (!me) return;
    ++n_accesses;
    ++me->accesses;
    uintptr_t a = (uintptr_t)p, end = a + size;
    if (n_watch) for (uintptr_t k = a >> 2; k <= (end - 1) >> 2; ++k) visible(k << 2);
    if (!recording) return;
    while (a < end){
        unsigned off = a & 3;
        unsigned n = 4 - off < end - a ? 4 - off : end - a;
        note(a >> 2, ((1u << n) - 1) << off, write, pc, kind);
        a += n;
    }
}

/* --- teams ------------------------------------------------------------------------------------------ */
static void *worker_main(void *arg)
{
    struct worker *w = arg;
    while (sem_wait(&w->go) && errno == EINTR);
    me = w;
    w->team->fn(w->team->data);
    me = NULL;
    w->done = 1;
    wake(w->team, pick(w->team));
    return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags)
{
    (void)num_threads, (void)flags;
    if (me){
        /* nested parallelism is off by default */
        fn(data);
        return;
    }
    struct team team;
    memset(&team, 0, sizeof team);
    team.fn = fn, team.data = data, team.size = team_size, team.region = region_count++;
    ++n_regions;
    n_pairs += (unsigned long long)team.size * (team.size - 1) / 2;
    if (recording) table_clear();
    if (team.region == preempt_region) memset(steps, 0, sizeof steps);
    sem_init(&team.main_go, 0, 0);
    team.workers = calloc(team.size, sizeof *team.workers);
    current = &team;
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, (size_t)64 << 20);
    for (int i = 0; i < team.size; ++i){
        struct worker *w = &team.workers[i];
        w->id = i, w->team = &team, w->waiting_lock = -1;
        sem_init(&w->go, 0, 0);
        if (pthread_create(&w->thread, &attr, worker_main, w)){
            fprintf(stderr, "race_rt: cannot create a thread\n");
            abort();
        }
    }
    wake(&team, pick(&team));
    while (sem_wait(&team.main_go) && errno == EINTR);
    for (int i = 0; i < team.size; ++i){
        if (!team.workers[i].done){
            blocked_forever = 1;
            fprintf(stderr, "race_rt: deadlock\n");
            abort();
        }
        n_working += team.workers[i].accesses > 0;
        pthread_join(team.workers[i].thread, NULL);
        sem_destroy(&team.workers[i].go);
    }
    pthread_attr_destroy(&attr);
    sem_destroy(&team.main_go);
    free(team.workers);
    current = NULL;
}

int omp_get_num_threads(void) { return me ? me->team->size : 1; }
int omp_get_thread_num(void) { return me ? me->id : 0; }
int omp_get_max_threads(void) { return team_size; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return me != NULL; }
void omp_set_num_threads(int n) { (void)n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void) { return 0; }

void GOMP_barrier(void)
{
    if (!me) return;
    struct worker *w = me;
    struct team *team = w->team;
    w->at_barrier = 1;
    if (++team->arrived == team->size){
        team->arrived = 0;
        for (int i = 0; i < team->size; ++i) team->workers[i].at_barrier = 0;
        /* everything before is ordered with everything after */
        if (recording) table_clear();
    }
    int next = pick(team);
    if (next != w->id){
        wake(team, next);
        while (sem_wait(&w->go) && errno == EINTR);
    }
}

static int lock_index(void *name)
{
    if (!name) return 0;
    for (int i = 1; i <= MAX_LOCKS; ++i){
        if (!lock_names[i]) lock_names[i] = name;
        if (lock_names[i] == name) return i;
    }
    return MAX_LOCKS;
}

static void acquire(int i)
{
    if (!me) return;
    visible(0);
    while (lock_owner[i] && lock_owner[i] != me->id + 1){
        me->waiting_lock = i;
        int next = pick(me->team);
        wake(me->team, next);
        while (sem_wait(&me->go) && errno == EINTR);
        me->waiting_lock = -1;
    }
    lock_owner[i] = me->id + 1;
    me->locks |= 1u << i;
}

static void release(int i)
{
    if (!me) return;
    lock_owner[i] = 0;
    me->locks &= ~(1u << i);
    visible(0);
}

void GOMP_critical_start(void) { acquire(0); }
void GOMP_critical_end(void) { release(0); }
void GOMP_critical_name_start(void **name) { acquire(lock_index(name)); }
void GOMP_critical_name_end(void **name) { release(lock_index(name)); }
void GOMP_atomic_start(void) { acquire(MAX_LOCKS + 1); }
void GOMP_atomic_end(void) { release(MAX_LOCKS + 1); }
void omp_init_lock(void *p) { (void)p; }
void omp_destroy_lock(void *p) { (void)p; }
void omp_set_lock(void *p) { acquire(lock_index(p)); }
void omp_unset_lock(void *p) { release(lock_index(p)); }
int omp_test_lock(void *p) { if (me && lock_owner[lock_index(p)]) return 0; acquire(lock_index(p)); return 1; }

_Bool GOMP_single_start(void)
{
    /* one per barrier interval is enough for this library */
    if (!me) return 1;
    return me->team->single++ % me->team->size == 0;
}

static _Bool loop_chunk_next(long *a, long *b)
{
    struct team *t = me->team;
    visible(0);
    if (t->loop_incr > 0 ? t->loop_next >= t->loop_end : t->loop_next <= t->loop_end) return 0;
    long n = t->loop_chunk > 0 ? t->loop_chunk : 1;
    *a = t->loop_next;
    *b = t->loop_next + n * t->loop_incr;
    if (t->loop_incr > 0 ? *b > t->loop_end : *b < t->loop_end) *b = t->loop_end;
    t->loop_next = *b;
    return 1;
}

static _Bool loop_begin(long start, long end, long incr, long chunk, long *a, long *b)
{
    if (!me){
        *a = start, *b = end;
        return incr > 0 ? start < end : start > end;
    }
    struct team *t = me->team;
    if (!t->loop_started){
        t->loop_next = start, t->loop_end = end, t->loop_incr = incr, t->loop_chunk = chunk;
    }
    ++t->loop_started;
    return loop_chunk_next(a, b);
}

#define LOOP(name) \
_Bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_begin(s, e, i, c, a, b); } \
_Bool GOMP_loop_##name##_next(long *a, long *b) { return me ? loop_chunk_next(a, b) : 0; }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided)
_Bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_begin(s, e, i, 1, a, b); }
_Bool GOMP_loop_runtime_next(long *a, long *b) { return me ? loop_chunk_next(a, b) : 0; }
void GOMP_loop_end_nowait(void) { if (me && --me->team->loop_started == 0) ; }
void GOMP_loop_end(void) { GOMP_barrier(); if (me) me->team->loop_started = 0; }

static void parallel_loop(void (*fn)(void *), void *data, long s, long e, long i, long c)
{
    /* the outlined function only calls next */
    static struct { void (*fn)(void *); void *data; } inner;
    inner.fn = fn, inner.data = data;
    (void)s, (void)e, (void)i, (void)c;
    abort();
}
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) \
    { run_loop(fn, data, s, e, i, c); (void)n, (void)f; }

static long pending[4];
static int have_pending = 0;
static void run_loop(void (*fn)(void *), void *data, long s, long e, long i, long c);
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided)

struct loop_data { void (*fn)(void *); void *data; };
static void loop_trampoline(void *arg)
{
    struct loop_data *d = arg;
    struct team *t = me->team;
    if (!t->loop_started) t->loop_next = pending[0], t->loop_end = pending[1], t->loop_incr = pending[2], t->loop_chunk = pending[3];
    ++t->loop_started;
    d->fn(d->data);
}
static void run_loop(void (*fn)(void *), void *data, long s, long e, long i, long c)
{
    struct loop_data d = {fn, data};
    if (me) parallel_loop(fn, data, s, e, i, c);    /* not used by this library */
    pending[0] = s, pending[1] = e, pending[2] = i, pending[3] = c;
    have_pending = 1;
    GOMP_parallel(loop_trampoline, &d, 0, 0);
}

/* --- accesses ------------------------------------------------------------------------------------------ */
#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *p) { access_range(p, n, 0, PC, 0); } \
void __tsan_write##n(void *p) { access_range(p, n, 1, PC, 0); } \
void __tsan_volatile_read##n(void *p) { access_range(p, n, 0, PC, 0); } \
void __tsan_volatile_write##n(void *p) { access_range(p, n, 1, PC, 0); } \
void __tsan_unaligned_read##n(void *p) { access_range(p, n, 0, PC, 0); } \
void __tsan_unaligned_write##n(void *p) { access_range(p, n, 1, PC, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) access_range(p, n, 0, PC, 0); }
void __tsan_write_range(void *p, size_t n) { if (n) access_range(p, n, 1, PC, 0); }

#define ATOMIC_LOCK (1u << (MAX_LOCKS + 1))
static void atomic_access(const volatile void *p, size_t n, int write, uintptr_t pc)
{
    if (!me) return;
    unsigned locks = me->locks;
    me->locks |= ATOMIC_LOCK;
    access_range((void *)p, n, write, pc, 0);
    me->locks = locks;
}
#define ATOMICS(bits, type) \
type __tsan_atomic##bits##_load(const volatile type *p, int o) { (void)o; atomic_access(p, bits / 8, 0, PC); return *p; } \
void __tsan_atomic##bits##_store(volatile type *p, type v, int o) { (void)o; atomic_access(p, bits / 8, 1, PC); *p = v; } \
type __tsan_atomic##bits##_exchange(volatile type *p, type v, int o) { (void)o; atomic_access(p, bits / 8, 1, PC); type x = *p; *p = v; return x; } \
type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int o) { (void)o; atomic_access(p, bits / 8, 1, PC); type x = *p; *p = x + v; return x; } \
type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int o) { (void)o; atomic_access(p, bits / 8, 1, PC); type x = *p; *p = x - v; return x; } \
type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int o) { (void)o; atomic_access(p, bits / 8, 1, PC); type x = *p; *p = x | v; return x; } \
type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int o) { (void)o; atomic_access(p, bits / 8, 1, PC); type x = *p; *p = x & v; return x; } \
type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int o) { (void)o; atomic_access(p, bits / 8, 1, PC); type x = *p; *p = x ^ v; return x; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *e, type v, int o, int f) { (void)o, (void)f; atomic_access(p, bits / 8, 1, PC); \
    if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *e, type v, int o, int f) { (void)o, (void)f; atomic_access(p, bits / 8, 1, PC); \
    if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* --- what the libraries change behind a pointer ----------------------------------------------------------- */
enum { ACCEL = 1, WORKSPACE, GENERATOR, PLANNER, BUFFER, HANDLER, SPLINE };
static char the_planner, the_handler;

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); forget(p, n); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); forget(p, n * m); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p != q) forget(p, n); return p; }
void __wrap_free(void *p) { if (me && recording && p) { size_t n = malloc_usable_size(p); access_range(p, n, 1, PC, 0); forget(p, n); } __real_free(p); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) access_range((void *)s, n, 0, PC, 0), access_range(d, n, 1, PC, 0); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) access_range((void *)s, n, 0, PC, 0), access_range(d, n, 1, PC, 0); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) access_range(d, n, 1, PC, 0); return __real_memset(d, c, n); }

#define ALLOC1(name, T) void *__real_##name(T); void *__wrap_##name(T a) { void *p = __real_##name(a); if (p) forget(p, malloc_usable_size(p)); return p; }
#define FREE1(name) void __real_##name(void *); void __wrap_##name(void *p) { if (p) access_range(p, 8, 1, PC, WORKSPACE), forget(p, malloc_usable_size(p)); __real_##name(p); }
ALLOC1(gsl_integration_workspace_alloc, size_t) FREE1(gsl_integration_workspace_free)
ALLOC1(gsl_monte_plain_alloc, size_t) ALLOC1(gsl_monte_miser_alloc, size_t) ALLOC1(gsl_monte_vegas_alloc, size_t)
FREE1(gsl_monte_plain_free) FREE1(gsl_monte_miser_free) FREE1(gsl_monte_vegas_free)
ALLOC1(gsl_rng_alloc, void *) FREE1(gsl_rng_free)
ALLOC1(fftw_malloc, size_t)
void *__real_gsl_interp_accel_alloc(void);
void *__wrap_gsl_interp_accel_alloc(void) { void *p = __real_gsl_interp_accel_alloc(); if (p) forget(p, malloc_usable_size(p)); return p; }
FREE1(gsl_interp_accel_free) FREE1(gsl_spline_free) FREE1(gsl_spline2d_free) FREE1(fftw_free)
void *__real_gsl_spline_alloc(void *, size_t);
void *__wrap_gsl_spline_alloc(void *t, size_t n) { void *p = __real_gsl_spline_alloc(t, n); if (p) forget(p, malloc_usable_size(p)); return p; }
void *__real_gsl_spline2d_alloc(void *, size_t, size_t);
void *__wrap_gsl_spline2d_alloc(void *t, size_t n, size_t m) { void *p = __real_gsl_spline2d_alloc(t, n, m); if (p) forget(p, malloc_usable_size(p)); return p; }

int __real_gsl_spline_init(void *, void *, void *, size_t);
int __wrap_gsl_spline_init(void *s, void *x, void *y, size_t n)
{
    access_range(s, 8, 1, PC, SPLINE), access_range(x, 8 * n, 0, PC, 0), access_range(y, 8 * n, 0, PC, 0);
    return __real_gsl_spline_init(s, x, y, n);
}
double __real_gsl_spline_eval(void *, double, void *), __real_gsl_spline_eval_deriv(void *, double, void *);
double __wrap_gsl_spline_eval(void *s, double x, void *a)
{
    access_range(s, 8, 0, PC, SPLINE);
    if (a) access_range(a, 24, 1, PC, ACCEL);
    return __real_gsl_spline_eval(s, x, a);
}
double __wrap_gsl_spline_eval_deriv(void *s, double x, void *a)
{
    access_range(s, 8, 0, PC, SPLINE);
    if (a) access_range(a, 24, 1, PC, ACCEL);
    return __real_gsl_spline_eval_deriv(s, x, a);
}
double __real_gsl_spline2d_eval(void *, double, double, void *, void *);
double __wrap_gsl_spline2d_eval(void *s, double x, double y, void *a, void *b)
{
    access_range(s, 8, 0, PC, SPLINE);
    if (a) access_range(a, 24, 1, PC, ACCEL);
    if (b) access_range(b, 24, 1, PC, ACCEL);
    return __real_gsl_spline2d_eval(s, x, y, a, b);
}
int __real_gsl_integration_qag(void *, double, double, double, double, size_t, int, void *, void *, void *);
int __wrap_gsl_integration_qag(void *f, double a, double b, double c, double d, size_t l, int k, void *w, void *r, void *e)
{
    access_range(w, 8, 1, PC, WORKSPACE), access_range(r, 8, 1, PC, 0), access_range(e, 8, 1, PC, 0);
    int x = __real_gsl_integration_qag(f, a, b, c, d, l, k, w, r, e);
    access_range(w, 8, 1, PC, WORKSPACE), access_range(r, 8, 1, PC, 0), access_range(e, 8, 1, PC, 0);
    return x;
}
#define MONTE(name) \
int __real_gsl_monte_##name##_integrate(void *, void *, void *, size_t, size_t, void *, void *, void *, void *); \
int __wrap_gsl_monte_##name##_integrate(void *f, void *a, void *b, size_t d, size_t n, void *rng, void *w, void *r, void *e) \
{ access_range(rng, 8, 1, PC, GENERATOR), access_range(w, 8, 1, PC, WORKSPACE); \
  int x = __real_gsl_monte_##name##_integrate(f, a, b, d, n, rng, w, r, e); \
  access_range(r, 8, 1, PC, 0), access_range(e, 8, 1, PC, 0); return x; }
MONTE(plain) MONTE(miser) MONTE(vegas)

struct plan_note { void *plan, *in, *out; } ;
static struct plan_note plans[256];
static size_t n_plans = 0;
static void *planned(void *plan, void *in, void *out)
{
    plans[n_plans % 256].plan = plan, plans[n_plans % 256].in = in, plans[n_plans % 256].out = out;
    ++n_plans;
    return plan;
}
#define PLAN1(name) void *__real_##name(int, void *, void *, unsigned); \
void *__wrap_##name(int n, void *i, void *o, unsigned f) { access_range(&the_planner, 1, 1, PC, PLANNER); return planned(__real_##name(n, i, o, f), i, o); }
#define PLAN2(name) void *__real_##name(int, int, void *, void *, unsigned); \
void *__wrap_##name(int n, int m, void *i, void *o, unsigned f) { access_range(&the_planner, 1, 1, PC, PLANNER); return planned(__real_##name(n, m, i, o, f), i, o); }
PLAN1(fftw_plan_dft_c2r_1d) PLAN1(fftw_plan_dft_r2c_1d) PLAN2(fftw_plan_dft_c2r_2d) PLAN2(fftw_plan_dft_r2c_2d)
void __real_fftw_destroy_plan(void *);
void __wrap_fftw_destroy_plan(void *p) { access_range(&the_planner, 1, 1, PC, PLANNER); __real_fftw_destroy_plan(p); }
void __real_fftw_execute(void *);
void __wrap_fftw_execute(void *p)
{
    /* different plans may run at once, but not on the same output */
    for (size_t k = n_plans; k > 0 && k + 256 > n_plans; --k){
        size_t i = (k - 1) % 256;
        if (plans[i].plan == p){
            access_range(plans[i].out, 8, 1, PC, BUFFER);
            access_range(plans[i].in, 8, 0, PC, BUFFER);
            break;
        }
    }
    __real_fftw_execute(p);
}
void *__real_gsl_set_error_handler(void *), *__real_gsl_set_error_handler_off(void);
void *__wrap_gsl_set_error_handler(void *h) { access_range(&the_handler, 1, 1, PC, HANDLER); return __real_gsl_set_error_handler(h); }
void *__wrap_gsl_set_error_handler_off(void) { access_range(&the_handler, 1, 1, PC, HANDLER); return __real_gsl_set_error_handler_off(); }

/* --- for the check ------------------------------------------------------------------------------------------ */
void race_plan(int size, int kind, long arg, int record)
{
    team_size = size, order_kind = kind, order_arg = arg, recording = record;
    preempt_region = -1, n_watch = 0, region_count = 0;
}
void race_preempt(long region, int thread, long step, int other) { preempt_region = region, preempt_thread = thread, preempt_step = step, preempt_other = other; }
void race_watch(uintptr_t addr) { if (n_watch < MAX_CONFLICTS) watch[n_watch++] = addr >> 2; }
long race_steps(int thread) { return steps[thread]; }
size_t race_conflicts(void) { return n_conflicts; }
const struct conflict *race_conflict(size_t i) { return &conflicts[i]; }
unsigned long long race_count(int what)
{
    switch (what){
        case 0: return n_accesses;
        case 1: return n_regions;
        case 2: return n_granules;
        case 3: return n_locked;
        case 4: return n_pairs;
        case 5: return n_working;
        default: return region_count;
    }
}
