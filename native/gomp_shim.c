/* A minimal OpenMP runtime (the part of the GOMP ABI gcc emits for parallel/for/reduction/critical/atomic), built with
 * ThreadSanitizer so that every synchronisation between the threads of a parallel region is visible to it and nothing
 * else is. Threads are created per region. VERIF_SHIM_JITTER makes threads start in varying order. */
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>

typedef struct { pthread_mutex_t m; pthread_cond_t c; unsigned n, in, gen; } bar_t;
typedef struct { bar_t bar; unsigned n; pthread_mutex_t loop_m; long next, end, incr, chunk; unsigned loop_gen; unsigned single_gen; } team_t;
typedef struct { void (*fn)(void *); void *data; unsigned id; team_t *team; } job_t;

static __thread unsigned t_id;
static __thread team_t *t_team;
static __thread unsigned t_loops, t_singles;
static pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t g_atomic = PTHREAD_MUTEX_INITIALIZER;
unsigned long verif_shim_regions, verif_shim_threads;

static unsigned nthreads(void) {
    const char *e = getenv("OMP_NUM_THREADS");
    unsigned n = e ? (unsigned)atoi(e) : 4;
    return n < 1 ? 1 : n;
}

static void bar_wait(bar_t *b) {
    pthread_mutex_lock(&b->m);
    unsigned g = b->gen;
    if (++b->in == b->n) { b->in = 0; b->gen++; pthread_cond_broadcast(&b->c); }
    else while (g == b->gen) pthread_cond_wait(&b->c, &b->m);
    pthread_mutex_unlock(&b->m);
}

static void *run(void *p) {
    job_t *j = p;
    t_id = j->id; t_team = j->team; t_loops = 0; t_singles = 0;
    const char *e = getenv("VERIF_SHIM_JITTER");
    if (e && *e != '0') {
        unsigned us = (unsigned)((j->id * 2654435761u + (unsigned)(uintptr_t)j->data) >> 7) % 60;
        if (us > 20) usleep(us);
    }
    j->fn(j->data);
    return 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    (void)flags;
    team_t *outer = t_team; unsigned oid = t_id, ol = t_loops, os = t_singles;
    if (n == 0) n = nthreads();
    if (outer) n = 1; /* nested regions run on one thread */
    team_t *t = calloc(1, sizeof *t);
    pthread_mutex_init(&t->bar.m, 0); pthread_cond_init(&t->bar.c, 0); pthread_mutex_init(&t->loop_m, 0);
    t->bar.n = t->n = n;
    job_t *js = calloc(n, sizeof *js);
    pthread_t *th = calloc(n, sizeof *th);
    for (unsigned i = 1; i < n; i++) {
        js[i] = (job_t){fn, data, i, t};
        if (pthread_create(&th[i], 0, run, &js[i])) abort();
    }
    js[0] = (job_t){fn, data, 0, t};
    run(&js[0]);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], 0);
    if (n > 1) { __atomic_fetch_add(&verif_shim_regions, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&verif_shim_threads, n, __ATOMIC_RELAXED); }
    t_team = outer; t_id = oid; t_loops = ol; t_singles = os;
    pthread_mutex_destroy(&t->bar.m); pthread_cond_destroy(&t->bar.c); pthread_mutex_destroy(&t->loop_m);
    free(th); free(js); free(t);
}

int omp_get_thread_num(void) { return (int)t_id; }
int omp_get_num_threads(void) { return t_team ? (int)t_team->n : 1; }
int omp_get_max_threads(void) { return (int)nthreads(); }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
void omp_set_num_threads(int n) { (void)n; }
int omp_get_num_procs(void) { return 4; }
void GOMP_barrier(void) { if (t_team) bar_wait(&t_team->bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&g_crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&g_crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&g_crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start(void) {
    team_t *t = t_team; bool mine = true;
    if (!t) return true;
    pthread_mutex_lock(&t->loop_m);
    if (t_singles == t->single_gen) t->single_gen++; else mine = false;
    t_singles++;
    pthread_mutex_unlock(&t->loop_m);
    return mine;
}

/* dynamic / guided / runtime schedules: one shared counter per loop of the team */
static bool loop_start(long start, long end, long incr, long chunk, long *is, long *ie);
static bool loop_next(long *is, long *ie) {
    team_t *t = t_team; bool ok = false;
    pthread_mutex_lock(&t->loop_m);
    long left = t->incr > 0 ? t->end - t->next : t->next - t->end;
    if (left > 0) {
        long step = t->chunk * t->incr;
        *is = t->next; t->next += step;
        *ie = t->incr > 0 ? (t->next > t->end ? t->end : t->next) : (t->next < t->end ? t->end : t->next);
        ok = true;
    }
    pthread_mutex_unlock(&t->loop_m);
    return ok;
}
static bool loop_start(long start, long end, long incr, long chunk, long *is, long *ie) {
    team_t *t = t_team;
    pthread_mutex_lock(&t->loop_m);
    if (t_loops == t->loop_gen) { t->loop_gen++; t->next = start; t->end = end; t->incr = incr; t->chunk = chunk < 1 ? 1 : chunk; }
    t_loops++;
    pthread_mutex_unlock(&t->loop_m);
    return loop_next(is, ie);
}
#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long c, long d, long *e, long *f) { return loop_start(a, b, c, d, e, f); } \
    bool GOMP_loop_##kind##_next(long *e, long *f) { return loop_next(e, f); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long a, long b, long c, long *e, long *f) { return loop_start(a, b, c, 1, e, f); }
bool GOMP_loop_runtime_next(long *e, long *f) { return loop_next(e, f); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long *e, long *f) { return loop_start(a, b, c, 1, e, f); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *e, long *f) { return loop_next(e, f); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
typedef unsigned long long ull;
bool GOMP_loop_ull_dynamic_start(bool up, ull a, ull b, ull c, ull d, ull *e, ull *f) { (void)up; return loop_start((long)a, (long)b, (long)c, (long)d, (long *)e, (long *)f); }
bool GOMP_loop_ull_dynamic_next(ull *e, ull *f) { return loop_next((long *)e, (long *)f); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull a, ull b, ull c, ull d, ull *e, ull *f) { return GOMP_loop_ull_dynamic_start(up, a, b, c, d, e, f); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull *e, ull *f) { return loop_next((long *)e, (long *)f); }
bool GOMP_loop_ull_guided_start(bool up, ull a, ull b, ull c, ull d, ull *e, ull *f) { return GOMP_loop_ull_dynamic_start(up, a, b, c, d, e, f); }
bool GOMP_loop_ull_guided_next(ull *e, ull *f) { return loop_next((long *)e, (long *)f); }
bool GOMP_loop_ull_nonmonotonic_guided_start(bool up, ull a, ull b, ull c, ull d, ull *e, ull *f) { return GOMP_loop_ull_dynamic_start(up, a, b, c, d, e, f); }
bool GOMP_loop_ull_nonmonotonic_guided_next(ull *e, ull *f) { return loop_next((long *)e, (long *)f); }
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long a, long b, long c, long ch, unsigned fl);

typedef struct { void (*fn)(void *); void *d; long a, b, c, ch; } pl_t;
static void pl_run(void *p) {
    pl_t *q = p; team_t *t = t_team;
    pthread_mutex_lock(&t->loop_m);
    if (t_loops == t->loop_gen) { t->loop_gen++; t->next = q->a; t->end = q->b; t->incr = q->c; t->chunk = q->ch < 1 ? 1 : q->ch; }
    t_loops++;
    pthread_mutex_unlock(&t->loop_m);
    q->fn(q->d);
}
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long a, long b, long c, long ch, unsigned fl) {
    pl_t q = {fn, d, a, b, c, ch};
    GOMP_parallel(pl_run, &q, n, fl);
}
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned n, long a, long b, long c, long ch, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, c, ch, fl); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned n, long a, long b, long c, long ch, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, c, ch, fl); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned n, long a, long b, long c, long ch, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, c, ch, fl); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long c, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, c, 1, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long c, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, n, a, b, c, 1, fl); }
