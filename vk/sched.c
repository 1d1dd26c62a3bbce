/* A controlled scheduler for the parallel regions of larch, LD_PRELOADed.
 *
 * It takes the place of the OpenMP runtime (GOMP_parallel and friends, used by
 * the Cython engine) and of numba's parallel loop (vk_parallel_for, registered
 * as numba_parallel_for).  The threads of a region are coroutines on one system
 * thread; the scheduler switches between them only where the schedule says.
 * Scheduling points are the calls of the math library made by a thread of a
 * region (exp, log, pow ...), barriers, and the ends of threads.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <ucontext.h>

#define MAXT 16
#define MAXP 16
#define STACK (1 << 20)

static struct { ucontext_t ctx; char *stack; int done, waiting; } co[MAXT];
static ucontext_t main_ctx;
static int n_co, cur = -1;                /* -1: outside of any region */
static void (*co_fn)(int);
static int barrier_n;

/* the schedule */
static int s_order[MAXT], s_norder;       /* threads are taken up in this order */
static long s_at[MAXP]; static int s_to[MAXP], s_npre;
static long s_chunks[MAXT]; static int s_nchunks;
/* what happened */
static long points, regions, switches, threads_max, crit_switch;
static int in_crit;
void vk_next_epoch(void);

void vk_schedule(int norder, const int *order, int npre, const long *at, const int *to, int nchunks, const long *chunks)
{
    s_norder = norder; memcpy(s_order, order, norder * sizeof(int));
    s_npre = npre; memcpy(s_at, at, npre * sizeof(long)); memcpy(s_to, to, npre * sizeof(int));
    s_nchunks = nchunks; memcpy(s_chunks, chunks, nchunks * sizeof(long));
    points = regions = switches = threads_max = 0;
}
long vk_points(void) { return points; }
long vk_regions(void) { return regions; }
long vk_switches(void) { return switches; }
long vk_threads(void) { return threads_max; }

static int live(int k) { return k >= 0 && k < n_co && !co[k].done && !co[k].waiting; }

static int next_live(void)
{
    for (int i = 0; i < s_norder; i++) if (live(s_order[i])) return s_order[i];
    for (int i = 0; i < n_co; i++) if (live(i)) return i;
    return -1;
}

static void switch_to(int k)
{
    int old = cur;
    if (k == old) return;
    cur = k; switches++;
    swapcontext(&co[old].ctx, &co[k].ctx);
}

static void point(void)
{
    if (cur < 0 || in_crit) return;
    long p = points++;
    for (int i = 0; i < s_npre; i++)
        if (s_at[i] == p) {
            int t = (cur + 1 + s_to[i]) % n_co;      /* the target, counted from the present thread */
            if (live(t)) switch_to(t);
            return;
        }
}

static void body(int me)
{
    co_fn(me);
    co[me].done = 1;
    int k = next_live();
    if (k < 0) {                                      /* all that remain wait at a barrier, or all are done */
        for (int i = 0; i < n_co; i++) co[i].waiting = 0;
        k = next_live();
    }
    if (k < 0) {
        cur = -1;
        setcontext(&main_ctx);
    }
    cur = k;
    setcontext(&co[k].ctx);
}

static void region(int n, void (*fn)(int))
{
    if (n > MAXT) n = MAXT;
    regions++;
    if (n > threads_max) threads_max = n;
    vk_next_epoch();
    n_co = n; co_fn = fn; barrier_n = 0; in_crit = 0;
    for (int i = 0; i < n; i++) {
        co[i].done = co[i].waiting = 0;
        if (!co[i].stack) co[i].stack = malloc(STACK);
        getcontext(&co[i].ctx);
        co[i].ctx.uc_stack.ss_sp = co[i].stack;
        co[i].ctx.uc_stack.ss_size = STACK;
        co[i].ctx.uc_link = 0;
        makecontext(&co[i].ctx, (void (*)(void))body, 1, i);
    }
    cur = next_live();
    swapcontext(&main_ctx, &co[cur].ctx);
    cur = -1;
}

/* ---------------------------------------------------------------- OpenMP */
static void (*omp_fn)(void *); static void *omp_data;
static void omp_body(int me) { omp_fn(omp_data); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    if (cur >= 0 || n <= 1) { int c = cur, m = n_co; if (c < 0) { n_co = 1; } fn(data); n_co = m; cur = c; return; }
    omp_fn = fn; omp_data = data;
    region(n, omp_body);
}
int omp_get_thread_num(void) { return cur < 0 ? 0 : cur; }
int omp_get_num_threads(void) { return cur < 0 ? 1 : n_co; }
int omp_in_parallel(void) { return cur >= 0; }
void GOMP_barrier(void)
{
    if (cur < 0) return;
    co[cur].waiting = 1;
    int all = 1;
    for (int i = 0; i < n_co; i++) if (!co[i].waiting && !co[i].done) all = 0;
    if (all) { for (int i = 0; i < n_co; i++) co[i].waiting = 0; vk_next_epoch(); point(); return; }
    int k = next_live();
    switch_to(k);
}
/* (no scheduling point lies inside a critical section, so it is never contended) */
void GOMP_critical_name_start(void **p) { point(); in_crit = 1; }
void GOMP_critical_name_end(void **p) { in_crit = 0; point(); }
void GOMP_critical_start(void) { point(); in_crit = 1; }
void GOMP_critical_end(void) { in_crit = 0; point(); }
void GOMP_atomic_start(void) { point(); in_crit = 1; }
void GOMP_atomic_end(void) { in_crit = 0; point(); }

/* dynamic schedules: the next iterations go to whoever asks */
static long dyn_next, dyn_end, dyn_incr, dyn_chunk; static int dyn_users;
static int dyn_take(long *a, long *b)
{
    point();
    if (dyn_incr > 0 ? dyn_next >= dyn_end : dyn_next <= dyn_end) return 0;
    *a = dyn_next;
    dyn_next += dyn_chunk * dyn_incr;
    if (dyn_incr > 0 ? dyn_next > dyn_end : dyn_next < dyn_end) dyn_next = dyn_end;
    *b = dyn_next;
    return 1;
}
static int dyn_start(long s, long e, long i, long c, long *a, long *b)
{
    if (dyn_users++ == 0) { dyn_next = s; dyn_end = e; dyn_incr = i; dyn_chunk = c > 0 ? c : 1; }
    return dyn_take(a, b);
}
#define DYN(name) \
int GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return dyn_start(s, e, i, c, a, b); } \
int GOMP_loop_##name##_next(long *a, long *b) { return dyn_take(a, b); }
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided)
int GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return dyn_start(s, e, i, 1, a, b); }
int GOMP_loop_runtime_next(long *a, long *b) { return dyn_take(a, b); }
int GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return dyn_start(s, e, i, 1, a, b); }
int GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return dyn_take(a, b); }
void GOMP_loop_end(void) { dyn_users--; GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { dyn_users--; }

/* ---------------------------------------------------------------- numba */
static void (*nb_fn)(char **, size_t *, size_t *, void *);
static char **nb_args; static size_t *nb_dims, *nb_steps; static void *nb_data; static size_t nb_inner, nb_count;
static size_t nb_from[MAXT], nb_size[MAXT];

static void nb_body(int me)
{
    size_t dims[64]; char *args[64];
    memcpy(dims, nb_dims, (nb_inner + 1) * sizeof(size_t));
    dims[0] = nb_size[me];
    for (size_t j = 0; j < nb_count; j++) args[j] = nb_args[j] + nb_from[me] * nb_steps[j];
    nb_fn(args, dims, nb_steps, nb_data);
}

void vk_parallel_for(void *fn, char **args, size_t *dims, size_t *steps, void *data, size_t inner, size_t count, long threads)
{
    size_t sum = 0;
    for (int i = 0; i < s_nchunks; i++) sum += s_chunks[i];
    void (*f)(char **, size_t *, size_t *, void *) = fn;
    if (cur >= 0 || s_nchunks < 2 || sum != dims[0] || inner + 1 > 64 || count > 64) { f(args, dims, steps, data); return; }
    nb_fn = f; nb_args = args; nb_dims = dims; nb_steps = steps; nb_data = data; nb_inner = inner; nb_count = count;
    size_t at = 0;
    for (int i = 0; i < s_nchunks; i++) { nb_from[i] = at; nb_size[i] = s_chunks[i]; at += s_chunks[i]; }
    region(s_nchunks, nb_body);
}

/* ---------------------------------------------------------------- scheduling points */
#define F1(name) \
static double (*real_##name)(double); \
double name(double x) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); point(); double y = real_##name(x); point(); return y; }
F1(exp) F1(log) F1(exp2) F1(log2) F1(expm1) F1(log1p)
static double (*real_pow)(double, double);
double pow(double x, double y) { if (!real_pow) real_pow = dlsym(RTLD_NEXT, "pow"); point(); double z = real_pow(x, y); point(); return z; }

/* ---------------------------------------------------------------- conflicting accesses
 * The Cython modules, compiled with -fsanitize=thread but linked to the
 * functions below, tell of every access to memory.  Within a region (between
 * two barriers) no two threads may access a byte, one of them writing, unless
 * both do so in critical sections or by atomic operations.
 */
typedef struct { uintptr_t a; uint32_t epoch; uint16_t r, w, cr, cw; } cell;
#define CELLS (1 << 20)
static cell *cells;
static uint32_t epoch = 1;
static int detect;
static long races, accesses;
static struct { void *pc; uintptr_t a; int t, w; uint16_t r, ws; } first;

void vk_detect(int on) { detect = on; races = accesses = 0; if (!cells) cells = calloc(CELLS, sizeof(cell)); }
long vk_races(void) { return races; }
long vk_accesses(void) { return accesses; }
void vk_next_epoch(void) { epoch++; }
const char *vk_race(void)
{
    static char buf[400];
    Dl_info i;
    const char *f = "?", *s = "?";
    if (dladdr(first.pc, &i)) { if (i.dli_fname) f = strrchr(i.dli_fname, '/') ? strrchr(i.dli_fname, '/') + 1 : i.dli_fname; if (i.dli_sname) s = i.dli_sname; }
    snprintf(buf, sizeof buf, "thread %d %s in %s (%s +0x%lx); other readers %x, writers %x", first.t, first.w ? "writes" : "reads", s, f,
             (unsigned long)((uintptr_t)first.pc - (uintptr_t)(i.dli_fbase)), first.r, first.ws);
    return buf;
}

static void touch1(uintptr_t a, int w, void *pc)
{
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 44;
    cell *c;
    for (int k = 0; ; k++) {
        c = &cells[(h + k) & (CELLS - 1)];
        if (c->a == a) break;
        if (c->epoch != epoch || k > 64) { c->a = a; c->epoch = 0; break; }
    }
    if (c->epoch != epoch) { c->epoch = epoch; c->r = c->w = c->cr = c->cw = 0; }
    uint16_t me = 1 << cur, bad;
    uint16_t others_plain_w = c->w & ~me, others_r = c->r & ~me, others_cr = c->cr & ~me, others_cw = c->cw & ~me;
    if (in_crit) bad = others_plain_w | (w ? others_r : 0);
    else bad = others_plain_w | others_cw | (w ? others_r | others_cr : 0);
    if (bad && races++ == 0) { first.pc = pc; first.a = a; first.t = cur; first.w = w; first.r = c->r | c->cr; first.ws = c->w | c->cw; }
    if (in_crit) { if (w) c->cw |= me; else c->cr |= me; }
    else { if (w) c->w |= me; else c->r |= me; }
}
static void touch(void *p, size_t n, int w, void *pc)
{
    if (cur < 0 || !detect) return;
    uintptr_t a = (uintptr_t)p;
    char *st = co[cur].stack;
    if ((char *)p >= st && (char *)p < st + STACK) return;     /* its own stack */
    accesses++;
    for (size_t i = 0; i < n; i++) touch1(a + i, w, pc);
}
#define PC __builtin_return_address(0)
#define RW(n) \
void __tsan_read##n(void *p) { touch(p, n, 0, PC); } void __tsan_write##n(void *p) { touch(p, n, 1, PC); } \
void __tsan_unaligned_read##n(void *p) { touch(p, n, 0, PC); } void __tsan_unaligned_write##n(void *p) { touch(p, n, 1, PC); } \
void __tsan_volatile_read##n(void *p) { touch(p, n, 0, PC); } void __tsan_volatile_write##n(void *p) { touch(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, 1, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *p, void *q) {}
void __tsan_vptr_read(void *p) {}
void __tsan_atomic_thread_fence(int m) {}
void __tsan_atomic_signal_fence(int m) {}
#define AT(n, ty) \
ty __tsan_atomic##n##_load(const volatile ty *p, int m) { return *p; } \
void __tsan_atomic##n##_store(volatile ty *p, ty v, int m) { *p = v; } \
ty __tsan_atomic##n##_exchange(volatile ty *p, ty v, int m) { return __atomic_exchange_n(p, v, 5); } \
ty __tsan_atomic##n##_fetch_add(volatile ty *p, ty v, int m) { return __atomic_fetch_add(p, v, 5); } \
ty __tsan_atomic##n##_fetch_sub(volatile ty *p, ty v, int m) { return __atomic_fetch_sub(p, v, 5); } \
ty __tsan_atomic##n##_fetch_or(volatile ty *p, ty v, int m) { return __atomic_fetch_or(p, v, 5); } \
ty __tsan_atomic##n##_fetch_and(volatile ty *p, ty v, int m) { return __atomic_fetch_and(p, v, 5); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int a, int b) { return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int a, int b) { return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
ty __tsan_atomic##n##_compare_exchange_val(volatile ty *p, ty e, ty v, int a, int b) { __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
