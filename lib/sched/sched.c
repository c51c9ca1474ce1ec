/* A deterministic OpenMP runtime for model checking.
 *
 * Stands in for libgomp (thread teams are coroutines on one OS thread, run in any chosen order between barriers)
 * and for the ThreadSanitizer runtime (the compiler reports every memory access of the instrumented modules).
 * Between two barriers the footprint of every virtual thread is recorded; two accesses of different virtual threads
 * to the same byte, at least one a plain write, are in conflict, except when all the writers leave the same value and
 * no other thread reads it.  Without conflicts all interleavings of the accesses are equivalent (one Mazurkiewicz trace). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAXT 64
#define STACK (1 << 20)
typedef unsigned char u8;
typedef struct { uintptr_t a; uint32_t gen; u8 w[8], r[8], val[8]; u8 lastw, same; uintptr_t pc; } ent;

static int g_max = 1, g_team = 1, g_limit = MAXT, g_cur = -1, g_reg = 0, g_crit = 0;
static int g_order[MAXT];
static u8 *g_stack[MAXT];
static ucontext_t g_ctx[MAXT], g_main;
static int g_done[MAXT];
static void (*g_fn)(void *);
static void *g_data;
/* statistics */
static long st_regions, st_segments, st_access, st_words, st_shared, st_benign, st_conf;
static uint64_t st_hash;
static char conf_msg[4096];
static int conf_n;
/* table */
static ent *tab;
static size_t cap, used;
static uint32_t gen = 1;
static size_t *wl[MAXT];
static size_t wn[MAXT], wc[MAXT];
static void **deferred;
static size_t dn, dc;

void sched_config(int maxthreads, int limit, int n, const int *order) {
    g_max = maxthreads; g_limit = limit;
    for (int i = 0; i < MAXT; i++) g_order[i] = i;
    for (int i = 0; i < n && i < MAXT; i++) g_order[i] = order[i];
}
void sched_reset(void) {
    st_regions = st_segments = st_access = st_words = st_shared = st_benign = st_conf = 0;
    st_hash = 1469598103934665603ull; conf_n = 0; conf_msg[0] = 0;
}
void sched_stats(long *o) {
    o[0] = st_regions; o[1] = st_segments; o[2] = st_access; o[3] = st_words; o[4] = st_shared; o[5] = st_benign;
    o[6] = st_conf; o[7] = (long)(st_hash >> 1);
}
const char *sched_message(void) { return conf_msg; }

static size_t find(uintptr_t a) {
    if ((used + 1)*2 > cap) {
        size_t oc = cap; ent *o = tab;
        cap = cap ? cap*2 : 1 << 16;
        tab = calloc(cap, sizeof(ent));
        /* entry numbers change: rebuild the lists of written entries */
        size_t *map = malloc(sizeof(size_t)*(oc ? oc : 1));
        for (size_t i = 0; i < oc; i++) if (o[i].gen == gen) {
            size_t h = (o[i].a*0x9E3779B97F4A7C15ull) >> 20 & (cap-1);
            while (tab[h].gen == gen) h = (h+1) & (cap-1);
            tab[h] = o[i]; map[i] = h;
        }
        for (int t = 0; t < MAXT; t++) for (size_t i = 0; i < wn[t]; i++) wl[t][i] = map[wl[t][i]];
        free(map); free(o);
    }
    size_t h = (a*0x9E3779B97F4A7C15ull) >> 20 & (cap-1);
    while (tab[h].gen == gen) { if (tab[h].a == a) return h; h = (h+1) & (cap-1); }
    memset(&tab[h], 0, sizeof(ent));
    tab[h].a = a; tab[h].gen = gen; tab[h].same = 1; used++;
    return h;
}

/* thread marks: 0 none, t+1 one thread, 254 several threads, 255 only atomically */
static inline u8 mark(u8 m, u8 t) { return m == 0 || m == t ? t : 254; }

static void touch(void *p, size_t n, int write, int atomic, void *pc) {
    if (g_cur < 0) return;
    u8 *lo = g_stack[g_cur];
    if ((u8 *)p >= lo && (u8 *)p < lo + STACK) return;
    st_access++;
    if (atomic || g_crit) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    u8 t = g_cur + 1;
    while (a < e) {
        uintptr_t b = a & ~(uintptr_t)7, f = b + 8 < e ? b + 8 : e;
        size_t h = find(b);
        for (uintptr_t x = a; x < f; x++) {
            u8 *m = write ? &tab[h].w[x-b] : &tab[h].r[x-b];
            *m = mark(*m, t);
        }
        if (write) {
            tab[h].pc = (uintptr_t)pc;
            if (tab[h].lastw != t) {
                int c = g_cur;
                if (wn[c] == wc[c]) { wc[c] = wc[c] ? wc[c]*2 : 1024; wl[c] = realloc(wl[c], wc[c]*sizeof(size_t)); }
                wl[c][wn[c]++] = h;
                /* bit 1: several writers have already left values */
                tab[h].lastw = t;
            }
        }
        a = f;
    }
}

/* after the segment of one virtual thread: the values it left */
static void left(int c) {
    for (size_t i = 0; i < wn[c]; i++) {
        ent *e = &tab[wl[c][i]];
        for (int k = 0; k < 8; k++) {
            if (e->w[k] == 0) continue;
            u8 v = ((u8 *)e->a)[k];
            if (e->w[k] == c+1) e->val[k] = v;
            else if (e->val[k] != v) e->same = 0;
        }
    }
    wn[c] = 0;
}

static void evaluate(void) {
    uint64_t sum = 0;
    for (size_t i = 0; i < cap; i++) {
        ent *e = &tab[i];
        if (e->gen != gen) continue;
        st_words++;
        int bad = 0, multi = 0, shared = 0;
        for (int k = 0; k < 8; k++) {
            u8 w = e->w[k], r = e->r[k];
            if (r == 254 || (w && r && w != r) || w == 254) shared = 1;
            if (!w) continue;
            if (w == 254) { multi = 1; if (r) bad = 1; }
            else if (r && r != w) bad = 1;
        }
        if (multi && !e->same) bad = 1;
        if (shared) st_shared++;
        if (multi && !bad) st_benign++;
        if (bad) {
            st_conf++;
            if (conf_n < 4) {
                Dl_info d; const char *f = "?", *s = "";
                unsigned long off = 0;
                if (dladdr((void *)e->pc, &d) && d.dli_fname) {
                    const char *q = strrchr(d.dli_fname, '/'); f = q ? q+1 : d.dli_fname;
                    s = d.dli_sname ? d.dli_sname : ""; off = e->pc - (uintptr_t)d.dli_fbase;
                }
                int l = strlen(conf_msg);
                snprintf(conf_msg + l, sizeof(conf_msg) - l, "%sregion %ld: %s%s %s (%s)", conf_n ? "; " : "", st_regions,
                         multi ? "several threads write the same location" : "one thread writes what another reads",
                         "", f, s);
                (void)off;
                conf_n++;
            }
        }
        /* schedule independent digest of the footprint sizes */
        for (int k = 0; k < 8; k++) sum += (uint64_t)e->w[k]*131 + (uint64_t)e->r[k]*7;
    }
    st_hash = (st_hash ^ sum)*1099511628211ull;
    gen++; used = 0;
    if (!gen) { memset(tab, 0, cap*sizeof(ent)); gen = 1; }
}

static void entry(int c) { g_fn(g_data); g_done[c] = 1; swapcontext(&g_ctx[c], &g_main); }

void GOMP_barrier(void) { if (g_cur >= 0) { int c = g_cur; swapcontext(&g_ctx[c], &g_main); } }

static void team(void (*fn)(void *), void *data, unsigned nt) {
    if (g_cur >= 0) {                                 /* nested regions are run by one thread */
        fn(data); return;
    }
    int n = nt ? nt : g_max;
    if (n > g_limit) n = g_limit;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    g_team = n; g_fn = fn; g_data = data;
    st_regions++;
    for (int c = 0; c < n; c++) {
        if (!g_stack[c]) g_stack[c] = mmap(0, STACK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
        g_done[c] = 0;
        getcontext(&g_ctx[c]);
        g_ctx[c].uc_stack.ss_sp = g_stack[c];
        g_ctx[c].uc_stack.ss_size = STACK;
        g_ctx[c].uc_link = &g_main;
        makecontext(&g_ctx[c], (void (*)(void))entry, 1, c);
    }
    for (int live = 1; live; ) {
        live = 0;
        for (int k = 0; k < MAXT; k++) {
            int c = g_order[k];
            if (c >= n || g_done[c]) continue;
            st_segments++;
            g_cur = c;
            swapcontext(&g_main, &g_ctx[c]);
            g_cur = -1;
            left(c);
            if (!g_done[c]) live = 1;
        }
        evaluate();
    }
    g_team = 1;
    for (size_t i = 0; i < dn; i++) free(deferred[i]);
    dn = 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) { team(fn, data, nt); }
int omp_get_thread_num(void) { return g_cur < 0 ? 0 : g_cur; }
int omp_get_num_threads(void) { return g_cur < 0 ? 1 : g_team; }
int omp_get_max_threads(void) { return g_max; }
int omp_get_num_procs(void) { return g_max; }
int omp_in_parallel(void) { return g_cur >= 0 && g_team > 1; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { g_max = n; }
void omp_set_dynamic(int n) { }
double omp_get_wtime(void) { return 0; }
void GOMP_critical_start(void) { g_crit++; }
void GOMP_critical_end(void) { g_crit--; }
void GOMP_critical_name_start(void **p) { g_crit++; }
void GOMP_critical_name_end(void **p) { g_crit--; }
void GOMP_atomic_start(void) { g_crit++; }
void GOMP_atomic_end(void) { g_crit--; }
_Bool GOMP_single_start(void) { return g_cur <= 0; }

/* work sharing loops with a run-time schedule: chunk number j goes to thread j mod team */
static long lp_start, lp_end, lp_incr, lp_chunk, lp_next[MAXT];
static int lp_live;
static _Bool lp_get(long *s, long *e) {
    int c = g_cur < 0 ? 0 : g_cur;
    long total = lp_incr > 0 ? (lp_end-lp_start+lp_incr-1)/lp_incr : (lp_start-lp_end-lp_incr-1)/-lp_incr;
    long a = lp_next[c]*lp_chunk;
    if (a >= total) return 0;
    long b = a + lp_chunk < total ? a + lp_chunk : total;
    lp_next[c] += g_team;
    *s = lp_start + a*lp_incr; *e = lp_start + b*lp_incr;
    return 1;
}
static void lp_init(long s, long e, long i, long ch) {
    if (ch < 1) ch = 1;
    lp_start = s; lp_end = e; lp_incr = i; lp_chunk = ch;
}
static u8 lp_in[MAXT];
static _Bool lp_begin(long s, long e, long i, long ch, long *a, long *b) {
    int c = g_cur < 0 ? 0 : g_cur;
    lp_init(s, e, i, ch); lp_next[c] = c;
    return lp_get(a, b);
}
#define LOOP(k) \
    _Bool GOMP_loop_##k##_start(long s, long e, long i, long ch, long *a, long *b) { return lp_begin(s, e, i, ch, a, b); } \
    _Bool GOMP_loop_##k##_next(long *a, long *b) { return lp_get(a, b); } \
    void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long ch, unsigned fl) { \
        lp_init(s, e, i, ch); for (int c = 0; c < MAXT; c++) lp_next[c] = c; team(fn, d, nt); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
_Bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return lp_begin(s, e, i, 1, a, b); }
_Bool GOMP_loop_runtime_next(long *a, long *b) { return lp_get(a, b); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return lp_begin(s, e, i, 1, a, b); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return lp_get(a, b); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl)
{ lp_init(s, e, i, 1); for (int c = 0; c < MAXT; c++) lp_next[c] = c; team(fn, d, nt); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl)
{ GOMP_parallel_loop_runtime(fn, d, nt, s, e, i, fl); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }

/* memory access reports */
#define PC __builtin_return_address(0)
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **p, void *v) { touch(p, 8, 1, 0, PC); }
void __tsan_read_range(void *p, unsigned long n) { touch(p, n, 0, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { touch(p, n, 1, 0, PC); }
#define RW(n) \
    void __tsan_read##n(void *p) { touch(p, n, 0, 0, PC); } \
    void __tsan_write##n(void *p) { touch(p, n, 1, 0, PC); } \
    void __tsan_unaligned_read##n(void *p) { touch(p, n, 0, 0, PC); } \
    void __tsan_unaligned_write##n(void *p) { touch(p, n, 1, 0, PC); } \
    void __tsan_volatile_read##n(void *p) { touch(p, n, 0, 0, PC); } \
    void __tsan_volatile_write##n(void *p) { touch(p, n, 1, 0, PC); } \
    void __tsan_read_write##n(void *p) { touch(p, n, 0, 0, PC); touch(p, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void *__wrap_memset(void *d, int c, size_t n) { touch(d, n, 1, 0, PC); return memset(d, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { touch((void *)s, n, 0, 0, PC); touch(d, n, 1, 0, PC); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { touch((void *)s, n, 0, 0, PC); touch(d, n, 1, 0, PC); return memmove(d, s, n); }
/* memory freed inside a region is not handed out again before its end */
void __wrap_free(void *p) {
    if (g_cur < 0) { free(p); return; }
    if (dn == dc) { dc = dc ? dc*2 : 64; deferred = realloc(deferred, dc*sizeof(void *)); }
    deferred[dn++] = p;
}
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int m) { touch((void *)a, sizeof(T), 0, 1, PC); return *a; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int m) { touch((void *)a, sizeof(T), 1, 1, PC); *a = v; } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) { touch((void *)a, sizeof(T), 1, 1, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) { touch((void *)a, sizeof(T), 1, 1, PC); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) { touch((void *)a, sizeof(T), 1, 1, PC); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) { T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) { T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int m) { T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) \
    { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) \
    { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { }
void __tsan_atomic_signal_fence(int m) { }
