/* A deterministic stand-in for libgomp used only to replay counterexamples: tasks are executed on one thread in an
   order chosen by the mode, always respecting depend clauses, taskwait and region ends.  mode 0 = program order. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdbool.h>

typedef struct task {
    void (*fn)(void *);
    void *data, *raw;
    int npred, nsucc, capsucc, children, done, started, prio, id, nin, nout, lazy;
    struct task **succ;
    struct task *parent;
    void **addr;      /* out first, then in */
} task_t;

static int mode = 0, nthreads = 1, in_par = 0, cur_thread = 0;
static unsigned long long rng = 88172645463325252ull;
static task_t **pend; static int npend, cappend, nextid;
static task_t root, *cur = &root;
static long executed;

/* malloc with failure injection and leak accounting (linked with --wrap) */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t); extern void __real_free(void *);
extern void *__real_realloc(void *, size_t);
static long alloc_no, fail_at = -1, live, bad_free; static int track;
static size_t last_n;
static void **ptrs; static long nptr, capptr;
static void rec(void *p) {
    if (!track || !p) return;
    if (nptr == capptr) { capptr = capptr ? 2*capptr : 1024; ptrs = __real_realloc(ptrs, capptr*sizeof(void*)); }
    ptrs[nptr++] = p; live++;
}
static int unrec(void *p) {
    for (long i = nptr-1; i >= 0; i--) if (ptrs[i] == p) { ptrs[i] = ptrs[--nptr]; live--; return 1; }
    return 0;
}
/* guard zones: every block the library allocates is followed by bytes that nobody may write; they hold NaN patterns, so that a read shows
   in the results */
#define GZ 4096
static int guard; static long guard_bad, ng, capg; static struct { unsigned char *p; size_t n; } *gb;
static void *gput(void *p, size_t n) {
    if (!p) return p;
    if (ng == capg) { capg = capg ? 2*capg : 1024; gb = __real_realloc(gb, capg*sizeof *gb); }
    gb[ng].p = p; gb[ng].n = n; ng++;
    memset((char*)p + n, 0xFF, GZ);
    return p;
}
static void gcheck(long i) { for (size_t k = 0; k < GZ; k++) if (gb[i].p[gb[i].n+k] != 0xFF) { guard_bad++; break; } }
static void gdrop(void *p) { for (long i = ng-1; i >= 0; i--) if (gb[i].p == p) { gcheck(i); gb[i] = gb[--ng]; return; } }
void shim_guard(int on) { guard = on; if (on) { ng = 0; guard_bad = 0; } }
long shim_guard_bad(void) { for (long i = 0; i < ng; i++) gcheck(i); return guard_bad; }
void *__wrap_malloc(size_t n) { if (track) last_n = n; if (track && ++alloc_no == fail_at) return NULL;
    void *p = __real_malloc(guard ? n + GZ : n); if (guard) gput(p, n);
    if (track && p && n < (1u<<28)) memset(p, 0xCB, n); rec(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (track) last_n = a*b; if (track && ++alloc_no == fail_at) return NULL;
    void *p = guard ? __real_calloc(1, a*b + GZ) : __real_calloc(a, b); if (guard) gput(p, a*b); rec(p); return p; }
void *__wrap_realloc(void *q, size_t n) { if (track && ++alloc_no == fail_at) return NULL; if (track && q) unrec(q); if (guard && q) gdrop(q);
    void *p = __real_realloc(q, guard ? n + GZ : n); if (guard) gput(p, n); rec(p); return p; }
void __wrap_free(void *p) { if (track && p && !unrec(p)) { bad_free++; if (track == 2) return; } if (ng && p) gdrop(p); __real_free(p); }
void shim_track(int on, long fail) { track = on; fail_at = fail; alloc_no = 0; live = 0; bad_free = 0; nptr = 0; }
long shim_last_size(void) { return (long)last_n; }
long shim_live(void) { return live; }
long shim_allocs(void) { return alloc_no; }
long shim_bad_free(void) { return bad_free; }

void shim_mode(int m, unsigned long long seed, int nth) { mode = m; rng = seed*2654435761ull + 88172645463325252ull; nthreads = nth > 0 ? nth : 1; }
long shim_executed(void) { return executed; }
static unsigned rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 16); }

static void add_edge(task_t *a, task_t *b) {
    if (a->nsucc == a->capsucc) { a->capsucc = a->capsucc ? 2*a->capsucc : 4; a->succ = __real_realloc(a->succ, a->capsucc*sizeof(task_t*)); }
    a->succ[a->nsucc++] = b; b->npred++;
}
static void run(task_t *t) {
    task_t *save = cur; int st = cur_thread;
    t->started = 1; cur = t;
    if (mode) cur_thread = rnd() % nthreads; else cur_thread = 0;
    executed++;
    t->fn(t->data);
    cur_thread = st; cur = save; t->done = 1;
    if (t->parent) t->parent->children--;
    for (int i = 0; i < t->nsucc; i++) t->succ[i]->npred--;
    int j = 0;
    for (int i = 0; i < npend; i++) if (pend[i] != t) pend[j++] = pend[i];
    npend = j;
}
static task_t *pick(task_t *parent) {
    task_t *best = NULL; int n = 0;
    for (int i = 0; i < npend; i++) {
        task_t *t = pend[i];
        if (t->started || t->npred) continue;
        if (parent && t->parent != parent) continue;
        n++;
        if (mode == 2) best = t;                                    /* latest created */
        else if (mode == 5) {       /* some tasks starve until nothing else can run */
            if (!best || t->lazy < best->lazy || (t->lazy == best->lazy && rnd() % n == 0)) best = t;
        }
        else if (mode == 3) { if (!best) best = t; }                /* earliest created */
        else if (mode == 4) { if (!best || t->nsucc < best->nsucc || (t->nsucc == best->nsucc && rnd() % 2)) best = t; }
        else if (rnd() % n == 0) best = t;
    }
    return best;
}
static void drain(task_t *parent) {     /* taskwait */
    while (parent->children) {
        task_t *t = ((mode == 1 && rnd() % 2) || mode == 5) ? pick(NULL) : pick(parent);
        if (!t) t = pick(NULL);
        if (!t) { fprintf(stderr, "omp_shim: deadlock\n"); abort(); }
        run(t);
    }
}
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool ifc,
               unsigned flags, void **depend, int prio, void *detach) {
    task_t *t = __real_calloc(1, sizeof *t);
    t->fn = fn; t->parent = cur; t->id = nextid++; t->lazy = mode == 5 ? (rnd() % 6 == 0) * (int)(1 + rnd() % 1000) : 0;
    t->raw = __real_malloc(sz + al + 16);
    char *p = (char*)(((unsigned long)t->raw + (al ? al : 1) - 1) / (al ? al : 1) * (al ? al : 1));
    if (cpyfn) cpyfn(p, data); else memcpy(p, data, sz);
    t->data = p;
    if (flags & 8) {
        long nd, no; void **a;
        if (depend[0]) { nd = (long)depend[0]; no = (long)depend[1]; a = depend + 2; }
        else { nd = (long)depend[1]; no = (long)depend[2] + (long)depend[3]; a = depend + 5; }
        t->addr = __real_malloc((nd+1)*sizeof(void*)); memcpy(t->addr, a, nd*sizeof(void*));
        t->nout = no; t->nin = nd - no;
        for (int i = 0; i < npend; i++) {
            task_t *q = pend[i]; int c = 0;
            if (q->parent != t->parent || q->done) continue;
            for (int x = 0; x < q->nout + q->nin && !c; x++)
                for (int y = 0; y < nd; y++)
                    if (q->addr[x] == t->addr[y] && (x < q->nout || y < no)) { c = 1; break; }
            if (c) add_edge(q, t);
        }
    }
    cur->children++;
    if (npend == cappend) { cappend = cappend ? 2*cappend : 256; pend = __real_realloc(pend, cappend*sizeof(task_t*)); }
    pend[npend++] = t;
    if (mode == 0 || !in_par) run(t);
    else if (!ifc) { while (t->npred) { task_t *q = pick(NULL); if (!q) break; run(q); } if (!t->started) run(t); }
    else if (mode == 1 && rnd() % 8 == 0) { task_t *q = pick(NULL); if (q && q->parent == cur) run(q); }
}
void GOMP_taskwait(void) { drain(cur); }
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, unsigned flags,
                   unsigned long num, int prio, long start, long end, long step) {
    for (long i = start; step > 0 ? i < end : i > end; i += step) {
        void *raw = __real_malloc(sz + al + 16);
        char *p = (char*)(((unsigned long)raw + (al ? al : 1) - 1) / (al ? al : 1) * (al ? al : 1));
        if (cpyfn) cpyfn(p, data); else memcpy(p, data, sz);
        ((long*)p)[0] = i; ((long*)p)[1] = i + step;
        fn(p);
        __real_free(raw);
    }
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    task_t r; memset(&r, 0, sizeof r);
    task_t *save = cur; cur = &r; in_par++;
    int st = cur_thread;
    for (int t = nthreads-1; t >= 0; t--) { cur_thread = t; fn(data); }     /* tasks are created by thread 0 */
    cur_thread = 0;
    drain(&r);
    in_par--; cur = save; cur_thread = st;
}
bool GOMP_single_start(void) { return cur_thread == 0; }
void GOMP_barrier(void) { drain(cur); }
void GOMP_critical_name_start(void **p) {}
void GOMP_critical_name_end(void **p) {}
void GOMP_critical_start(void) {}
void GOMP_critical_end(void) {}
void GOMP_atomic_start(void) {}
void GOMP_atomic_end(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) { drain(cur); }
bool GOMP_loop_dynamic_start(long a, long b, long c, long d, long *x, long *y) { *x = a; *y = b; return a != b; }
bool GOMP_loop_dynamic_next(long *x, long *y) { return 0; }
void GOMP_loop_end(void) {}
void GOMP_loop_end_nowait(void) {}
int omp_get_thread_num(void) { return cur_thread; }
int omp_get_num_threads(void) { return in_par ? nthreads : 1; }
int omp_get_max_threads(void) { return nthreads; }
int omp_in_parallel(void) { return in_par > 0; }
void omp_set_num_threads(int n) {}
int omp_get_num_procs(void) { return nthreads; }
double omp_get_wtime(void) { return 0.0; }
