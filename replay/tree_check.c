/* Runs the real plasma_tree_operations (control/tree.c, linked in, its allocations wrapped) for every mt, nt, concurrency in a box and checks that the list is a
   valid elimination order.  Output: one JSON line per failure (at most 5), then {"done": lists, "ops": operations}. */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>

static size_t tcv_last_size;
static void *tcv_last;
static int tcv_nmalloc, tcv_fail_at = -1, tcv_live;
static char *tcv_guard_end[64];
#define GUARD 256
typedef struct { size_t size; int used; void *p; } blk;
static blk blocks[64];
void *__real_malloc(size_t); void __real_free(void*);
void *__wrap_malloc(size_t n) {
    if (tcv_nmalloc++ == tcv_fail_at) return NULL;
    char *p = __real_malloc(n + 2*GUARD);
    memset(p, 0x5a, n + 2*GUARD);
    for (int i = 0; i < 64; i++) if (!blocks[i].used) { blocks[i].used = 1; blocks[i].p = p; blocks[i].size = n; break; }
    tcv_live++;
    tcv_last = p + GUARD; tcv_last_size = n;
    return p + GUARD;
}
static int tcv_bad;
void __wrap_free(void *q) {
    if (!q) return;
    for (int i = 0; i < 64; i++) if (blocks[i].used && (char*)blocks[i].p + GUARD == (char*)q) {
        unsigned char *p = blocks[i].p;
        for (int k = 0; k < GUARD; k++) if (p[k] != 0x5a || p[GUARD + blocks[i].size + k] != 0x5a) tcv_bad = 1;
        __real_free(p);
        blocks[i].used = 0; tcv_live--;
        return;
    }
    tcv_bad = 2;
}
static size_t tcv_size_of(void *q) {
    for (int i = 0; i < 64; i++) if (blocks[i].used && (char*)blocks[i].p + GUARD == (char*)q) return blocks[i].size;
    return 0;
}
static jmp_buf tcv_env;
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { longjmp(tcv_env, 1); }
static int tcv_threads = 1;
#include "plasma_descriptor.h"
#include "plasma_async.h"
#include "plasma_internal.h"
#include "plasma_tree.h"

int omp_get_num_threads(void) { return tcv_threads; }
int omp_get_max_threads(void) { return tcv_threads; }
static int tcv_failed;
int plasma_request_fail(plasma_sequence_t *s, plasma_request_t *r, int st) { tcv_failed = st; return st; }

static int nfail;
static void fail(int mt, int nt, int th, const char *why, int i) {
    printf("{\"fail\": \"%s (entry %d)\", \"mt\": %d, \"nt\": %d, \"threads\": %d}\n", why, i, mt, nt, th);
    fflush(stdout);
    if (++nfail >= 5) exit(1);
}
static long lists, opsum;
#define F(why) do { fail(mt, nt, th, why, i); goto out; } while (0)
#define AT(a, r, c) a[(size_t)(r) * nt + (c)]

static int cur[3];
static void onsig(int sig) {
    char b[256];
    int n = snprintf(b, sizeof b, "{\"fail\": \"%s\", \"mt\": %d, \"nt\": %d, \"threads\": %d}\n",
                     sig == SIGALRM ? "does not end" : "crashes", cur[0], cur[1], cur[2]);
    fflush(stdout);
    if (write(1, b, n) < 0) _exit(2);
    _exit(1);
}

static void one(int mt, int nt, int th) {
    cur[0] = mt; cur[1] = nt; cur[2] = th;
    alarm(10);
    int *ops = NULL, num = -1;
    int i = -1;
    char *tri = NULL, *zero = NULL;
    tcv_threads = th; tcv_failed = 0; tcv_bad = 0; tcv_nmalloc = 0;
    int live0 = tcv_live;
    if (setjmp(tcv_env)) { fail(mt, nt, th, "an entry is written outside the list", -1); exit(1); }
    plasma_tree_operations(mt, nt, &ops, &num, NULL, NULL);
    lists++;
    if (tcv_failed) F("reports a failure");
    if (!ops) F("no list");
    int mn = mt < nt ? mt : nt;
    if (num < 0 || tcv_size_of(ops) < (size_t)num * 4 * sizeof(int)) F("the list is shorter than its declared length");
    if (tcv_live != live0 + 1) F("the column counters are not released");
    tri = calloc((size_t)mt * nt, 1); zero = calloc((size_t)mt * nt, 1);
    for (i = 0; i < num; i++) {
        plasma_enum_t kernel; int j, k, p;
        plasma_tree_get_operation(ops, i, &kernel, &j, &k, &p);
        if (j < 0 || j >= mn || k < j || k >= mt) F("outside the matrix");
        if (kernel == PlasmaGeKernel) {
            if (j > 0 && !AT(zero, k, j-1)) F("a row enters a panel before it is eliminated from the one before");
            if (AT(tri, k, j)) F("a row is triangularized twice");
            if (AT(zero, k, j)) F("a row is triangularized after its elimination");
            AT(tri, k, j) = 1;
        }
        else if (kernel == PlasmaTsKernel || kernel == PlasmaTtKernel) {
            if (p < j || p >= k) F("the pivot row is not above the eliminated row");
            if (AT(zero, k, j)) F("a row is eliminated twice");
            if (AT(zero, p, j)) F("a row is eliminated by a row that is no longer alive");
            if (!AT(tri, p, j)) F("a row takes part in an elimination before it is triangularized");
            if (j > 0 && (!AT(zero, k, j-1) || !AT(zero, p, j-1))) F("a row enters a panel before it is eliminated from the one before");
            if (kernel == PlasmaTtKernel && !AT(tri, k, j)) F("a row takes part in an elimination before it is triangularized");
            if (kernel == PlasmaTsKernel && AT(tri, k, j)) F("a square elimination of a triangularized row");
            AT(zero, k, j) = 1;
        }
        else F("unknown kernel");
    }
    opsum += num;
    i = num;
    for (int j = 0; j < mn; j++) {
        if (!AT(tri, j, j)) F("a diagonal row is not triangularized");
        if (AT(zero, j, j)) F("a diagonal row does not survive");
        for (int k = j+1; k < mt; k++) if (!AT(zero, k, j)) F("a row is never eliminated");
    }
out:
    __real_free(tri); __real_free(zero);
    if (ops) free(ops);
    if (tcv_bad) fail(mt, nt, th, tcv_bad == 1 ? "memory outside the list or the counters is written" : "a block is released that was not allocated", i);
}

int main(int argc, char **argv) {
    int box = atoi(argv[1]), maxth = atoi(argv[2]), extra = atoi(argv[3]);
    unsigned s = argc > 4 ? (unsigned)atoi(argv[4]) : 1;
    signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGALRM, onsig);
    if (argc > 7) { one(atoi(argv[5]), atoi(argv[6]), atoi(argv[7])); goto end; }
    for (int mt = 1; mt <= box; mt++)
        for (int nt = 1; nt <= box; nt++)
            for (int th = 1; th <= maxth; th++)
                one(mt, nt, th);
    for (int e = 0; e < extra; e++) {
        s = s * 1103515245u + 12345u; int mt = 1 + (s >> 8) % 150;
        s = s * 1103515245u + 12345u; int nt = 1 + (s >> 8) % 150;
        s = s * 1103515245u + 12345u; int th = 1 + (s >> 8) % 256;
        if (e % 3 == 0) { nt = 1 + nt % 6; mt = mt * 4; }
        one(mt, nt, th);
    }
    // a failing allocation ends with an empty list and a report
    for (int mt = 1; mt <= 6; mt++) for (int nt = 1; nt <= 6; nt++) for (int f = 0; f < 3; f++) {
        int *ops = NULL, num = -1, live0 = tcv_live;
        tcv_threads = 2; tcv_failed = 0; tcv_nmalloc = 0; tcv_fail_at = f;
        plasma_tree_operations(mt, nt, &ops, &num, NULL, NULL);
        int reached = tcv_nmalloc > f;
        tcv_fail_at = -1;
        if (reached && (!tcv_failed || num != 0)) fail(mt, nt, 2, "a failed allocation is not reported", f);
        if (ops) free(ops);
        if (tcv_live != live0) fail(mt, nt, 2, "memory is not released", f);
    }
end:
    printf("{\"done\": %ld, \"ops\": %ld, \"box\": %d, \"maxthreads\": %d}\n", lists, opsum, box, maxth);
    return nfail > 0;
}
