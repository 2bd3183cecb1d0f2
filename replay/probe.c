/* exported wrappers of the header-only functions, for replaying counterexamples on the real code */
#include <string.h>
#include "plasma_internal.h"
#include "plasma_context.h"
#include "plasma_descriptor.h"
#include "plasma_workspace.h"
#include "plasma_async.h"
#include "plasma_tuning.h"
#include "plasma_types.h"
#include "plasma_core_blas.h"

void *probe_tile_addr(plasma_desc_t *A, int m, int n) { return plasma_tile_addr(*A, m, n); }
int probe_mmain(plasma_desc_t *A, int k) { return plasma_tile_mmain(*A, k); }
int probe_nmain(plasma_desc_t *A, int k) { return plasma_tile_nmain(*A, k); }
int probe_mview(plasma_desc_t *A, int k) { return plasma_tile_mview(*A, k); }
int probe_nview(plasma_desc_t *A, int k) { return plasma_tile_nview(*A, k); }
int probe_mmain_band(plasma_desc_t *A, int m, int n) { return plasma_tile_mmain_band(*A, m, n); }
char probe_lapack_const(int c) { return lapack_const(c); }
long probe_element_size(int p) { return (long)plasma_element_size(p); }
void probe_view(plasma_desc_t *A, int i, int j, int m, int n, plasma_desc_t *B) { *B = plasma_desc_view(*A, i, j, m, n); }
int probe_descT(plasma_desc_t *A, int ib, int mode, plasma_desc_t *T) { return plasma_descT_create(*A, ib, mode, T); }
int probe_check(plasma_desc_t *A) { return plasma_desc_check(*A); }

/* a precision that was not built */
#pragma weak plasma_omp_sge2desc
#pragma weak plasma_omp_sdesc2ge
#pragma weak plasma_omp_str2desc
#pragma weak plasma_omp_sdesc2tr
#pragma weak plasma_omp_spb2desc
#pragma weak plasma_omp_sdesc2pb
#pragma weak plasma_omp_sgb2desc
#pragma weak plasma_omp_dge2desc
#pragma weak plasma_omp_ddesc2ge
#pragma weak plasma_omp_dtr2desc
#pragma weak plasma_omp_ddesc2tr
#pragma weak plasma_omp_dpb2desc
#pragma weak plasma_omp_ddesc2pb
#pragma weak plasma_omp_dgb2desc
#pragma weak plasma_omp_cge2desc
#pragma weak plasma_omp_cdesc2ge
#pragma weak plasma_omp_ctr2desc
#pragma weak plasma_omp_cdesc2tr
#pragma weak plasma_omp_cpb2desc
#pragma weak plasma_omp_cdesc2pb
#pragma weak plasma_omp_cgb2desc
#pragma weak plasma_omp_zge2desc
#pragma weak plasma_omp_zdesc2ge
#pragma weak plasma_omp_ztr2desc
#pragma weak plasma_omp_zdesc2tr
#pragma weak plasma_omp_zpb2desc
#pragma weak plasma_omp_zdesc2pb
#pragma weak plasma_omp_zgb2desc

/* translation of one precision and layout: kind 0 full, 1 triangular, 2 packed band, 3 band from a full array; out: to the user's array */
int probe_translate(int prec, int kind, int out, void *pA, int lda, plasma_desc_t *A)
{
    plasma_sequence_t seq = { .status = PlasmaSuccess };
    plasma_request_t req;
    plasma_request_init(&req);
#define PRECISION(P, x) case P: \
    if (kind == 0) { if (out) plasma_omp_##x##desc2ge(*A, pA, lda, &seq, &req); else plasma_omp_##x##ge2desc(pA, lda, *A, &seq, &req); } \
    else if (kind == 1) { if (out) plasma_omp_##x##desc2tr(*A, pA, lda, &seq, &req); else plasma_omp_##x##tr2desc(pA, lda, *A, &seq, &req); } \
    else if (kind == 2) { if (out) plasma_omp_##x##desc2pb(*A, pA, lda, &seq, &req); else plasma_omp_##x##pb2desc(pA, lda, *A, &seq, &req); } \
    else plasma_omp_##x##gb2desc(pA, lda, *A, &seq, &req); \
    break
    switch (prec) {
    PRECISION(PlasmaRealFloat, s);
    PRECISION(PlasmaRealDouble, d);
    PRECISION(PlasmaComplexFloat, c);
    PRECISION(PlasmaComplexDouble, z);
    }
    return seq.status;
}

#pragma weak plasma_core_sgeswp
#pragma weak plasma_core_dgeswp
#pragma weak plasma_core_cgeswp
#pragma weak plasma_core_zgeswp
/* a range of interchanges on a matrix of one tile column (row) */
void probe_geswp(int prec, int colrow, plasma_desc_t *A, int k1, int k2, const int *ipiv, int incx)
{
    switch (prec) {
    case PlasmaRealFloat: plasma_core_sgeswp(colrow, *A, k1, k2, ipiv, incx); break;
    case PlasmaRealDouble: plasma_core_dgeswp(colrow, *A, k1, k2, ipiv, incx); break;
    case PlasmaComplexFloat: plasma_core_cgeswp(colrow, *A, k1, k2, ipiv, incx); break;
    case PlasmaComplexDouble: plasma_core_zgeswp(colrow, *A, k1, k2, ipiv, incx); break;
    }
}

/* embedding: the general descriptors that the library creates for whole matrices become sub-matrices of larger allocations,
   starting at a tile boundary and surrounded by NaNs that must be neither read nor written */
int __real_plasma_desc_general_create(plasma_enum_t, int, int, int, int, int, int, int, int, plasma_desc_t *);
int __real_plasma_desc_destroy(plasma_desc_t *);
static int embed, n_emb, emb_bad;
static struct { void *matrix; plasma_desc_t d; } emb[64];

void probe_embed(int k) { embed = k; n_emb = 0; emb_bad = 0; }
int probe_embed_bad(void) { return emb_bad; }

static int cell(plasma_desc_t *d, int i, int j, int set)
{
    plasma_desc_t w = *d;
    w.i = w.j = 0; w.m = w.gm; w.n = w.gn; w.mt = w.gmt; w.nt = w.gnt;
    size_t es = plasma_element_size(d->precision);
    int rs = d->precision == PlasmaRealFloat || d->precision == PlasmaComplexFloat ? 4 : 8;
    char *p = (char*)plasma_tile_addr(w, i/w.mb, j/w.nb) + es*(i%w.mb + (size_t)(j%w.nb)*plasma_tile_mmain(w, i/w.mb));
    int ok = 1;
    for (size_t o = 0; o < es; o += rs) {
        unsigned long long v = rs == 4 ? 0x7fc12345u : 0x7ff8123456789abcull;
        if (set) memcpy(p+o, &v, rs);
        else ok = ok && memcmp(p+o, &v, rs) == 0;
    }
    return ok;
}

int __wrap_plasma_desc_general_create(plasma_enum_t dt, int mb, int nb, int lm, int ln, int i, int j, int m, int n, plasma_desc_t *A)
{
    if (!embed || i || j || lm != m || ln != n || m < 1 || n < 1 || n_emb == 64)
        return __real_plasma_desc_general_create(dt, mb, nb, lm, ln, i, j, m, n, A);
    int e = embed + 37*n_emb;
    int ei = e & 1 ? mb*(1 + (e >> 8)%2) : 0, ej = e & 2 ? nb : 0;
    int xi = e & 4 ? 1 + (e >> 4)%(2*mb) : 0, xj = e & 8 ? 1 + (e >> 5)%(2*nb) : 0;
    int r = __real_plasma_desc_general_create(dt, mb, nb, ei+m+xi, ej+n+xj, ei, ej, m, n, A);
    if (r != PlasmaSuccess) return r;
    for (int y = 0; y < A->gn; y++)
        for (int x = 0; x < A->gm; x++)
            if (x < ei || x >= ei+m || y < ej || y >= ej+n) cell(A, x, y, 1);
    emb[n_emb].matrix = A->matrix;
    emb[n_emb++].d = *A;
    return r;
}

int __wrap_plasma_desc_destroy(plasma_desc_t *A)
{
    for (int k = 0; k < n_emb; k++)
        if (emb[k].matrix == A->matrix) {
            plasma_desc_t *d = &emb[k].d;
            for (int y = 0; y < d->gn; y++)
                for (int x = 0; x < d->gm; x++)
                    if ((x < d->i || x >= d->i+d->m || y < d->j || y >= d->j+d->n) && !cell(d, x, y, 0)) emb_bad++;
            emb[k] = emb[--n_emb];
            break;
        }
    return __real_plasma_desc_destroy(A);
}
