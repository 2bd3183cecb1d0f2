"""Random calls of the public routines with the definition they must meet.  Each generator draws arguments from e.rng and
returns (routine, arguments, check(ret)).  Padding and unreferenced parts hold NaN and must stay as they were."""
import numpy as np
from harness import Mismatch, close, same
import scipy.linalg as sl

N, T, H = "PlasmaNoTrans", "PlasmaTrans", "PlasmaConjTrans"
U, L, G = "PlasmaUpper", "PlasmaLower", "PlasmaGeneral"
LEFT, RIGHT = "PlasmaLeft", "PlasmaRight"
CASES = {}


def case(*props, **kw):
    def d(f):
        CASES[f.__name__] = (f, props, kw)
        return f
    return d


def setup(e, size=22):
    nb = e.pick(3, 4, 4, 5, 8)
    e.nb, e.ib = nb, e.i(1, nb)
    e.set("PlasmaNb", nb)
    e.set("PlasmaIb", e.ib)
    hm = e.pick("PlasmaFlatHouseholder", "PlasmaTreeHouseholder")
    e.set("PlasmaHouseholderMode", e.c(hm))
    e.note = "nb=%d ib=%d %s" % (nb, e.ib, hm)


def dim(e, hi=None, lo=None):
    nb = e.nb
    hi = hi or 5 * nb + 2
    lo = e.minsize if lo is None else lo
    return max(lo, e.pick(e.i(lo, hi), e.i(lo, hi), e.i(lo, hi), nb, 2 * nb, nb + 1, max(lo, nb - 1), lo, 3 * nb, 3 * nb - 1, 1, 9 * nb + 1))


def op(A, t):
    return A if t == N else A.T if t == T else A.conj().T


def trs(e):
    return e.pick(N, T, H)      # real precisions accept the conjugate as transpose


def tol(e, k, *ms):
    x = 1.0
    for m in ms:
        x *= max(1.0, float(np.nanmax(np.abs(m))) if np.size(m) and not np.isnan(m).all() else 1.0)
    return float(e.eps) * 50 * (k + 4) * x


def tri(e, n, uplo, diag="PlasmaNonUnit", wellcond=False):
    """triangular operand: (buffer, logical matrix, ld); the other triangle (and a unit diagonal) holds NaN"""
    buf, v, ld = e.arr(n, n)
    if wellcond:
        v[...] = v / max(1, n) + 2 * np.eye(n)
    X = np.triu(v) if uplo == U else np.tril(v)
    full = X.copy()
    keep = np.triu(np.ones((n, n), bool)) if uplo == U else np.tril(np.ones((n, n), bool))
    if diag == "PlasmaUnit":
        keep &= ~np.eye(n, dtype=bool)
        X = X - np.diag(np.diag(X)) + np.eye(n)
        X = X.astype(e.dtype)
    v[~keep] = np.nan
    return buf, X, ld, keep


def symm_op(e, n, uplo, herm):
    buf, v, ld = e.arr(n, n)
    t = np.triu(v) if uplo == U else np.tril(v)
    if herm:
        X = t + t.conj().T - np.diag(np.diag(t).real)
        if e.cplx:
            v[np.arange(n), np.arange(n)] = np.diag(v).real
            X = X - np.diag(np.diag(X)) + np.diag(np.diag(v).real)
    else:
        X = t + t.T - np.diag(np.diag(t))
    keep = np.triu(np.ones((n, n), bool)) if uplo == U else np.tril(np.ones((n, n), bool))
    v[~keep] = np.nan
    return buf, X.astype(e.dtype), ld, keep


def outcheck(e, buf, m, n, want, t, name="C", mask=None):
    """compare: inside the mask with tolerance, everything else must be untouched"""
    orig = buf.copy(order="F")
    full = np.zeros(buf.shape, bool)
    full[:m, :n] = True if mask is None else mask

    def chk():
        g = buf[:m, :n]
        w = np.array(want() if callable(want) else want)
        mk = np.ones((m, n), bool) if mask is None else mask
        close(np.where(mk, g, 0), np.where(mk, w, 0), t() if callable(t) else t, name)
        same(np.where(full, 0, buf), np.where(full, 0, orig), name + " outside its region")
    return chk


def inputs(**arrs):
    saved = {k: v.copy(order="F") for k, v in arrs.items()}

    def chk():
        for k, v in arrs.items():
            same(v, saved[k], k + " (input)")
    return chk


def ok(*chks, ret=0):
    def f(r):
        if ret is not None and r != ret:
            raise Mismatch("returned %s, want %s" % (r, ret))
        for c in chks:
            c()
    return f


# ------------------------------------------------------------------------------------------------- products
@case("C05", "C10", "C19")
def gemm(e):
    setup(e)
    m, n, k = dim(e), dim(e), dim(e)
    ta, tb, al, be = trs(e), trs(e), e.scalar(), e.scalar()
    a, A, lda = e.arr(*((m, k) if ta == N else (k, m)))
    b, B, ldb = e.arr(*((k, n) if tb == N else (n, k)))
    c, Cm, ldc = e.arr(m, n)
    w = al * (op(A, ta) @ op(B, tb)) + be * Cm
    return e.name("plasma_zgemm"), [ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc], ok(
        outcheck(e, c, m, n, w, tol(e, k)), inputs(A=a, B=b))


@case("C05", "C10", "C19")
def gbmm(e):
    setup(e)
    m, n, k = dim(e), dim(e), dim(e)
    ta, tb, al, be = trs(e), trs(e), e.scalar(), e.scalar()
    am, an = (m, k) if ta == N else (k, m)
    kl, ku = e.i(0, max(0, am - 1)), e.i(0, max(0, an - 1))
    if e.pick(0, 1):
        kl, ku = min(kl, e.i(0, e.nb + 1)), min(ku, e.i(0, e.nb + 1))
    a, A, lda = e.arr(am, an)
    i, j = np.indices((am, an))
    A[(i - j > kl) | (j - i > ku)] = 0
    b, B, ldb = e.arr(*((k, n) if tb == N else (n, k)))
    c, Cm, ldc = e.arr(m, n)
    w = al * (op(A, ta) @ op(B, tb)) + be * Cm
    return e.name("plasma_zgbmm"), [ta, tb, m, n, k, kl, ku, al, a, lda, b, ldb, be, c, ldc], ok(
        outcheck(e, c, m, n, w, tol(e, k)), inputs(A=a, B=b))


def _symm(e, herm):
    setup(e)
    m, n = dim(e), dim(e)
    side, uplo, al, be = e.pick(LEFT, RIGHT), e.pick(U, L), e.scalar(), e.scalar()
    a, A, lda, _ = symm_op(e, m if side == LEFT else n, uplo, herm)
    b, B, ldb = e.arr(m, n)
    c, Cm, ldc = e.arr(m, n)
    w = al * (A @ B if side == LEFT else B @ A) + be * Cm
    return e.name("plasma_zhemm" if herm else "plasma_zsymm"), [side, uplo, m, n, al, a, lda, b, ldb, be, c, ldc], ok(
        outcheck(e, c, m, n, w, tol(e, m + n)), inputs(A=a, B=b))


@case("C05", "C10", "C19")
def symm(e):
    return _symm(e, False)


@case("C05", "C10", "C19", only="zc")
def hemm(e):
    return _symm(e, True)


def _rk(e, herm, two):
    setup(e)
    n, k = dim(e), dim(e)
    uplo = e.pick(U, L)
    tr = e.pick(N, H if herm else T)
    al = e.scalar(real=herm and not two)
    be = e.scalar(real=herm)
    sh = (n, k) if tr == N else (k, n)
    a, A, lda = e.arr(*sh)
    b, B, ldb = e.arr(*sh)
    c, S, ldc, mask = symm_op(e, n, uplo, herm)
    A1, B1 = (A, B) if tr == N else (op(A, tr), op(B, tr))
    hop = (lambda x: x.conj().T) if herm else (lambda x: x.T)
    if two:
        w = al * (A1 @ hop(B1)) + (np.conj(al) if herm else al) * (B1 @ hop(A1)) + be * S
        nm = "plasma_zher2k" if herm else "plasma_zsyr2k"
        args = [uplo, tr, n, k, al, a, lda, b, ldb, be, c, ldc]
    else:
        w = al * (A1 @ hop(A1)) + be * S
        nm = "plasma_zherk" if herm else "plasma_zsyrk"
        args = [uplo, tr, n, k, al, a, lda, be, c, ldc]
    return e.name(nm), args, ok(outcheck(e, c, n, n, w, tol(e, k), mask=mask), inputs(A=a, B=b))


@case("C05", "C10", "C19")
def syrk(e):
    return _rk(e, False, False)


@case("C05", "C10", "C19", only="zc")
def herk(e):
    return _rk(e, True, False)


@case("C05", "C10", "C19")
def syr2k(e):
    return _rk(e, False, True)


@case("C05", "C10", "C19", only="zc")
def her2k(e):
    return _rk(e, True, True)


@case("C05", "C10", "C19")
def trmm(e):
    setup(e)
    m, n = dim(e), dim(e)
    side, uplo, ta, dg, al = e.pick(LEFT, RIGHT), e.pick(U, L), trs(e), e.pick("PlasmaUnit", "PlasmaNonUnit"), e.scalar()
    a, A, lda, _ = tri(e, m if side == LEFT else n, uplo, dg)
    b, B, ldb = e.arr(m, n)
    w = al * (op(A, ta) @ B if side == LEFT else B @ op(A, ta))
    return e.name("plasma_ztrmm"), [side, uplo, ta, dg, m, n, al, a, lda, b, ldb], ok(
        outcheck(e, b, m, n, w, tol(e, m + n), "B"), inputs(A=a))


# ------------------------------------------------------------------------------------------------- solves and factors
@case("C06", "C10", "C19")
def trsm(e):
    setup(e)
    m, n = dim(e), dim(e)
    side, uplo, ta, dg, al = e.pick(LEFT, RIGHT), e.pick(U, L), trs(e), e.pick("PlasmaUnit", "PlasmaNonUnit"), e.scalar()
    k = m if side == LEFT else n
    a, A, lda, keep = tri(e, k, uplo, dg, True)
    b, B, ldb = e.arr(m, n)
    w = al * (np.linalg.solve(op(A, ta), B) if side == LEFT else np.linalg.solve(op(A, ta).T, B.T).T)
    return e.name("plasma_ztrsm"), [side, uplo, ta, dg, m, n, al, a, lda, b, ldb], ok(
        outcheck(e, b, m, n, w, tol(e, m + n, w), "B"), inputs(A=a))


def spd(e, n, bw=None):
    X = e.rand(n, n)
    X = (X + X.conj().T) / (2 * max(1, n)) + 2 * np.eye(n)
    if bw is not None:
        i, j = np.indices((n, n))
        X[abs(i - j) > bw] = 0
    return X.astype(e.dtype)


def spd_op(e, n, uplo):
    buf, v, ld = e.arr(n, n)
    X = spd(e, n)
    keep = np.triu(np.ones((n, n), bool)) if uplo == U else np.tril(np.ones((n, n), bool))
    v[...] = np.where(keep, X, np.nan)
    return buf, X, ld, keep


def chol(X, uplo):
    Lm = np.linalg.cholesky(X.astype(np.complex128 if X.dtype.kind == "c" else np.float64)) if X.size else X
    return Lm if uplo == L else Lm.conj().T


@case("C06", "C10", "C19")
def potrf(e):
    setup(e)
    n, uplo = dim(e), e.pick(U, L)
    a, X, lda, keep = spd_op(e, n, uplo)
    return e.name("plasma_zpotrf"), [uplo, n, a, lda], ok(outcheck(e, a, n, n, chol(X, uplo), tol(e, n), "A", keep))


@case("C11", "C10")
def potrf_fail(e):
    """an indefinite matrix: the index of the first minor that is not positive definite"""
    setup(e)
    n, uplo = dim(e, lo=1), e.pick(U, L)
    a, X, lda, keep = spd_op(e, n, uplo)
    j = e.i(1, n)
    v = a[:n, :n]
    for q in range(j, n + 1 if e.pick(0, 1) else j + 1):
        v[q - 1, q - 1] = -1.0
    f = e.pick("plasma_zpotrf", "plasma_zposv", "plasma_zpoinv", "plasma_zpotrf")
    if f == "plasma_zposv":
        b, B, ldb = e.arr(n, 2)
        sv = b.copy()
        return e.name(f), [uplo, n, 2, a, lda, b, ldb], ok(lambda: same(b, sv, "B after a failed factorization"), ret=j)
    return e.name(f), [uplo, n, a, lda], ok(ret=j)


@case("C11")
def trtri_fail(e):
    setup(e)
    n, uplo = dim(e, lo=1), e.pick(U, L)
    a, A, lda, keep = tri(e, n, uplo, "PlasmaNonUnit", True)
    j = e.i(1, n)
    a[j - 1, j - 1] = 0
    return e.name("plasma_ztrtri"), [uplo, "PlasmaNonUnit", n, a, lda], ok(ret=j)


@case("C11")
def pbtrf_fail(e):
    setup(e)
    n, uplo = dim(e, lo=1), e.pick(U, L)
    kd = e.i(0, n - 1)
    ab, X, ldab, mask = pb_op(e, n, kd, uplo)
    j = e.i(1, n)
    r = kd if uplo == U else 0
    ab[r, j - 1] = -1.0
    return e.name("plasma_zpbtrf"), [uplo, n, kd, ab, ldab], ok(ret=j)


@case("C06", "C10", "C19")
def trtri(e):
    setup(e)
    n, uplo, dg = dim(e), e.pick(U, L), e.pick("PlasmaUnit", "PlasmaNonUnit")
    a, A, lda, keep = tri(e, n, uplo, dg, True)
    w = np.linalg.inv(A) if n else A
    return e.name("plasma_ztrtri"), [uplo, dg, n, a, lda], ok(outcheck(e, a, n, n, w, tol(e, n, w), "A", keep))


@case("C06", "C10", "C19")
def lauum(e):
    setup(e)
    n, uplo = dim(e), e.pick(U, L)
    a, A, lda, keep = tri(e, n, uplo)
    if e.cplx:      # the diagonal of a factor is real by the definition of the product routine
        a[np.arange(n), np.arange(n)] = np.diag(A).real
        A = A - np.diag(np.diag(A)) + np.diag(np.diag(A).real)
    w = A @ A.conj().T if uplo == U else A.conj().T @ A
    return e.name("plasma_zlauum"), [uplo, n, a, lda], ok(outcheck(e, a, n, n, w, tol(e, n), "A", keep))


def pb_op(e, n, kd, uplo):
    X = spd(e, n, kd)
    ld = kd + 1 + e.pick(0, 1, 3)
    if e.pbld:      # the public routines ask for ldab >= n
        ld = max(ld, n, 1)
    ab = np.full((ld, max(1, n) + 1), np.nan, dtype=e.dtype, order="F")
    mask = np.zeros(ab.shape, bool)
    for j in range(n):
        for i in range(max(0, j - kd), min(n, j + kd + 1)):
            if uplo == U and i <= j:
                ab[kd + i - j, j] = X[i, j]
                mask[kd + i - j, j] = True
            if uplo == L and i >= j:
                ab[i - j, j] = X[i, j]
                mask[i - j, j] = True
    return ab, X, ld, mask


def pb_want(F, n, kd, uplo, like):
    w = np.full(like.shape, np.nan, dtype=like.dtype)
    for j in range(n):
        for i in range(max(0, j - kd), min(n, j + kd + 1)):
            if uplo == U and i <= j:
                w[kd + i - j, j] = F[i, j]
            if uplo == L and i >= j:
                w[i - j, j] = F[i, j]
    return w


def pb_check(e, ab, n, kd, uplo, X, mask, t):
    F = chol(X, uplo)
    w = pb_want(F, n, kd, uplo, ab)

    def chk():
        close(np.where(mask, ab, 0), np.where(mask, w, 0), t, "AB")
    return chk


@case("C06", "C10", "C19")
def pbtrf(e):
    setup(e)
    n, uplo = dim(e), e.pick(U, L)
    kd = e.i(0, max(0, n - 1))
    ab, X, ldab, mask = pb_op(e, n, kd, uplo)
    return e.name("plasma_zpbtrf"), [uplo, n, kd, ab, ldab], ok(pb_check(e, ab, n, kd, uplo, X, mask, tol(e, n)))


@case("C06", "C20", "C10", "C19")
def pbsv(e):
    setup(e)
    n, uplo, r = dim(e), e.pick(U, L), dim(e, 9)
    kd = e.i(0, max(0, n - 1))
    ab, X, ldab, mask = pb_op(e, n, kd, uplo)
    b, B, ldb = e.arr(n, r)
    w = np.linalg.solve(X, B)
    f = e.pick("plasma_zpbsv", "plasma_zpbtrs")
    if f == "plasma_zpbtrs":
        F = pb_want(chol(X, uplo), n, kd, uplo, ab)
        ab[mask] = F[mask]
        return e.name(f), [uplo, n, kd, r, ab, ldab, b, ldb], ok(outcheck(e, b, n, r, w, tol(e, n, w), "B"), inputs(AB=ab))
    chk = [outcheck(e, b, n, r, w, tol(e, n, w), "B")]
    if n and r:
        chk.append(pb_check(e, ab, n, kd, uplo, X, mask, tol(e, n)))
    return e.name(f), [uplo, n, kd, r, ab, ldab, b, ldb], ok(*chk)


# ------------------------------------------------------------------------------------------------- element-wise
@case("C07", "C10", "C19")
def geadd(e):
    setup(e)
    m, n, ta, al, be = dim(e), dim(e), trs(e), e.scalar(), e.scalar()
    a, A, lda = e.arr(*((m, n) if ta == N else (n, m)))
    b, B, ldb = e.arr(m, n)
    return e.name("plasma_zgeadd"), [ta, m, n, al, a, lda, be, b, ldb], ok(
        outcheck(e, b, m, n, al * op(A, ta) + be * B, tol(e, 1), "B"), inputs(A=a))


def umask(m, n, uplo):
    i, j = np.indices((m, n))
    return np.ones((m, n), bool) if uplo == G else (j >= i) if uplo == U else (i >= j)


@case("C07", "C10", "C19")
def tradd(e):
    setup(e)
    m, n, ta, al, be, uplo = dim(e), dim(e), trs(e), e.scalar(), e.scalar(), e.pick(U, L)
    a, A, lda = e.arr(*((m, n) if ta == N else (n, m)))
    mk = umask(m, n, uplo)
    A[~op(mk, N if ta == N else T)] = np.nan
    b, B, ldb = e.arr(m, n)
    w = al * op(A, ta) + be * B
    B[~mk] = np.nan
    return e.name("plasma_ztradd"), [uplo, ta, m, n, al, a, lda, be, b, ldb], ok(
        outcheck(e, b, m, n, w, tol(e, 1), "B", mk), inputs(A=a))


@case("C07", "C10", "C19")
def lacpy(e):
    setup(e)
    m, n, uplo = dim(e), dim(e), e.pick(G, G, U, L)
    ta = trs(e) if uplo == G else N
    if ta != N:
        n = m       # the routine documents transposed copies of square matrices only
    a, A, lda = e.arr(*((m, n) if ta == N else (n, m)))
    b, B, ldb = e.arr(m, n)
    return e.name("plasma_zlacpy"), [uplo, ta, m, n, a, lda, b, ldb], ok(
        outcheck(e, b, m, n, op(A, ta).copy(), 0.0, "B", umask(m, n, uplo)), inputs(A=a))


@case("C07", "C10", "C19")
def lascl(e):
    setup(e)
    m, n, uplo = dim(e), dim(e), e.pick(G, U, L)
    a, A, lda = e.arr(m, n)
    big = 1e30 if e.prec in "sc" else 1e290
    f, t = e.pick((2.0, 3.0), (big, 2 * big), (1 / big, 2 / big), (0.5, 1.0), (3.0, 0.0))
    w = A * (t / f)
    return e.name("plasma_zlascl"), [uplo, f, t, m, n, a, lda], ok(outcheck(e, a, m, n, w, tol(e, 4), "A", umask(m, n, uplo)))


@case("C07", "C10", "C19")
def laset(e):
    setup(e)
    m, n, uplo, al, be = dim(e), dim(e), e.pick(G, U, L), e.scalar(), e.scalar()
    a, A, lda = e.arr(m, n)
    w = np.full((m, n), al, dtype=np.complex128)
    w[np.arange(min(m, n)), np.arange(min(m, n))] = be
    w = w if e.cplx else w.real
    return e.name("plasma_zlaset"), [uplo, m, n, al, be, a, lda], ok(outcheck(e, a, m, n, w.astype(e.dtype), tol(e, 0), "A", umask(m, n, uplo)))


@case("C07", "C10", "C19", only="zd", needs="cs")
def lag2c(e):
    setup(e)
    m, n = dim(e), dim(e)
    low = np.complex64 if e.prec == "z" else np.float32
    a, A, lda = e.arr(m, n)
    ld2 = max(1, m) + e.pick(0, 2)
    b = np.full((ld2, max(1, n) + 1), np.nan, dtype=low, order="F")
    b[:m, :n] = 7
    if e.pick(0, 1):
        w = A.astype(low)
        return "plasma_zlag2c" if e.prec == "z" else "plasma_dlag2s", [m, n, a, lda, b, ld2], ok(
            outcheck(e, b, m, n, w, 0.0, "As"), inputs(A=a))
    b[:m, :n] = A.astype(low)
    w = b[:m, :n].astype(e.dtype)
    return "plasma_clag2z" if e.prec == "z" else "plasma_slag2d", [m, n, b, ld2, a, lda], ok(
        outcheck(e, a, m, n, w, 0.0, "A"), inputs(As=b))


# ------------------------------------------------------------------------------------------------- norms
NORMS = ["PlasmaMaxNorm", "PlasmaOneNorm", "PlasmaInfNorm", "PlasmaFrobeniusNorm"]


def normof(X, k):
    if X.size == 0:
        return 0.0
    x = np.abs(X.astype(np.complex128))
    return float({"PlasmaMaxNorm": lambda: x.max(), "PlasmaOneNorm": lambda: x.sum(0).max(), "PlasmaInfNorm": lambda: x.sum(1).max(),
                  "PlasmaFrobeniusNorm": lambda: np.sqrt((x ** 2).sum())}[k]())


def normchk(e, want, *chk):
    def f(r):
        if not abs(r - want) <= 100 * float(e.eps) * max(1.0, want):
            raise Mismatch("norm: got %r, want %r" % (r, want))
        for c in chk:
            c()
    return f


def spike(e, A, mask=None):
    """make one element dominate now and then, so that max norms notice every position; now and then the matrix is zero"""
    if e.i(0, 7) == 0:
        A[...] = 0
        return
    if A.size and e.pick(0, 1, 1):
        for _ in range(20):
            i, j = e.i(0, A.shape[0] - 1), e.i(0, A.shape[1] - 1)
            if mask is None or mask[i, j]:
                A[i, j] = 1000.0
                return


@case("C16", "C10", "C19")
def lange(e):
    setup(e)
    m, n, k = dim(e), dim(e), e.pick(*NORMS)
    a, A, lda = e.arr(m, n)
    spike(e, A)
    return e.name("plasma_zlange"), [k, m, n, a, lda], normchk(e, normof(A, k), inputs(A=a))


@case("C16", "C10", "C19")
def lansy(e):
    setup(e)
    n, k, uplo = dim(e), e.pick(*NORMS), e.pick(U, L)
    herm = e.cplx and e.pick(0, 1)
    a, X, lda, keep = symm_op(e, n, uplo, herm)
    V = a[:n, :n]
    if n and e.pick(0, 1, 1):
        i, j = e.i(0, n - 1), e.i(0, n - 1)
        X[i, j] = X[j, i] = 1000.0
        V[...] = np.where(keep, X, np.nan)
    return e.name("plasma_zlanhe" if herm else "plasma_zlansy"), [k, uplo, n, a, lda], normchk(e, normof(X, k), inputs(A=a))


@case("C16", "C10", "C19")
def lantr(e):
    setup(e)
    m, n, k, uplo, dg = dim(e), dim(e), e.pick(*NORMS), e.pick(U, L), e.pick("PlasmaUnit", "PlasmaNonUnit")
    a, A, lda = e.arr(m, n)
    mk = umask(m, n, uplo)
    spike(e, A, mk)
    X = np.where(mk, A, 0)
    if dg == "PlasmaUnit":
        d = np.arange(min(m, n))
        X[d, d] = 1
        A[d, d] = np.nan
    A[~mk] = np.nan
    return e.name("plasma_zlantr"), [k, uplo, dg, m, n, a, lda], normchk(e, normof(X, k), inputs(A=a))


@case("C16", "C10", "C19")
def langb(e):
    setup(e)
    m, n, k = dim(e), dim(e), e.pick(*NORMS)
    kl, ku = e.i(0, max(0, m - 1)), e.i(0, max(0, n - 1))
    if e.pick(0, 1):
        kl, ku = min(kl, e.i(0, e.nb)), min(ku, e.i(0, e.nb))
    # PLASMA's band format: zero-padded columns of whole tiles (as for gbtrf)
    ld = ((kl + ku + e.nb - 1) // e.nb + (kl + e.nb - 1) // e.nb + 1) * e.nb
    ab = np.full((ld, max(1, n)), 0, dtype=e.dtype, order="F")
    X = np.zeros((m, n), dtype=e.dtype)
    i, j = np.indices((m, n))
    band = (i - j <= kl) & (j - i <= ku)
    X[band] = e.rand(m, n)[band]
    spike(e, X, band)
    for jj in range(n):
        for ii in range(max(0, jj - ku), min(m, jj + kl + 1)):
            ab[kl + ku + ii - jj, jj] = X[ii, jj]
    return e.name("plasma_zlangb"), [k, m, n, kl, ku, ab, ld], normchk(e, normof(X, k), inputs(AB=ab))


@case("C16", "C10", "C19")
def amax(e):
    setup(e)
    m, n, cr = dim(e), dim(e), e.pick("PlasmaColumnwise", "PlasmaRowwise")
    a, A, lda = e.arr(m, n)
    k = n if cr == "PlasmaColumnwise" else m
    v = np.full(k + 2, np.nan, dtype=e.rdtype)
    x = np.abs(A.real) + np.abs(A.imag) if e.cplx else np.abs(A)
    w = (x.max(0) if cr == "PlasmaColumnwise" else x.max(1)) if m and n else None

    def chk():
        if w is not None:
            got = v[:k]
            y = np.abs(A).max(0 if cr == "PlasmaColumnwise" else 1)
            # the magnitude is |re|+|im| (as cabs1) or the modulus, depending on the routine
            if np.abs(got - w).max(initial=0) > 50 * e.eps:
                close(got, y, 50 * float(e.eps), "values")
            if not np.isnan(v[k:]).all():
                raise Mismatch("values beyond the end written")
    return e.name("plasma_dzamax"), [cr, m, n, a, lda, v], ok(chk, inputs(A=a))


# ------------------------------------------------------------------------------------------------- interchanges
@case("C17", "C10", "C19")
def geswp(e):
    setup(e)
    m, n, cr, inc = dim(e), dim(e), e.pick("PlasmaColumnwise", "PlasmaRowwise"), e.pick(1, -1)
    a, A, lda = e.arr(m, n)
    k = m if cr == "PlasmaRowwise" else n
    piv = np.array([e.i(i + 1, k) if e.pick(0, 1, 1) else e.i(1, k) for i in range(k)] + [-77], dtype=np.int32)
    w = A.copy()
    for i in (range(k) if inc > 0 else range(k - 1, -1, -1)):
        p = piv[i] - 1
        if cr == "PlasmaRowwise":
            w[[i, p], :] = w[[p, i], :]
        else:
            w[:, [i, p]] = w[:, [p, i]]
    return e.name("plasma_zgeswp"), [cr, m, n, a, lda, piv, inc], ok(outcheck(e, a, m, n, w, 0.0, "A"), inputs(ipiv=piv))


# ------------------------------------------------------------------------------------------------- QR / LQ
def factor(e, m, n, lq):
    """run the factorization; returns (buffer, original, ld, T, ret)"""
    a, A, lda = e.arr(m, n)
    X = A.copy()
    t = e.Desc()
    r = e.call(e.name("plasma_zgelqf" if lq else "plasma_zgeqrf"), m, n, a, lda, t)
    return a, X, lda, t, r


def explicit(e, a, m, n, lda, t, lq):
    """the orthogonal factor as an explicit square matrix"""
    k = min(m, n)
    s = n if lq else m
    Q = np.array(np.eye(s), dtype=e.dtype, order="F")
    if k:
        e.call(e.name("plasma_zunmlq" if lq else "plasma_zunmqr"), LEFT, N, s, s, k, a, lda, t, Q, max(1, s))
    return Q


def _qr(e, lq):
    setup(e)
    m, n = dim(e), dim(e)
    if e.pick(0, 0, 1):
        m, n = m + 3 * e.nb, min(n, 2 * e.nb)
    k = min(m, n)
    a, X, lda, t, r = factor(e, m, n, lq)
    pad = a.copy(order="F")

    def chk():
        if r != 0:
            raise Mismatch("factorization returned %d" % r)
        if not k:
            return
        if not np.isnan(a[m:, :]).all() or not np.isnan(a[:, n:]).all():
            raise Mismatch("padding of A overwritten")
        Q = explicit(e, a, m, n, lda, t, lq)
        s = n if lq else m
        close(Q.conj().T @ Q, np.eye(s), tol(e, 4 * s), "orthogonality Q'Q")
        if lq:
            close(np.tril(a[:m, :n]) @ Q, X, tol(e, 4 * s), "L Q")
        else:
            close(Q @ np.triu(a[:m, :n]), X, tol(e, 4 * s), "Q R")
        e.call("plasma_desc_destroy", t)
    return e.name("plasma_zgelqf" if lq else "plasma_zgeqrf"), None, ok(chk, ret=None)


@case("C08", "C10", "C19", "C12", desc=True)
def geqrf(e):
    return _qr(e, False)


@case("C08", "C10", "C19", "C12", desc=True)
def gelqf(e):
    return _qr(e, True)


def _unm(e, lq):
    setup(e)
    side, tr = e.pick(LEFT, RIGHT), e.pick(N, H if e.cplx else T)
    s, o = dim(e, lo=1), dim(e, lo=1)
    fm, fn = (dim(e, lo=1), s) if lq else (s, dim(e, lo=1))
    if lq:
        fm = min(fm, s)
    else:
        fn = min(fn, s)
    k = min(fm, fn)
    a, X, lda, t, r = factor(e, fm, fn, lq)
    Q = explicit(e, a, fm, fn, lda, t, lq)
    m, n = (s, o) if side == LEFT else (o, s)
    c, Cm, ldc = e.arr(m, n)
    w = op(Q, tr if tr == N else H)
    w = w @ Cm if side == LEFT else Cm @ w
    keep = inputs(A=a)
    oc = outcheck(e, c, m, n, w, tol(e, 4 * s), "C")

    def chk():
        keep()
        oc()
        e.call("plasma_desc_destroy", t)
    return e.name("plasma_zunmlq" if lq else "plasma_zunmqr"), [side, tr, m, n, k, a, lda, t, c, ldc], ok(chk)


@case("C08", "C10", "C12", desc=True)
def unmqr(e):
    return _unm(e, False)


@case("C08", "C10", "C12", desc=True)
def unmlq(e):
    return _unm(e, True)


def _ung(e, lq):
    setup(e)
    s = dim(e, lo=1)
    k = min(dim(e, lo=1), s)
    q = e.i(k, s)
    a, X, lda, t, r = factor(e, *((k, s) if lq else (s, k)), lq)
    Q = explicit(e, a, *((k, s) if lq else (s, k)), lda, t, lq)
    m, n = (q, s) if lq else (s, q)
    b, B, ldb = e.arr(m, n)
    if lq and lda < m:      # documented: lda >= max(1,m)
        a2 = np.full((m, a.shape[1]), np.nan, dtype=e.dtype, order="F")
        a2[:a.shape[0]] = a
        a, lda = a2, m
    keep = inputs(A=a)
    oc = outcheck(e, b, m, n, Q[:m, :n], tol(e, 4 * s), "Q")

    def chk():
        keep()
        oc()
        e.call("plasma_desc_destroy", t)
    return e.name("plasma_zunglq" if lq else "plasma_zungqr"), [m, n, k, a, lda, t, b, ldb], ok(chk)


@case("C08", "C10", "C12", desc=True)
def ungqr(e):
    return _ung(e, False)


@case("C08", "C10", "C12", desc=True)
def unglq(e):
    return _ung(e, True)


@case("C20", "C10", "C12", desc=True)
def gels(e):
    setup(e)
    m, n, r = dim(e), dim(e), dim(e, 9)
    ct = H if e.cplx else T
    tr = e.pick(N, N, ct)
    a, A, lda = e.arr(m, n)
    k = min(m, n)
    A[:k, :k] += 3 * np.eye(k, dtype=e.dtype)
    X = op(A.copy(), tr)
    b, B, ldb = e.arr(max(m, n), r)
    rhs = B[:X.shape[0]].copy()
    t = e.Desc()
    nx = X.shape[1]
    w = np.linalg.pinv(X) @ rhs if k and r else np.zeros((nx, r), dtype=e.dtype)

    def chk():
        close(b[:nx, :r], w, tol(e, 200 * (m + n), w), "X")
        if not np.isnan(b[max(m, n):, :]).all() or not np.isnan(b[:, r:]).all():
            raise Mismatch("padding of B overwritten")
        if k and r:
            e.call("plasma_desc_destroy", t)
    return e.name("plasma_zgels"), [tr, m, n, r, a, lda, t, b, ldb], ok(chk)


@case("C20", "C10", "C12", desc=True)
def geqrs(e):
    setup(e)
    n, r = dim(e, lo=1), dim(e, 9, lo=1)
    m = n + e.i(0, 2 * e.nb)
    lq = e.pick(0, 1)
    if lq:
        m, n = n, m
    a, A, lda = e.arr(m, n)
    k = min(m, n)
    A[:k, :k] += 3 * np.eye(k, dtype=e.dtype)
    X = A.copy()
    b, B, ldb = e.arr(max(m, n), r)
    rhs = B[:m].copy()
    t = e.Desc()
    rr = e.call(e.name("plasma_zgelqf" if lq else "plasma_zgeqrf"), m, n, a, lda, t)
    w = np.linalg.pinv(X) @ rhs
    keep = inputs(A=a)

    def chk():
        close(b[:n, :r], w, tol(e, 200 * (m + n), w), "X")
        keep()
        e.call("plasma_desc_destroy", t)
    return e.name("plasma_zgelqs" if lq else "plasma_zgeqrs"), [m, n, r, a, lda, t, b, ldb], ok(chk)


# ------------------------------------------------------------------------------------------------- drivers
@case("C20", "C10", "C19")
def posv(e):
    setup(e)
    n, r, uplo = dim(e), dim(e, 9), e.pick(U, L)
    a, X, lda, keep = spd_op(e, n, uplo)
    b, B, ldb = e.arr(n, r)
    w = np.linalg.solve(X, B)
    f = e.pick("plasma_zposv", "plasma_zpotrs")
    if f == "plasma_zpotrs":
        F = chol(X, uplo)
        a[:n, :n][keep] = F[keep]
        return e.name(f), [uplo, n, r, a, lda, b, ldb], ok(outcheck(e, b, n, r, w, tol(e, n, w), "B"), inputs(A=a))
    chk = [outcheck(e, b, n, r, w, tol(e, n, w), "B")]
    if n and r:
        chk.append(outcheck(e, a, n, n, chol(X, uplo), tol(e, n), "A", keep))
    return e.name(f), [uplo, n, r, a, lda, b, ldb], ok(*chk)


@case("C20", "C10", "C19")
def poinv(e):
    setup(e)
    n, uplo = dim(e), e.pick(U, L)
    a, X, lda, keep = spd_op(e, n, uplo)
    w = np.linalg.inv(X) if n else X
    f = e.pick("plasma_zpoinv", "plasma_zpotri")
    if f == "plasma_zpotri":
        F = chol(X, uplo)
        a[:n, :n][keep] = F[keep]
    return e.name(f), [uplo, n, a, lda], ok(outcheck(e, a, n, n, w, tol(e, 20 * n, w), "A", keep))


def lu_check(e, X, F, piv, m, n, t):
    k = min(m, n)
    Lm = np.tril(F[:, :k], -1) + np.eye(m, k)
    Um = np.triu(F[:k])
    P = np.array(X)
    for i in range(k):
        p = int(piv[i]) - 1
        if p < i or p >= m:
            raise Mismatch("pivot %d of row %d out of range" % (p + 1, i + 1))
        P[[i, p]] = P[[p, i]]
    if np.abs(np.tril(F, -1)).max(initial=0) > 1.5:
        raise Mismatch("multiplier larger than one: pivoting lost")
    close(Lm @ Um, P, t, "P A - L U")


@case("C20", "C10", "C19", "C11")
def getrf(e):
    setup(e)
    m, n = dim(e), dim(e)
    a, A, lda = e.arr(m, n)
    X = A.copy()
    k = min(m, n)
    piv = np.full(k + 2, -9, dtype=np.int32)
    pad = a.copy(order="F")

    def chk():
        if k:
            lu_check(e, X, a[:m, :n].copy(), piv, m, n, tol(e, 40 * max(m, n)))
        if not (piv[k:] == -9).all():
            raise Mismatch("ipiv written beyond min(m,n)")
        if not np.isnan(a[m:, :]).all() or not np.isnan(a[:, n:]).all():
            raise Mismatch("padding of A overwritten")
    return e.name("plasma_zgetrf"), [m, n, a, lda, piv], ok(chk)


@case("C11")
def getrf_sing(e):
    """exactly singular: a zero column is reported with its global index"""
    setup(e)
    n = dim(e, lo=1)
    a, A, lda = e.arr(n, n)
    j = e.i(1, n)
    A[:, j - 1] = 0
    piv = np.full(n + 2, -9, dtype=np.int32)
    f = e.pick("plasma_zgetrf", "plasma_zgesv")
    if f == "plasma_zgesv":
        b, B, ldb = e.arr(n, 2)
        return e.name(f), [n, 2, a, lda, piv, b, ldb], ok(ret=j)
    return e.name(f), [n, n, a, lda, piv], ok(ret=j)


@case("C20", "C10", "C19")
def gesv(e):
    setup(e)
    n, r = dim(e), dim(e, 9)
    a, A, lda = e.arr(n, n)
    A += 2 * np.eye(n, dtype=e.dtype) * e.pick(0, 1)
    A += np.roll(np.eye(n, dtype=e.dtype) * 3, e.i(0, 5), axis=0)
    X = A.copy()
    piv = np.full(n + 2, -9, dtype=np.int32)
    b, B, ldb = e.arr(n, r)
    w = np.linalg.solve(X, B)
    f = e.pick("gesv", "getrs", "getrs")
    cnd = np.linalg.cond(X) if n else 1
    if f == "gesv":
        return e.name("plasma_zgesv"), [n, r, a, lda, piv, b, ldb], ok(outcheck(e, b, n, r, w, tol(e, 20 * n * cnd, w), "B"))
    tr = trs(e)
    lu, p = sl.lu_factor(X) if n else (X, piv[:0])
    a[:n, :n] = lu
    piv[:n] = p + 1
    w = np.linalg.solve(op(X, tr), B)
    return e.name("plasma_zgetrs"), [tr, n, r, a, lda, piv, b, ldb], ok(
        outcheck(e, b, n, r, w, tol(e, 20 * n * cnd, w), "B"), inputs(A=a, ipiv=piv))


@case("C20", "C10", "C19")
def geinv(e):
    setup(e)
    n = dim(e)
    a, A, lda = e.arr(n, n)
    A += np.roll(np.eye(n, dtype=e.dtype) * 3, e.i(0, 5), axis=0)
    X = A.copy()
    piv = np.full(n + 2, -9, dtype=np.int32)
    w = np.linalg.inv(X) if n else X
    cnd = np.linalg.cond(X) if n else 1
    if e.pick(0, 1):
        return e.name("plasma_zgeinv"), [n, n, a, lda, piv], ok(outcheck(e, a, n, n, w, tol(e, 20 * n * cnd, w), "A"))
    lu, p = sl.lu_factor(X) if n else (X, piv[:0])
    a[:n, :n] = lu
    piv[:n] = p + 1
    return e.name("plasma_zgetri"), [n, a, lda, piv], ok(outcheck(e, a, n, n, w, tol(e, 20 * n * cnd, w), "A"), inputs(ipiv=piv))


def gb_op(e, n, kl, ku):
    nb = e.nb
    kut, klt = (ku + kl + nb - 1) // nb, (kl + nb - 1) // nb
    ld = (kut + klt + 1) * nb
    ab = np.zeros((ld, max(1, n)), dtype=e.dtype, order="F")
    X = e.rand(n, n)
    i, j = np.indices((n, n))
    X[(i - j > kl) | (j - i > ku)] = 0
    X += 1.5 * np.eye(n, dtype=e.dtype) * e.pick(0, 1)
    for jj in range(n):
        for ii in range(max(0, jj - ku), min(n, jj + kl + 1)):
            ab[kl + ku + ii - jj, jj] = X[ii, jj]
    return ab, X, ld


@case("C20", "C10", "C19")
def gbsv(e):
    setup(e)
    n, r = dim(e), dim(e, 9)
    kl, ku = e.i(0, max(0, n - 1)), e.i(0, max(0, n - 1))
    if e.pick(0, 1, 1):
        kl, ku = min(kl, e.i(0, e.nb + 2)), min(ku, e.i(0, e.nb + 2))
    ab, X, ld = gb_op(e, n, kl, ku)
    cnd = np.linalg.cond(X) if n else 1
    if cnd > 1e4:
        X += 3 * np.eye(n, dtype=e.dtype)
        for jj in range(n):
            ab[kl + ku, jj] = X[jj, jj]
        cnd = np.linalg.cond(X)
    piv = np.full(n + 2, -9, dtype=np.int32)
    b, B, ldb = e.arr(n, r)
    w = np.linalg.solve(X, B)
    if e.pick(0, 1):
        return e.name("plasma_zgbsv"), [n, kl, ku, r, ab, ld, piv, b, ldb], ok(outcheck(e, b, n, r, w, tol(e, 30 * n * cnd, w), "B"))
    if n and e.call(e.name("plasma_zgbtrf"), n, n, kl, ku, ab, ld, piv) != 0:
        raise Mismatch("gbtrf failed")
    return e.name("plasma_zgbtrs"), [N, n, kl, ku, r, ab, ld, piv, b, ldb], ok(
        outcheck(e, b, n, r, w, tol(e, 30 * n * cnd, w), "B"), inputs(AB=ab, ipiv=piv))


@case("C03", "C20")
def gbtrf_wide(e):
    """factorisation of a band matrix with more columns than rows: leading columns solve, further columns of U"""
    setup(e)
    m, n = dim(e, lo=1), 0
    n = m + e.pick(1, e.nb, 2 * e.nb + 1, e.i(1, 4 * e.nb))
    kl, ku = e.pick(0, 1, e.nb, e.i(0, m - 1)), e.pick(e.i(0, n - 1), e.i(0, e.nb + 2), n - 1)
    kl, ku = min(kl, m - 1), min(ku, n - 1)
    ab, X, ld = gb_op(e, n, kl, ku)
    X = X[:m, :]
    for jj in range(n):
        for ii in range(max(0, jj - ku), min(n, jj + kl + 1)):
            if ii >= m:
                ab[kl + ku + ii - jj, jj] = 0
    for jj in range(m):
        X[jj, jj] += 3
        ab[kl + ku, jj] = X[jj, jj]
    w = np.linalg.solve(X[:, :m], X[:, m:])
    piv = np.full(n + 2, -9, dtype=np.int32)

    def chk(ret):
        if ret != 0:
            raise Mismatch("return value %r" % ret)
        Uf = np.zeros((m, n), dtype=e.dtype)
        for jj in range(n):
            for ii in range(max(0, jj - ku - kl), min(m, jj + 1)):
                Uf[ii, jj] = ab[kl + ku + ii - jj, jj]
        close(Uf[:, m:], Uf[:, :m] @ w, tol(e, 30 * n * np.linalg.cond(X[:, :m]), Uf), "U right of the square part")
    return e.name("plasma_zgbtrf"), [m, n, kl, ku, ab, ld, piv], chk


@case("C20", "C10")
def hesv(e):
    setup(e)
    n, r = dim(e), dim(e, 9)
    buf, v, ld = e.arr(n, n)
    X = e.rand(n, n)
    X = (X + X.conj().T).astype(e.dtype)
    keep = umask(n, n, L)
    v[...] = np.where(keep, X, np.nan)
    nb = e.nb
    kut, klt = (2 * nb + nb - 1) // nb, 1
    ldt = (kut + klt + 1) * nb
    t = np.full((ldt, max(1, n)), np.nan, dtype=e.dtype, order="F")
    p1, p2 = np.zeros(n + nb, dtype=np.int32), np.zeros(n + nb, dtype=np.int32)
    b, B, ldb = e.arr(n, r)
    w = np.linalg.solve(X, B)
    cnd = np.linalg.cond(X) if n else 1
    how = e.pick(0, 1, 2)
    if how and n:
        if how == 1:
            r0 = e.call(e.name("plasma_zhetrf"), L, n, buf, ld, p1, t, ldt, p2)
        else:
            b2, B2, ldb2 = e.arr(n, 2)
            r0 = e.call(e.name("plasma_zhesv"), L, n, 2, buf, ld, p1, t, ldt, p2, b2, ldb2)
        if r0:
            raise Mismatch("factorization returned %s" % r0)
        return e.name("plasma_zhetrs"), [L, n, r, buf, ld, p1, t, ldt, p2, b, ldb], ok(
            outcheck(e, b, n, r, w, tol(e, 100 * n * cnd, w), "B"), inputs(A=buf, T=t, ipiv=p1, ipiv2=p2))
    return e.name("plasma_zhesv"), [L, n, r, buf, ld, p1, t, ldt, p2, b, ldb], ok(
        outcheck(e, b, n, r, w, tol(e, 100 * n * cnd, w), "B"))


# ------------------------------------------------------------------------------------------------- mixed precision
def _mixed(e, kind):
    setup(e)
    n, r = dim(e, lo=1), dim(e, 9, lo=1)
    x = np.full((max(1, n) + 1, r + 1), np.nan, dtype=e.dtype, order="F")
    x[:n, :r] = 0
    it = np.array([-99], dtype=np.int32)
    b, B, ldb = e.arr(n, r)
    B *= e.pick(1, 1, 1e12, 1e-6)
    nan = e.pick(None, None, None, 0, r - 1)
    if nan is not None:         # a column that can never meet the criterion
        B[e.i(0, n - 1), nan] = np.nan
    hard = e.pick(0, 0, 1, 2)
    p = "z" if e.prec == "z" else "d"
    q = "zc" if p == "z" else "ds"
    if kind == "po":
        uplo = e.pick(U, L)
        a, X, lda, keep = spd_op(e, n, uplo)
        if hard == 1:
            X *= 1e-60
            a *= 1e-60
        if hard == 2 and n > 1:
            lam = np.logspace(0, -9, n)
            Qm, _ = np.linalg.qr(e.rand(n, n))
            X = (Qm * lam) @ Qm.conj().T
            X = ((X + X.conj().T) / 2).astype(e.dtype)
            a[:n, :n][keep] = X[keep]
        args = [uplo, n, r, a, lda, b, ldb, x, x.shape[0], it]
        nm = "plasma_%sposv" % q
    elif kind == "ge":
        a, A, lda = e.arr(n, n)
        A += np.roll(np.eye(n, dtype=e.dtype) * 3, e.i(0, 5), axis=0)
        if hard == 1:
            a *= 1e-60
        if hard == 2 and n > 1:
            Qm, _ = np.linalg.qr(e.rand(n, n))
            Qn, _ = np.linalg.qr(e.rand(n, n))
            A[...] = (Qm * np.logspace(0, -9, n)) @ Qn
        X = A.copy()
        piv = np.zeros(n + 2, dtype=np.int32)
        args = [n, r, a, lda, piv, b, ldb, x, x.shape[0], it]
        nm = "plasma_%sgesv" % q
    else:
        kl, ku = min(n - 1, e.i(0, e.nb + 1)), min(n - 1, e.i(0, e.nb + 1))
        ab, X, ld = gb_op(e, n, kl, ku)
        if np.linalg.cond(X) > 1e4:
            X += 3 * np.eye(n, dtype=e.dtype)
            for jj in range(n):
                ab[kl + ku, jj] = X[jj, jj]
        hard = 0
        piv = np.zeros(n + 2, dtype=np.int32)
        args = [n, kl, ku, r, ab, ld, piv, b, ldb, x, x.shape[0], it]
        nm = "plasma_%sgbsv" % q
    sv = b.copy(order="F")

    def chk(ret=0):
        same(b, sv, "B (input)")
        k = int(it[0])
        if ret > 0 and hard:        # the working-precision or single-precision factorization broke down: reported, no solution
            return
        if ret:
            raise Mismatch("returned %d" % ret)
        if k > 30:
            raise Mismatch("iteration count %d above the limit of 30" % k)
        if nan is not None:
            if k >= 0:
                raise Mismatch("convergence claimed after %d iterations with NaN in column %d" % (k, nan))
            return
        cnd = np.linalg.cond(X)
        R = B - X @ x[:n, :r]
        an = np.abs(X).sum(1).max()
        for j in range(r):
            rn, xn = np.abs(R[:, j]).max(), np.abs(x[:n, j]).max()
            # accepted columns meet the refinement test (threshold sqrt(n)*eps*|A|), up to a safety factor
            if not rn <= 20 * xn * an * e.eps * (np.sqrt(n) + 4):
                raise Mismatch("column %d: residual %g above the convergence threshold (iter=%d)" % (j, rn, k))
        if not np.isnan(x[n:, :]).all() or not np.isnan(x[:, r:]).all():
            raise Mismatch("padding of X overwritten")
        if hard == 1 and k >= 0 and False:
            raise Mismatch("convergence claimed")
    return nm, args, chk


@case("C18", only="zd", needs="cs")
def cposv(e):
    return _mixed(e, "po")


@case("C18", only="zd", needs="cs")
def cgesv(e):
    return _mixed(e, "ge")


@case("C18", only="zd", needs="cs")
def cgbsv(e):
    return _mixed(e, "gb")


# ---------------------------------------------------------------------------- kernels of the QR and LQ families on arrays of exactly the documented size
def _mat(r, c, ld):
    return ("m", max(r, 0), max(c, 0), ld)


def _vec(n):
    return ("v", max(n, 0))


def _kernel_args(e, z):
    ib = e.i(1, 4)
    ld = lambda r: max(1, r) + e.pick(0, 0, 1, 5)
    i = lambda lo=0: e.i(lo, 9)
    lq = z.endswith("lqt") or z.endswith("mlq")
    if z in ("zgeqrt", "zgelqt"):
        m, n = i(), i()
        return [m, n, ib, _mat(m, n, ld(m)), _mat(ib, min(m, n), ld(ib)), _vec(m if lq else n), _vec(ib * (m if lq else n))]
    if z.endswith("t"):
        m, n = (i(), i())
        x = m if lq else n
        if z[1:3] == "tt":
            m, n = (x, min(n, x)) if lq else (min(m, x), x)
        return [m, n, ib, _mat(x, x, ld(max(x, m))), _mat(m, n, ld(m)), _mat(ib, x, ld(ib)), _vec(x), _vec(ib * x)]
    side, trans = e.pick(LEFT, RIGHT), e.pick(N, H if e.cplx else T)
    if z in ("zunmqr", "zunmlq"):
        m, n = i(), i()
        q = m if side == LEFT else n
        k = e.i(0, q)
        w = n if side == LEFT else m
        lw = max(1, w) + e.pick(0, 3)
        return [side, trans, m, n, k, ib, _mat(k, q, ld(k)) if lq else _mat(q, k, ld(q)), _mat(ib, k, ld(ib)), _mat(m, n, ld(m)), _mat(w, ib, lw)]
    k = e.i(1, 6)
    if side == LEFT:
        n1 = n2 = i()
        m1, m2 = e.i(k, 9), i()
    else:
        m1 = m2 = i()
        n1, n2 = e.i(k, 9), i()
    q = m2 if side == LEFT else n2
    if z[1:3] == "tt":
        q = min(q, k)
        if side == LEFT:
            m2 = q
        else:
            n2 = q
    w = _mat(ib, n1, ib + e.pick(0, 2)) if side == LEFT else _mat(m1, ib, max(1, m1, n1 if lq else 0) + e.pick(0, 2))
    return [side, trans, m1, n1, m2, n2, k, ib, _mat(m1, n1, ld(m1)), _mat(m2, n2, ld(m2)), _mat(k, q, ld(k)) if lq else _mat(q, k, ld(q)), _mat(ib, k, ld(ib)), w]


@case("C12")
def qrkernels(e):
    import ctypes as C
    z = e.pick("zgeqrt", "zgelqt", "ztsqrt", "ztslqt", "zttqrt", "zttlqt", "zunmqr", "zunmlq", "ztsmqr", "ztsmlq", "zttmqr", "zttmlq")
    name = e.name("plasma_core_" + z)
    if not e.cplx:
        name = name.replace("unm", "orm")
    if not hasattr(e.lib, name):
        return (name, None, lambda r: None)
    spec = _kernel_args(e, z)
    args, bufs, G_ = [], [], 64
    for x in spec:
        if isinstance(x, str):
            args.append(C.c_int(e.c(x)))
        elif isinstance(x, int):
            args.append(C.c_int(x))
        elif x[0] == "v":
            b = np.full(x[1] + 2 * G_, np.nan, dtype=e.dtype)
            b[G_:G_ + x[1]] = 0
            bufs.append((b, np.arange(x[1]) + G_, len(args)))
            args.append(C.c_void_p(b.ctypes.data + G_ * b.itemsize))
        else:
            _, r, c, ld = x
            n = (c - 1) * ld + r if r and c else 0
            b = np.full(n + 2 * G_ + ld, np.nan, dtype=e.dtype)
            ix = (np.arange(r)[:, None] + ld * np.arange(c)[None, :]).reshape(-1) + G_
            b[ix] = e.rand(r, c).reshape(-1)
            bufs.append((b, ix, len(args)))
            args += [C.c_void_p(b.ctypes.data + G_ * b.itemsize), C.c_int(ld)]
    e.note = "%s(%s)" % (name, ", ".join(str(x[1:] if isinstance(x, tuple) else x) for x in spec))
    f = getattr(e.lib, name)
    f.restype = C.c_int
    ret = f(*args)

    def chk(_):
        if ret < 0:
            return
        for b, ix, k in bufs:
            keep = np.ones(len(b), bool)
            keep[ix] = False
            if not np.isnan(b[keep]).all():
                raise Mismatch("%s writes outside of its argument %d" % (name, k + 1))
            if len(ix) and not np.isfinite(b[ix]).all():
                raise Mismatch("%s: argument %d depends on memory outside of the arguments" % (name, k + 1))
    return (name, None, chk)
