"""Contracts of the public routines (compute/z*.c): illegal arguments in order, quick return, steps performed.
Positional parameters, so that the contracts do not depend on parameter or variable names."""
import z3
from tcv.cfront import ALL_Z_NAMES
from tcv.apicheck import Pred, D, DV, ANY, GE, SEQ, REQ, Step, Alloc
from tcv.symex import lit, cdiv as _cdiv, is_null, Ptr, NULL

ONE, ZERO, MONE = lit(1.0), lit(0.0), lit(-1.0)
And, Or, Not, If = z3.And, z3.Or, z3.Not, z3.If
F = z3.BoolVal(False)


def imax(a, b):
    return If(a > b, a, b)


def imin(a, b):
    return If(a < b, a, b)


def cdiv(a, b):
    """rounded up"""
    return _cdiv(a + b - 1, b)


def one_of(x, *vs):
    return Or(*[x == v for v in vs])


def bad_trans(e, t):
    return Not(one_of(t, e.PlasmaNoTrans, e.PlasmaTrans, e.PlasmaConjTrans))


def bad_ctrans(e, t):
    """no transpose or the conjugate transpose of the precision"""
    return Not(one_of(t, e.PlasmaNoTrans, e.CT))


def bad_side(e, s):
    return Not(one_of(s, e.PlasmaLeft, e.PlasmaRight))


def bad_uplo(e, u):
    return Not(one_of(u, e.PlasmaUpper, e.PlasmaLower))


def bad_guplo(e, u):
    return Not(one_of(u, e.PlasmaUpper, e.PlasmaLower, e.PlasmaGeneral))


def bad_diag(e, d):
    return Not(one_of(d, e.PlasmaUnit, e.PlasmaNonUnit))


# ------------------------------------------------------------------ steps
class K:
    """step constructors of one routine in one precision"""
    def __init__(self, e):
        self.e = e

    def n(self, z):
        return self.e.names.get(z, z)

    def G(self, d, r, c, prec=None, cond=None):
        e = self.e
        z = z3.IntVal(0)
        return Step("create:general", [z3.IntVal(prec or e.P), e.nb, e.nb, GE(r), GE(c), z, z, r, c], binds=d, cond=cond)

    def TRI(self, d, uplo, n):
        e = self.e
        z = z3.IntVal(0)
        return Step("create:triangular", [z3.IntVal(e.P), uplo, e.nb, e.nb, n, n, z, z, n, n], binds=d)

    def GB(self, d, uplo, lm, m, n, kl, ku, cond=None, prec=None):
        e = self.e
        z = z3.IntVal(0)
        return Step("create:band", [z3.IntVal(prec or e.P), uplo, e.nb, e.nb, GE(lm), n, z, z, m, n, kl, ku], binds=d, cond=cond)

    def T(self, d, A):
        return Step("create:T", [D(A), self.e.ib, self.e.ctx("householder_mode")], binds=d)

    def WS(self, lwork):
        return Step("create:workspace", [GE(lwork), z3.IntVal(self.e.P)])

    def call(self, z, *args, **kw):
        return Step(self.n(z), list(args) + [SEQ, REQ], **kw)

    def IN(self, d, p, ld, kind="ge", **kw):
        # band input: gb2desc and pb2desc; general input: gb2desc copies a general matrix in full (its own contract below)
        names = {"ge": ("ge", "gb"), "gb": ("gb",)}.get(kind, (kind,))
        return Step(tuple(self.n("plasma_omp_z%s2desc" % x) for x in names), [p, ld, D(d), SEQ, REQ], **kw)

    def OUT(self, d, p, ld, kind="ge", **kw):
        return self.call("plasma_omp_zdesc2%s" % kind, D(d), p, ld, **kw)

    def omp(self, z, *args, **kw):
        return self.call("plasma_omp_z" + z, *args, **kw)

    def pz(self, z, *args, **kw):
        return self.call("plasma_pz" + z, *args, **kw)


def TR(e, t):
    """a transposition: in the real precisions the conjugate transpose is the transpose"""
    if e.cplx:
        return t
    return Pred(lambda a: Or(a == t, And(t == e.PlasmaTrans, a == e.PlasmaConjTrans)), str(z3.simplify(t)))


def k_(e):
    return K(e)


TABLE = {}       # z routine -> (sync contract, omp contract)


def routine(name, omp=None, sync=None):
    TABLE[name] = (sync, omp)


def dims(e, d):
    x = e.p[d].f["$id"]
    return [z3.Int("%s.%s" % (x, f)) for f in ("m", "n")]


def fld(e, d, f):
    return z3.Int("%s.%s" % (e.p[d].f["$id"], f))


def same(e, d, m, n):
    """precondition: the sizes of a descriptor agree with those of the result"""
    return [fld(e, d, "m") == m, fld(e, d, "n") == n]


def dn(e, d):
    return D(e.p[d].f["$id"])


# ------------------------------------------------------------------ matrix products
def gemm(e):
    ta, tb, m, n, k, al, pA, lda, pB, ldb, be, pC, ldc = e.p
    K = k_(e)
    am, an = If(ta == e.PlasmaNoTrans, m, k), If(ta == e.PlasmaNoTrans, k, m)
    bm, bn = If(tb == e.PlasmaNoTrans, k, n), If(tb == e.PlasmaNoTrans, n, k)
    return dict(err=[(1, bad_trans(e, ta)), (2, bad_trans(e, tb)), (3, m < 0), (4, n < 0), (5, k < 0), (8, lda < imax(1, am)), (10, ldb < imax(1, bm)),
                     (13, ldc < imax(1, m))],
                quick=Or(m == 0, n == 0, And(Or(al == ZERO, k == 0), be == ONE)),
                steps=[K.G("A", am, an), K.G("B", bm, bn), K.G("C", m, n), K.IN("A", pA, lda), K.IN("B", pB, ldb), K.IN("C", pC, ldc),
                       K.omp("gemm", ta, tb, al, D("A"), D("B"), be, D("C")), K.OUT("C", pC, ldc)])


def omp_gemm(e):
    ta, tb, al, A, B, be, C = e.p[:7]
    k = If(ta == e.PlasmaNoTrans, fld(e, 3, "n"), fld(e, 3, "m"))
    m, n = dims(e, 6)
    return dict(bad=[bad_trans(e, ta), bad_trans(e, tb)], descs=[3, 4, 6], quick=Or(m == 0, n == 0, And(Or(al == ZERO, k == 0), be == ONE)),
                steps=[k_(e).pz("gemm", ta, tb, al, dn(e, 3), dn(e, 4), be, dn(e, 6))])


def gbmm(e):
    ta, tb, m, n, k, kl, ku, al, pA, lda, pB, ldb, be, pC, ldc = e.p
    K = k_(e)
    am, an = If(ta == e.PlasmaNoTrans, m, k), If(ta == e.PlasmaNoTrans, k, m)
    bm, bn = If(tb == e.PlasmaNoTrans, k, n), If(tb == e.PlasmaNoTrans, n, k)
    rows = e.nb * (1 + cdiv(ku + kl, e.nb) + cdiv(kl, e.nb))
    return dict(err=GBMM_ERR(e, ta, tb, m, n, k, kl, ku, lda, am, an, ldb, bm, ldc),
                quick=Or(m == 0, n == 0, And(Or(al == ZERO, k == 0), be == ONE)),
                steps=[K.GB("A", e.PlasmaGeneral, rows, am, an, kl, ku), K.G("B", bm, bn), K.G("C", m, n), K.IN("A", pA, lda, "gb"), K.IN("B", pB, ldb),
                       K.IN("C", pC, ldc), K.omp("gbmm", ta, tb, al, D("A"), D("B"), be, D("C")), K.OUT("C", pC, ldc)])


def GBMM_ERR(e, ta, tb, m, n, k, kl, ku, lda, am, an, ldb, bm, ldc):
    return [(1, bad_trans(e, ta)), (2, bad_trans(e, tb)), (3, m < 0), (4, n < 0), (5, k < 0), (6, Or(kl < 0, kl > imax(0, am - 1))),
            (7, Or(ku < 0, ku > imax(0, an - 1))), (10, lda < imax(1, am)), (12, ldb < imax(1, bm)), (15, ldc < imax(1, m))]


def omp_gbmm(e):
    d = omp_gemm(e)
    return d


def symm(name):
    def sync(e):
        side, uplo, m, n, al, pA, lda, pB, ldb, be, pC, ldc = e.p
        K = k_(e)
        na = If(side == e.PlasmaLeft, m, n)
        return dict(err=[(1, bad_side(e, side)), (2, bad_uplo(e, uplo)), (3, m < 0), (4, n < 0), (7, lda < imax(1, na)), (9, ldb < imax(1, m)),
                         (12, ldc < imax(1, m))],
                    quick=Or(m == 0, n == 0, And(al == ZERO, be == ONE)),
                    steps=[K.G("A", na, na), K.G("B", m, n), K.G("C", m, n), K.IN("A", pA, lda), K.IN("B", pB, ldb), K.IN("C", pC, ldc),
                           K.omp(name, side, uplo, al, D("A"), D("B"), be, D("C")), K.OUT("C", pC, ldc)])

    def omp(e):
        side, uplo, al, A, B, be, C = e.p[:7]
        m, n = dims(e, 6)
        na = If(side == e.PlasmaLeft, m, n)
        return dict(pre=same(e, 3, na, na) + same(e, 4, m, n),
                    bad=[bad_side(e, side), bad_uplo(e, uplo)], descs=[3, 4, 6], quick=Or(m == 0, n == 0, And(al == ZERO, be == ONE)),
                    steps=[k_(e).pz(name, side, uplo, al, dn(e, 3), dn(e, 4), be, dn(e, 6))])
    routine(name, omp, sync)


def rk(name, herm, two):
    def bt(e, t):
        return Not(one_of(t, e.PlasmaNoTrans, e.CT)) if herm else Not(one_of(t, e.PlasmaNoTrans, e.PlasmaTrans))

    def sync(e):
        if two:
            uplo, t, n, k, al, pA, lda, pB, ldb, be, pC, ldc = e.p
        else:
            uplo, t, n, k, al, pA, lda, be, pC, ldc = e.p
        K = k_(e)
        am, an = If(t == e.PlasmaNoTrans, n, k), If(t == e.PlasmaNoTrans, k, n)
        err = [(1, bad_uplo(e, uplo)), (2, bt(e, t)), (3, n < 0), (4, k < 0), (7, lda < imax(1, am))]
        if two:
            err += [(9, ldb < imax(1, am)), (12, ldc < imax(1, n))]
        else:
            err += [(10, ldc < imax(1, n))]
        st = [K.G("A", am, an), K.G("C", n, n), K.IN("A", pA, lda), K.IN("C", pC, ldc)]
        if two:
            st[1:1] = [K.G("B", am, an)]
            st[4:4] = [K.IN("B", pB, ldb)]
            st += [K.omp(name, uplo, t, al, D("A"), D("B"), be, D("C"))]
        else:
            st += [K.omp(name, uplo, t, al, D("A"), be, D("C"))]
        return dict(err=err, quick=Or(n == 0, And(Or(al == ZERO, k == 0), be == ONE)), steps=st + [K.OUT("C", pC, ldc)])

    def omp(e):
        c = 6 if two else 5
        uplo, t, al = e.p[:3]
        be = e.p[c - 1]
        k = If(t == e.PlasmaNoTrans, fld(e, 3, "n"), fld(e, 3, "m"))
        descs = [3, 4, 6] if two else [3, 5]
        args = [uplo, t, al, dn(e, 3)] + ([dn(e, 4)] if two else []) + [be, dn(e, c)]
        return dict(bad=[bad_uplo(e, uplo), bt(e, t)], descs=descs, quick=Or(fld(e, c, "m") == 0, And(Or(al == ZERO, k == 0), be == ONE)),
                    steps=[k_(e).pz(name, *args)])
    routine(name, omp, sync)


routine("gemm", omp_gemm, gemm)
routine("gbmm", omp_gbmm, gbmm)
symm("symm")
symm("hemm")
rk("syrk", False, False)
rk("herk", True, False)
rk("syr2k", False, True)
rk("her2k", True, True)


def tr_err(e, side, uplo, t, diag, m, n, lda, ldb):
    na = If(side == e.PlasmaLeft, m, n)
    return [(1, bad_side(e, side)), (2, bad_uplo(e, uplo)), (3, bad_trans(e, t)), (4, bad_diag(e, diag)), (5, m < 0), (6, n < 0),
            (9, lda < imax(1, na)), (11, ldb < imax(1, m))]


def trmm(e):
    side, uplo, t, diag, m, n, al, pA, lda, pB, ldb = e.p
    K = k_(e)
    na = If(side == e.PlasmaLeft, m, n)
    return dict(err=tr_err(e, side, uplo, t, diag, m, n, lda, ldb), quick=Or(m == 0, n == 0),
                steps=[K.TRI("A", uplo, na), K.G("B", m, n), K.IN("A", pA, lda, "tr"), K.IN("B", pB, ldb),
                       K.omp("trmm", side, uplo, t, diag, al, D("A"), D("B")), K.OUT("B", pB, ldb)])


def trsm(e):
    side, uplo, t, diag, m, n, al, pA, lda, pB, ldb = e.p
    K = k_(e)
    na = If(side == e.PlasmaLeft, m, n)
    return dict(err=tr_err(e, side, uplo, t, diag, m, n, lda, ldb), quick=Or(m == 0, n == 0),
                steps=[K.G("A", na, na), K.G("B", m, n), K.IN("A", pA, lda), K.IN("B", pB, ldb),
                       K.omp("trsm", side, uplo, t, diag, al, D("A"), D("B")), K.OUT("B", pB, ldb)])


def omp_tr(name):
    def omp(e):
        side, uplo, t, diag, al = e.p[:5]
        m, n = dims(e, 6)
        na = If(side == e.PlasmaLeft, m, n)
        K = k_(e)
        st = [K.pz(name, side, uplo, t, diag, al, dn(e, 5), dn(e, 6))]
        if name == "trmm":
            st = [Step(st[0].name, st[0].args, cond=al != ZERO), K.pz("laset", e.PlasmaGeneral, ZERO, ZERO, dn(e, 6), cond=al == ZERO)]
        return dict(bad=[bad_side(e, side), bad_uplo(e, uplo), bad_trans(e, t), bad_diag(e, diag)], descs=[5, 6], quick=Or(m == 0, n == 0), steps=st,
                    pre=same(e, 5, na, na))
    return omp


routine("trmm", omp_tr("trmm"), trmm)
routine("trsm", omp_tr("trsm"), trsm)


# ------------------------------------------------------------------ Cholesky family
def potrf_like(name, tri, omp_steps):
    def sync(e):
        uplo, n, pA, lda = e.p
        K = k_(e)
        st = [K.TRI("A", uplo, n), K.IN("A", pA, lda, "tr"), K.omp(name, uplo, D("A")), K.OUT("A", pA, lda, "tr")] if tri else \
             [K.G("A", n, n), K.IN("A", pA, lda), K.omp(name, uplo, D("A")), K.OUT("A", pA, lda)]
        return dict(err=[(1, bad_uplo(e, uplo)), (2, n < 0), (4, lda < imax(1, n))], quick=n == 0, steps=st)

    def omp(e):
        uplo = e.p[0]
        return dict(bad=[bad_uplo(e, uplo)], descs=[1], quick=fld(e, 1, "n") == 0, steps=omp_steps(k_(e), e, uplo, dn(e, 1)), square=[1])
    routine(name, omp, sync)


potrf_like("potrf", True, lambda K, e, u, A: [K.pz("potrf", u, A)])
potrf_like("potri", False, lambda K, e, u, A: [K.pz("trtri", u, e.PlasmaNonUnit, A), K.pz("lauum", u, A)])
potrf_like("poinv", True, lambda K, e, u, A: [K.pz("potrf", u, A), K.pz("trtri", u, e.PlasmaNonUnit, A), K.pz("lauum", u, A)])
potrf_like("lauum", False, lambda K, e, u, A: [K.pz("lauum", u, A)])


def po_solves(K, e, uplo, A, B):
    """A x = b from a Cholesky factor: forward with the factor (conjugate-transposed if it is upper), then backward"""
    up = uplo == e.PlasmaUpper
    return [K.pz("trsm", e.PlasmaLeft, uplo, TR(e, If(up, e.CT, e.PlasmaNoTrans)), e.PlasmaNonUnit, ONE, A, B),
            K.pz("trsm", e.PlasmaLeft, uplo, TR(e, If(up, e.PlasmaNoTrans, e.CT)), e.PlasmaNonUnit, ONE, A, B)]


def posv_like(name, tri):
    def sync(e):
        uplo, n, nrhs, pA, lda, pB, ldb = e.p
        K = k_(e)
        st = [K.TRI("A", uplo, n) if tri else K.G("A", n, n), K.G("B", n, nrhs), K.IN("A", pA, lda, "tr" if tri else "ge"), K.IN("B", pB, ldb),
              K.omp(name, uplo, D("A"), D("B"))] + ([K.OUT("A", pA, lda, "tr")] if tri else []) + [K.OUT("B", pB, ldb)]
        return dict(err=[(1, bad_uplo(e, uplo)), (2, n < 0), (3, nrhs < 0), (5, lda < imax(1, n)), (7, ldb < imax(1, n))], quick=imin(n, nrhs) == 0, steps=st)

    def omp(e):
        uplo = e.p[0]
        K = k_(e)
        A, B = dn(e, 1), dn(e, 2)
        return dict(bad=[bad_uplo(e, uplo)], descs=[1, 2], quick=Or(fld(e, 1, "n") == 0, fld(e, 2, "n") == 0), square=[1],
                    steps=([K.pz("potrf", uplo, A)] if tri else []) + po_solves(K, e, uplo, A, B))
    routine(name, omp, sync)


posv_like("potrs", False)
posv_like("posv", True)


def trtri(e):
    uplo, diag, n, pA, lda = e.p
    K = k_(e)
    return dict(err=[(1, bad_uplo(e, uplo)), (2, bad_diag(e, diag)), (3, n < 0), (5, lda < imax(1, n))], quick=n == 0,
                steps=[K.G("A", n, n), K.IN("A", pA, lda), K.omp("trtri", uplo, diag, D("A")), K.OUT("A", pA, lda)])


def omp_trtri(e):
    uplo, diag = e.p[:2]
    return dict(bad=[bad_uplo(e, uplo), bad_diag(e, diag)], descs=[2], quick=fld(e, 2, "n") == 0, square=[2],
                steps=[k_(e).pz("trtri", uplo, diag, dn(e, 2))])


routine("trtri", omp_trtri, trtri)


# ------------------------------------------------------------------ band Cholesky
def pb(name):
    rhs, fac = name != "pbtrf", name != "pbtrs"

    def sync(e):
        if rhs:
            uplo, n, kd, nrhs, pAB, ldab, pB, ldb = e.p
        else:
            uplo, n, kd, pAB, ldab = e.p
        K = k_(e)
        err = [(1, bad_uplo(e, uplo)), (2, n < 0), (3, kd < 0)]
        if rhs:
            err += [(4, nrhs < 0), (6, ldab < imax(1, kd + 1)), (8, ldb < imax(1, n))]
        else:
            err += [(5, ldab < imax(1, kd + 1))]
        lm = e.nb * (1 + cdiv(kd, e.nb))
        st = [K.GB("A", uplo, lm, n, n, kd, kd), K.IN("A", pAB, ldab, "pb")]
        if rhs:
            st[1:1] = [K.G("B", n, nrhs)]
            st += [K.IN("B", pB, ldb), K.omp(name, uplo, D("A"), D("B"))]
        else:
            st += [K.omp(name, uplo, D("A"))]
        if fac:
            st += [K.OUT("A", pAB, ldab, "pb")]
        if rhs:
            st += [K.OUT("B", pB, ldb)]
        return dict(err=err, quick=imin(n, nrhs) == 0 if rhs else n == 0, steps=st)

    def omp(e):
        uplo = e.p[0]
        K = k_(e)
        A = dn(e, 1)
        st = [K.pz("pbtrf", uplo, A)] if fac else []
        if rhs:
            B = dn(e, 2)
            up = uplo == e.PlasmaUpper
            st += [K.pz("tbsm", e.PlasmaLeft, uplo, TR(e, If(up, e.CT, e.PlasmaNoTrans)), e.PlasmaNonUnit, ONE, A, B, NULL),
                   K.pz("tbsm", e.PlasmaLeft, uplo, TR(e, If(up, e.PlasmaNoTrans, e.CT)), e.PlasmaNonUnit, ONE, A, B, NULL)]
        return dict(bad=[bad_uplo(e, uplo)], descs=[1, 2] if rhs else [1], quick=Or(fld(e, 1, "n") == 0, fld(e, 2, "n") == 0) if rhs else fld(e, 1, "n") == 0,
                    square=[1], steps=st)
    routine(name, omp, sync)


for _x in ("pbtrf", "pbtrs", "pbsv"):
    pb(_x)


# ------------------------------------------------------------------ LU
def lu_solve(K, e, A, B, ip, trans=None):
    """right-hand side from P A = L U; trans None: no transpose"""
    no = [K.pz("geswp", e.PlasmaRowwise, B, ip, z3.IntVal(1)),
          K.pz("trsm", e.PlasmaLeft, e.PlasmaLower, e.PlasmaNoTrans, e.PlasmaUnit, ONE, A, B),
          K.pz("trsm", e.PlasmaLeft, e.PlasmaUpper, e.PlasmaNoTrans, e.PlasmaNonUnit, ONE, A, B)]
    if trans is None:
        return no
    c = trans == e.PlasmaNoTrans
    for s in no:
        s.cond = c
    tr = [K.pz("trsm", e.PlasmaLeft, e.PlasmaUpper, trans, e.PlasmaNonUnit, ONE, A, B),
          K.pz("trsm", e.PlasmaLeft, e.PlasmaLower, trans, e.PlasmaUnit, ONE, A, B),
          K.pz("geswp", e.PlasmaRowwise, B, ip, z3.IntVal(-1))]
    for s in tr:
        s.cond = Not(c)
    return no + tr


def getrf(e):
    m, n, pA, lda, ip = e.p
    K = k_(e)
    return dict(err=[(1, m < 0), (2, n < 0), (4, lda < imax(1, m))], quick=imin(m, n) == 0,
                steps=[K.G("A", m, n), K.IN("A", pA, lda), K.omp("getrf", D("A"), ip), K.OUT("A", pA, lda)])


def omp_getrf(e):
    A, ip = e.p[:2]
    return dict(descs=[0], quick=Or(fld(e, 0, "m") == 0, fld(e, 0, "n") == 0), steps=[k_(e).pz("getrf", dn(e, 0), ip)])


def getrs(e):
    t, n, nrhs, pA, lda, ip, pB, ldb = e.p
    K = k_(e)
    return dict(err=[(1, bad_trans(e, t)), (2, n < 0), (3, nrhs < 0), (5, lda < imax(1, n)), (8, ldb < imax(1, n))], quick=imin(n, nrhs) == 0,
                steps=[K.G("A", n, n), K.G("B", n, nrhs), K.IN("A", pA, lda), K.IN("B", pB, ldb), K.omp("getrs", t, D("A"), ip, D("B")), K.OUT("B", pB, ldb)])


def omp_getrs(e):
    t, A, ip, B = e.p[:4]
    return dict(bad=[bad_trans(e, t)], descs=[1, 3], quick=Or(fld(e, 1, "n") == 0, fld(e, 3, "n") == 0), square=[1],
                steps=lu_solve(k_(e), e, dn(e, 1), dn(e, 3), ip, t))


def gesv(e):
    n, nrhs, pA, lda, ip, pB, ldb = e.p
    K = k_(e)
    return dict(err=[(1, n < 0), (2, nrhs < 0), (4, lda < imax(1, n)), (7, ldb < imax(1, n))], quick=imin(n, nrhs) == 0,
                steps=[K.G("A", n, n), K.G("B", n, nrhs), K.IN("A", pA, lda), K.IN("B", pB, ldb), K.omp("gesv", D("A"), ip, D("B")),
                       K.OUT("A", pA, lda), K.OUT("B", pB, ldb)])


def omp_gesv(e):
    A, ip, B = e.p[:3]
    K = k_(e)
    return dict(descs=[0, 2], quick=Or(fld(e, 0, "n") == 0, fld(e, 2, "n") == 0), square=[0],
                steps=[K.pz("getrf", dn(e, 0), ip)] + lu_solve(K, e, dn(e, 0), dn(e, 2), ip))


def getri(e):
    n, pA, lda, ip = e.p
    K = k_(e)
    return dict(err=[(1, n < 0), (3, lda < imax(1, n))], quick=n == 0,
                steps=[K.G("A", n, n), K.G("W", n, e.nb), K.IN("A", pA, lda), K.omp("getri", D("A"), ip, D("W")), K.OUT("A", pA, lda)])


def inv_steps(K, e, A, W, ip):
    return [K.pz("trtri", e.PlasmaUpper, e.PlasmaNonUnit, A), K.pz("getri_aux", A, W), K.pz("geswp", e.PlasmaColumnwise, A, ip, z3.IntVal(-1))]


def omp_getri(e):
    A, ip, W = e.p[:3]
    return dict(descs=[0, 2], quick=fld(e, 0, "n") == 0, square=[0], steps=inv_steps(k_(e), e, dn(e, 0), dn(e, 2), ip))


def getri_aux(e):
    n, pA, lda = e.p
    K = k_(e)
    return dict(err=[(1, n < 0), (3, lda < imax(1, n))], quick=n == 0,
                steps=[K.G("A", n, n), K.G("W", n, e.nb), K.IN("A", pA, lda), K.omp("getri_aux", D("A"), D("W")), K.OUT("A", pA, lda)])


def omp_getri_aux(e):
    return dict(descs=[0, 1], quick=fld(e, 0, "n") == 0, square=[0], steps=[k_(e).pz("getri_aux", dn(e, 0), dn(e, 1))])


def geinv(e):
    m, n, pA, lda, ip = e.p
    K = k_(e)
    return dict(err=[(1, m < 0), (2, n < 0), (4, lda < imax(1, m))], quick=imin(m, n) == 0,
                steps=[K.G("A", m, n), K.G("W", n, e.nb), K.IN("A", pA, lda), K.omp("geinv", D("A"), ip, D("W")), K.OUT("A", pA, lda)])


def omp_geinv(e):
    A, ip, W = e.p[:3]
    K = k_(e)
    return dict(descs=[0, 2], quick=Or(fld(e, 0, "n") == 0, fld(e, 0, "m") == 0), square=[0],
                steps=[K.pz("getrf", dn(e, 0), ip)] + inv_steps(K, e, dn(e, 0), dn(e, 2), ip))


def geswp(e):
    cr, m, n, pA, lda, ip, inc = e.p
    K = k_(e)
    return dict(err=[(1, Not(one_of(cr, e.PlasmaColumnwise, e.PlasmaRowwise))), (2, m < 0), (3, n < 0), (5, lda < imax(1, m))], quick=imin(m, n) == 0,
                steps=[K.G("A", m, n), K.IN("A", pA, lda), K.omp("geswp", cr, D("A"), ip, inc), K.OUT("A", pA, lda)])


def omp_geswp(e):
    cr, A, ip, inc = e.p[:4]
    return dict(bad=[Not(one_of(cr, e.PlasmaColumnwise, e.PlasmaRowwise))], descs=[1], quick=Or(fld(e, 1, "m") == 0, fld(e, 1, "n") == 0),
                steps=[k_(e).pz("geswp", cr, dn(e, 1), ip, inc)])


routine("getrf", omp_getrf, getrf)
routine("getrs", omp_getrs, getrs)
routine("gesv", omp_gesv, gesv)
routine("getri", omp_getri, getri)
routine("getri_aux", omp_getri_aux, getri_aux)
routine("geinv", omp_geinv, geinv)
routine("geswp", omp_geswp, geswp)


def gb_rows(e, kl, ku):
    return e.nb * (1 + cdiv(ku + kl, e.nb) + cdiv(kl, e.nb))


def gbtrf(e):
    m, n, kl, ku, pAB, ldab, ip = e.p
    K = k_(e)
    return dict(err=[(1, m < 0), (2, n < 0), (3, kl < 0), (4, ku < 0), (6, ldab < imax(1, 1 + kl + ku))], quick=imin(m, n) == 0,
                steps=[K.GB("A", e.PlasmaGeneral, gb_rows(e, kl, ku), m, n, kl, ku), K.IN("A", pAB, ldab, "pb"), K.omp("gbtrf", D("A"), ip),
                       K.OUT("A", pAB, ldab, "pb")])


def omp_gbtrf(e):
    return dict(descs=[0], quick=Or(fld(e, 0, "m") == 0, fld(e, 0, "n") == 0), steps=[k_(e).pz("gbtrf", dn(e, 0), e.p[1])])


def gb_solve(K, e, A, B, ip, trans=None):
    no = [K.pz("tbsm", e.PlasmaLeft, e.PlasmaLower, e.PlasmaNoTrans, e.PlasmaUnit, ONE, A, B, ip),
          K.pz("tbsm", e.PlasmaLeft, e.PlasmaUpper, e.PlasmaNoTrans, e.PlasmaNonUnit, ONE, A, B, ip)]
    if trans is None:
        return no
    c = trans == e.PlasmaNoTrans
    for s in no:
        s.cond = c
    tr = [K.pz("tbsm", e.PlasmaLeft, e.PlasmaUpper, trans, e.PlasmaNonUnit, ONE, A, B, ip),
          K.pz("tbsm", e.PlasmaLeft, e.PlasmaLower, trans, e.PlasmaUnit, ONE, A, B, ip)]
    for s in tr:
        s.cond = Not(c)
    return no + tr


def gbtrs(e):
    t, n, kl, ku, nrhs, pAB, ldab, ip, pB, ldb = e.p
    K = k_(e)
    return dict(err=[(1, bad_trans(e, t)), (2, n < 0), (3, kl < 0), (4, ku < 0), (5, nrhs < 0), (7, ldab < imax(1, 1 + kl + ku)), (10, ldb < imax(1, n))],
                quick=imin(n, nrhs) == 0,
                steps=[K.GB("A", e.PlasmaGeneral, gb_rows(e, kl, ku), n, n, kl, ku), K.G("B", n, nrhs), K.IN("A", pAB, ldab, "pb"), K.IN("B", pB, ldb),
                       K.omp("gbtrs", t, D("A"), ip, D("B")), K.OUT("B", pB, ldb)])


def omp_gbtrs(e):
    t, A, ip, B = e.p[:4]
    return dict(bad=[bad_trans(e, t)], descs=[1, 3], quick=Or(fld(e, 1, "n") == 0, fld(e, 3, "n") == 0), square=[1],
                steps=gb_solve(k_(e), e, dn(e, 1), dn(e, 3), ip, t))


def gbsv(e):
    n, kl, ku, nrhs, pAB, ldab, ip, pB, ldb = e.p
    K = k_(e)
    return dict(err=[(1, n < 0), (2, kl < 0), (3, ku < 0), (4, nrhs < 0), (6, ldab < imax(1, 1 + kl + ku)), (9, ldb < imax(1, n))],
                quick=imin(n, nrhs) == 0,
                steps=[K.GB("A", e.PlasmaGeneral, gb_rows(e, kl, ku), n, n, kl, ku), K.G("B", n, nrhs), K.IN("A", pAB, ldab, "pb"), K.IN("B", pB, ldb),
                       K.omp("gbsv", D("A"), ip, D("B")), K.OUT("A", pAB, ldab, "pb"), K.OUT("B", pB, ldb)])


def omp_gbsv(e):
    A, ip, B = e.p[:3]
    K = k_(e)
    return dict(descs=[0, 2], quick=Or(fld(e, 0, "n") == 0, fld(e, 2, "n") == 0), square=[0],
                steps=[K.pz("gbtrf", dn(e, 0), ip)] + gb_solve(K, e, dn(e, 0), dn(e, 2), ip))


routine("gbtrf", omp_gbtrf, gbtrf)
routine("gbtrs", omp_gbtrs, gbtrs)
routine("gbsv", omp_gbsv, gbsv)



# ------------------------------------------------------------------ Hermitian indefinite (Aasen)
def _aasen(kind):
    def sync(e):
        K = k_(e)
        if kind == "hetrf":
            uplo, n, pA, lda, ip, pT, ldt, ip2 = e.p
            nrhs, err = None, [(1, uplo != e.PlasmaLower), (2, n < 0), (4, lda < imax(1, n))]
        else:
            uplo, n, nrhs, pA, lda, ip, pT, ldt, ip2, pB, ldb = e.p
            err = [(1, uplo != e.PlasmaLower), (2, n < 0), (3, nrhs < 0), (5, lda < imax(1, n)), (11, ldb < imax(1, n))]
        kb = imin(e.nb, n - 1)
        B, fac = kind != "hetrf", kind != "hetrs"
        rows = e.nb * (1 + cdiv(2 * e.nb, e.nb) + cdiv(e.nb, e.nb))
        if kind == "hetrf":
            rows = ldt     # the documented size of T is the caller's ldt
        st = [K.TRI("A", uplo, n), K.GB("T", e.PlasmaGeneral, rows, n, n, kb, kb)] + ([K.G("B", n, nrhs)] if B else [])
        if fac:
            ldw = e.nb * (1 + 7 * cdiv(n, e.nb))
            st += [K.G("W", ldw, e.nb), Step("memset", [ANY, z3.IntVal(0), ANY], opt=True), Step("memset", [ANY, z3.IntVal(0), ANY], opt=True)]
        st.append(K.IN("A", pA, lda, "tr"))
        if kind == "hetrs":
            st.append(K.IN("T", pT, ldt, "pb"))
        if B:
            st.append(K.IN("B", pB, ldb))
        if fac:
            st.append(Step("store", [ANY, ANY], opt=True))
        st.append(K.omp(kind, *([uplo, D("A"), ip, D("T"), ip2] + ([D("B")] if B else []) + ([D("W")] if fac else []))))
        if fac:
            st += [K.OUT("A", pA, lda, "tr"), K.OUT("T", pT, ldt, "pb")]
        if B:
            st.append(K.OUT("B", pB, ldb))
        if fac:
            st.append(Step("store", [ANY, ANY], opt=True))
        return dict(err=err, quick=(n if nrhs is None else imin(n, nrhs)) == 0, steps=st)

    def solve(K, e, A, T, B, ip, ip2):
        am, nb = fld(e, 1, "m"), fld(e, 1, "nb")
        bn = fld(e, 5, "n")
        z = z3.IntVal(0)
        big = am > nb
        Av = DV(A.name, nb, z, am - nb, am - nb)
        bnb = fld(e, 5, "nb")
        Bv = DV(B.name, bnb, z, fld(e, 5, "m") - bnb, bn)
        return [K.pz("geswp", e.PlasmaRowwise, B, ip, z3.IntVal(1), cond=big),
                K.pz("trsm", e.PlasmaLeft, e.PlasmaLower, e.PlasmaNoTrans, e.PlasmaUnit, ONE, Av, Bv, cond=big),
                K.pz("tbsm", e.PlasmaLeft, e.PlasmaLower, e.PlasmaNoTrans, e.PlasmaUnit, ONE, T, B, ip2),
                K.pz("tbsm", e.PlasmaLeft, e.PlasmaUpper, e.PlasmaNoTrans, e.PlasmaNonUnit, ONE, T, B, ip2),
                K.pz("trsm", e.PlasmaLeft, e.PlasmaLower, TR(e, e.CT), e.PlasmaUnit, ONE, Av, Bv, cond=big),
                K.pz("geswp", e.PlasmaRowwise, B, ip, z3.IntVal(-1), cond=big)]

    def omp(e):
        K = k_(e)
        uplo, A, ip, T, ip2 = e.p[:5]
        bad = [uplo != e.PlasmaLower]
        fac = [K.pz("hetrf_aasen", uplo, dn(e, 1), ip, dn(e, 3), dn(e, 6 if kind == "hesv" else 5)), K.pz("gbtrf", dn(e, 3), ip2)]
        if kind == "hetrf":
            return dict(bad=bad, descs=[1, 3, 5], quick=Or(fld(e, 1, "m") == 0, fld(e, 1, "n") == 0), square=[1], steps=fac)
        st = solve(K, e, dn(e, 1), dn(e, 3), dn(e, 5), ip, ip2)
        return dict(bad=bad, descs=[1, 3, 5] + ([6] if kind == "hesv" else []), quick=Or(fld(e, 1, "n") == 0, fld(e, 5, "n") == 0), square=[1], steps=(fac if kind == "hesv" else []) + st)
    routine(kind, omp, sync)


for _x in ("hetrf", "hetrs", "hesv"):
    _aasen(_x)


# ------------------------------------------------------------------ mixed-precision solvers (refinement itself: C18, specs/refine.py)
def _mixed(kind):
    def sync(e):
        K = k_(e)
        if kind == "cposv":
            uplo, n, nrhs, pA, lda, pB, ldb, pX, ldx, it = e.p
            err = [(1, bad_uplo(e, uplo)), (2, n < 0), (3, nrhs < 0), (5, lda < imax(1, n)), (7, ldb < imax(1, n)), (9, ldx < imax(1, n))]
            lead, mk, kin = [uplo, D("A")], lambda d, p: K.G(d, n, n, prec=p), "ge"
        elif kind == "cgesv":
            n, nrhs, pA, lda, ip, pB, ldb, pX, ldx, it = e.p
            err = [(1, n < 0), (2, nrhs < 0), (4, lda < imax(1, n)), (7, ldb < imax(1, n)), (9, ldx < imax(1, n))]
            lead, mk, kin = [D("A"), ip], lambda d, p: K.G(d, n, n, prec=p), "ge"
        else:
            n, kl, ku, nrhs, pA, lda, ip, pB, ldb, pX, ldx, it = e.p
            err = [(1, n < 0), (2, kl < 0), (3, ku < 0), (4, nrhs < 0), (6, lda < imax(1, 1 + kl + ku)), (9, ldb < imax(1, n)), (11, ldx < imax(1, n))]
            lead, mk, kin = [D("A"), ip], lambda d, p: K.GB(d, e.PlasmaGeneral, gb_rows(e, kl, ku), n, n, kl, ku, prec=p), "pb"
        return dict(err=err, quick=imin(n, nrhs) == 0, counter=[len(e.p) - 1],
                    steps=[mk("A", e.P), K.G("B", n, nrhs), K.G("X", n, nrhs), K.G("R", n, nrhs), mk("As", e.Plow), K.G("Xs", n, nrhs, prec=e.Plow),
                           K.IN("A", pA, lda, kin), K.IN("B", pB, ldb),
                           K.omp(kind, *(lead + [D("B"), D("X"), D("As"), D("Xs"), D("R"), ANY, ANY, ANY, it])), K.OUT("X", pX, ldx)])

    def omp(e):
        k = 1 if kind == "cposv" else 0
        ds = [k, k + 1, k + 2, k + 3, k + 4, k + 5] if kind == "cposv" else [0, 2, 3, 4, 5, 6]
        return dict(bad=[bad_uplo(e, e.p[0])] if kind == "cposv" else [], descs=ds, quick=Or(fld(e, ds[0], "n") == 0, fld(e, ds[1], "n") == 0), square=[ds[0]], steps=[], counter=[len(e.p) - 3])
    omp.skip = {"C20"}
    routine(kind, omp, sync)


for _x in ("cposv", "cgesv", "cgbsv"):
    _mixed(_x)


# ------------------------------------------------------------------ QR / LQ
def ws_geqrf(e):
    return e.nb + e.ib * e.nb


def qrf(name):
    def sync(e):
        m, n, pA, lda, T = e.p
        K = k_(e)
        return dict(err=[(1, m < 0), (2, n < 0), (4, lda < imax(1, m))], quick=imin(m, n) == 0,
                    steps=[K.G("A", m, n), K.T("T", "A"), K.WS(ws_geqrf(e)), K.IN("A", pA, lda), K.omp(name, D("A"), D("T"), ANY), K.OUT("A", pA, lda)])

    def omp(e):
        K = k_(e)
        A, T = dn(e, 0), dn(e, 1)
        tree = e.ctx("householder_mode") == e.PlasmaTreeHouseholder
        return dict(descs=[0, 1], quick=Or(fld(e, 0, "m") == 0, fld(e, 0, "n") == 0),
                    steps=[K.pz(name + "_tree", A, T, ANY, cond=tree), K.pz(name, A, T, ANY, cond=Not(tree))])
    routine(name, omp, sync)


def apply_q(K, e, name, side, trans, A, T, B, cond=None):
    tree = e.ctx("householder_mode") == e.PlasmaTreeHouseholder
    c = And(cond, tree) if cond is not None else tree
    d = And(cond, Not(tree)) if cond is not None else Not(tree)
    return [K.pz(name + "_tree", side, trans, A, T, B, ANY, cond=c), K.pz(name, side, trans, A, T, B, ANY, cond=d)]


def geqrs(e):
    m, n, nrhs, pA, lda, T, pB, ldb = e.p
    K = k_(e)
    return dict(err=[(1, m < 0), (2, Or(n < 0, n > m)), (3, nrhs < 0), (5, lda < imax(1, m)), (8, ldb < imax(1, m))], quick=Or(m == 0, n == 0, nrhs == 0),
                steps=[K.G("A", m, n), K.G("B", m, nrhs), K.WS(e.ib * e.nb), K.IN("A", pA, lda), K.IN("B", pB, ldb),
                       K.omp("geqrs", D("A"), T, D("B"), ANY), K.OUT("B", pB, ldb)])


def omp_geqrs(e):
    A, T, B = e.p[:3]
    K = k_(e)
    n = fld(e, 0, "n")
    z = z3.IntVal(0)
    a, t, b = dn(e, 0), dn(e, 1), dn(e, 2)
    return dict(descs=[0, 1, 2], quick=Or(fld(e, 0, "m") == 0, n == 0, fld(e, 2, "n") == 0),
                steps=apply_q(K, e, "unmqr", e.PlasmaLeft, e.CT, a, t, b) + [
                    K.pz("trsm", e.PlasmaLeft, e.PlasmaUpper, e.PlasmaNoTrans, e.PlasmaNonUnit, ONE, DV(a.name, z, z, n, n),
                         DV(b.name, z, z, n, fld(e, 2, "n")))])


def gelqs(e):
    m, n, nrhs, pA, lda, T, pB, ldb = e.p
    K = k_(e)
    return dict(err=[(1, m < 0), (2, Or(n < 0, m > n)), (3, nrhs < 0), (5, lda < imax(1, m)), (8, ldb < imax(1, imax(1, n)))], quick=Or(m == 0, n == 0, nrhs == 0),
                steps=[K.G("A", m, n), K.G("B", n, nrhs), K.WS(e.ib * e.nb), K.IN("A", pA, lda), K.IN("B", pB, ldb),
                       K.omp("gelqs", D("A"), T, D("B"), ANY), K.OUT("B", pB, ldb)])


def lq_solve(K, e, a, t, b, m, n, nrhs, cond=None):
    """minimum-norm solution: clear the rows below the right-hand side, solve with L, apply Q^H"""
    z = z3.IntVal(0)
    s = [K.pz("laset", e.PlasmaGeneral, ZERO, ZERO, DV(b.name, m, z, n - m, nrhs), cond=cond if cond is not None else None),
         K.pz("trsm", e.PlasmaLeft, e.PlasmaLower, e.PlasmaNoTrans, e.PlasmaNonUnit, ONE, DV(a.name, z, z, m, m), DV(b.name, z, z, m, nrhs), cond=cond)]
    return s + apply_q(K, e, "unmlq", e.PlasmaLeft, e.CT, a, t, b, cond)


def omp_gelqs(e):
    K = k_(e)
    m, n = dims(e, 0)
    return dict(descs=[0, 1, 2], quick=Or(m == 0, n == 0, fld(e, 2, "n") == 0), steps=lq_solve(K, e, dn(e, 0), dn(e, 1), dn(e, 2), m, n, fld(e, 2, "n")))


def gels(e):
    t, m, n, nrhs, pA, lda, T, pB, ldb = e.p
    K = k_(e)
    return dict(err=[(1, bad_ctrans(e, t)), (2, m < 0), (3, n < 0), (4, nrhs < 0), (6, lda < imax(1, m)), (9, ldb < imax(1, imax(m, n)))],
                quick=imin(m, imin(n, nrhs)) == 0, quick_zeroes=(7, imax(m, n), nrhs, ldb),
                steps=[K.G("A", m, n), K.G("B", imax(m, n), nrhs), K.T("T", "A"), K.WS(ws_geqrf(e)), K.IN("A", pA, lda), K.IN("B", pB, ldb),
                       K.omp("gels", t, D("A"), D("T"), D("B"), ANY), K.OUT("A", pA, lda), K.OUT("B", pB, ldb)])


def omp_gels(e):
    t, A, T, B = e.p[:4]
    K = k_(e)
    m, n = dims(e, 1)
    nrhs = fld(e, 3, "n")
    a, tt, b = dn(e, 1), dn(e, 2), dn(e, 3)
    z = z3.IntVal(0)
    tree = e.ctx("householder_mode") == e.PlasmaTreeHouseholder
    no = t == e.PlasmaNoTrans
    tall, wide = m >= n, Not(m >= n)
    top = lambda k: (DV(a.name, z, z, k, k), DV(b.name, z, z, k, nrhs))
    st = [K.pz("geqrf_tree", a, tt, ANY, cond=And(tall, tree)), K.pz("geqrf", a, tt, ANY, cond=And(tall, Not(tree)))]
    # m >= n, A X = B: apply Q^H, solve with R
    st += apply_q(K, e, "unmqr", e.PlasmaLeft, e.CT, a, tt, b, And(tall, no))
    st += [K.pz("trsm", e.PlasmaLeft, e.PlasmaUpper, e.PlasmaNoTrans, e.PlasmaNonUnit, ONE, *top(n), cond=And(tall, no))]
    # m >= n, A^H X = B: clear the rows below B, solve with R^H, apply Q
    st += [K.pz("laset", e.PlasmaGeneral, ZERO, ZERO, DV(b.name, n, z, m - n, nrhs), cond=And(tall, Not(no))),
           K.pz("trsm", e.PlasmaLeft, e.PlasmaUpper, TR(e, e.CT), e.PlasmaNonUnit, ONE, *top(n), cond=And(tall, Not(no)))]
    st += apply_q(K, e, "unmqr", e.PlasmaLeft, e.PlasmaNoTrans, a, tt, b, And(tall, Not(no)))
    st += [K.pz("gelqf_tree", a, tt, ANY, cond=And(wide, tree)), K.pz("gelqf", a, tt, ANY, cond=And(wide, Not(tree)))]
    st += lq_solve(K, e, a, tt, b, m, n, nrhs, And(wide, no))
    # m < n, A^H X = B: apply Q, solve with L^H
    st += apply_q(K, e, "unmlq", e.PlasmaLeft, e.PlasmaNoTrans, a, tt, b, And(wide, Not(no)))
    st += [K.pz("trsm", e.PlasmaLeft, e.PlasmaLower, TR(e, e.CT), e.PlasmaNonUnit, ONE, *top(m), cond=And(wide, Not(no)))]
    q = Or(m == 0, n == 0, nrhs == 0)
    return dict(bad=[bad_ctrans(e, t)], descs=[1, 2, 3], quick=q, quick_steps=[K.pz("laset", e.PlasmaGeneral, ZERO, ZERO, b)], steps=st)


def ungqr(name, qr):
    def sync(e):
        m, n, k, pA, lda, T, pQ, ldq = e.p
        K = k_(e)
        if qr:
            err = [(1, m < 0), (2, Or(n < 0, n > m)), (3, Or(k < 0, k > n)), (5, lda < imax(1, m)), (8, ldq < imax(1, m))]
            quick, a = n <= 0, K.G("A", m, k)
        else:
            err = [(1, m < 0), (2, n < m), (3, Or(k < 0, k > m)), (5, lda < imax(1, m)), (8, ldq < imax(1, m))]
            quick, a = m <= 0, K.G("A", k, n)
        return dict(err=err, quick=quick, steps=[a, K.G("Q", m, n), K.WS(e.ib * e.nb), K.IN("A", pA, lda), K.IN("Q", pQ, ldq, opt=True),
                                                K.omp(name, D("A"), T, D("Q"), ANY), K.OUT("Q", pQ, ldq)])

    def omp(e):
        K = k_(e)
        A, T, Q = dn(e, 0), dn(e, 1), dn(e, 2)
        tree = e.ctx("householder_mode") == e.PlasmaTreeHouseholder
        return dict(descs=[0, 1, 2], quick=fld(e, 2, "n") <= 0 if qr else fld(e, 2, "m") <= 0,
                    steps=[K.pz("laset", e.PlasmaGeneral, ZERO, ONE, Q), K.pz(name + "_tree", A, T, Q, ANY, cond=tree), K.pz(name, A, T, Q, ANY, cond=Not(tree))])
    routine(name, omp, sync)


def unmqr(name, qr):
    def sync(e):
        side, t, m, n, k, pA, lda, T, pC, ldc = e.p
        K = k_(e)
        am = If(side == e.PlasmaLeft, m, n)
        err = [(1, bad_side(e, side)), (2, bad_ctrans(e, t)), (3, m < 0), (4, n < 0), (5, Or(k < 0, k > am)), (7, lda < imax(1, am if qr else k)),
               (10, ldc < imax(1, m))]
        return dict(err=err, quick=Or(m == 0, n == 0, k == 0),
                    steps=[K.G("A", am, k) if qr else K.G("A", k, am), K.G("C", m, n), K.WS(e.ib * e.nb), K.IN("A", pA, lda), K.IN("C", pC, ldc),
                           K.omp(name, side, t, D("A"), T, D("C"), ANY), K.OUT("C", pC, ldc)])

    def omp(e):
        side, t = e.p[:2]
        m, n = dims(e, 4)
        return dict(bad=[bad_side(e, side), bad_ctrans(e, t)], descs=[2, 3, 4], quick=Or(m == 0, n == 0, fld(e, 2, "m") == 0, fld(e, 2, "n") == 0),
                    steps=apply_q(k_(e), e, name, side, t, dn(e, 2), dn(e, 3), dn(e, 4)))
    routine(name, omp, sync)


qrf("geqrf")
qrf("gelqf")
routine("geqrs", omp_geqrs, geqrs)
routine("gelqs", omp_gelqs, gelqs)
routine("gels", omp_gels, gels)
ungqr("ungqr", True)
ungqr("unglq", False)
unmqr("unmqr", True)
unmqr("unmlq", False)


# ------------------------------------------------------------------ element-wise routines
def geadd(e):
    t, m, n, al, pA, lda, be, pB, ldb = e.p
    K = k_(e)
    am, an = If(t == e.PlasmaNoTrans, m, n), If(t == e.PlasmaNoTrans, n, m)
    return dict(err=[(1, bad_trans(e, t)), (2, m < 0), (3, n < 0), (6, lda < imax(1, am)), (9, ldb < imax(1, m))],
                quick=Or(m == 0, n == 0, And(al == ZERO, be == ONE)),
                steps=[K.G("A", am, an), K.G("B", m, n), K.IN("A", pA, lda), K.IN("B", pB, ldb), K.omp("geadd", t, al, D("A"), be, D("B")),
                       K.OUT("A", pA, lda, opt=True), K.OUT("B", pB, ldb)])


def omp_geadd(e):
    t, al, A, be, B = e.p[:5]
    m, n = dims(e, 4)
    no = t == e.PlasmaNoTrans
    return dict(quick_free=True, pre=same(e, 2, If(no, m, n), If(no, n, m)), bad=[bad_trans(e, t)], descs=[2, 4], quick=Or(m == 0, n == 0, And(al == ZERO, be == ONE)),
                steps=[k_(e).pz("geadd", t, al, dn(e, 2), be, dn(e, 4))])


def tradd(e):
    u, t, m, n, al, pA, lda, be, pB, ldb = e.p
    K = k_(e)
    am, an = If(t == e.PlasmaNoTrans, m, n), If(t == e.PlasmaNoTrans, n, m)
    return dict(err=[(1, bad_uplo(e, u)), (2, bad_trans(e, t)), (3, m < 0), (4, n < 0), (7, lda < imax(1, am)), (10, ldb < imax(1, m))],
                quick=Or(m == 0, n == 0, And(al == ZERO, be == ONE)),
                steps=[K.G("A", am, an), K.G("B", m, n), K.IN("A", pA, lda), K.IN("B", pB, ldb), K.omp("tradd", u, t, al, D("A"), be, D("B")),
                       K.OUT("A", pA, lda, opt=True), K.OUT("B", pB, ldb)])


def omp_tradd(e):
    u, t, al, A, be, B = e.p[:6]
    m, n = dims(e, 5)
    no = t == e.PlasmaNoTrans
    return dict(quick_free=True, pre=same(e, 3, If(no, m, n), If(no, n, m)), bad=[bad_uplo(e, u), bad_trans(e, t)], descs=[3, 5], quick=Or(m == 0, n == 0, And(al == ZERO, be == ONE)),
                steps=[k_(e).pz("tradd", u, t, al, dn(e, 3), be, dn(e, 5))])


def lacpy(e):
    u, t, m, n, pA, lda, pB, ldb = e.p
    K = k_(e)
    bm, bn = If(t == e.PlasmaNoTrans, m, n), If(t == e.PlasmaNoTrans, n, m)
    return dict(err=[(1, bad_guplo(e, u)), (2, bad_trans(e, t)), (3, m < 0), (4, n < 0), (3, And(t != e.PlasmaNoTrans, m != n)), (6, lda < imax(1, m)),
                     (8, ldb < imax(1, bm))],
                quick=imin(n, m) == 0,
                steps=[K.G("A", m, n), K.G("B", bm, bn), K.IN("A", pA, lda), K.IN("B", pB, ldb), K.omp("lacpy", u, t, D("A"), D("B")), K.OUT("B", pB, ldb)])


def omp_lacpy(e):
    u, t = e.p[:2]
    m, n = dims(e, 2)
    return dict(bad=[bad_guplo(e, u), bad_trans(e, t)], descs=[2, 3], quick=Or(m == 0, n == 0), steps=[k_(e).pz("lacpy", u, t, dn(e, 2), dn(e, 3))])


def lascl(e):
    u, cf, ct, m, n, pA, lda = e.p
    K = k_(e)
    nan = e.isnan
    return dict(err=[(1, bad_guplo(e, u)), (2, Or(cf == ZERO, nan(cf))), (3, nan(ct)), (4, m < 0), (5, n < 0), (7, lda < imax(1, m))], quick=imin(n, m) == 0,
                steps=[K.G("A", m, n), K.IN("A", pA, lda), K.omp("lascl", u, cf, ct, D("A")), K.OUT("A", pA, lda)])


def omp_lascl(e):
    u, cf, ct = e.p[:3]
    m, n = dims(e, 3)
    return dict(bad=[bad_guplo(e, u), Or(cf == ZERO, e.isnan(cf)), e.isnan(ct)], descs=[3], quick=Or(m == 0, n == 0), steps=[k_(e).pz("lascl", u, cf, ct, dn(e, 3))])


def laset(e):
    u, m, n, al, be, pA, lda = e.p
    K = k_(e)
    return dict(err=[(1, bad_guplo(e, u)), (2, m < 0), (3, n < 0), (7, lda < imax(1, m))], quick=imin(m, n) == 0,
                steps=[K.G("A", m, n), K.IN("A", pA, lda), K.omp("laset", u, al, be, D("A")), K.OUT("A", pA, lda)])


def omp_laset(e):
    u, al, be = e.p[:3]
    m, n = dims(e, 3)
    return dict(bad=[bad_guplo(e, u)], descs=[3], quick=Or(m == 0, n == 0), steps=[k_(e).pz("laset", u, al, be, dn(e, 3))])


def lag2c(e):
    m, n, pA, lda, pAs, ldas = e.p
    K = k_(e)
    return dict(err=[(1, m < 0), (2, n < 0), (4, lda < imax(1, m)), (6, ldas < imax(1, m))], quick=imin(n, m) == 0,
                steps=[K.G("A", m, n), K.G("As", m, n, prec=e.Plow), K.IN("A", pA, lda), K.call("plasma_omp_cge2desc", pAs, ldas, D("As"), opt=True),
                       K.omp("lag2c", D("A"), D("As")), K.OUT("A", pA, lda, opt=True), K.call("plasma_omp_cdesc2ge", D("As"), pAs, ldas)])


def omp_lag2c(e):
    m, n = dims(e, 0)
    return dict(descs=[0, 1], quick=Or(m == 0, n == 0), steps=[k_(e).pz("lag2c", dn(e, 0), dn(e, 1))])


def clag2z(e):
    m, n, pAs, ldas, pA, lda = e.p
    K = k_(e)
    return dict(err=[(1, m < 0), (2, n < 0), (4, ldas < imax(1, m)), (6, lda < imax(1, m))], quick=imin(n, m) == 0,
                steps=[K.G("As", m, n, prec=e.Plow), K.G("A", m, n), K.call("plasma_omp_cge2desc", pAs, ldas, D("As")), K.IN("A", pA, lda, opt=True),
                       K.call("plasma_omp_clag2z", D("As"), D("A")), K.call("plasma_omp_cdesc2ge", D("As"), pAs, ldas, opt=True), K.OUT("A", pA, lda)])


def omp_clag2z(e):
    m, n = dims(e, 0)
    return dict(descs=[0, 1], quick=Or(m == 0, n == 0), steps=[k_(e).call("plasma_pclag2z", dn(e, 0), dn(e, 1))])


routine("geadd", omp_geadd, geadd)
routine("tradd", omp_tradd, tradd)
routine("lacpy", omp_lacpy, lacpy)
routine("lascl", omp_lascl, lascl)
routine("laset", omp_laset, laset)
routine("lag2c", omp_lag2c, lag2c)
TABLE["clag2z"] = (clag2z, omp_clag2z)


# ------------------------------------------------------------------ norms
def norm(name, params, errs, quick, omp_bad_, d, mk):
    def sync(e):
        p = dict(zip(params, e.p))
        K = k_(e)
        return dict(err=errs(e, p), quick=quick(p), quick_ret=ZERO, steps=mk(K, e, p), ret=None)

    def omp(e):
        p = e.p
        m, n = dims(e, d)
        args = list(p[:d]) + [dn(e, d)] + list(p[d + 1:d + 3])
        return dict(bad=omp_bad_(e, p), descs=[d], quick=Or(m == 0, n == 0), quick_stores=True, steps=[k_(e).pz(name, *args)],
                    square=[d] if name in ("lanhe", "lansy") else [])
    routine(name, omp, sync)


def bad_norm(e, x):
    return Not(one_of(x, e.PlasmaMaxNorm, e.PlasmaOneNorm, e.PlasmaInfNorm, e.PlasmaFrobeniusNorm))


norm("lange", "norm m n pA lda".split(),
     lambda e, p: [(1, bad_norm(e, p["norm"])), (2, p["m"] < 0), (3, p["n"] < 0), (5, p["lda"] < imax(1, p["m"]))],
     lambda p: imin(p["n"], p["m"]) == 0, lambda e, p: [bad_norm(e, p[0])], 1,
     lambda K, e, p: [K.G("A", p["m"], p["n"]), K.IN("A", p["pA"], p["lda"]), K.omp("lange", p["norm"], D("A"), Alloc("work"), ANY)])
for _x in ("lanhe", "lansy"):
    norm(_x, "norm uplo n pA lda".split(),
         lambda e, p: [(1, bad_norm(e, p["norm"])), (2, bad_uplo(e, p["uplo"])), (3, p["n"] < 0), (5, p["lda"] < imax(1, p["n"]))],
         lambda p: p["n"] == 0, lambda e, p: [bad_norm(e, p[0]), bad_uplo(e, p[1])], 2,
         lambda K, e, p, _x=_x: [K.G("A", p["n"], p["n"]), K.IN("A", p["pA"], p["lda"]), K.omp(_x, p["norm"], p["uplo"], D("A"), Alloc("work"), ANY)])
norm("lantr", "norm uplo diag m n pA lda".split(),
     lambda e, p: [(1, bad_norm(e, p["norm"])), (2, bad_uplo(e, p["uplo"])), (3, bad_diag(e, p["diag"])), (4, p["m"] < 0), (5, p["n"] < 0), (7, p["lda"] < imax(1, p["m"]))],
     lambda p: imin(p["n"], p["m"]) == 0, lambda e, p: [bad_norm(e, p[0]), bad_uplo(e, p[1]), bad_diag(e, p[2])], 3,
     lambda K, e, p: [K.G("A", p["m"], p["n"]), K.IN("A", p["pA"], p["lda"]), K.omp("lantr", p["norm"], p["uplo"], p["diag"], D("A"), Alloc("work"), ANY)])
norm("langb", "norm m n kl ku pAB ldab".split(),
     lambda e, p: [(1, bad_norm(e, p["norm"])), (2, p["m"] < 0), (3, p["n"] < 0), (4, p["kl"] < 0), (5, p["ku"] < 0), (7, p["ldab"] < imax(1, 1 + p["kl"] + p["ku"]))],
     lambda p: imin(p["n"], p["m"]) == 0, lambda e, p: [bad_norm(e, p[0])], 1,
     lambda K, e, p: [K.GB("A", e.PlasmaGeneral, gb_rows(e, p["kl"], p["ku"]), p["m"], p["n"], p["kl"], p["ku"]), K.IN("A", p["pAB"], p["ldab"], "pb"),
                      K.omp("langb", p["norm"], D("A"), Alloc("work"), ANY)])


def dzamax(e):
    cr, m, n, pA, lda, v = e.p
    K = k_(e)
    return dict(err=[(1, Not(one_of(cr, e.PlasmaColumnwise, e.PlasmaRowwise))), (2, m < 0), (3, n < 0), (5, lda < imax(1, m))], quick=imin(n, m) == 0,
                steps=[K.G("A", m, n), K.IN("A", pA, lda), K.call("plasma_omp_dzamax", cr, D("A"), Alloc("work"), v)])


def omp_dzamax(e):
    cr, A, w, v = e.p[:4]
    m, n = dims(e, 1)
    return dict(bad=[Not(one_of(cr, e.PlasmaColumnwise, e.PlasmaRowwise))], descs=[1], quick=Or(m == 0, n == 0),
                steps=[k_(e).call("plasma_pdzamax", cr, dn(e, 1), w, v)])


TABLE["dzamax"] = (dzamax, omp_dzamax)


# ------------------------------------------------------------------ layout translation (tile-level entry points)
def layout(name, to_desc, kind):
    def omp(e):
        if to_desc:
            p, ld, A = e.p[:3]
            d = 2
        else:
            A, p, ld = e.p[:3]
            d = 0
        pz = {"ge": "plasma_pzge2desc" if to_desc else "plasma_pzdesc2ge", "tr": "plasma_pztr2desc" if to_desc else "plasma_pzdesc2tr",
              "pb": "plasma_pzpb2desc" if to_desc else "plasma_pzdesc2pb", "gb": "plasma_pzgb2desc"}[kind]
        m, n = dims(e, d)
        K = k_(e)
        args = [p, ld, dn(e, d)] if to_desc else [dn(e, d), p, ld]
        st = [K.call(pz, *args)]
        if kind == "gb":
            ge = fld(e, d, "type") == e.PlasmaGeneral
            st = [K.call("plasma_pzge2desc", *args, cond=ge), K.call(pz, *args, cond=Not(ge))]
        return dict(bad=[is_null(p)], descs=[d], quick=Or(m == 0, n == 0), quick_free=True, steps=st)
    TABLE[name] = (None, omp)


for _n, _t, _k in (("ge2desc", True, "ge"), ("desc2ge", False, "ge"), ("tr2desc", True, "tr"), ("desc2tr", False, "tr"), ("pb2desc", True, "pb"),
                   ("desc2pb", False, "pb"), ("gb2desc", True, "gb")):
    layout(_n, _t, _k)

ALL_Z_NAMES += ["plasma_" + (x if x in ("clag2z", "dzamax") else "z" + x) for x in TABLE]
ALL_Z_NAMES += ["plasma_omp_" + (x if x in ("clag2z", "dzamax") else "z" + x) for x in TABLE]
ALL_Z_NAMES += ["plasma_p" + (x if x in ("clag2z", "dzamax") else "z" + x) for x in TABLE]
ALL_Z_NAMES += ["plasma_pz" + x for x in ("tbsm", "geqrf_tree", "gelqf_tree", "unmqr_tree", "unmlq_tree", "ungqr_tree", "unglq_tree", "hetrf_aasen", "getri_aux")]
ALL_Z_NAMES += ["plasma_omp_cge2desc", "plasma_omp_cdesc2ge", "plasma_pclag2z", "plasma_pdzamax", "plasma_omp_clag2z", "plasma_omp_dzamax"]


def names_of(z):
    """(file of the z version, sync function, omp function)"""
    s = z if z in ("clag2z", "dzamax") else "z" + z
    return "compute/%s.c" % s, "plasma_" + s, "plasma_omp_" + s
