"""Contracts of the tile algorithms, stated as the block form of the operation's definition.
Each case: arguments, matrices, and families of effects  for all indices in a domain -> one effect at a time."""
import z3
from tcv.symex import S, ZERO, ONE, MONE, Opaque, NULL, ufun
from tcv.tile import Dim, Mat, fams, BIG, NB, K
from tcv.vc import Theory

NOTR, TR, CT = "PlasmaNoTrans", "PlasmaTrans", "PlasmaConjTrans"
UP, LO, GEN = "PlasmaUpper", "PlasmaLower", "PlasmaGeneral"
LEFT, RIGHT = "PlasmaLeft", "PlasmaRight"
SEQ, REQ = Opaque("sequence"), Opaque("request")


class Cx:
    """one proof case: fresh geometry theory and helpers"""
    def __init__(self, en, prec):
        self.en, self.prec = en, prec
        self.th = Theory()
        self.k = K(en, prec)
        self.mats = []
        self.hyps = []
        self.real = prec in "sd"

    def E(self, n):
        return z3.IntVal(self.en[n])

    def dim(self, n, aligned=True, nb=NB):
        return Dim(n, self.th, aligned, nb)

    def mat(self, name, r, c, type="PlasmaGeneral", extra=None):
        m = Mat(name, r, c, self.th, self.en[type], type.replace("Plasma", ""), extra)
        self.mats.append(m)
        return m

    def sc(self, name):
        return z3.Const(name, S)

    def conj(self, x):
        return x if self.real else ufun("conj", S, S)(x)


def rng(*triples):
    return z3.And(*[z3.And(lo <= x, x < hi) for lo, x, hi in triples])


m, n, k = z3.Ints("m n k")


def transposes(prec, herm=None):
    return [NOTR, TR] if prec in "sd" else [NOTR, TR, CT]


# ------------------------------------------------------------------------------------------- products
def gemm(prec):
    for ta in transposes(prec):
        for tb in transposes(prec):
            def b(c, ta=ta, tb=tb):
                dm, dn, dk = c.dim("m"), c.dim("n"), c.dim("k")
                A = c.mat("A", *((dm, dk) if ta == NOTR else (dk, dm)))
                B = c.mat("B", *((dk, dn) if tb == NOTR else (dn, dk)))
                C = c.mat("C", dm, dn)
                al, be = c.sc("alpha"), c.sc("beta")
                d = rng((0, m, dm.nt), (0, n, dn.nt))
                sp = fams("scale", [m, n], d, (-1,), [c.k.scale(c.E(GEN), dm.V(m), dn.V(n), be, C(m, n))])
                sp += fams("sum", [m, n, k], z3.And(d, rng((0, k, dk.nt))), (k,), c.k.gemm(
                    c.E(ta), c.E(tb), dm.V(m), dn.V(n), dk.V(k), al, A(m, k) if ta == NOTR else A(k, m),
                    B(k, n) if tb == NOTR else B(n, k), ONE, C(m, n)))
                return [c.E(ta), c.E(tb), al, A.struct, B.struct, be, C.struct, SEQ, REQ], sp
            yield "%s,%s" % (ta[6:], tb[6:]), b


def symm_like(herm):
    def gen(prec):
        if herm and prec in "sd":
            return
        tr = CT if herm else TR
        for side in (LEFT, RIGHT):
            for uplo in (LO, UP):
                def b(c, side=side, uplo=uplo):
                    dm, dn = c.dim("m"), c.dim("n")
                    da = dm if side == LEFT else dn
                    A, B, C = c.mat("A", da, da), c.mat("B", dm, dn), c.mat("C", dm, dn)
                    al, be = c.sc("alpha"), c.sc("beta")
                    d = rng((0, m, dm.nt), (0, n, dn.nt))
                    kern = c.k.hemm if herm else c.k.symm
                    sp = fams("scale", [m, n], d, (-1,), [c.k.scale(c.E(GEN), dm.V(m), dn.V(n), be, C(m, n))])
                    x = m if side == LEFT else n
                    dg = C(m, n)
                    sp += fams("diagonal", [m, n], d, (0,), kern(c.E(side), c.E(uplo), dm.V(m), dn.V(n), al, A(x, x), B(m, n), ONE, dg))
                    # stored[k,x]: element block (x,k) of A is stored as is, otherwise transposed
                    if side == LEFT:
                        for nm, cond, stored in (("below", k < m, uplo == LO), ("above", k > m, uplo == UP)):
                            sp += fams(nm, [m, n, k], z3.And(d, rng((0, k, da.nt)), cond), (0,), c.k.gemm(
                                c.E(NOTR) if stored else c.E(tr), c.E(NOTR), dm.V(m), dn.V(n), da.V(k), al,
                                A(m, k) if stored else A(k, m), B(k, n), ONE, C(m, n)))
                    else:
                        # C(m,n) += B(m,k) A(k,n)
                        for nm, cond, stored in (("below", k > n, uplo == LO), ("above", k < n, uplo == UP)):
                            sp += fams(nm, [m, n, k], z3.And(d, rng((0, k, da.nt)), cond), (0,), c.k.gemm(
                                c.E(NOTR), c.E(NOTR) if stored else c.E(tr), dm.V(m), dn.V(n), da.V(k), al,
                                B(m, k), A(k, n) if stored else A(n, k), ONE, C(m, n)))
                    return [c.E(side), c.E(uplo), al, A.struct, B.struct, be, C.struct, SEQ, REQ], sp
                yield "%s,%s" % (side[6:], uplo[6:]), b
    return gen


def rk_like(herm, two):
    def gen(prec):
        if herm and prec in "sd":
            return
        tr = CT if herm else TR
        for uplo in (LO, UP):
            for trans in (NOTR, tr):
                def b(c, uplo=uplo, trans=trans):
                    dn, dk = c.dim("n"), c.dim("k")
                    sh = (dn, dk) if trans == NOTR else (dk, dn)
                    A = c.mat("A", *sh)
                    B = c.mat("B", *sh) if two else None
                    C = c.mat("C", dn, dn)
                    al, be = c.sc("alpha"), c.sc("beta")
                    t = lambda M, i: M(i, k) if trans == NOTR else M(k, i)
                    off = z3.And(rng((0, m, dn.nt), (0, n, dn.nt)), (m > n) if uplo == LO else (m < n))
                    sp = fams("scale-diagonal", [n], rng((0, n, dn.nt)), (-1,), [c.k.scale(c.E(uplo), dn.V(n), dn.V(n), be, C(n, n))])
                    sp += fams("scale-off", [m, n], off, (-1,), [c.k.scale(c.E(GEN), dn.V(m), dn.V(n), be, C(m, n))])
                    kd = rng((0, k, dk.nt))
                    ta, tb = (c.E(NOTR), c.E(tr)) if trans == NOTR else (c.E(tr), c.E(NOTR))
                    if two:
                        kern = c.k.her2k if herm else c.k.syr2k
                        sp += fams("diagonal", [n, k], z3.And(rng((0, n, dn.nt)), kd), (0,), kern(
                            c.E(uplo), c.E(trans), dn.V(n), dk.V(k), al, t(A, n), t(B, n), ONE, C(n, n)))
                        al2 = c.conj(al) if herm else al
                        sp += fams("off-AB", [m, n, k], z3.And(off, kd), (0,), c.k.gemm(
                            ta, tb, dn.V(m), dn.V(n), dk.V(k), al, t(A, m), t(B, n), ONE, C(m, n)))
                        sp += fams("off-BA", [m, n, k], z3.And(off, kd), (0,), c.k.gemm(
                            ta, tb, dn.V(m), dn.V(n), dk.V(k), al2, t(B, m), t(A, n), ONE, C(m, n)))
                        args = [c.E(uplo), c.E(trans), al, A.struct, B.struct, be, C.struct, SEQ, REQ]
                    else:
                        kern = c.k.herk if herm else c.k.syrk
                        sp += fams("diagonal", [n, k], z3.And(rng((0, n, dn.nt)), kd), (0,), kern(
                            c.E(uplo), c.E(trans), dn.V(n), dk.V(k), al, t(A, n), ONE, C(n, n)))
                        sp += fams("off", [m, n, k], z3.And(off, kd), (0,), c.k.gemm(
                            ta, tb, dn.V(m), dn.V(n), dk.V(k), al, t(A, m), t(A, n), ONE, C(m, n)))
                        args = [c.E(uplo), c.E(trans), al, A.struct, be, C.struct, SEQ, REQ]
                    return args, sp
                yield "%s,%s" % (uplo[6:], trans[6:]), b
    return gen


def tri_cases(prec, b):
    for side in (LEFT, RIGHT):
        for uplo in (LO, UP):
            for ta in transposes(prec):
                for diag in ("PlasmaNonUnit", "PlasmaUnit"):
                    yield "%s,%s,%s,%s" % (side[6:], uplo[6:], ta[6:], diag[6:]), (
                        lambda c, a=(side, uplo, ta, diag): b(c, *a))


def trmm(prec):
    def b(c, side, uplo, ta, diag):
        dm, dn = c.dim("m"), c.dim("n")
        da = dm if side == LEFT else dn
        A, B = c.mat("A", da, da), c.mat("B", dm, dn)
        al = c.sc("alpha")
        d = rng((0, m, dm.nt), (0, n, dn.nt))
        lower = (uplo == LO) == (ta == NOTR)          # op(A) is lower triangular
        op = lambda i, j: A(i, j) if ta == NOTR else A(j, i)
        x = m if side == LEFT else n
        # a row (column) is overwritten only after everyone who needs its old value has read it
        t = -x if (lower == (side == LEFT)) else x
        sp = fams("diagonal", [m, n], d, (t, 0), c.k.trmm(c.E(side), c.E(uplo), c.E(ta), c.E(diag), dm.V(m), dn.V(n), al, A(x, x), B(m, n)))
        kd = rng((0, k, da.nt))
        if side == LEFT:
            rel = (k < m) if lower else (k > m)
            sp += fams("rest", [m, n, k], z3.And(d, kd, rel), (t, 1), c.k.gemm(
                c.E(ta), c.E(NOTR), dm.V(m), dn.V(n), da.V(k), al, op(m, k), B(k, n), ONE, B(m, n)))
        else:
            rel = (k > n) if lower else (k < n)
            sp += fams("rest", [m, n, k], z3.And(d, kd, rel), (t, 1), c.k.gemm(
                c.E(NOTR), c.E(ta), dm.V(m), dn.V(n), da.V(k), al, B(m, k), op(k, n), ONE, B(m, n)))
        return [c.E(side), c.E(uplo), c.E(ta), c.E(diag), al, A.struct, B.struct, SEQ, REQ], sp
    return tri_cases(prec, b)


# ------------------------------------------------------------------------------------------- solves
def trsm(prec):
    def b(c, side, uplo, ta, diag):
        dm, dn = c.dim("m"), c.dim("n")
        da = dm if side == LEFT else dn
        A, B = c.mat("A", da, da), c.mat("B", dm, dn)
        al = c.sc("alpha")
        d = rng((0, m, dm.nt), (0, n, dn.nt))
        lower = (uplo == LO) == (ta == NOTR)
        op = lambda i, j: A(i, j) if ta == NOTR else A(j, i)
        x = m if side == LEFT else n
        forward = lower == (side == LEFT)
        t = (lambda v: v) if forward else (lambda v: -v)
        sp = fams("scale", [m, n], d, (0,), [c.k.scale(c.E(GEN), dm.V(m), dn.V(n), al, B(m, n))])
        sp += fams("solve", [m, n], d, (1, t(x), 0), c.k.trsm(c.E(side), c.E(uplo), c.E(ta), c.E(diag), dm.V(m), dn.V(n), ONE, A(x, x), B(m, n)))
        kd = rng((0, k, da.nt))
        rel = (k < x) if forward else (k > x)           # k is solved before x
        if side == LEFT:
            sp += fams("update", [m, n, k], z3.And(d, kd, rel), (1, t(k), 1), c.k.gemm(
                c.E(ta), c.E(NOTR), dm.V(m), dn.V(n), da.V(k), MONE, op(m, k), B(k, n), ONE, B(m, n)))
        else:
            sp += fams("update", [m, n, k], z3.And(d, kd, rel), (1, t(k), 1), c.k.gemm(
                c.E(NOTR), c.E(ta), dm.V(m), dn.V(n), da.V(k), MONE, B(m, k), op(k, n), ONE, B(m, n)))
        return [c.E(side), c.E(uplo), c.E(ta), c.E(diag), al, A.struct, B.struct, SEQ, REQ], sp
    return tri_cases(prec, b)


def potrf(prec):
    for uplo in (LO, UP):
        def b(c, uplo=uplo):
            d = c.dim("n")
            A = c.mat("A", d, d)
            lo = uplo == LO
            T = (lambda i, j: A(i, j)) if lo else (lambda i, j: A(j, i))
            kd = rng((0, k, d.nt))
            sp = fams("factor", [k], kd, (k, 0), c.k.potrf(c.E(uplo), d.V(k), T(k, k), NB * k))
            md = z3.And(kd, k < m, m < d.nt)
            dims = (d.V(m), d.V(k)) if lo else (d.V(k), d.V(m))
            sp += fams("panel", [m, k], md, (k, 1), c.k.trsm(c.E(RIGHT if lo else LEFT), c.E(uplo), c.E(CT), c.E("PlasmaNonUnit"),
                                                            *dims, ONE, T(k, k), T(m, k)))
            sp += fams("diagonal-update", [m, k], md, (k, 2), c.k.herk(c.E(uplo), c.E(NOTR if lo else CT), d.V(m), d.V(k), MONE,
                                                                     T(m, k), ONE, T(m, m)))
            nd = z3.And(kd, k < n, n < m, m < d.nt)
            if lo:
                g = c.k.gemm(c.E(NOTR), c.E(CT), d.V(m), d.V(n), d.V(k), MONE, A(m, k), A(n, k), ONE, A(m, n))
            else:
                g = c.k.gemm(c.E(CT), c.E(NOTR), d.V(n), d.V(m), d.V(k), MONE, A(k, n), A(k, m), ONE, A(n, m))
            sp += fams("update", [m, n, k], nd, (k, 2), g)
            return [c.E(uplo), A.struct, SEQ, REQ], sp
        yield uplo[6:], b


def lauum(prec):
    for uplo in (LO, UP):
        def b(c, uplo=uplo):
            d = c.dim("n")
            A = c.mat("A", d, d)
            lo = uplo == LO
            T = (lambda i, j: A(i, j)) if lo else (lambda i, j: A(j, i))
            kd = rng((0, k, d.nt))
            nd = z3.And(kd, rng((0, n, k)))
            # lower: A := L^H L ; upper: A := U U^H.  T(k,n) is the off-diagonal block of the stored triangle
            sp = fams("diagonal-update", [n, k], nd, (k, 0), c.k.herk(c.E(uplo), c.E(CT if lo else NOTR), d.V(n), d.V(k), ONE,
                                                                    T(k, n), ONE, T(n, n)))
            if lo:
                g = c.k.gemm(c.E(CT), c.E(NOTR), d.V(m), d.V(n), d.V(k), ONE, A(k, m), A(k, n), ONE, A(m, n))
            else:
                g = c.k.gemm(c.E(NOTR), c.E(CT), d.V(n), d.V(m), d.V(k), ONE, A(n, k), A(m, k), ONE, A(n, m))
            sp += fams("update", [m, n, k], z3.And(kd, rng((0, n, m)), m < k), (k, 0), g)
            dims = (d.V(k), d.V(n)) if lo else (d.V(n), d.V(k))
            sp += fams("row", [n, k], nd, (k, 1), c.k.trmm(c.E(LEFT if lo else RIGHT), c.E(uplo), c.E(CT), c.E("PlasmaNonUnit"),
                                                         *dims, ONE, T(k, k), T(k, n)))
            sp += fams("block", [k], kd, (k, 2), c.k.lauum(c.E(uplo), d.V(k), T(k, k)))
            return [c.E(uplo), A.struct, SEQ, REQ], sp
        yield uplo[6:], b


def trtri(prec):
    for uplo in (LO, UP):
        for diag in ("PlasmaNonUnit", "PlasmaUnit"):
            def b(c, uplo=uplo, diag=diag):
                d = c.dim("n")
                A = c.mat("A", d, d)
                lo = uplo == LO
                T = (lambda i, j: A(i, j)) if lo else (lambda i, j: A(j, i))
                dd = (lambda i, j: (d.V(i), d.V(j))) if lo else (lambda i, j: (d.V(j), d.V(i)))
                kd = rng((0, k, d.nt))
                md, nd = z3.And(kd, k < m, m < d.nt), z3.And(kd, rng((0, n, k)))
                sp = fams("column", [m, k], md, (k, 0), c.k.trsm(c.E(RIGHT if lo else LEFT), c.E(uplo), c.E(NOTR), c.E(diag),
                                                               *dd(m, k), MONE, T(k, k), T(m, k)))
                # T(m,n) += T(m,k) T(k,n) in the lower orientation, mirrored in the upper one
                X, Y = (T(m, k), T(k, n)) if lo else (T(k, n), T(m, k))
                sp += fams("update", [m, n, k], z3.And(md, nd), (k, 1), c.k.gemm(c.E(NOTR), c.E(NOTR), *dd(m, n), d.V(k), ONE, X, Y, ONE, T(m, n)))
                sp += fams("row", [n, k], nd, (k, 2), c.k.trsm(c.E(LEFT if lo else RIGHT), c.E(uplo), c.E(NOTR), c.E(diag),
                                                             *dd(k, n), ONE, T(k, k), T(k, n)))
                sp += fams("block", [k], kd, (k, 3), c.k.trtri(c.E(uplo), c.E(diag), d.V(k), T(k, k), NB * k))
                return [c.E(uplo), c.E(diag), A.struct, SEQ, REQ], sp
            yield "%s,%s" % (uplo[6:], diag[6:]), b


# ------------------------------------------------------------------------------------------- band matrices
def gbmm(prec):
    """C := alpha op(A) op(B) + beta C with A of kl sub- and ku superdiagonals: the tiles of A that meet the band take part"""
    for ta in transposes(prec):
        for tb in transposes(prec):
            def b(c, ta=ta, tb=tb):
                dm, dn, dk = c.dim("m"), c.dim("n"), c.dim("k")
                A = c.mat("A", *((dm, dk) if ta == NOTR else (dk, dm)), type="PlasmaGeneralBand")
                B = c.mat("B", *((dk, dn) if tb == NOTR else (dn, dk)))
                C = c.mat("C", dm, dn)
                kl, ku, kut = A.struct.f["kl"], A.struct.f["ku"], A.struct.f["kut"]
                c.hyps.append((kut - 1) * NB >= ku)
                # precondition: whole matrices (views start at a tile boundary)
                c.hyps += [z3.Implies(x.nt >= 1, z3.And(x.L > (x.nt - 1) * NB, x.L <= x.nt * NB)) for x in (dm, dk)]
                al, be = c.sc("alpha"), c.sc("beta")
                d = rng((0, m, dm.nt), (0, n, dn.nt))
                sp = fams("scale", [m, n], d, (-1,), [c.k.scale(c.E(GEN), dm.V(m), dn.V(n), be, C(m, n))])
                lo, up = (kl, ku) if ta == NOTR else (ku, kl)        # bandwidths of op(A)
                meets = z3.And(k * NB + NB - 1 >= m * NB - lo, k * NB <= m * NB + NB - 1 + up)
                sp += fams("sum", [m, n, k], z3.And(d, rng((0, k, dk.nt)), meets), (k,), c.k.gemm(
                    c.E(ta), c.E(tb), dm.V(m), dn.V(n), dk.V(k), al, A(m, k) if ta == NOTR else A(k, m),
                    B(k, n) if tb == NOTR else B(n, k), ONE, C(m, n)))
                return [c.E(ta), c.E(tb), al, A.struct, B.struct, be, C.struct, SEQ, REQ], sp
            yield "band,%s,%s" % (ta[6:], tb[6:]), b


def with_band(general, band):
    def gen(prec):
        for x in general(prec):
            yield x
        for x in band(prec):
            yield x
    return gen


def pbtrf(prec):
    for uplo in (LO, UP):
        def b(c, uplo=uplo):
            d = c.dim("n")
            A = c.mat("A", d, d, type="PlasmaGeneralBand")
            lo = uplo == LO
            w = A.struct.f["klt"] if lo else A.struct.f["kut"]
            T = (lambda i, j: A(i, j)) if lo else (lambda i, j: A(j, i))
            kd = rng((0, k, d.nt))
            sp = fams("factor", [k], kd, (k, 0), c.k.potrf(c.E(uplo), d.V(k), T(k, k), NB * k))
            md = z3.And(kd, k < m, m < d.nt, m - k < w)
            dims = (d.V(m), d.V(k)) if lo else (d.V(k), d.V(m))
            sp += fams("panel", [m, k], md, (k, 1), c.k.trsm(c.E(RIGHT if lo else LEFT), c.E(uplo), c.E(CT), c.E("PlasmaNonUnit"),
                                                            *dims, ONE, T(k, k), T(m, k)))
            sp += fams("diagonal-update", [m, k], md, (k, 2), c.k.herk(c.E(uplo), c.E(NOTR if lo else CT), d.V(m), d.V(k), MONE,
                                                                     T(m, k), ONE, T(m, m)))
            nd = z3.And(kd, k < n, n < m, m < d.nt, m - k < w)
            if lo:
                g = c.k.gemm(c.E(NOTR), c.E(CT), d.V(m), d.V(n), d.V(k), MONE, A(m, k), A(n, k), ONE, A(m, n))
            else:
                g = c.k.gemm(c.E(CT), c.E(NOTR), d.V(n), d.V(m), d.V(k), MONE, A(k, n), A(k, m), ONE, A(n, m))
            sp += fams("update", [m, n, k], nd, (k, 2), g)
            return [c.E(uplo), A.struct, SEQ, REQ], sp
        yield "band," + uplo[6:], b


def tbsm(prec):
    """band triangular solve from the left (alpha = 1: the only value its callers pass, an obligation of C20)"""
    for uplo in (LO, UP):
        for ta in transposes(prec):
            for diag in ("PlasmaNonUnit", "PlasmaUnit"):
                for piv in ([False, True] if uplo == LO else [False]):
                    def b(c, uplo=uplo, ta=ta, diag=diag, piv=piv):
                        dm, dn = c.dim("m"), c.dim("n")
                        A, B = c.mat("A", dm, dm, type="PlasmaGeneralBand"), c.mat("B", dm, dn)
                        w = A.struct.f["klt"] if uplo == LO else A.struct.f["kut"]
                        d = rng((0, m, dm.nt), (0, n, dn.nt))
                        forward = (uplo == LO) == (ta == NOTR)
                        op = lambda i, j: A(i, j) if ta == NOTR else A(j, i)
                        t = (lambda v: v) if forward else (lambda v: -v)
                        sp = fams("solve", [m, n], d, (t(m), 1), c.k.trsm(c.E(LEFT), c.E(uplo), c.E(ta), c.E(diag), dm.V(m), dn.V(n), ONE, A(m, m), B(m, n)))
                        kd = z3.And(rng((0, k, dm.nt)), (k < m) if forward else (k > m), z3.And(k - m < w, m - k < w))
                        # an update by row k belongs to row k in elimination (forward or backward); with pivoting backward the row k has
                        # been interchanged before it is used
                        if piv and not forward:
                            sp += fams("update", [m, n, k], z3.And(d, kd), (t(m), 0), c.k.gemm(
                                c.E(ta), c.E(NOTR), dm.V(m), dn.V(n), dm.V(k), MONE, op(m, k), B(k, n), ONE, B(m, n)))
                        else:
                            sp += fams("update", [m, n, k], z3.And(d, kd), (t(k), 2), c.k.gemm(
                                c.E(ta), c.E(NOTR), dm.V(m), dn.V(n), dm.V(k), MONE, op(m, k), B(k, n), ONE, B(m, n)))
                        ip = NULL
                        if piv:
                            ip = Opaque("ipiv")
                            c.hyps.append(z3.Not(z3.Bool("isnull(ipiv)")))
                            sp += fams("interchange", [m, n], d, (t(m), 0 if forward else 3), c.k.geswp(
                                m * NB + 1, m * NB + dm.V(m), dm.L, dn.V(n), 1 if forward else -1, B(m, n)))
                        return [c.E(LEFT), c.E(uplo), c.E(ta), c.E(diag), ONE, A.struct, B.struct, ip, SEQ, REQ], sp
                    yield "band,%s,%s,%s%s" % (uplo[6:], ta[6:], diag[6:], ",pivots" if piv else ""), b


C05 = {
    "pzgemm": with_band(gemm, gbmm), "pzsymm": symm_like(False), "pzhemm": symm_like(True), "pzsyrk": rk_like(False, False),
    "pzherk": rk_like(True, False), "pzsyr2k": rk_like(False, True), "pzher2k": rk_like(True, True), "pztrmm": trmm,
}
C06 = {"pzpbtrf": pbtrf, "pztbsm": tbsm, "pztrsm": trsm, "pzpotrf": potrf, "pzlauum": lauum, "pztrtri": trtri}
