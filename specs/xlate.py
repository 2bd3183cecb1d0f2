"""C03: translation between the user's column-major (full, packed-band) array and tiles.

Tile level: for every tile of the stored region one copy between the tile and its place in the user's array; both directions move the same
rectangles.  Element level: the band copies move exactly the elements of the stored region of a tile and zero the rest of the tile, and the
same elements are moved back.  Lemmas tie the two levels to the elements of the matrix."""
import z3
from tcv.cfront import OutOfReach, ALL_Z_NAMES
from tcv.symex import Ptr, Tile, Struct, S, I, ZERO, to_int, to_scalar, lit, cdiv, cmod
from tcv.tile import TileMachine, TileVC, Eff, Opnd, CodeEff, Fam, fams, NB, split_pite
from tcv.vc import Theory
from tcv.ctl import prove
from tcv.runner import discharge, consistent
from tcv import tilecheck
from .level3 import Cx, rng, m, n, UP, LO, GEN, SEQ, REQ
from .elementwise import exact
from .normkern import ElemMachine, Grid, quotient, ELT

ZI = z3.IntVal
LDA = z3.Int("lda")
BANDK = ("zlacpy_lapack2tile_band", "zlacpy_tile2lapack_band")
ALL_Z_NAMES += ["plasma_core_omp_" + k for k in BANDK]
USER = Ptr("user")


class XMachine(TileMachine):
    """copies between tiles and the user's array"""
    def __init__(self, srcs, tu, prec, mats, th, **kw):
        super().__init__(srcs, tu, prec, mats, th, **kw)
        names = srcs.names(prec)
        self.contracts[names["plasma_core_omp_zlacpy"]] = self.copy("lacpy", 4)
        self.contracts[names.get("plasma_core_omp_" + BANDK[0], "?")] = self.copy("band", 8)
        self.contracts[names.get("plasma_core_omp_" + BANDK[1], "?")] = self.copy("band", 8)

    def copy(self, kind, k):
        def h(mc, args, node, st):
            e = self.emit("zlacpy" if kind == "lacpy" else "zlacpy_band", args, st, node)
            if e is None:
                return ZI(0)
            for g, a in split_pite(args):
                vals = [z3.simplify(to_int(x)) for x in a[:k]]
                src, lds, dst, ldd = a[k], to_int(a[k + 1]), a[k + 2], to_int(a[k + 3])
                tile = lambda p: isinstance(p, Ptr) and isinstance(p.obj, Tile)
                user = lambda p: isinstance(p, Ptr) and p.obj == "user"
                if user(src) and tile(dst):
                    d, t, ldt, u, ldu = "in", dst, ldd, src, lds
                elif tile(src) and user(dst):
                    d, t, ldt, u, ldu = "out", src, lds, dst, ldd
                else:
                    raise OutOfReach("copy between %r and %r" % (src, dst))
                f = dict(uoff=u.off, uld=ldu, toff=t.off)
                if kind == "lacpy":
                    en = self.en
                    # anything but a triangle is copied in full
                    f.update(full=z3.And(vals[0] != en["PlasmaUpper"], vals[0] != en["PlasmaLower"]), trans=vals[1], rows=vals[2], cols=vals[3])
                else:
                    f.update(zip(("uplo", "it", "jt", "rows", "cols", "nb", "kl", "ku"), vals))
                op = Opnd(Ptr(t.obj), z3.simplify(ldt), "w" if d == "in" else "r")
                self.effects.append(CodeEff(e, 0, g, Eff(kind + "-" + d, f, dict(T=op))))
            return ZI(0)
        return h


def move(c, kind, d, A, i, j, **f):
    return [Eff(kind + "-" + d, f, dict(T=Opnd(Ptr(A(i, j).ptr.obj), A.M(i) if A.type != "GeneralBand" else NB, "w" if d == "in" else "r")))]


def sizes(c, M, dim, org, main, gm):
    """the sizes of the tiles of a sub-matrix (contract of plasma_tile_mview/mmain, C01) in terms of where it starts in its first tile (y, 0: the descriptor check rejects others) and how much
    of its last tile it covers (z): the equivalence with the contract is the lemma 'sizes'"""
    V, nt, L = dim.V, dim.nt, dim.L
    o, g = M.struct.f[org], M.struct.f[gm]
    y, zz, q = z3.Ints("first_%s covered_%s tiles_%s" % (org, org, org))
    c.th.facts += [o >= 0, g >= o + L, L >= 1, nt >= 1, y == cmod(o, NB), zz == cmod(o + L - 1, NB) + 1, y == 0, 1 <= zz, zz <= NB]
    c.th.add(V, lambda x: [z3.Implies(z3.And(x == 0, nt == 1), V(x) == zz - y), z3.Implies(z3.And(x == 0, nt > 1), V(x) == NB - y),
                           z3.Implies(z3.And(0 < x, x < nt - 1), V(x) == NB), z3.Implies(z3.And(x == nt - 1, 0 < x), V(x) == zz)])
    return y


def dense(tri, d, band=False):
    """rectangles of a full or triangular matrix; (i, j) of the descriptor: where the sub-matrix starts"""
    def gen(prec):
        for u in ((UP, LO) if tri else (GEN,)):
            def b(c, u=u):
                dm = c.dim("m", False)
                dn = dm if tri else c.dim("n", False)
                A = c.mat("A", dm, dn, type="PlasmaGeneralBand" if band else u)
                fi, fj = A.struct.f["i"], A.struct.f["j"]
                y = sizes(c, A, dm, "i", None if band else A.M, "gm")
                if tri:         # the sub-matrix of a triangle lies on the diagonal
                    c.hyps += [fi == fj]
                    x = y
                else:
                    x = sizes(c, A, dn, "j", A.N, "gn")
                dom = rng((0, m, dm.nt), (0, n, dn.nt))
                if tri:
                    dom = z3.And(dom, m <= n if u == UP else m >= n)
                if band:
                    kl, ku, klt, kut = (A.struct.f[x] for x in ("kl", "ku", "klt", "kut"))
                    c.hyps += [(kut - 1) * NB >= kl + ku, ku >= 0, fi == 0, fj == 0]
                    # tiles that meet the band
                    dom = z3.And(dom, m - n <= klt - 1, n * NB - ku <= m * NB + NB - 1)
                y, x = z3.If(m == 0, y, 0), z3.If(n == 0, x, 0)
                ld = NB if band else A.M(m)
                sp = fams("tile", [m, n], dom, (0,), move(c, "lacpy", d, A, m, n, full=z3.BoolVal(True), trans=c.E("PlasmaNoTrans"), rows=dm.V(m), cols=dn.V(n),
                                                          uoff=NB * m + y + (NB * n + x) * LDA, uld=LDA, toff=y + x * ld))
                a = [USER, LDA, A.struct] if d == "in" else [A.struct, USER, LDA]
                return a + [SEQ, REQ], sp
            yield "band" if band else u[6:], b
    return gen


def packed(d):
    """tiles that meet the stored region of a packed band"""
    def gen(prec):
        for u in (GEN, UP, LO):
            def b(c, u=u):
                dm = c.dim("m")
                dn = c.dim("n") if u == GEN else dm     # triangles are square
                A = c.mat("A", dm, dn, type="PlasmaGeneralBand", extra=dict(uplo=c.E(u), i=ZI(0), j=ZI(0)))
                kl, ku = A.struct.f["kl"], A.struct.f["ku"]
                c.hyps += [ku >= 0, (A.struct.f["kut"] - 1) * NB >= ku + (kl if u == GEN else 0)]
                for x in {dm, dn}:      # (the public routine returns before for an empty matrix) sizes of the tiles of a matrix that starts at a tile boundary
                    c.hyps += [x.nt >= 1, x.L > (x.nt - 1) * NB, x.L <= x.nt * NB]
                    c.th.add(x.V, lambda k, x=x: [z3.Implies(z3.And(0 <= k, k < x.nt - 1), x.V(k) == NB), z3.Implies(k == x.nt - 1, x.V(k) == x.L - (x.nt - 1) * NB)])
                if u == UP:
                    c.hyps += [kl == 0]
                if u == LO:
                    c.hyps += [ku == 0]
                dom = z3.And(rng((0, m, dm.nt), (0, n, dn.nt)), band_tile(u, m, n, kl, ku))
                off = {GEN: kl + ku, UP: ku, LO: ZI(0)}[u]
                sp = fams("tile", [m, n], dom, (0,), move(c, "band", d, A, m, n, uplo=c.E(u), it=m, jt=n, rows=dm.V(m), cols=dn.V(n), nb=NB, kl=kl, ku=ku,
                                                          uoff=LDA * NB * n + off + NB * m - NB * n, uld=LDA - 1, toff=ZI(0)))
                a = [USER, LDA, A.struct] if d == "in" else [A.struct, USER, LDA]
                return a + [SEQ, REQ], sp
            yield "packed %s" % u[6:], b
    return gen


def band_tile(u, m, n, kl, ku):
    """tile (m, n) meets the stored region"""
    up = {GEN: ku + kl, UP: ku, LO: ZI(0)}[u]
    lo = {GEN: kl, UP: ZI(0), LO: kl}[u]
    return z3.And(m * NB <= n * NB + NB - 1 + lo, m * NB + NB - 1 >= n * NB - up)


C03 = {"pzge2desc": dense(False, "in"), "pzdesc2ge": dense(False, "out"), "pztr2desc": dense(True, "in"), "pzdesc2tr": dense(True, "out"),
       "pzgb2desc": dense(False, "in", True), "pzpb2desc": packed("in"), "pzdesc2pb": packed("out")}


# ------------------------------------------------------------- element level of the band copies
r, c_ = z3.Ints("r c")
it, jt, mm, nn, nb, kl, ku, lda, ldb = z3.Ints("it jt m n nb kl ku lda ldb")


class CopyMachine(ElemMachine):
    """every store is a copy of one element to one element, or a zero"""
    def on_store(self, a, v, st, node):
        if not (isinstance(a, Ptr) and isinstance(a.obj, str)):
            return False
        e = self.emit("store", [a, v], st, node)
        if e is None:
            return True
        v = to_scalar(v)
        D = Opnd(self.grid(a.obj, a.off), None, "w")
        if v.eq(lit(0)):
            self.effects.append(CodeEff(e, 0, z3.BoolVal(True), Eff("zero", {}, dict(D=D))))
        elif z3.is_app(v) and v.decl().name().startswith("elt:"):
            self.effects.append(CodeEff(e, 0, z3.BoolVal(True), Eff("copy", {}, dict(D=D, S=Opnd(self.grid(v.decl().name()[4:], v.children()[0]), None, "r")))))
        else:
            raise OutOfReach("stored value %s" % str(v)[:60])
        return True

    def grid(self, arr, off):
        ld = {"A": lda, "B": ldb}[arr]
        off = z3.simplify(off, som=True)
        q = quotient(off, ld)
        row = z3.simplify(off - ld * q, som=True) if q is not None else None
        if q is None or "ld" in str(row) and any(str(x) in str(row) for x in (lda, ldb)):
            raise OutOfReach("element address")
        return Ptr(Tile(arr, row, q))


def stored(u):
    """element (r, c) of tile (it, jt) belongs to what is moved; D: how far below the diagonal"""
    D = (it - jt) * nb + r - c_
    if u == GEN:        # band, fill-in of the partial pivoting within a panel of tiles
        return z3.And(z3.Or(jt <= it, D >= -(ku + kl)), z3.Or(jt >= it, D <= kl + nb))
    if u == UP:
        return z3.And(D >= -ku, D <= 0)
    return z3.And(D >= 0, D <= kl)


def band_job(ctx, p, fn, rel, d, u):
    def job(res):
        res.functions = [fn]
        tu = ctx.srcs.tu(rel)
        en = tu.enum_names
        mach = CopyMachine(ctx.srcs, tu, p)
        th = Theory()
        mach.mats = {"A": Grid("A", mm, nn), "B": Grid("B", mm, nn)}
        # the tile lies at (it, jt) of the grid and meets the stored region
        hyps = [mm >= 1, nn >= 1, z3.substitute(band_tile(u, it, jt, kl, ku), (NB, nb)), mm <= nb, nn <= nb, nb >= 1, kl >= 0, ku >= 0, it >= 0, jt >= 0, ldb >= mm]
        if u == UP:
            hyps += [it <= jt, z3.Implies(it < jt, mm == nb), z3.Implies(it == jt, mm == nn)]
        if u == LO:
            hyps += [it >= jt, z3.Implies(it > jt, nn == nb), z3.Implies(it == jt, mm == nn)]
        given = dict(uplo=ZI(en[u]), it=it, jt=jt, m=mm, n=nn, nb=nb, kl=kl, ku=ku, A=Ptr("A"), lda=lda, B=Ptr("B"), ldb=ldb)
        mach.run(fn, [given[q.name] for q in tu.funcs[fn].params])
        inr = z3.And(0 <= r, r < mm, 0 <= c_, c_ < nn)
        reg = stored(u)
        g = lambda a, acc: Opnd(Ptr(Tile(a, r, c_)), None, acc)
        D, S_ = ("B", "A") if d == "in" else ("A", "B")
        spec = fams("moved", [r, c_], z3.And(inr, reg), (0,), [Eff("copy", {}, dict(D=g(D, "w"), S=g(S_, "r")))])
        if d == "in":
            spec += fams("zeroed", [r, c_], z3.And(inr, z3.Not(reg)), (0,), [Eff("zero", {}, dict(D=g(D, "w")))])
        v = TileVC("%s[%s]" % (fn, u[6:]), mach, spec, th, hyps)
        obs = v.generate()
        for f in spec:
            if not consistent(hyps + [f.dom], th):
                res.obs.append(("%s:vacuous[%s]" % (fn, f.name), "vacuous", 0.0, "", None, ""))
        discharge(res, obs, th)
    return job


def lemma_job(res):
    """what the tile level and the element level say together about the elements of the matrix"""
    res.functions = ["(lemmas over the contracts of the translation)"]
    gi, gj, gi2, gj2, M, N, ld, klt, kut = z3.Ints("gi gj gi2 gj2 M N ldab klt kut")
    base = [nb >= 1, kl >= 0, ku >= 0, klt >= 1, kut >= 1, (klt - 1) * nb >= kl, (kut - 1) * nb >= kl + ku, M >= 1, N >= 1]
    L = lambda nm, hy, g: prove(res, "lemma." + nm, hy, g, info=dict(kind="lemma"), timeout=20000)
    place = [gi == it * nb + r, 0 <= r, r < nb, gj == jt * nb + c_, 0 <= c_, c_ < nb, 0 <= gi, gi < M, 0 <= gj, gj < N, it >= 0, jt >= 0]
    D = gi - gj
    bnd = {GEN: z3.And(D <= kl, D >= -(ku + kl)), UP: z3.And(D <= 0, D >= -ku), LO: z3.And(D >= 0, D <= kl)}
    for u in (GEN, UP, LO):
        hy = base + place + [bnd[u]]
        L("element-in-a-moved-tile[%s]" % u[6:], hy, z3.substitute(band_tile(u, it, jt, kl, ku), (NB, nb)))
        L("element-moved[%s]" % u[6:], hy, stored(u))
        off = {GEN: kl + ku, UP: ku, LO: ZI(0)}[u]
        # the address used is that of the packed-band layout: column gj, row off + gi - gj
        L("address[%s]" % u[6:], base + place, ld * nb * jt + off + nb * it - nb * jt + r + (ld - 1) * c_ == ld * gj + off + gi - gj)
        # nothing outside the array, no element twice
        need = [ld >= nb * (klt + kut + 1)] if u == GEN else [ld >= (ku if u == UP else kl) + 1]
        st = stored(u)
        L("row-above-the-end[%s]" % u[6:], base + place + need + [st], off + D < ld)
        L("row-after-the-start[%s]" % u[6:], base + place + need + [st], z3.Or(off + D >= 0, gj >= 1) if u == GEN else off + D >= 0)
        if u == GEN:
            L("address-inside[General]", base + place + need + [st], ld * gj + off + D >= 0)
            lo, hi = z3.Ints("lowest highest")
            L("width-above[General]", base + place + [st], z3.And(D >= -(kut * nb - 1), D <= kl + nb))
    # two elements that are moved have different addresses
    d1, d2, q = z3.Ints("D1 D2 q")
    L("addresses-differ[General]", base + [ld >= nb * (klt + kut + 1), d1 >= -(kut * nb - 1), d1 <= kl + nb, d2 >= -(kut * nb - 1), d2 <= kl + nb, q >= 1, d1 - d2 == ld * q], z3.BoolVal(False))
    L("addresses-differ[Upper,Lower]", [ld >= 1, d1 >= 0, d1 < ld, d2 >= 0, d2 < ld, q >= 1, d1 - d2 == ld * q], z3.BoolVal(False))
    # full layout: row and column of the element, sub-matrix starting at (i, j)
    i, j, si, sj = z3.Ints("i j row col")
    # element (row, col) of the sub-matrix lies in tile (it, jt) at (r, c): i + row = (i/nb + it)*nb + r
    q1, r1, q2, r2 = z3.Ints("q1 r1 q2 r2")
    F = [nb >= 1, i == q1 * nb + r1, 0 <= r1, r1 < nb, j == q2 * nb + r2, 0 <= r2, r2 < nb, i + si == (q1 + it) * nb + r, 0 <= r, r < nb, j + sj == (q2 + jt) * nb + c_, 0 <= c_, c_ < nb,
         si >= 0, sj >= 0]
    # its place in the user's array is (row, col) from where the tile with the first element starts
    L("address[full]", F, nb * it + r + (nb * jt + c_) * ld == (si + r1) + (sj + r2) * ld)
    # the rows of the tiles add up to the rows of the sub-matrix
    nt, ln, z_ = z3.Ints("nt len covered")
    L("sizes[full]", [nb >= 1, i == q1 * nb + r1, 0 <= r1, r1 < nb, i + ln - 1 == q2 * nb + z_ - 1, 1 <= z_, z_ <= nb, nt == q2 - q1 + 1],
      z3.If(nt == 1, z_ - r1, (nb - r1) + (nt - 2) * nb + z_) == ln)
    L("first-row[full]", F + [it == 0], r >= r1)
    L("later-rows[full]", F + [it >= 1], si >= 1)


def jobs(ctx):
    import os
    tilecheck.register(C03)
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        out += tilecheck.make_jobs(ctx.srcs, C03, p, Cx, machine=XMachine)
        rel = "core_blas/core_%slacpy_band.c" % p
        for d, nm in (("in", "lapack2tile"), ("out", "tile2lapack")):
            fn = "plasma_core_%slacpy_%s_band" % (p, nm)
            if os.path.isfile(ctx.srcs.path(rel)) and fn in ctx.srcs.tu(rel).funcs:
                for u in (GEN, UP, LO):
                    out.append(("%s[%s]" % (fn, u[6:]), band_job(ctx, p, fn, rel, d, u)))
        from . import kernels, wrappers
        one = type("Ctx", (), dict(srcs=ctx.srcs, precs=p, tier=ctx.tier))()
        out += [j for j in kernels.elem_jobs(one) + wrappers.wrapper_jobs(one, {"args"}) if "lacpy" in j[0]]
    out.append(("translation lemmas", lemma_job))
    return out
