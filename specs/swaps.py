"""C17: row and column interchanges.

Kernel: for every entry of the range of the list, in the order asked for, one exchange of the whole row (column) it names with its own, across tiles; an entry that
names its own row changes nothing.  Tile level: every column (row) of tiles, once, with the whole list."""
import z3
from tcv.cfront import OutOfReach, ALL_Z_NAMES
from tcv.symex import Ptr, Tile, Struct, Opaque, S, I, ZERO, to_int, to_scalar, lit, cdiv, cmod, ufun
from tcv.tile import TileMachine, TileVC, Eff, Opnd, CodeEff, fams, NB, NB2
from tcv.vc import Theory
from tcv.ctl import prove
from tcv.runner import discharge, consistent
from tcv import tilecheck
from .level3 import Cx, rng, m, n, k, SEQ, REQ
from .norms import quotient

ZI = z3.IntVal
LIST = z3.Function("elt:ipiv", I, I)
K1, K2 = z3.Ints("k1 k2")
j = z3.Int("j")


class SwapMachine(TileMachine):
    """exchanges of two vectors inside tiles"""
    def __init__(self, srcs, tu, prec, mats, th, **kw):
        super().__init__(srcs, tu, prec, mats, th, **kw)
        self.contracts["cblas_%sswap" % prec] = self.swap
        self.load_hook = self.on_load

    def on_load(self, p, name, node, st):
        if isinstance(p, Ptr) and p.obj == "ipiv" and name is None:
            return LIST(z3.simplify(p.off, som=True))
        return None

    def swap(self, mc, args, node, st):
        e = self.emit("swap", args, st, node)
        if e is None:
            return ZI(0)
        ln, x, ix, y, iy = args
        if not all(isinstance(p, Ptr) and isinstance(p.obj, Tile) for p in (x, y)):
            raise OutOfReach("exchange of %r and %r" % (x, y))
        s = lambda t: z3.simplify(to_int(t), som=True)
        # exchanging a vector with itself changes nothing
        diff = z3.Or(x.obj.i != y.obj.i, x.obj.j != y.obj.j, x.off != y.off)
        if "elt:ipiv" in str(self.position(x)):          # an exchange is symmetric
            x, ix, y, iy = y, iy, x, ix
        f = dict(at=self.position(x), len=s(ln), x=s(x.off), ix=s(ix), y=s(y.off), iy=s(iy))
        self.effects.append(CodeEff(e, 0, diff, Eff("swap", f, dict(X=Opnd(Ptr(x.obj), None, "rw"), Y=Opnd(Ptr(y.obj), None, "rw")))))
        return ZI(0)

    def position(self, p):
        """which row (column) of the matrix the vector is"""
        ld = self.mats["A"].M(ZI(0))
        if self.rowwise:
            return z3.simplify(p.obj.i * NB + p.off, som=True)
        c = z3.Int("leading dimension")
        q = quotient(z3.simplify(z3.substitute(p.off, (ld, c)), som=True), c)
        if q is None:
            raise OutOfReach("address of a column")
        return z3.simplify(p.obj.j * NB + q, som=True)


def kernel_job(ctx, p, fn, rel, rowwise, inc):
    def job(res):
        res.functions = [fn]
        tu = ctx.srcs.tu(rel)
        c = Cx(tu.enum_names, p)
        dm, dn = (c.dim("m"), c.dim("n", nb=NB2)) if rowwise else (c.dim("m", nb=NB2), c.dim("n"))
        A = c.mat("A", dm, dn)
        long, other = (dm, dn) if rowwise else (dn, dm)
        # the list names rows (columns) of the matrix; the other dimension is that of one tile (as the callers' views are)
        c.hyps += [K1 >= 1, K2 <= long.L, other.nt == 1, long.L >= 1, long.L > (long.nt - 1) * NB, long.L <= long.nt * NB]
        piv = LIST(j) - 1
        c.th.add(LIST, lambda x: [z3.Implies(z3.And(0 <= x, x < long.L), z3.And(1 <= LIST(x), LIST(x) <= long.L))])
        mach = SwapMachine(ctx.srcs, tu, p, c.mats, c.th)
        mach.rowwise = rowwise
        a = [c.E("PlasmaRowwise") if rowwise else c.E("PlasmaColumnwise"), A.struct, K1, K2, Ptr("ipiv"), ZI(inc)]
        mach.run(fn, a)
        dom = z3.And(j >= K1 - 1, j <= K2 - 1, piv != j)
        tile = lambda x: Ptr(Tile("A", cdiv(x, NB), ZI(0)) if rowwise else Tile("A", ZI(0), cdiv(x, NB)))
        ld = (lambda x: A.M(cdiv(x, NB))) if rowwise else (lambda x: ZI(1))
        off = (lambda x: cmod(x, NB)) if rowwise else (lambda x: cmod(x, NB) * A.M(ZI(0)))
        eff = Eff("swap", dict(at=j, len=other.L, x=off(j), ix=ld(j), y=off(piv), iy=ld(piv)), dict(X=Opnd(tile(j), None, "rw"), Y=Opnd(tile(piv), None, "rw")))
        spec = fams("exchange", [j], dom, (j if inc > 0 else -j,), [eff])
        v = TileVC("%s[%s,%+d]" % (fn, "rows" if rowwise else "columns", inc), mach, spec, c.th, c.hyps)
        obs = v.generate()
        for f in spec:
            if not consistent(c.hyps + mach.assume + [f.dom], c.th):
                res.obs.append(("%s:vacuous[%s]" % (fn, f.name), "vacuous", 0.0, "", None, ""))
        discharge(res, obs, c.th)
    return job


# ------------------------------------------------------------------------------------ tile level
def interchange(a, mats, en):
    """one call of the kernel on a view: which rows (columns), which entries of which list, relative to what"""
    v = a[1].f.get("_view")
    mat = mats[a[1].f["_mat"].tag.split(":", 1)[1]]
    if v is None:
        v = Struct("view", dict(i=ZI(0), j=ZI(0), m=mat.rows.L, n=mat.cols.L))
    lst = a[4]
    if isinstance(lst, Opaque):
        name, off = lst.tag, ZI(0)
    elif isinstance(lst, Ptr):
        name, off = str(lst.obj), lst.off
    else:
        raise OutOfReach("list of interchanges %r" % (lst,))
    k1, k2, inc = to_int(a[2]), to_int(a[3]), to_int(a[5])
    which = z3.simplify(to_int(a[0]))
    if not z3.is_int_value(which):
        raise OutOfReach("rows or columns")
    rows = which.as_long() == en["PlasmaRowwise"]
    s = lambda t: z3.simplify(t, som=True)
    org, ext, oorg, oext = ("i", "m", "j", "n") if rows else ("j", "n", "i", "m")
    f = dict(rows=z3.BoolVal(rows), base=s(v.f[org]), end=s(v.f[org] + v.f[ext]), first=s(v.f[org] + k1 - 1), last=s(v.f[org] + k2 - 1), entry=s(off + k1 - 1),
             other=s(v.f[oext]), incx=s(inc))
    t = TileMachine.tiles_of
    tile = Ptr(Tile(mat.name, ZI(0), t(v.f["j"], mat.cols.nb)) if rows else Tile(mat.name, t(v.f["i"], mat.rows.nb), ZI(0)))
    return Eff("interchange:" + name, f, dict(B=Opnd(tile, None, "rw", "col" if rows else "row")))


class IMachine(TileMachine):
    def c_geswp(self, mc, a, node, st):
        e = self.emit("zgeswp", a, st, node)
        if e is None:
            return ZI(0)
        self.effects.append(CodeEff(e, 0, z3.BoolVal(True), interchange(a, self.mats, self.en)))
        return ZI(0)


def swapped(c, A, rows, at, base, end, first, last, entry, other, incx, name="ipiv"):
    return [Eff("interchange:" + name, dict(rows=z3.BoolVal(rows), base=base, end=end, first=first, last=last, entry=entry, other=other, incx=incx),
                dict(B=Opnd(Ptr(Tile(A.name, ZI(0), at) if rows else Tile(A.name, at, ZI(0))), None, "rw", "col" if rows else "row")))]


INCX = z3.Int("incx")


def geswp(prec):
    for rows in (True, False):
        def b(c, rows=rows):
            dm, dn = c.dim("m", nb=NB2), c.dim("n")
            A = c.mat("A", dm, dn)
            d1, d2 = (dm, dn) if rows else (dn, dm)
            c.hyps += [d1.nt >= 1]      # (C19) an empty matrix returns before
            sp = fams("panel", [n], rng((0, n, d2.nt)), (0,), swapped(c, A, rows, n, ZI(0), d1.L, ZI(0), d1.L - 1, ZI(0), d2.V(n), INCX))
            return [c.E("PlasmaRowwise" if rows else "PlasmaColumnwise"), A.struct, Ptr("ipiv"), INCX, SEQ, REQ], sp
        yield "rows" if rows else "columns", b


C17 = {"pzgeswp": geswp}


def lemma_job(res):
    """exchanges undo themselves, and so a list applied backward undoes the same list applied forward (by induction over its length)"""
    res.functions = ["(lemmas over the contracts of the interchanges)"]
    E = z3.ArraySort(I, S)
    x = z3.Const("x", E)
    a, b, q = z3.Ints("a b q")
    sw = lambda v: z3.Store(z3.Store(v, a, v[b]), b, v[a])
    prove(res, "lemma.exchange-undoes-itself", [], sw(sw(x)) == x, info=dict(kind="lemma"))
    prove(res, "lemma.exchange-with-itself", [a == b], sw(x) == x, info=dict(kind="lemma"))
    prove(res, "lemma.exchange-changes-no-other", [q != a, q != b], sw(x)[q] == x[q], info=dict(kind="lemma"))
    prove(res, "lemma.exchange-symmetric", [], sw(x) == z3.Store(z3.Store(x, b, x[a]), a, x[b]), info=dict(kind="lemma"))
    # induction step: B undoes the first t entries; then the exchange of entry t+1 followed by B undoes t+1 entries
    F, B = z3.Function("forward", I, E, E), z3.Function("backward", I, E, E)
    t = z3.Int("t")
    prove(res, "lemma.backward-undoes-forward.step",
          [B(t, F(t, x)) == x, F(t + 1, x) == sw(F(t, x)), B(t + 1, F(t + 1, x)) == B(t, sw(F(t + 1, x)))], B(t + 1, F(t + 1, x)) == x, info=dict(kind="lemma"))
    # rows of a view and tiles of the matrix: row r of the view is row r - nb*(r/nb) of its tile r/nb
    r, o, t1, nb = z3.Ints("r offset tiles nb")
    prove(res, "lemma.row-of-a-view", [nb >= 1, o == t1 * nb, r >= 0, r == q * nb + a, 0 <= a, a < nb], o + r == (t1 + q) * nb + a, info=dict(kind="lemma"))


def jobs(ctx):
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        rel, fn = "core_blas/core_%sgeswp.c" % p, "plasma_core_%sgeswp" % p
        for rowwise in (True, False):
            for inc in (1, -1):
                out.append(("%s[%s,%+d]" % (fn, "rows" if rowwise else "columns", inc), kernel_job(ctx, p, fn, rel, rowwise, inc)))
    tilecheck.register(C17)
    for p in ctx.precs:
        out += tilecheck.make_jobs(ctx.srcs, C17, p, Cx, machine=IMachine)
    out.append(("interchange lemmas", lemma_job))
    return out
