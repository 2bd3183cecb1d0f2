"""C01 and C02: the tile storage map and the descriptors.

The specification of the map is layout-free: every tile occupies its own interval of the allocation, the intervals fill it.
It is proved through a witness start S(row, column) of each tile: code == S on every path, and the intervals [S, S+rows*cols) form a chain
(each ends where the next begins, the first at 0 and the last at the size), hence they partition the allocation."""
import itertools
import z3
from tcv.ctl import CtlMachine, driver_tu, prove, nonlinear_facts
from tcv.symex import Ref, Struct, Ptr, NULL, Opaque, to_int, ufun, I as IS
from tcv.apimach import c_malloc

I = z3.Int
CD = ufun("cdiv", IS, IS, IS)
DESC = "plasma_desc_t"


def b2i(x):
    return to_int(x)


class Geo:
    """quotient/remainder form of a size: L = q*b + r, 0 <= r < b"""
    def __init__(self, name, b, lo=0):
        self.q, self.r, self.b = I("q_" + name), I("r_" + name), b
        self.L = self.q * b + self.r
        self.hyps = [self.q >= 0, self.r >= 0, self.r < b]


def monomials(e):
    e = z3.simplify(e, som=True)
    ts = e.children() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD else [e]
    out = []
    for t in ts:
        c, vs = 1, []
        fs = [t]
        while fs:
            f = fs.pop(0)
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MUL:
                fs = f.children() + fs
            elif z3.is_int_value(f):
                c *= f.as_long()
            elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(f.arg(1)):
                vs += [f.arg(0)] * f.arg(1).as_long()
            else:
                vs.append(f)
        out.append((c, vs))
    return out


def product(c, vs):
    r = z3.IntVal(c)
    for v in vs:
        r = r * v
    return r


def linear(t):
    t = z3.simplify(t, som=True)
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL:
                ms = [f for f in monomials(x)]
                if any(len(vs) > 1 for c, vs in ms):
                    return False
                continue
            if x.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or x.decl().name() == "cdiv":
                return False
            todo += x.children()
    return True


class Norm:
    """rewrites C divisions: cdiv(Q*d + R, d) -> Q when 0 <= R < d and Q >= 0 follow from the hypotheses"""
    def __init__(self, hyps):
        self.hyps = list(hyps)
        self.lin = [h for h in self.hyps if linear(h)]
        self.memo = {}

    def implied(self, g):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        for hs, tl in ((self.lin, 2000), (self.hyps, 300)):
            s = z3.Solver()
            s.set("timeout", tl)
            s.add(*hs)
            s.add(z3.Not(g))
            a = s.check()
            if a == z3.unsat:
                return True
            if a == z3.sat and len(self.lin) == len(self.hyps):
                return False
        return False

    def __call__(self, t, pc=()):
        if not isinstance(t, z3.ExprRef):
            return t
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][0]
        r = self.go(t)
        self.memo[k] = (r, t)
        return r

    def go(self, t):
        if not z3.is_app(t) or not t.num_args():
            return t
        ch = [self(c) for c in t.children()]
        if t.decl().name() == "cdiv":
            e, d = ch
            d = z3.simplify(d)
            Q, R = [], []
            for c, vs in monomials(e):
                hit = next((i for i, v in enumerate(vs) if v.eq(d)), None)
                if hit is not None:
                    Q.append(product(c, vs[:hit] + vs[hit + 1:]))
                else:
                    R.append(product(c, vs))
            q = z3.simplify(z3.Sum(*Q), som=True) if Q else z3.IntVal(0)
            rr = z3.simplify(z3.Sum(*R), som=True) if R else z3.IntVal(0)
            for k in (0, 1, -1):
                if self.implied(z3.And(rr - k * d >= 0, rr - k * d < d, q + k >= 0)):
                    return z3.simplify(q + k)
            return CD(z3.simplify(e, som=True), d)
        if t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() == 2:
            # half of an even polynomial
            ms = monomials(ch[0])
            if all(c % 2 == 0 for c, vs in ms):
                return z3.simplify(z3.Sum(*[product(c // 2, vs) for c, vs in ms]) if ms else z3.IntVal(0), som=True)
        f = t.decl()
        if f.kind() == z3.Z3_OP_ADD:
            return z3.Sum(*ch)
        if f.kind() == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            return r
        if z3.is_and(t):
            return z3.And(*ch)
        if z3.is_or(t):
            return z3.Or(*ch)
        if f.kind() == z3.Z3_OP_ITE:
            if isinstance(ch[1], z3.ArithRef):
                d = z3.simplify(ch[1] - ch[2], som=True)
                if z3.is_int_value(d) and d.as_long() == 0:
                    return ch[1]
            c = z3.simplify(ch[0])
            if self.implied(c):
                return ch[1]
            if self.implied(z3.Not(c)):
                return ch[2]
            return z3.If(c, ch[1], ch[2])
        return f(*ch)


def parity(e, cases):
    return [z3.substitute(e, *c) for c in cases]


def discharge(r, name, hyps, pc, goal, cases=((),), info=None):
    """normalise the divisions under the hypotheses, then decide; cases: substitutions that together cover all values"""
    for k, sub in enumerate(cases):
        hs, eqs = [], [(a, b) for a, b in sub if not isinstance(a, str)]
        extra = [b for a, b in sub if isinstance(a, str)]
        S = (lambda t: z3.substitute(t, *eqs)) if eqs else (lambda t: t)
        hs = [S(h) for h in hyps] + extra
        pcs = [S(c) for c in pc]
        n = Norm(hs)
        pcs = [z3.simplify(n(c), som=True) for c in pcs]
        g = z3.simplify(n(S(goal)), som=True)
        if any(z3.is_false(c) for c in pcs):
            continue
        # equalities of polynomials: move to one side
        if z3.is_eq(g) and isinstance(g.arg(0), z3.ArithRef):
            d = z3.simplify(g.arg(0) - g.arg(1), som=True)
            if z3.is_int_value(d):
                g = z3.BoolVal(d.as_long() == 0)
        st = prove(r, name + ("/%d" % k if len(cases) > 1 else ""), hs + pcs, g, info=info, timeout=8000)


def tu_of(ctx):
    return driver_tu(ctx.srcs, "control/descriptor.c", "", "desc")


def machine(ctx, keep=()):
    tu = tu_of(ctx)
    m = CtlMachine(tu, ctx.srcs, keep)
    m.contracts["plasma_context_self"] = lambda mm, a, n, st: Opaque("plasma")
    return m


def fatal_is(kind):
    return kind in ("exit",)


def rets(ps):
    return [P for P in ps if P.kind == "return"]


ELT = dict(PlasmaRealFloat=4, PlasmaRealDouble=8, PlasmaComplexFloat=8, PlasmaComplexDouble=16)


def spec_S(kind, mb, nb, p, q, r, s, mm, nn, corner):
    """witness start of tile (mm, nn); corner in 11, 21, 12, 22 (full tile, last row, last column, both)"""
    if kind == "general":
        return {"11": mb * nb * (mm + p * nn), "21": mb * nb * p * q + nb * r * nn, "12": mb * nb * p * q + nb * r * q + mb * s * mm,
                "22": mb * nb * p * q + nb * r * q + mb * s * p}[corner]
    # triangular, mb = nb, p = q, r = s: twice the start (halves are kept out of the formula)
    if corner == "11":
        return 2 * mb * mb * mm + mb * mb * nn * (nn + 1) if kind == "Upper" else 2 * mb * mb * (mm - nn) + mb * mb * nn * (2 * p - nn + 1)
    base = mb * mb * p * (p + 1)
    return {"21": base + 2 * mb * r * nn, "12": base + 2 * mb * r * mm, "22": base + 2 * mb * r * p}[corner]


def c01_jobs(ctx):
    srcs = ctx.srcs
    tu = tu_of(ctx)
    en = tu.enum_names
    out = []
    mb, nb = I("mb"), I("nb")
    a, b = I("tile_row"), I("tile_col")
    i0, j0 = I("i0"), I("j0")
    mem = Ptr("mem")

    def setup(kind):
        """symbolic creation arguments and hypotheses"""
        if kind == "general":
            R, C = Geo("m", mb), Geo("n", nb)
            MB, NB = mb, nb
            hy = [mb >= 1, nb >= 1] + R.hyps + C.hyps
        else:
            R = C = Geo("m", mb)
            MB = NB = mb
            hy = [mb >= 1] + R.hyps
        return R, C, MB, NB, hy

    def init_desc(kind, prec, R, C, MB, NB, view, hy):
        """descriptors produced by the init function, then by plasma_desc_view when view is set"""
        m = machine(ctx)
        uplo = {"Upper": "PlasmaUpper", "Lower": "PlasmaLower"}.get(kind)
        st0 = lambda: dict(A=Struct(DESC, {"$id": "A"}))
        i, j, mm, nn = I("i0") * MB, I("j0") * NB, I("vm"), I("vn")
        args = [z3.IntVal(en[prec])] + ([z3.IntVal(en[uplo])] if uplo else []) + [mem, MB, NB, R.L, C.L, i, j, mm, nn, Ref("A")]
        fname = "plasma_desc_triangular_init" if uplo else "plasma_desc_general_init"
        res = []
        for P in rets(m.run_ctl(fname, args, hy, st0)):
            res.append((P.pc, P.ret, P.state.env["A"]))
        if not view:
            return fname, res
        out = []
        for pc, ret, A in res:
            m2 = machine(ctx)
            for Q in rets(m2.run_ctl("plasma_desc_view", [A, I("di") * MB, I("dj") * NB, I("wm"), I("wn")], list(hy) + pc)):
                out.append((pc + Q.pc, z3.IntVal(0), Q.ret))
        return fname, out

    def addr_job(kind, view):
        def job(r):
            R, C, MB, NB, hy = setup(kind)
            p, q, rr, s = R.q, C.q, R.r, C.r
            gi = i0 + I("di") if view else i0
            gj = j0 + I("dj") if view else j0
            hy = hy + [i0 >= 0, j0 >= 0, I("di") >= 0, I("dj") >= 0, I("vm") >= 0, I("vn") >= 0, a >= 0, b >= 0, I("wm") >= 0, I("wn") >= 0,
                       i0 * MB + I("vm") <= R.L, j0 * NB + I("vn") <= C.L]
            # global tile coordinates
            mm, nn = a + gi, b + gj
            precs = list(ELT) if kind == "general" and not view else ["PlasmaComplexDouble", "PlasmaRealFloat"]
            for prec in precs:
                fname, descs = init_desc(kind, prec, R, C, MB, NB, view, hy)
                for pc0, ret, A in descs:
                    for P in rets(machine(ctx).run_ctl("plasma_tile_addr", [A, a, b], hy + pc0)):
                        pc = pc0 + P.pc
                        ptr = P.ret
                        tag = "plasma_tile_addr[%s%s,%s]" % (kind, ",view" if view else "", prec)
                        if not (isinstance(ptr, Ptr) and ptr.obj == "mem"):
                            prove(r, tag + ".stays-in-matrix", hy + pc, z3.BoolVal(False))
                            continue
                        for corner in ("11", "21", "12", "22"):
                            dom = [mm < p if corner[0] == "1" else z3.And(mm == p, rr >= 1), nn < q if corner[1] == "1" else z3.And(nn == q, s >= 1)]
                            if kind == "Upper":
                                dom.append(mm <= nn)
                            if kind == "Lower":
                                dom.append(nn <= mm)
                            if kind == "Upper" and corner == "21" or kind == "Lower" and corner == "12":
                                continue
                            S = spec_S(kind, MB, NB, p, q, rr, s, mm, nn, corner)
                            if kind == "general":
                                goal, cases = ptr.off == ELT[prec] * S, [()]
                            else:
                                h, g = I("half_n"), I("half_p")
                                goal = 2 * ptr.off == ELT[prec] * S
                                # parities of the column and of the number of whole tiles
                                cases = [((b, 2 * h + e1 - gj), (p, 2 * g + e2), ("hyp", h >= 0), ("hyp", g >= 0)) for e1 in (0, 1) for e2 in (0, 1)]
                            discharge(r, "%s.start%s" % (tag, corner), hy + dom, pc, goal, cases, info=dict(kind="address"))
            r.functions = ["plasma_tile_addr", "plasma_tile_addr_general", "plasma_tile_addr_triangle", fname] + (["plasma_desc_view"] if view else [])
        return job

    for kind in ("general", "Upper", "Lower"):
        for view in (False, True):
            out.append(("plasma_tile_addr[%s%s]" % (kind, ",view" if view else ""), addr_job(kind, view)))

    def chain(r):
        """lemma: the witness starts partition [0, gm*gn) (general), [0, allocated) (triangular)"""
        for kind in ("general", "Upper", "Lower"):
            R, C, MB, NB, hy = setup(kind)
            p, q, rr, s = R.q, C.q, R.r, C.r
            two = 1 if kind == "general" else 2
            mm, nn = I("mm"), I("nn")
            hy = hy + [mm >= 0, nn >= 0]
            S = lambda c, x, y: spec_S(kind, MB, NB, p, q, rr, s, z3.IntVal(x) if isinstance(x, int) else x, z3.IntVal(y) if isinstance(y, int) else y, c)
            A11 = two * MB * NB
            A21, A12, A22 = two * NB * rr, two * MB * s, two * rr * s
            G = []
            if kind == "general":
                total = R.L * C.L
                G += [("next-in-column", S("11", mm, nn) + A11 == S("11", mm + 1, nn)), ("next-column", S("11", p - 1, nn) + A11 == S("11", 0, nn + 1)),
                      ("A11-end", S("11", p - 1, q - 1) + A11 == S("21", 0, 0)), ("A21-next", S("21", p, nn) + A21 == S("21", p, nn + 1)),
                      ("A21-end", S("21", p, q - 1) + A21 == S("12", 0, q)), ("A12-next", S("12", mm, q) + A12 == S("12", mm + 1, q)),
                      ("A12-end", S("12", p - 1, q) + A12 == S("22", p, q)), ("A22-end", S("22", p, q) + A22 == two * total),
                      ("first", S("11", 0, 0) == 0)]
                # empty blocks: the following block starts at the same place
                G += [("no-A11", z3.Implies(z3.Or(p == 0, q == 0), S("21", p, 0) == 0)), ("no-A21", z3.Implies(z3.Or(rr == 0, q == 0), S("12", 0, q) == S("21", p, 0))),
                      ("no-A12", z3.Implies(z3.Or(s == 0, p == 0), S("22", p, q) == S("12", 0, q)))]
            elif kind == "Upper":
                G += [("first", S("11", 0, 0) == 0), ("next-in-column", S("11", mm, nn) + A11 == S("11", mm + 1, nn)), ("next-column", S("11", nn, nn) + A11 == S("11", 0, nn + 1)),
                      ("A11-end", S("11", p - 1, p - 1) + A11 == S("12", 0, p)), ("A12-next", S("12", mm, p) + A12 == S("12", mm + 1, p)),
                      ("A12-end", S("12", p - 1, p) + A12 == S("22", p, p)), ("no-A11", z3.Implies(p == 0, S("12", 0, p) == 0))]
            else:
                G += [("first", S("11", 0, 0) == 0), ("next-in-column", S("11", mm, nn) + A11 == S("11", mm + 1, nn)),
                      ("next-column", S("11", p - 1, nn) + A11 == S("11", nn + 1, nn + 1)),
                      ("A11-end", S("11", p - 1, p - 1) + A11 == S("21", p, 0)), ("A21-next", S("21", p, nn) + A21 == S("21", p, nn + 1)),
                      ("A21-end", S("21", p, p - 1) + A21 == S("22", p, p)), ("no-A11", z3.Implies(p == 0, S("21", p, 0) == 0))]
            for nm, g in G:
                discharge(r, "storage-chain[%s].%s" % (kind, nm), hy, [], g, info=dict(kind="lemma"))
        r.functions = []
    out.append(("storage-chain", chain))

    def band(r):
        """band tiles go to distinct rows of general storage; parities of nothing: (m,n) -> (kut-1+m-n, n) is injective and inside"""
        B = Struct(DESC, dict(type=z3.IntVal(en["PlasmaGeneralBand"]), **{"$id": "A"}))
        m = machine(ctx)
        kut, klt = I("A.kut"), I("A.klt")
        m2 = machine(ctx)
        calls = []

        def rec(mm, x, n, st):
            mm.event("addr_general", x, n)
            return Ptr("mem", x[1] * 0)
        m.contracts["plasma_tile_addr_general"] = rec
        for P in rets(m.run_ctl("plasma_tile_addr", [B, a, b])):
            ev = [e for e in P.events if e.name == "addr_general"]
            ok = len(ev) == 1
            prove(r, "plasma_tile_addr[band].one-general-tile", P.pc, z3.BoolVal(ok))
            if ok:
                x = ev[0].args
                prove(r, "plasma_tile_addr[band].row", P.pc, x[1] == kut - 1 + a - b, info=dict(kind="address"))
                prove(r, "plasma_tile_addr[band].column", P.pc, x[2] == b, info=dict(kind="address"))
                same = isinstance(x[0], Struct) and x[0].f.get("$id") == "A" and all(k in ("type", "$id") for k in x[0].f)
                prove(r, "plasma_tile_addr[band].same-matrix", P.pc, z3.BoolVal(same))
        gm, gmt, MB, klb, kub = I("gm"), I("gmt"), I("mb"), I("klt"), I("kut")
        dom = [a - b <= klt - 1, b - a <= kut - 1]
        prove(r, "band-map.inside", dom, z3.And(kut - 1 + a - b >= 0, kut - 1 + a - b <= kut + klt - 2), info=dict(kind="lemma"))
        a2 = I("row2")
        prove(r, "band-map.injective", [], z3.Implies(a != a2, kut - 1 + a - b != kut - 1 + a2 - b), info=dict(kind="lemma"))
        r.functions = ["plasma_tile_addr", "plasma_tile_addr_general_band"]
    out.append(("plasma_tile_addr[band]", band))

    def extents(axis, view):
        """reported sizes: leading dimension of a tile and the rows/columns of the sub-matrix in it"""
        def job(r):
            bsz = mb if axis == "m" else nb
            L = Geo("g" + axis, bsz)
            V = I("v" + axis)             # whole tiles of the sub-matrix before its last tile
            t = I("t" + axis)             # elements in the last tile, 1..b
            off = I("o" + axis)           # offset in tiles
            d = I("d" + axis)
            k = I("k")
            hy = [bsz >= 1] + L.hyps + [V >= 0, t >= 1, t <= bsz, off >= 0, d >= 0, k >= 0, k <= V, mb >= 1, nb >= 1,
                                        (off + d + V) * bsz + t <= L.L]
            size = V * bsz + t
            o, dd = (off * bsz, d * bsz)
            other = Geo("other", nb if axis == "m" else mb)
            hy += other.hyps
            A0 = dict(mb=mb, nb=nb, type=z3.IntVal(en["PlasmaGeneral"]))
            m = machine(ctx)
            zero = z3.IntVal(0)
            if axis == "m":
                args = [z3.IntVal(en["PlasmaRealDouble"]), mem, mb, nb, L.L, other.L, o, zero, size + (dd if view else 0), other.L, Ref("A")]
            else:
                args = [z3.IntVal(en["PlasmaRealDouble"]), mem, mb, nb, other.L, L.L, zero, o, other.L, size + (dd if view else 0), Ref("A")]
            cases = [(("h", t <= bsz - 1), ("h", L.r >= 1)), (("h", t <= bsz - 1), ("h", L.r == 0)), (("h", t == bsz), ("h", L.r >= 1)), (("h", t == bsz), ("h", L.r == 0))]
            cases = [c + ((t, bsz),) if k >= 2 else c for k, c in enumerate(cases)]
            cases = [tuple((x, y) for x, y in c if not (isinstance(x, str) and k >= 2 and y.eq(t == bsz))) for k, c in enumerate(cases)]
            for P in rets(m.run_ctl("plasma_desc_general_init", args, hy, lambda: dict(A=Struct(DESC, {"$id": "A"})))):
                descs = [(P.pc, P.state.env["A"])]
                if view:
                    descs = []
                    va = [P.state.env["A"]] + ([dd, zero, size, other.L] if axis == "m" else [zero, dd, other.L, size])
                    for Q in rets(machine(ctx).run_ctl("plasma_desc_view", va, hy + P.pc)):
                        descs.append((P.pc + Q.pc, Q.ret))
                for pc, A in descs:
                    tag = "%s%s" % (axis, ",view" if view else "")
                    nt = A.f["mt" if axis == "m" else "nt"]
                    discharge(r, "tile-count[%s]" % tag, hy, pc, b2i(nt) == V + 1, cases, info=dict(kind="geometry"))
                    f = "plasma_tile_%sview" % axis
                    base = off + d if view else off
                    for Q in rets(machine(ctx).run_ctl(f, [A, k], hy + pc)):
                        discharge(r, "%s[%s].inner" % (f, tag), hy + [k <= V - 1], pc + Q.pc, b2i(Q.ret) == bsz, cases, info=dict(kind="geometry"))
                        discharge(r, "%s[%s].last" % (f, tag), hy + [k == V], pc + Q.pc, b2i(Q.ret) == t, cases, info=dict(kind="geometry"))
                    f = "plasma_tile_%smain" % axis
                    for Q in rets(machine(ctx).run_ctl(f, [A, k], hy + pc)):
                        discharge(r, "%s[%s].whole-tile" % (f, tag), hy + [k + base <= L.q - 1], pc + Q.pc, b2i(Q.ret) == bsz, cases, info=dict(kind="geometry"))
                        discharge(r, "%s[%s].edge-tile" % (f, tag), hy + [k + base == L.q], pc + Q.pc, b2i(Q.ret) == L.r, cases, info=dict(kind="geometry"))
            r.functions = ["plasma_desc_general_init", "plasma_tile_%sview" % axis, "plasma_tile_%smain" % axis] + (["plasma_desc_view"] if view else [])
        return job
    for axis in "mn":
        for view in (False, True):
            out.append(("plasma_tile_extents[%s%s]" % (axis, ",view" if view else ""), extents(axis, view)))

    def bandld(r):
        B = Struct(DESC, dict(type=z3.IntVal(en["PlasmaGeneralBand"]), **{"$id": "A"}))
        for f, args in (("plasma_tile_mmain_band", [B, a, b]), ("plasma_tile_mmain", [B, a])):
            for P in rets(machine(ctx).run_ctl(f, args)):
                prove(r, "%s[band].whole-tiles" % f, P.pc, b2i(P.ret) == I("A.mb"), info=dict(kind="geometry"))
        r.functions = ["plasma_tile_mmain_band", "plasma_tile_mmain"]
    out.append(("plasma_tile_mmain_band", bandld))

    def viewjob(r):
        """a view keeps the storage of its parent and names the requested sub-matrix; a view that leaves the matrix is refused"""
        A = Struct(DESC, {"$id": "A"})
        vi, vj, vm, vn = I("i"), I("j"), I("m"), I("n")
        m = machine(ctx)
        hy = [vm >= 0, vn >= 0, vi >= 0, vj >= 0, I("A.mb") >= 1, I("A.nb") >= 1, I("A.i") >= 0, I("A.j") >= 0]
        for k, P in enumerate(m.run_ctl("plasma_desc_view", [A, vi, vj, vm, vn], hy)):
            H = hy + P.pc
            inside = z3.And(I("A.i") + vi + vm <= I("A.gm"), I("A.j") + vj + vn <= I("A.gn"))
            if P.kind == "exit":
                prove(r, "plasma_desc_view.refuses-only-outside#%d" % k, H, z3.Not(inside), info=dict(kind="view"))
                continue
            if P.kind != "return":
                continue
            prove(r, "plasma_desc_view.refuses-outside#%d" % k, H, inside, info=dict(kind="view"))
            Bf = P.ret.f
            for f, e in (("i", I("A.i") + vi), ("j", I("A.j") + vj), ("m", vm), ("n", vn)):
                prove(r, "plasma_desc_view.%s#%d" % (f, k), H, b2i(Bf[f]) == e if f in Bf else z3.BoolVal(False), info=dict(kind="view"))
            for f in Bf:
                if not str(f).startswith("$") and f not in ("i", "j", "m", "n", "mt", "nt"):
                    prove(r, "plasma_desc_view.keeps-%s#%d" % (f, k), H, b2i(Bf[f]) == I("A." + f) if isinstance(Bf[f], z3.ExprRef) else z3.BoolVal(False), info=dict(kind="view"))
        r.functions = ["plasma_desc_view"]
    out.append(("plasma_desc_view", viewjob))

    def esize(r):
        for k, P in enumerate(rets(machine(ctx).run_ctl("plasma_element_size", [I("type")]))):
            for nm, v in ELT.items():
                prove(r, "plasma_element_size[%s]#%d" % (nm, k), P.pc + [I("type") == en[nm]], b2i(P.ret) == v, info=dict(kind="geometry"))
        r.functions = ["plasma_element_size"]
    out.append(("plasma_element_size", esize))
    return out


# ------------------------------------------------------------------ C02
def fields(A):
    return lambda f: I("A." + f)


def consistent_general(en, F):
    return z3.And(z3.Or(*[F("precision") == en[p] for p in ELT]), F("mb") >= 1, F("nb") >= 1, F("m") >= 0, F("n") >= 0, F("i") >= 0, F("j") >= 0,
                  z3.Or(F("i") == 0, F("i") < F("gm")), z3.Or(F("j") == 0, F("j") < F("gn")), F("i") + F("m") <= F("gm"), F("j") + F("n") <= F("gn"),
                  F("i") - CD(F("i"), F("mb")) * F("mb") == 0, F("j") - CD(F("j"), F("nb")) * F("nb") == 0)


def band_rows(en, F):
    """tile rows a band matrix occupies: the diagonal, the tiles that hold kl rows below and ku (+kl fill-in) rows above"""
    up = lambda x: CD(x + F("mb") - 1, F("mb"))
    return z3.If(F("uplo") == en["PlasmaGeneral"], 1 + up(F("kl")) + up(F("kl") + F("ku")),
                 z3.If(F("uplo") == en["PlasmaUpper"], 1 + up(F("ku")), 1 + up(F("kl"))))


def consistent_band(en, F):
    mx = lambda x: z3.If(x > 1, x, z3.IntVal(1))
    return z3.And(z3.Or(*[F("precision") == en[p] for p in ELT]), F("mb") >= 1, F("nb") >= 1, F("m") >= 0, F("n") >= 0, F("i") >= 0, F("j") >= 0,
                  z3.Or(F("i") == 0, F("i") < F("gm")), z3.Or(F("j") == 0, F("j") < F("gn")), F("j") + F("n") <= F("gn"), F("n") <= F("gn"),
                  F("i") - CD(F("i"), F("mb")) * F("mb") == 0, F("j") - CD(F("j"), F("nb")) * F("nb") == 0,
                  F("kl") >= 0, F("ku") >= 0, F("kl") + 1 <= mx(F("m")), F("ku") + 1 <= mx(F("n")),
                  z3.Or(*[F("uplo") == en["Plasma" + u] for u in ("General", "Upper", "Lower")]), F("gm") >= F("mb") * band_rows(en, F))


def c02_jobs(ctx):
    tu = tu_of(ctx)
    en = tu.enum_names
    out = []
    GEN = lambda t: z3.Or(t == en["PlasmaGeneral"], t == en["PlasmaUpper"], t == en["PlasmaLower"])

    def check(r):
        """plasma_desc_check accepts exactly the consistent descriptors"""
        A = Struct(DESC, {"$id": "A"})
        F = fields(A)
        cons = z3.Or(z3.And(GEN(F("type")), consistent_general(en, F)), z3.And(F("type") == en["PlasmaGeneralBand"], consistent_band(en, F)))
        for k, P in enumerate(machine(ctx).run_ctl("plasma_desc_check", [A])):
            if P.kind == "infeasible":
                continue
            if P.kind != "return":
                prove(r, "plasma_desc_check.returns#%d" % k, P.pc, z3.BoolVal(False))
                continue
            prove(r, "plasma_desc_check.sound#%d" % k, P.pc, z3.Implies(b2i(P.ret) == 0, cons), info=dict(kind="post"))
            prove(r, "plasma_desc_check.complete#%d" % k, P.pc, z3.Implies(b2i(P.ret) != 0, z3.Not(cons)), info=dict(kind="post"))
            prove(r, "plasma_desc_check.code#%d" % k, P.pc, z3.Or(b2i(P.ret) == 0, b2i(P.ret) == en["PlasmaErrorIllegalValue"]), info=dict(kind="post"))
        r.functions = ["plasma_desc_check", "plasma_desc_general_check", "plasma_desc_general_band_check"]
    out.append(("plasma_desc_check", check))

    def create(kind, prec):
        fname = {"general": "plasma_desc_general_create", "band": "plasma_desc_general_band_create"}.get(kind, "plasma_desc_triangular_create")

        def job(r):
            mb, nb = I("mb"), I("nb")
            tri = kind in ("Upper", "Lower")
            if tri:
                nb = mb
            R = Geo("m", mb)
            C = R if tri else Geo("n", nb)
            i0, j0, m, n, kl, ku = I("i0"), I("j0"), I("m"), I("n"), I("kl"), I("ku")
            uplo = I("uplo")
            # an initialised library: the thread has a context
            ctxt = [z3.Not(z3.Bool("isnull(plasma)"))]
            legal = ctxt + [mb >= 1, nb >= 1] + R.hyps + C.hyps + [i0 >= 0, j0 >= 0, m >= 0, n >= 0, j0 * nb + n <= C.L, z3.Or(j0 == 0, j0 * nb < C.L),
                                                            z3.Or(i0 == 0, i0 * mb < R.L)]
            if kind != "band":
                legal.append(i0 * mb + m <= R.L)
            args = dict(precision=z3.IntVal(en[prec]), mb=mb, nb=nb, lm=R.L, ln=C.L, i=i0 * mb, j=j0 * nb, m=m, n=n, A=Ref("A"))
            cases = [()]
            if tri:
                args["uplo"] = z3.IntVal(en["Plasma" + kind])
                g = I("half_p")
                cases = [((R.q, 2 * g + e), ("hyp", g >= 0)) for e in (0, 1)]
            if kind == "band":
                args.update(uplo=uplo, kl=kl, ku=ku)
                ql, rl, qu, ru = I("ql"), I("rl"), I("qu"), I("ru")
                # band widths in quotient/remainder form: kl = ql*mb - rl with 0 <= rl < mb (ql tile rows hold kl rows)
                subs = {"PlasmaGeneral": (ql * mb - rl, qu * mb - ru - (ql * mb - rl)), "PlasmaUpper": (kl, qu * mb - ru), "PlasmaLower": (ql * mb - rl, ku)}
                args["nb"] = mb
                args["j"] = j0 * mb
                C2 = Geo("n", mb)
                args["ln"] = C2.L
                mx = lambda x: z3.If(x > 1, x, z3.IntVal(1))
                base = ctxt + [mb >= 1] + R.hyps + C2.hyps + [i0 >= 0, j0 >= 0, m >= 0, n >= 0, j0 * mb + n <= C2.L, z3.Or(j0 == 0, j0 * mb < C2.L),
                                                       z3.Or(i0 == 0, i0 * mb < R.L), ql >= 0, rl >= 0, rl < mb, qu >= 0, ru >= 0, ru < mb]
                for u, (vl, vu) in subs.items():
                    a2 = dict(args, uplo=z3.IntVal(en[u]), kl=vl, ku=vu)
                    rows = {"PlasmaGeneral": 1 + ql + qu, "PlasmaUpper": 1 + qu, "PlasmaLower": 1 + ql}[u]
                    hy = base + [vl >= 0, vu >= 0, vl + 1 <= mx(m), vu + 1 <= mx(n), R.q >= rows]
                    one(r, a2, hy, [()], dict(kl=vl, ku=vu, klt=(1 if u == "PlasmaUpper" else 1 + ql), kut=(1 if u == "PlasmaLower" else 1 + qu), uplo=z3.IntVal(en[u])), u)
            else:
                one(r, args, legal, cases, {}, kind)
            r.functions = [fname, fname.replace("_create", "_init"), "plasma_desc_check"]

        def one(r, args, hy, cases, more, tag):
            # the success path of a legal creation: consistent, right fields, allocation as large as the tiles need
            def fresh_A():
                return dict(A=Struct(DESC, {"$id": "A"}))
            m = machine(ctx)
            tag = "%s[%s,%s]" % (fname, tag, prec)
            nret = 0
            for k, P in enumerate(m.run_ctl(fname, args, hy, fresh_A)):
                if P.kind == "infeasible":
                    continue
                if P.kind != "return":
                    prove(r, tag + ".returns#%d" % k, hy + P.pc, z3.BoolVal(False))
                    continue
                fails = [e for e in P.events if e.name == "alloc-failed"]
                mal = [e for e in P.events if e.name == "malloc"]
                held = [x for x, s in P.res.items() if s[0] == "held"]
                if fails:
                    discharge(r, tag + ".out-of-memory#%d" % k, hy, P.pc, b2i(P.ret) == en["PlasmaErrorOutOfMemory"], cases, dict(kind="post"))
                    prove(r, tag + ".nothing-kept#%d" % k, hy + P.pc, z3.BoolVal(not held))
                    continue
                discharge(r, tag + ".legal-accepted#%d" % k, hy, P.pc, b2i(P.ret) == 0, cases, dict(kind="post"))
                if not mal:
                    discharge(r, tag + ".allocates#%d" % k, hy, P.pc, z3.BoolVal(False), cases, dict(kind="post"))
                    continue
                A = P.state.env["A"].f
                nret += 1
                size = mal[0].args[1]
                lm, ln = args["lm"], args["ln"]
                if kind in ("Upper", "Lower"):
                    g = Geo("m", args["mb"])
                    need2 = args["mb"] * args["mb"] * g.q * (g.q + 1) + 2 * (g.q * args["mb"] * g.r + g.r * g.r)
                    goal = 2 * size >= ELT[prec] * need2
                else:
                    goal = size >= ELT[prec] * lm * ln
                discharge(r, tag + ".allocation-size#%d" % k, hy, P.pc, goal, cases, dict(kind="post"))
                ok = isinstance(A.get("matrix"), Ptr) and len(mal) == 1 and getattr(A["matrix"].obj, "name", None) == mal[0].args[0] and held == [mal[0].args[0]]
                prove(r, tag + ".owns-allocation#%d" % k, hy + P.pc, z3.BoolVal(ok), info=dict(kind="post"))
                exp = dict(precision=args["precision"], mb=args["mb"], nb=args["nb"], gm=lm, gn=ln, i=args["i"], j=args["j"], m=args["m"], n=args["n"],
                           type=z3.IntVal(en[{"general": "PlasmaGeneral", "band": "PlasmaGeneralBand"}.get(kind, "Plasma" + kind)]))
                exp.update(more)
                for f, e in exp.items():
                    discharge(r, tag + ".%s#%d" % (f, k), hy, P.pc, (b2i(A[f]) == e) if f in A else z3.BoolVal(False), cases, dict(kind="post"))
                for f, L, b in (("gmt", lm, args["mb"]), ("gnt", ln, args["nb"])):
                    # ceil(L/b): b*(c-1) < L <= b*c
                    c = b2i(A[f]) if f in A else z3.IntVal(-1)
                    rem = Geo("m" if f == "gmt" or kind in ("Upper", "Lower") else "n", b)
                    discharge(r, tag + ".%s#%d" % (f, k), hy, P.pc, c == z3.If(rem.r == 0, rem.q, rem.q + 1), [x + (("h", rem.r >= 1),) for x in cases] + [x + (("h", rem.r == 0),) for x in cases], dict(kind="post"))
            prove(r, tag + ".can-succeed", [], z3.BoolVal(nret >= 1), info=dict(kind="vacuity"))
        return job
    for kind in ("general", "Upper", "Lower", "band"):
        for prec in (list(ELT) if kind == "general" else ["PlasmaComplexDouble"]):
            nm = {"general": "plasma_desc_general_create", "band": "plasma_desc_general_band_create"}.get(kind, "plasma_desc_triangular_create")
            out.append(("%s[%s,%s]" % (nm, kind, prec), create(kind, prec)))

    def illegal(kind):
        fname = {"general": "plasma_desc_general_create", "band": "plasma_desc_general_band_create"}.get(kind, "plasma_desc_triangular_create")

        def job(r):
            """whatever the arguments: success only with a consistent descriptor, and an error keeps nothing allocated"""
            m = machine(ctx)
            names = ["precision", "uplo", "mb", "nb", "lm", "ln", "i", "j", "m", "n", "kl", "ku"]
            args = dict({x: I(x) for x in names}, A=Ref("A"))
            for k, P in enumerate(m.run_ctl(fname, args, (), lambda: dict(A=Struct(DESC, {"$id": "A"})))):
                if P.kind != "return":
                    if P.kind != "infeasible":
                        prove(r, fname + ".returns#%d" % k, P.pc, z3.BoolVal(False))
                    continue
                held = [x for x, s in P.res.items() if s[0] == "held"]
                if held or [e for e in P.events if e.name == "malloc"] and not [e for e in P.events if e.name == "alloc-failed"]:
                    A = P.state.env["A"].f
                    F = lambda f: b2i(A[f]) if f in A else I("A." + f)
                    prove(r, fname + ".success-means-0#%d" % k, P.pc, b2i(P.ret) == 0, info=dict(kind="post"))
                    # a triangular descriptor takes its type from uplo
                    cons = z3.And(F("type") == en["PlasmaGeneralBand"], consistent_band(en, F)) if kind == "band" else z3.And(GEN(F("type")), consistent_general(en, F)) if kind == "tri" \
                        else z3.And(F("type") == en["PlasmaGeneral"], consistent_general(en, F))
                    if kind == "tri":
                        cons = z3.Implies(z3.Or(I("uplo") == en["PlasmaUpper"], I("uplo") == en["PlasmaLower"]), cons)
                    parts = cons.children() if z3.is_and(cons) else [cons]
                    for q, c in enumerate(parts):
                        prove(r, fname + ".only-consistent%d#%d" % (q, k), P.pc, c, info=dict(kind="post"))
                else:
                    prove(r, fname + ".error-code#%d" % k, P.pc, b2i(P.ret) < 0, info=dict(kind="post"))
            r.functions = [fname]
        return job
    for kind in ("general", "band", "tri"):
        out.append(("plasma_desc_create[any,%s]" % kind, illegal(kind)))

    def descT(r):
        """T: one ib x nb block per tile (two per tile for the tree)"""
        A = Struct(DESC, {"$id": "A"})
        m = machine(ctx)
        calls = []
        m.contracts["plasma_desc_general_create"] = lambda mm, a, n, st: (mm.event("create", a, n), I("created"))[1]
        mode, ib = I("mode"), I("ib")
        for k, P in enumerate(m.run_ctl("plasma_descT_create", [A, ib, mode, Ref("T")], (), lambda: dict(T=Struct(DESC, {"$id": "T"})))):
            if P.kind != "return":
                continue
            ev = [e for e in P.events if e.name == "create"]
            prove(r, "plasma_descT_create.one#%d" % k, P.pc, z3.BoolVal(len(ev) == 1))
            if len(ev) != 1:
                continue
            a = ev[0].args
            nt = z3.If(mode == en["PlasmaTreeHouseholder"], 2 * I("A.nt"), I("A.nt"))
            exp = [I("A.precision"), ib, I("A.nb"), I("A.mt") * ib, nt * I("A.nb"), z3.IntVal(0), z3.IntVal(0), I("A.mt") * ib, nt * I("A.nb")]
            for q, (x, e) in enumerate(zip(a, exp)):
                prove(r, "plasma_descT_create.arg%d#%d" % (q, k), P.pc, b2i(x) == e, info=dict(kind="post"))
            prove(r, "plasma_descT_create.target#%d" % k, P.pc, z3.BoolVal(isinstance(a[9], Ref) and a[9].var == "T"))
            prove(r, "plasma_descT_create.code#%d" % k, P.pc, b2i(P.ret) == I("created"))
        r.functions = ["plasma_descT_create"]
    out.append(("plasma_descT_create", descT))

    def destroy(r):
        m = machine(ctx)
        for k, P in enumerate(m.run_ctl("plasma_desc_destroy", [Ref("A")], (z3.Not(z3.Bool("isnull(plasma)")),), lambda: dict(A=Struct(DESC, {"$id": "A", "matrix": Ptr("mem")})))):
            if P.kind != "return":
                continue
            fr = [e for e in P.events if e.name == "free"]
            prove(r, "plasma_desc_destroy.frees-once#%d" % k, P.pc, z3.BoolVal(len(fr) == 1 and isinstance(fr[0].args[0], Ptr) and fr[0].args[0].obj == "mem"))
            prove(r, "plasma_desc_destroy.code#%d" % k, P.pc, b2i(P.ret) == 0)
        r.functions = ["plasma_desc_destroy"]
    out.append(("plasma_desc_destroy", destroy))
    return out


def descT_jobs(ctx):
    """the storage of the block reflectors has one block per tile, two in tree mode"""
    return [(l, j) for l, j in c02_jobs(ctx) if l == "plasma_descT_create"]
