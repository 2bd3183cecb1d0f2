"""Element-level contracts of the partial-norm kernels (C16): which elements of the tile contribute to which entry of the result."""
import z3
from tcv.cfront import OutOfReach
from tcv.symex import Machine, Ptr, Tile, Ref, S, I, to_int, to_scalar, ufun, is_scalar, lit, Opaque
from tcv.tile import TileVC, TileMachine, Eff, Opnd, CodeEff, fams, Mat, Dim, Fam
from tcv.vc import Ob, Theory
from tcv.runner import discharge, consistent
from .norms import quotient

m, n, lda = z3.Ints("m n lda")
r, c = z3.Ints("r c")
ZI = z3.IntVal


class Grid:
    """an array seen as a matrix of elements"""
    def __init__(self, name, rows, cols):
        self.name = name

        class D:
            def __init__(s, nt):
                s.nt = nt
        self.rows, self.cols, self.dense = D(rows), D(cols), None


def ELT(a):
    return z3.Function("elt:" + a, I, S)


def MAG(prec):
    return ufun("mag", S, S)


def elements(t):
    """[(array, offset)] in a scalar term"""
    out = []

    def go(t):
        if z3.is_app(t):
            nm = t.decl().name()
            if nm.startswith("elt:"):
                out.append((nm[4:], t.children()[0]))
            for x in t.children():
                go(x)
    go(t)
    return out


class ElemMachine(TileMachine):
    def __init__(self, srcs, tu, prec):
        Machine.__init__(self, tu, {})
        self.srcs, self.prec = srcs, prec
        self.en = tu.enum_names
        self.effects = []
        self.load_hook, self.store_hook = self.on_load, self.on_store
        mag = lambda mm, a, nn, st: MAG(prec)(to_scalar(a[0]))
        for k in ("cabs", "cabsf", "fabs", "fabsf", "plasma_core_dcabs1", "plasma_core_scabs1"):
            self.contracts[k] = mag
        # element and column steps of a sum of squares
        self.contracts["ssq"] = self.on_ssq
        for k in ("LAPACK_%slassq" % prec, "%slassq_" % prec, "%slassq" % prec):
            self.contracts[k] = self.on_lassq

    def on_load(self, p, name, node, st):
        if name == "status":
            return ZI(self.en["PlasmaSuccess"])
        if isinstance(p, Ptr) and isinstance(p.obj, str) and name is None:
            return ELT(p.obj)(z3.simplify(p.off, som=True))
        return None

    def opaque_field(self, s, name, node, st):
        return ZI(self.en["PlasmaSuccess"]) if name == "status" else super().opaque_field(s, name, node, st)

    def eff(self, e, k, kind, f, ops):
        self.effects.append(CodeEff(e, k, z3.BoolVal(True), Eff(kind, f, ops)))

    def slot(self, p, acc):
        return Opnd(Ptr(Tile(p.obj, z3.simplify(p.off, som=True), ZI(0))), None, acc)

    def elt(self, off):
        q = quotient(z3.simplify(off, som=True), lda)
        if q is None:
            raise OutOfReach("element address")
        row = z3.simplify(off - lda * q, som=True)
        if any(x.eq(lda) for x in syms_of(row)) or any(x.eq(lda) for x in syms_of(q)):
            raise OutOfReach("element address")
        return Opnd(Ptr(Tile("A", row, q)), None, "r")

    def on_store(self, a, v, st, node):
        if not (isinstance(a, Ptr) and isinstance(a.obj, str)):
            return False
        if a.obj == "A":
            raise OutOfReach("store to the matrix")
        v = to_scalar(v)
        own = ELT(a.obj)(z3.simplify(a.off, som=True))
        old = [x for x in elements(v) if x[0] == a.obj]
        # the comparison of a running maximum is part of the operation
        gs, cmps = [], []
        for g in st.guards:
            (cmps if scalar_cond(g) else gs).append(g)
        keep = st.guards
        st.guards = gs
        live = st.live
        if scalar_cond(live):
            raise OutOfReach("scalar condition")
        try:
            e = self.emit("store", [a, v], st, node)
        finally:
            st.guards = keep
        if e is None:
            return True
        if cmps:
            # v replaces the entry when it is greater or not a number
            if old or not is_max_guard(cmps, v, own):
                raise OutOfReach("conditional store %s" % cmps)
            self.add(e, 0, "max", a, v)
            return True
        if not old:
            self.eff(e, 0, "set", {}, dict(V=self.slot(a, "w")))
            if is_max(self.max_mode, v):
                self.add(e, 1, "max", a, v)
            elif not v.eq(lit(0)):
                self.add(e, 1, "add", a, v)
            return True
        # a sum with the old value as one term
        terms = flat_sum(v)
        mine = [t for t in terms if t.eq(own)]
        rest = [t for t in terms if not t.eq(own)]
        if len(mine) != 1 or any(x[0] == a.obj for t in rest for x in elements(t)):
            raise OutOfReach("update of a partial norm")
        for k, t in enumerate(rest):
            self.add(e, k, "add", a, t)
        return True

    max_mode = False

    def add(self, e, k, kind, a, t):
        if t.eq(lit(1)):
            return self.eff(e, k, kind + "1", {}, dict(V=self.slot(a, "acc")))
        if z3.is_app(t) and t.decl().name() == "mag":
            x = t.children()[0]
            while z3.is_app(x) and x.decl().name() in ("creal",) and self.prec in "sd":
                x = x.children()[0]
            if z3.is_app(x) and x.decl().name() == "creal" and x.children()[0].decl().name() == "elt:A":
                return self.eff(e, k, kind + "re", {}, dict(V=self.slot(a, "acc"), A=self.elt(x.children()[0].children()[0])))
            if z3.is_app(x) and x.decl().name() == "elt:A":
                return self.eff(e, k, kind, {}, dict(V=self.slot(a, "acc"), A=self.elt(x.children()[0])))
        # something else than the modulus of an element of A
        raise OutOfReach("contribution %s" % str(t)[:80])

    def on_ssq(self, mm, a, node, st):
        v = to_scalar(a[0])
        e = self.emit("ssq", a, st, node)
        if e is None:
            return ZI(0)
        ok = all(isinstance(x, Ptr) and isinstance(x.obj, str) for x in a[1:3])
        if not ok or a[1].obj != "scale" or a[2].obj != "sumsq":
            raise OutOfReach("sum of squares kept elsewhere")
        if v.eq(lit(1)):
            # one unit per iteration
            x = e.loops[-1].x if e.loops else ZI(0)
            self.eff(e, 0, "add1", {}, dict(V=self.slot(Ptr("value", ZI(0)), "acc"), D=Opnd(Ptr(Tile("one", x, ZI(0))), None, "r")))
        elif z3.is_app(v) and v.decl().name() == "elt:A":
            self.eff(e, 0, "add", {}, dict(V=self.slot(Ptr("value", ZI(0)), "acc"), A=self.elt(v.children()[0])))
        else:
            raise OutOfReach("contribution %s" % v)
        return ZI(0)

    def on_lassq(self, mm, a, node, st):
        e = self.emit("lassq", a, st, node)
        if e is None:
            return ZI(0)
        val = lambda x: self.read_ref(x, st) if isinstance(x, Ref) else x
        ln, inc = to_int(val(a[0])), z3.simplify(to_int(val(a[2])))
        if not (isinstance(a[1], Ptr) and a[1].obj == "A" and z3.is_int_value(inc) and inc.as_long() == 1):
            raise OutOfReach("lassq operands")
        if not (isinstance(a[3], Ptr) and a[3].obj == "scale" and isinstance(a[4], Ptr) and a[4].obj == "sumsq"):
            raise OutOfReach("sum of squares kept elsewhere")
        o = self.elt(a[1].off)
        self.eff(e, 0, "col", dict(len=z3.simplify(ln)), dict(V=self.slot(Ptr("value", ZI(0)), "acc"), A=o))
        return ZI(0)


def syms_of(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def scalar_cond(g):
    todo = [g]
    while todo:
        x = todo.pop()
        if z3.is_expr(x) and x.sort() == S:
            return True
        todo += x.children()
    return False


def flat_sum(v):
    if z3.is_app(v) and v.decl().name() == "fadd":
        return [y for x in v.children() for y in flat_sum(x)]
    return [v]


def is_max(mode, v):
    return mode


def is_max_guard(cmps, v, own):
    """(v > own || isnan(v)), spelled with any comparison"""
    g = z3.simplify(z3.And(*cmps))
    parts = list(g.children()) if z3.is_or(g) else [g]
    gt = nan = False
    for x in parts:
        if z3.is_app(x) and x.decl().name() == "isnan" and x.children()[0].eq(v):
            nan = True
        elif z3.is_app(x) and x.num_args() == 2:
            a, b = x.children()
            nm = x.decl().name()
            gt |= (nm in ("fp>", "fgt") and a.eq(v) and b.eq(own)) or (nm in ("fp<", "flt") and a.eq(own) and b.eq(v))
    return gt and nan


def slotV(s, acc):
    return Opnd(Ptr(Tile("value", s, ZI(0))), None, acc)


def eA(acc="r"):
    return Opnd(Ptr(Tile("A", r, c)), None, acc)


def spec_of(kind, en, norm=None, uplo=None, diag=None):
    """families (set, contributions) for one kernel; result entries are rows (Inf), columns (One) or one value"""
    m_, n_ = (n, n) if kind in ("lansy", "lanhe") else (m, n)
    inr = z3.And(0 <= r, r < m_, 0 <= c, c < n_)
    s = r if norm in ("Inf", "Rowwise") else c
    length = m_ if norm in ("Inf", "Rowwise") else n_
    if kind in ("lange", "amax"):
        reg = inr
        out = fams("set", [s], z3.And(0 <= s, s < length), (0,), [Eff("set", {}, dict(V=slotV(s, "w")))])
        out += fams("contribution", [r, c], reg, (1,), [Eff("max" if kind == "amax" else "add", {}, dict(V=slotV(s, "acc"), A=eA()))])
    elif kind in ("lansy", "lanhe"):
        tri = z3.And(inr, r >= c if uplo == "Lower" else r <= c)
        out = fams("set", [s], z3.And(0 <= s, s < n), (0,), [Eff("set", {}, dict(V=slotV(s, "w")))])
        she = kind == "lanhe"
        out += fams("column", [r, c], z3.And(tri, r != c) if she else tri, (1,), [Eff("add", {}, dict(V=slotV(c, "acc"), A=eA()))])
        if she:
            out += fams("diagonal", [c], z3.And(0 <= c, c < n), (1,), [Eff("addre", {}, dict(V=slotV(c, "acc"), A=Opnd(Ptr(Tile("A", c, c)), None, "r")))])
        out += fams("row", [r, c], z3.And(tri, r != c), (1,), [Eff("add", {}, dict(V=slotV(r, "acc"), A=eA()))])
    elif kind == "lantr":
        tri = (r >= c if uplo == "Lower" else r <= c) if diag == "NonUnit" else (r > c if uplo == "Lower" else r < c)
        out = fams("set", [s], z3.And(0 <= s, s < length), (0,), [Eff("set", {}, dict(V=slotV(s, "w")))])
        out += fams("contribution", [r, c], z3.And(inr, tri), (1,), [Eff("add", {}, dict(V=slotV(s, "acc"), A=eA()))])
        if diag == "Unit":
            out += fams("diagonal", [s], z3.And(0 <= s, s < m, s < n), (1,), [Eff("add1", {}, dict(V=slotV(s, "acc")))])
    elif kind == "trssq":
        tri = (r >= c if uplo == "Lower" else r <= c) if diag == "NonUnit" else (r > c if uplo == "Lower" else r < c)
        out = fams("contribution", [r, c], z3.And(inr, tri), (1,), [Eff("add", {}, dict(V=slotV(ZI(0), "acc"), A=eA()))])
        if diag == "Unit":
            out += [Fam("diagonal", [c], z3.And(0 <= c, c < m, c < n), (1, 0), Eff("add1", {}, dict(V=slotV(ZI(0), "acc"), D=Opnd(Ptr(Tile("one", c, ZI(0))), None, "r"))))]
    elif kind == "gessq":
        out = fams("column", [c], z3.And(0 <= c, c < n), (0,), [Eff("col", dict(len=m), dict(V=slotV(ZI(0), "acc"), A=Opnd(Ptr(Tile("A", ZI(0), c)), None, "r")))])
    return out


class ElemVC(TileVC):
    pass


def elem_job(srcs, p, rel, fn, kind, consts, label):
    def job(res):
        res.functions = [fn]
        tu = srcs.tu(rel)
        en = tu.enum_names
        mach = ElemMachine(srcs, tu, p)
        mach.max_mode = kind == "amax"
        th = Theory()
        m_ = n if kind in ("lansy", "lanhe") else m
        norm = consts.get("norm")
        length = {"Inf": m_, "Rowwise": m_}.get(norm, n)
        mach.mats = {"A": Grid("A", m_, n), "one": Grid("one", n, ZI(1)), "value": Grid("value", ZI(1) if kind in ("trssq", "gessq") else length, ZI(1))}
        hyps = [m >= 1, n >= 1, lda >= m_]
        given = {"m": m, "n": n, "lda": lda, "A": Ptr("A"), "value": Ptr("value"), "values": Ptr("value"), "scale": Ptr("scale"), "sumsq": Ptr("sumsq"),
                 "sequence": Opaque("sequence"), "request": Opaque("request")}
        E = lambda x: ZI(en["Plasma" + x])
        for k, v in consts.items():
            given[{"norm": "colrow" if kind == "amax" else "norm"}.get(k, k)] = E(v + ("Norm" if k == "norm" and kind != "amax" else ""))
        args = [given[q.name] for q in tu.funcs[fn].params]
        mach.run(fn, args)
        spec = spec_of(kind, en, **consts)
        spec = [f if isinstance(f.time, tuple) else f for f in spec]
        v = ElemVC("%s[%s]" % (fn, label), mach, spec, th, hyps)
        obs = v.generate()
        for f in spec:
            if not consistent(hyps + [f.dom], th):
                res.obs.append(("%s:vacuous[%s]" % (fn, f.name), "vacuous", 0.0, "", None, ""))
        discharge(res, obs, th)
    return job


def jobs(ctx):
    out = []
    import os
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        P = lambda z: "plasma_core_omp_" + (z if p == "z" else p + z[1:])
        R = lambda z: "core_blas/core_%s.c" % (z if p == "z" else p + z[1:])

        def add(z, kind, fn, consts, rel=None):
            label = ",".join(consts.values()) or "all"
            rel = rel or R(z)
            if not os.path.isfile(ctx.srcs.path(rel)):
                return
            if fn not in ctx.srcs.tu(rel).funcs:
                return
            out.append(("%s[%s]" % (fn, label), elem_job(ctx.srcs, p, rel, fn, kind, consts, label)))
        for nm in ("One", "Inf"):
            add("zlange", "lange", P("zlange_aux"), dict(norm=nm))
            for u in ("Lower", "Upper"):
                add("zlansy", "lansy", P("zlansy_aux"), dict(norm=nm, uplo=u))
                if p in "zc":
                    add("zlanhe", "lanhe", P("zlanhe_aux"), dict(norm=nm, uplo=u))
                for d in ("NonUnit", "Unit"):
                    add("zlantr", "lantr", P("zlantr_aux"), dict(norm=nm, uplo=u, diag=d))
        am = {"z": "dzamax", "c": "scamax"}.get(p, p + "amax")
        for cr in ("Columnwise", "Rowwise"):
            add(None, "amax", "plasma_core_omp_" + am, dict(norm=cr), "core_blas/core_%s.c" % am)
        K = lambda z: "plasma_core_" + (z if p == "z" else p + z[1:])
        add("zgessq", "gessq", K("zgessq"), {})
        for u in ("Lower", "Upper"):
            for d in ("NonUnit", "Unit"):
                add("ztrssq", "trssq", K("ztrssq"), dict(uplo=u, diag=d))
    return out
