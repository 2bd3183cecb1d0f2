"""C12: extents.  Every kernel of the QR and LQ families stays inside the arrays its contract names (every call of a BLAS or LAPACK
routine and every element access of the body, for an arbitrary iteration of every loop); every task wrapper hands out disjoint pieces of
its thread's scratch space that are large enough; every call in a tile algorithm needs no more than a tile, a block of reflector factors
and nb+ib*nb (ib*nb) elements of scratch; every driver allots that much."""
import z3
from tcv.cfront import OutOfReach, ALL_Z_NAMES
from tcv.symex import Machine, Ptr, Tile, Ref, Struct, S, I, to_int, to_scalar, ufun, lit, Opaque, cdiv, UNDEF
from tcv.tile import NB, TileMachine, split_pite, split_options
from specs import qr, worksize
from tcv.vc import Ob, Theory
from tcv.runner import discharge, consistent
from tcv import symex

ZI = z3.IntVal
zmin = lambda a, b: z3.If(a < b, a, b)
LEFT, RIGHT = "PlasmaLeft", "PlasmaRight"


class R:
    """an array: rows x cols with a leading dimension, or a vector of n elements"""
    def __init__(self, rows=None, cols=None, ld=None, n=None):
        self.rows, self.cols, self.ld, self.n = rows, cols, ld, n


# ---------------------------------------------------------------------------- contracts of the kernels
class K:
    """parameters (in order), requirements on them, arrays; scratch: what the wrapper needs of the space of a thread"""
    def __init__(self, params, req, arrays, cases=({},)):
        self.params, self.req, self.arrays, self.cases = params.split(), req, arrays, cases


def mat(r, c, ld):
    return R(r, c, ld)


def vec(n):
    return R(n=n)


def side_cases(prec):
    tr = "PlasmaTrans" if prec in "sd" else "PlasmaConjTrans"
    return [dict(side=s, trans=t) for s in (LEFT, RIGHT) for t in ("PlasmaNoTrans", tr)]


def kernels(prec, en):
    L = lambda a: a["side"] == en[LEFT]          # sides are concrete
    tr = "PlasmaTrans" if prec in "sd" else "PlasmaConjTrans"
    sides = side_cases(prec)
    col = lambda a: a["storev"] == en["PlasmaColumnwise"]
    out = {}
    pos = lambda a, *x: [a[y] >= 0 for y in x.split()] if x else []

    out["zgeqrt"] = K("m n ib A lda T ldt tau work", lambda a: [a["ib"] >= 0],
                      lambda a: dict(A=mat(a["m"], a["n"], a["lda"]), T=mat(a["ib"], zmin(a["m"], a["n"]), a["ldt"]), tau=vec(a["n"]), work=vec(a["ib"] * a["n"])))
    out["zgelqt"] = K("m n ib A lda T ldt tau work", lambda a: [a["ib"] >= 0],
                      lambda a: dict(A=mat(a["m"], a["n"], a["lda"]), T=mat(a["ib"], zmin(a["m"], a["n"]), a["ldt"]), tau=vec(a["m"]), work=vec(a["ib"] * a["m"])))
    for z, x in (("ztsqrt", "n"), ("zttqrt", "n"), ("ztslqt", "m"), ("zttlqt", "m")):
        out[z] = K("m n ib A1 lda1 A2 lda2 T ldt tau work", lambda a, x=x: [a["ib"] >= 1, a["m"] >= 0, a["n"] >= 0, a["lda1"] >= a[x]],
                   lambda a, x=x: dict(A1=mat(a[x], a[x], a["lda1"]), A2=mat(a["m"], a["n"], a["lda2"]), T=mat(a["ib"], a[x], a["ldt"]),
                                       tau=vec(a[x]), work=vec(a["ib"] * a[x])))
    for z, lq in (("zunmqr", False), ("zunmlq", True)):
        q = lambda a: a["m"] if L(a) else a["n"]
        out[z] = K("side trans m n k ib A lda T ldt C ldc work ldwork", lambda a: [a["ib"] >= 1, a["ldwork"] >= (a["n"] if L(a) else a["m"])],
                   lambda a, lq=lq: dict(A=mat(a["k"], q(a), a["lda"]) if lq else mat(q(a), a["k"], a["lda"]), T=mat(a["ib"], a["k"], a["ldt"]),
                                         C=mat(a["m"], a["n"], a["ldc"]), work=mat(a["n"] if L(a) else a["m"], a["ib"], a["ldwork"])), sides)
    for z, lq in (("ztsmqr", False), ("zttmqr", False), ("ztsmlq", True), ("zttmlq", True)):
        def req(a):
            return [a["ib"] >= 1, a["ldwork"] >= (a["ib"] if L(a) else a["m1"])]

        def arrays(a, lq=lq):
            q = a["m2"] if L(a) else a["n2"]
            return dict(A1=mat(a["m1"], a["n1"], a["lda1"]), A2=mat(a["m2"], a["n2"], a["lda2"]), V=mat(a["k"], q, a["ldv"]) if lq else mat(q, a["k"], a["ldv"]),
                        T=mat(a["ib"], a["k"], a["ldt"]), work=mat(a["ib"], a["n1"], a["ldwork"]) if L(a) else mat(a["m1"], a["ib"], a["ldwork"]))
        out[z] = K("side trans m1 n1 m2 n2 k ib A1 lda1 A2 lda2 V ldv T ldt work ldwork", req, arrays, sides)

    def parfb(a):
        q = a["m2"] if L(a) else a["n2"]
        k = a["k"]
        return dict(A1=mat(k, a["n1"], a["lda1"]) if L(a) else mat(a["m1"], k, a["lda1"]), A2=mat(a["m2"], a["n2"], a["lda2"]),
                    V=mat(q, k, a["ldv"]) if col(a) else mat(k, q, a["ldv"]), T=mat(k, k, a["ldt"]),
                    work=mat(k, a["n1"], a["ldwork"]) if L(a) else mat(a["m1"], k, a["ldwork"]))
    SV = [dict(c, storev=s, direct="PlasmaForward") for c in sides for s in ("PlasmaColumnwise", "PlasmaRowwise")]
    q2 = lambda a: a["m2"] if L(a) else a["n2"]
    out["zparfb"] = K("side trans direct storev m1 n1 m2 n2 k l A1 lda1 A2 lda2 V ldv T ldt work ldwork",
                      lambda a: [0 <= a["l"], a["l"] <= a["k"], a["l"] <= q2(a), a["ldwork"] >= (a["k"] if L(a) else a["m1"]), a["ldt"] >= a["k"],
                                 a["lda1"] >= (a["k"] if L(a) else a["m1"]), a["lda2"] >= a["m2"], a["ldv"] >= (q2(a) if col(a) else a["k"])],
                      parfb, SV)

    def pamm(a):
        W = a["op"] == en["PlasmaW"]
        m, n, k = a["m"], a["n"], a["k"]
        if W:
            d = dict(A1=mat(m, n, a["lda1"]), W=mat(m, n, a["ldw"]), A2=mat(k, n, a["lda2"]) if L(a) else mat(m, k, a["lda2"]))
            r, c = (k, m) if L(a) else (k, n)
        else:
            d = dict(A1=mat(ZI(0), ZI(0), a["lda1"]), A2=mat(m, n, a["lda2"]), W=mat(k, n, a["ldw"]) if L(a) else mat(m, k, a["ldw"]))
            r, c = (m, k) if L(a) else (n, k)
        d["V"] = mat(r, c, a["ldv"]) if col(a) else mat(c, r, a["ldv"])
        return d

    def pamm_req(a):
        d = pamm(a)
        v = d["V"]
        return [0 <= a["l"], a["l"] <= v.rows, a["l"] <= v.cols] + [x.ld >= x.rows for x in d.values()]
    out["zpamm"] = K("op side storev m n k l A1 lda1 A2 lda2 V ldv W ldw", pamm_req, pamm,
                     [dict(op=o, side=s, storev=v) for o in ("PlasmaW", "PlasmaA2") for s in (LEFT, RIGHT) for v in ("PlasmaColumnwise", "PlasmaRowwise")])
    out["zpemv"] = K("trans storev m n l alpha A lda X incx beta Y incy work", lambda a: [0 <= a["l"], a["lda"] >= a["m"], a["incx"] >= 1, a["incy"] >= 1],
                     lambda a: dict(A=mat(a["m"], a["n"], a["lda"]), X=R(ZI(1), a["m"] if col(a) else a["n"], a["incx"]),
                                    Y=R(ZI(1), a["n"] if col(a) else a["m"], a["incy"]), work=vec(a["l"])),
                     [dict(trans=tr, storev="PlasmaColumnwise"), dict(trans="PlasmaNoTrans", storev="PlasmaRowwise")])
    return out


def accept(z, k, a, en):
    """documented requirements under which a kernel does its work (it returns an error code and does nothing otherwise)"""
    mx = lambda x: z3.If(x > 1, x, ZI(1))
    out = [a[d] >= 0 for d in k.params if d in ("m", "n", "k", "m1", "n1", "m2", "n2")] + [a["ib"] >= 1] if "ib" in a else []
    if z not in WRAPPED:
        return []
    for p, r in k.arrays(a).items():
        if r.ld is not None:
            out.append(r.ld >= mx(r.rows))
    if z in ("ztsqrt", "zttqrt"):
        out.append(a["lda1"] >= mx(a["m"]))
    if "side" in a:
        left = a["side"] == en[LEFT]
        if "m1" in a:
            out += [a["k"] <= (a["m1"] if left else a["n1"])] + [a["n1"] == a["n2"] if left else a["m1"] == a["m2"]]
            if not left and z.endswith("lq"):
                out.append(a["ldwork"] >= mx(a["n1"]))
        else:
            out.append(a["k"] <= (a["m"] if left else a["n"]))
    return out


SCALARS = ("alpha", "beta")
WRAPPED = ["zgeqrt", "zgelqt", "ztsqrt", "ztslqt", "zttqrt", "zttlqt", "zunmqr", "zunmlq", "ztsmqr", "ztsmlq", "zttmqr", "zttmlq"]


ALL_Z_NAMES += ["plasma_core_" + z for z in WRAPPED + ["zparfb", "zpamm", "zpemv"]] + ["plasma_core_omp_" + z for z in WRAPPED]


def space(z, a, en):
    """elements of a thread's space that a task of this kernel uses"""
    if z in ("zgeqrt", "ztsqrt", "zttqrt"):
        return a["n"] + a["ib"] * a["n"]
    if z in ("zgelqt", "ztslqt", "zttlqt"):
        return a["m"] + a["ib"] * a["m"]
    left = a["side"] == en[LEFT]
    if z in ("zunmqr", "zunmlq"):
        return (a["n"] if left else a["m"]) * a["ib"]
    if left:
        return a["ib"] * a["n1"]
    return (a["m1"] if z.endswith("qr") else a["n1"]) * a["ib"]


def wrap_req(z, a, en):
    """what a task needs of its arguments besides the kernel's own checks"""
    if z in ("ztsmlq", "zttmlq") and a["side"] == en[RIGHT]:
        return [a["m1"] <= a["n1"]]        # the scratch is laid out with n1 rows
    return []


# ---------------------------------------------------------------------------- contracts of BLAS and LAPACK
def v_(p, n, inc):
    return (p, R(n=n)) if z3.is_int_value(inc) and inc.as_long() == 1 else (p, R(ZI(1), n, inc))


def library(name, a, en):
    """[(pointer, array)] of a call, [(what, condition)] it requires"""
    base = name[7:] if name.startswith("cblas_") else name[9:].replace("_work", "")
    i = lambda k: to_int(a[k])
    if base == "copy":
        return [v_(a[1], i(0), i(2)), v_(a[3], i(0), i(4))], []
    if base == "axpy":
        return [v_(a[2], i(0), i(3)), v_(a[4], i(0), i(5))], []
    if base == "scal":
        return [v_(a[2], i(0), i(3))], []
    if base == "gemv":
        no = i(1) == en["PlasmaNoTrans"]
        return [(a[5], R(i(2), i(3), i(6))), v_(a[7], z3.If(no, i(3), i(2)), i(8)), v_(a[10], z3.If(no, i(2), i(3)), i(11))], []
    if base in ("gerc", "geru", "ger"):
        return [v_(a[4], i(1), i(5)), v_(a[6], i(2), i(7)), (a[8], R(i(1), i(2), i(9)))], []
    if base == "trmv":
        return [(a[5], R(i(4), i(4), i(6))), v_(a[7], i(4), i(8))], []
    if base == "trmm":
        q = z3.If(i(1) == en[LEFT], i(5), i(6))
        return [(a[8], R(q, q, i(9))), (a[10], R(i(5), i(6), i(11)))], []
    if base == "gemm":
        na, nb_ = i(1) == en["PlasmaNoTrans"], i(2) == en["PlasmaNoTrans"]
        m, n, k = i(3), i(4), i(5)
        return [(a[7], R(z3.If(na, m, k), z3.If(na, k, m), i(8))), (a[9], R(z3.If(nb_, k, n), z3.If(nb_, n, k), i(10))), (a[12], R(m, n, i(13)))], []
    if base == "lacgv":
        return [v_(a[1], i(0), i(2))], []
    if base == "larfg":
        return [(a[1], R(n=ZI(1))), v_(a[2], i(0) - 1, i(3)), (a[4], R(n=ZI(1)))], []
    if base == "lacpy":
        return [(a[4], R(i(2), i(3), i(5))), (a[6], R(i(2), i(3), i(7)))], []
    if base in ("geqr2", "gelq2"):
        return [(a[3], R(i(1), i(2), i(4))), (a[5], R(n=zmin(i(1), i(2)))), (a[6], R(n=i(2) if base == "geqr2" else i(1)))], []
    if base == "larft":
        n, k = i(3), i(4)
        c = colwise(a[2], en)
        return [(a[5], R(n, k, i(6)) if c else R(k, n, i(6))), (a[7], R(n=k)), (a[8], R(k, k, i(9)))], []
    if base == "larfb":
        m, n, k = i(5), i(6), i(7)
        left = letter(a[1]) == en[LEFT]
        q = m if left else n
        return [(a[8], R(q, k, i(9)) if colwise(a[4], en) else R(k, q, i(9))), (a[10], R(k, k, i(11))), (a[12], R(m, n, i(13))),
                (a[14], R(n if left else m, k, i(15)))], []
    return None


def letter(x):
    x = z3.simplify(to_int(x))
    if z3.is_app(x) and x.decl().name() == "lapack_letter" and z3.is_int_value(x.children()[0]):
        return x.children()[0].as_long()
    raise OutOfReach("option of a LAPACK call %s" % x)


def colwise(x, en):
    return letter(x) == en["PlasmaColumnwise"]


LET = z3.Function("lapack_letter", I, I)


# ---------------------------------------------------------------------------- engine
class FootMachine(Machine):
    def __init__(self, srcs, tu, prec, names):
        Machine.__init__(self, tu, {})
        self.srcs, self.prec, self.en, self.names = srcs, prec, tu.enum_names, names
        self.load_hook, self.store_hook = self.on_load, self.on_store
        self.reads = []
        ks = kernels(prec, self.en)
        self.kern = {}
        for z, k in ks.items():
            self.kern[names.get("plasma_core_" + z, "plasma_core_" + z)] = (z, k)
        zero = lambda m, a, n, st: ZI(0)
        for k in ("plasma_coreblas_error", "plasma_coreblas_error_func_line_file", "coreblas_error_func_line_file", "plasma_error_func_line_file", "plasma_request_fail"):
            self.contracts[k] = zero
        self.contracts["lapack_const"] = self.contracts["plasma_lapack_const"] = lambda m, a, n, st: LET(to_int(a[0]))
        self.contracts["imin"] = lambda m, a, n, st: zmin(to_int(a[0]), to_int(a[1]))
        self.contracts["imax"] = lambda m, a, n, st: z3.If(to_int(a[0]) > to_int(a[1]), to_int(a[0]), to_int(a[1]))
        self.contracts["omp_get_thread_num"] = lambda m, a, n, st: z3.Int("tid")
        self.obs, self.dry_keep = [], 0
        self.regions = {}
        self.foot = []

    def check_monotone(self, *a):
        pass

    def s_DeclStmt(self, n, st):
        for d in n.kids:       # constants kept in static variables
            if d.j.get("storageClass") == "static":
                d.j = {k: v for k, v in d.j.items() if k != "storageClass"}
        return Machine.s_DeclStmt(self, n, st)

    def on_load(self, p, name, node, st):
        if name == "status":
            return ZI(self.en["PlasmaSuccess"])
        if isinstance(p, Ptr) and p.obj == "spaces" and name is None:
            return Ptr("space", ZI(0))
        if isinstance(p, Ptr) and isinstance(p.obj, str) and name is None:
            self.touch("load", [(p, R(n=ZI(1)))], [], st, node)
            return z3.Function("elt:" + p.obj, I, S)(z3.simplify(p.off, som=True))
        return None

    def on_store(self, a, v, st, node):
        if isinstance(a, Ptr) and isinstance(a.obj, str):
            self.touch("store", [(a, R(n=ZI(1)))], [], st, node)
            return True
        return False

    def opaque_field(self, s, name, node, st):
        return ZI(self.en["PlasmaSuccess"]) if name == "status" else Machine.opaque_field(self, s, name, node, st)

    def e_CallExpr(self, n, st):
        name = self.callee_name(n)
        if name in self.kern and name != self.me:
            z, k = self.kern[name]
            args = [self.expr(x, st) for x in n.kids[1:]]
            self.kernel_call(z, k, args, st, n)
            return z3.Int("result") if False else symex.fresh("info")
        if name and (name.startswith("cblas_") or name.startswith("LAPACKE_")):
            args = [self.expr(x, st) for x in n.kids[1:]]
            got = library(name, args, self.en)
            if got is None:
                raise OutOfReach("no contract for %s" % name)
            self.touch(name, got[0], got[1], st, n)
            return ZI(0)
        return Machine.e_CallExpr(self, n, st)

    def callee_name(self, n):
        f = n.kids[0]
        while f.kind in ("ImplicitCastExpr", "ParenExpr"):
            f = f.kids[0]
        d = getattr(f, "ref", None)
        try:
            return self.callee(n)
        except Exception:
            return None

    def bind(self, z, k, args):
        a = {}
        for p, v in zip(k.params, args):
            if p in SCALARS:
                continue
            a[p] = v if isinstance(v, (Ptr, Ref)) else z3.simplify(to_int(v), som=True)
        for o in ("side", "storev", "op", "direct"):
            if o in a:
                if not z3.is_int_value(a[o]):
                    raise OutOfReach("%s of %s" % (o, z))
                a[o] = a[o].as_long()
        return a

    def kernel_call(self, z, k, args, st, n):
        a = self.bind(z, k, args)
        want = [(a[p], r) for p, r in k.arrays(a).items()]
        self.touch("core_" + z, want, [("requires", c) for c in k.req(a) + accept(z, k, a, self.en)], st, n, k.arrays(a))

    def touch(self, name, arrays, req, st, node, by=None):
        e = self.emit(name, [], st, node)
        if e is not None:
            self.foot.append((e, arrays, req))


def inside(off, r, reg):
    """[(hypotheses, goal)]: array r at the offset lies in the region"""
    off = z3.simplify(off, som=True)
    one = lambda x: x is not None and z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 1
    if r.n is None and one(r.rows) and one(r.ld):
        r = R(n=r.cols)
    if r.n is not None:
        rows, cols, ld = r.n, ZI(1), None
    else:
        rows, cols, ld = r.rows, r.cols, r.ld
    ne = z3.And(rows >= 1, cols >= 1)
    if reg.n is not None:
        span = rows if ld is None else (cols - 1) * ld + rows
        return [ne], z3.And(off >= 0, z3.simplify(off + span, som=True) <= reg.n)
    L = reg.ld
    c = z3.Int("leading!")
    o = z3.simplify(z3.substitute(off, (L, c)), som=True) if not z3.is_int_value(L) else None
    if o is None:
        raise OutOfReach("leading dimension")
    q0, q1, q2 = (z3.simplify(z3.substitute(o, (c, ZI(k))), som=True) for k in (0, 1, 2))
    q = z3.simplify(q1 - q0, som=True)
    if not z3.is_int_value(z3.simplify(q2 - q1 - q, som=True)) or z3.simplify(q2 - q1 - q, som=True).as_long() != 0:
        raise OutOfReach("address")
    p = q0
    if ld is None or z3.simplify(ld - L, som=True).eq(ZI(0)):
        return [ne], z3.And(p >= 0, q >= 0, p + rows <= reg.rows, q + cols <= reg.cols)
    # another leading dimension: only a single column can be meant
    return [ne], z3.And(p >= 0, q >= 0, p + rows <= reg.rows, q + cols <= reg.cols, cols == 1)


def products(fs):
    """facts about the products of integers in the formulas: sign and monotonicity in each factor (each fact is valid)"""
    muls, seen = {}, set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        keep.append(t)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_MUL:
                fac, num = [], 1
                for x in t.children():
                    if z3.is_int_value(x):
                        num *= x.as_long()
                    else:
                        fac.append(x)
                if len(fac) >= 2:
                    muls[t.get_id()] = fac
            for x in t.children():
                go(x)
    keep = []
    for f in fs:
        go(z3.simplify(f, som=True))
    out = []
    l = [f for f in muls.values() if len(f) == 2][:24]
    one = lambda f: f[0] * f[1]
    for f in l:
        out += [z3.Implies(z3.And(f[0] >= 0, f[1] >= 0), one(f) >= 0), z3.Implies(z3.And(f[0] >= 1, f[1] >= 0), one(f) >= f[1]),
                z3.Implies(z3.And(f[1] >= 1, f[0] >= 0), one(f) >= f[0])]
        for g in l:
            if g is f:
                continue
            for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
                x, y = f[a], g[b]
                u, v = f[1 - a], g[1 - b]
                out.append(z3.Implies(z3.And(x >= 0, y >= x, u >= 0, v >= u), one(g) >= one(f)))
    return out


def obligations(label, mach, regions, hyps):
    obs = []
    for e, arrays, req in mach.foot:
        base = hyps + [e.cond()] + [f for l in e.loops for f in l.facts] + list(mach.assume)
        for what, c in req:
            if c is True:
                continue
            h = base
            obs.append(Ob("%s:%s[%s@%d]" % (label, what, e.name, e.line()), h, c, e.where(), dict(kind="requires")))
        for k, (p, r) in enumerate(arrays):
            if isinstance(p, Ref):
                continue
            alts = alternatives(p)
            for g, q in alts:
                if q.obj not in regions:
                    raise OutOfReach("array %s" % q.obj)
                for gi, off in ites(q.off):
                    if not possible(base + [g, gi]):
                        continue
                    h, goal = inside(off, r, regions[q.obj])
                    obs.append(Ob("%s:inside[%s.%d@%d:%s]" % (label, e.name, k, e.line(), q.obj), base + h + [g, gi], goal, e.where(),
                                  dict(kind="inside", hint="%s is accessed outside of its extent" % q.obj)))
                if not e.name.startswith("core_") and r.rows is not None and r.ld is not None and not (z3.is_int_value(z3.simplify(r.rows)) and z3.simplify(r.rows).as_long() == 1):
                    obs.append(Ob("%s:leading[%s.%d@%d:%s]" % (label, e.name, k, e.line(), q.obj), base + h + [g], r.ld >= r.rows, e.where(), dict(kind="leading")))
    return obs


def ites(t):
    """[(condition, term without conditionals)]"""
    todo, out = [([], z3.simplify(t, som=True))], []
    while todo:
        c, t = todo.pop()
        x = first_ite(t)
        if x is None:
            out.append((z3.And(*c) if c else z3.BoolVal(True), t))
            continue
        if len(out) + len(todo) > 24:
            raise OutOfReach("address with too many cases")
        g = x.children()[0]
        for b, v in ((g, x.children()[1]), (z3.Not(g), x.children()[2])):
            todo.append((c + [b], z3.simplify(z3.substitute(t, (x, v)), som=True)))
    return out


def first_ite(t):
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE and first_ite_in(t.children()[0]) is None:
            return t
        todo += t.children()
    return None


def first_ite_in(t):
    return first_ite(t)


def alternatives(p):
    if isinstance(p, symex.PIte):
        return [(z3.And(p.c, g), q) for g, q in alternatives(p.a)] + [(z3.And(z3.Not(p.c), g), q) for g, q in alternatives(p.b)]
    if not isinstance(p, Ptr) or not isinstance(p.obj, str):
        raise OutOfReach("pointer %r" % (p,))
    return [(z3.BoolVal(True), p)]


def possible(fs):
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(*fs)
    return s.check() != z3.unsat


def with_products(obs):
    for o in obs:
        fs = list(o.hyps) + [o.goal]
        if any("*" in f.sexpr() for f in fs):
            o.hyps = list(o.hyps) + products(fs)
    return obs


def arguments(k, case, en, prec):
    """symbolic arguments of a kernel in one case of its options"""
    vals, env = [], {}
    arrays = None
    for p in k.params:
        if p in case:
            v = ZI(en[case[p]])
            env[p] = en[case[p]]
        elif p in SCALARS:
            v = z3.Const(p, S)
        elif p[0].isupper() or p in ("tau", "work"):
            v = Ptr(p, ZI(0))
        else:
            v = z3.Int(p)
        env.setdefault(p, v)
        vals.append(v)
    return vals, env


def kernel_job(ctx, prec, z, case, names):
    def job(res):
        fn = names.get("plasma_core_" + z, "plasma_core_" + z)
        rel = "core_blas/%s.c" % fn[len("plasma_"):]
        tu = ctx.srcs.tu(rel)
        res.functions = [fn]
        mach = FootMachine(ctx.srcs, tu, prec, names)
        mach.me = fn
        k = kernels(prec, mach.en)[z]
        vals, env = arguments(k, case, mach.en, prec)
        ret = mach.run(fn, vals)
        hyps = k.req(env)
        regions = k.arrays(env)
        obs = obligations(fn, mach, regions, hyps)
        if z in WRAPPED:
            obs.append(Ob("%s:accepted" % fn, hyps + accept(z, k, env, mach.en), to_int(ret) >= 0, "", dict(kind="accept", hint="a call that meets the documented requirements is rejected")))
        if not mach.foot:
            raise OutOfReach("no access")
        th = Theory()
        if not consistent(hyps + [mach.foot[-1][0].cond()], th):
            res.obs.append(("%s:vacuous" % fn, "vacuous", 0.0, "", None, ""))
        discharge(res, with_products(obs), th)
        res.functions = [fn] + sorted(mach.inlined)
    return job


def wrapper_job(ctx, prec, z, case, names):
    def job(res):
        core = names.get("plasma_core_" + z, "plasma_core_" + z)
        fn = core.replace("plasma_core_", "plasma_core_omp_")
        rel = "core_blas/%s.c" % core[len("plasma_"):]
        tu = ctx.srcs.tu(rel)
        res.functions = [fn]
        mach = FootMachine(ctx.srcs, tu, prec, names)
        mach.me = fn
        k = kernels(prec, mach.en)[z]
        vals, env = arguments(k, case, mach.en, prec)
        args = []
        for p, v in zip(k.params, vals):
            if p in ("tau", "work", "ldwork"):
                continue
            args.append(v)
        args += [Struct("plasma_workspace_t", dict(spaces=Ptr("spaces", ZI(0)), nthread=z3.Int("nthread"), lworkspace=z3.Int("lworkspace"))), Opaque("sequence"), Opaque("request")]
        mach.run(fn, args)
        dims = [p for p in k.params if p in ("m", "n", "k", "m1", "n1", "m2", "n2")]
        BIG = z3.Int("any leading dimension of the scratch")
        hyps = [env[d] >= 1 for d in dims] + [env["ib"] >= 1] + wrap_req(z, env, mach.en) + [c for c in accept(z, k, dict(env, ldwork=BIG), mach.en)]
        env2 = dict(env, ldwork=ZI(0))
        regions = {n: r for n, r in k.arrays(env2).items() if n not in ("tau", "work")}
        regions["space"] = R(n=space(z, env, mach.en))
        calls = [f for f in mach.foot if f[0].name == "core_" + z]
        if len(calls) != 1:
            res.obs.append(("%s:one call" % fn, "refuted", 0.0, "", dict(kind="call"), ""))
        obs = obligations(fn, mach, regions, hyps)
        # the pieces of the space do not overlap
        for e, arrays, req in calls:
            mine = [(p, r) for p, r in arrays if isinstance(p, Ptr) and p.obj == "space"]
            ln = lambda r: r.n if r.n is not None else (r.cols - 1) * r.ld + r.rows
            for i, (p, r) in enumerate(mine):
                for q, s in mine[:i]:
                    obs.append(Ob("%s:disjoint[%d]" % (fn, e.line()), hyps + [e.cond(), ln(r) >= 1, ln(s) >= 1],
                                  z3.Or(p.off + ln(r) <= q.off, q.off + ln(s) <= p.off), e.where(), dict(kind="disjoint")))
        th = Theory()
        discharge(res, with_products(obs), th)
    return job


# ---------------------------------------------------------------------------- calls in the tile algorithms
IB = qr.IB
FACTOR = {"pzgeqrf", "pzgelqf", "pzgeqrf_tree", "pzgelqf_tree"}


def pz_space(rt):
    """elements of scratch per thread that a tile algorithm needs"""
    return NB + IB * NB if rt in FACTOR else IB * NB


class CallMachine(qr.TreeMachine):
    def __init__(self, *a, **kw):
        qr.TreeMachine.__init__(self, *a, **kw)
        self.calls = []

    def add_effects(self, e, g, z, params, meth, a):
        self.calls.append((e, g, z, a))


def call_job(srcs, rt, p, fn, rel, name, b):
    def job(res):
        tu = srcs.tu(rel)
        c = qr.Cx(tu.enum_names, p)
        args, spec = b(c)
        mach = CallMachine(srcs, tu, p, c.mats, c.th)
        mach.run(fn, args)
        ks = kernels(p, tu.enum_names)
        obs = []
        cap = pz_space(rt)
        for e, g, z, a in mach.calls:
            if z not in ks or z not in WRAPPED:
                raise OutOfReach("kernel %s in a QR algorithm" % z)
            k = ks[z]
            env, i = {}, 0
            for q in k.params:
                if q in ("tau", "work", "ldwork"):
                    continue
                v = a[i]
                i += 1
                env[q] = v if isinstance(v, Ptr) else z3.simplify(to_int(v), som=True)
            for o in ("side",):
                if o in env:
                    env[o] = env[o].as_long()
            dims = [q for q in k.params if q in ("m", "n", "k", "m1", "n1", "m2", "n2")]
            H = c.hyps + list(mach.assume) + [e.cond(), g] + [f for l in e.loops for f in l.facts]
            tag = lambda w: "%s:%s[%s@%d]" % (fn, w, z, e.line())
            add = lambda w, goal, hint, h=[]: obs.append(Ob(tag(w), H + h, goal, e.where(), dict(kind="scratch", hint=hint)))
            add("scratch", space(z, env, tu.enum_names) <= cap, "the kernel uses more scratch space than a thread has")
            add("dims", z3.And(*[env[d] >= 1 for d in dims] + [env["ib"] >= 1] + wrap_req(z, env, tu.enum_names) + [x for x in accept(z, k, dict(env, ldwork=z3.Int("ldw!")), tu.enum_names) if "ldw!" not in x.sexpr()]), "requirements of the kernel")
            for q, r in k.arrays(dict(env, ldwork=ZI(0))).items():
                if q in ("tau", "work"):
                    continue
                ptr = env[q]
                if not (isinstance(ptr, Ptr) and isinstance(ptr.obj, Tile)):
                    raise OutOfReach("operand %s of %s" % (q, z))
                M = mach.mats[ptr.obj.mat]
                isT = isinstance(M, qr.MatT)
                rows, cols = (IB, NB) if isT else (M.M(ptr.obj.i), M.N(ptr.obj.j))
                add(q, z3.And(r.rows <= rows, r.cols <= cols, r.ld == rows), "%s reaches beyond its tile" % q, [r.rows >= 1, r.cols >= 1])
        if not mach.calls:
            raise OutOfReach("no kernel call")
        for f in spec:
            if not consistent(c.hyps + mach.assume + [f.dom], c.th):
                res.obs.append(("%s:vacuous[%s]" % (fn, f.name), "vacuous", 0.0, "", None, ""))
        discharge(res, with_products(obs), c.th)
        res.functions = [fn] + sorted(mach.inlined)
    return job


def call_jobs(ctx):
    from tcv import tilecheck
    tilecheck.register(qr.C08)
    tilecheck.register(qr.TREE)
    out = []
    srcs = ctx.srcs
    for table in (qr.C08, qr.TREE):
        for rt, gen in table.items():
            for p in ctx.precs:
                if p != "z":
                    srcs.generate_all()
                fn = srcs.names(p).get("plasma_" + rt, "plasma_" + rt)
                rel = "compute/%s.c" % fn[len("plasma_"):]
                for label, b in gen(p):
                    name = "%s[%s]" % (fn, label)
                    out.append((name, call_job(srcs, rt, p, fn, rel, name, b)))
    return out


def kernel_jobs(ctx):
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        names = ctx.srcs.names(p)
        ks = kernels(p, EN(ctx))
        for z, k in ks.items():
            for case in k.cases:
                lab = ",".join(v[6:] for v in case.values())
                fn = names.get("plasma_core_" + z, "plasma_core_" + z)
                out.append(("%s[%s]" % (fn, lab), kernel_job(ctx, p, z, case, names)))
                if z in WRAPPED:
                    out.append(("%s[%s]" % (names["plasma_core_omp_" + z], lab), wrapper_job(ctx, p, z, case, names)))
    return out


def EN(ctx):
    return ctx.srcs.tu("core_blas/core_zgeqrt.c").enum_names


# ---------------------------------------------------------------------------- what the drivers allot
DRIVERS = {"zgeqrf": True, "zgelqf": True, "zgels": True, "zgeqrs": False, "zgelqs": False,
           "zunmqr": False, "zunmlq": False, "zungqr": False, "zunglq": False}       # does a factorization run in its scratch space?


def driver_job(srcs, prec, rel, sn, on, z, names):
    from tcv import apicheck as AC
    factor = DRIVERS[z]

    def run(r):
        fn = AC.Fn(srcs, rel, names[sn], r, names=names, extra=worksize.OPAQUE)
        en = fn.en
        want = en[{"z": "PlasmaComplexDouble", "d": "PlasmaRealDouble", "c": "PlasmaComplexFloat", "s": "PlasmaRealFloat"}[prec]]
        seen = 0
        for k, p in enumerate(fn.paths):
            ver = 0
            for e in p.events:
                if e.name == "tune":
                    ver += 1
                if e.name != names[on]:
                    continue
                w = [a for a in e.args if isinstance(a, Struct) and "lworkspace" in a.f]
                ds = [a for a in e.args if isinstance(a, Struct) and "lworkspace" not in a.f]
                if len(w) != 1 or len(ds) < 2 or "nb" not in ds[0].f or factor and "mb" not in ds[1].f:
                    raise OutOfReach("arguments of %s" % e.name)
                seen += 1
                ctx_ = "plasma@%d" % ver if ver else "plasma"
                ib, mode = z3.Int(ctx_ + ".ib"), z3.Int(ctx_ + ".householder_mode")
                A, T = ds[0], ds[1]
                nb = to_int(A.f["nb"])
                P = AC.Prover(p.pc + [ib >= 1], p.facts)
                P.model = None
                where = "%s:%s" % (fn.tu.rel, e.line)
                lw = z3.simplify(to_int(w[0].f["lworkspace"]), som=True)
                need = nb + ib * nb if factor else ib * nb
                fn.check(P, "scratch-space#%d" % k, lw >= z3.simplify(need, som=True), where, "scratch", "the threads' scratch space is too small")
                fn.check(P, "scratch-type#%d" % k, to_int(w[0].f["dtyp"]) == want, where, "scratch", "the scratch space has elements of another type")
                if factor:
                    F = lambda d, x: to_int(d.f[x])
                    fn.check(P, "T-tiles#%d" % k, z3.And(F(T, "mb") == ib, F(T, "nb") == nb, F(T, "precision") == want), where, "scratch", "T's tiles have the wrong shape")
                    fn.check(P, "T-count#%d" % k, z3.And(F(T, "m") == F(A, "mt") * ib, F(T, "n") == z3.If(mode == en["PlasmaTreeHouseholder"], 2 * F(A, "nt"), F(A, "nt")) * nb),
                             where, "scratch", "T has too few tiles")
        fn.flag("reached", seen > 0, "", "vacuity")
    return run


def omp_job(srcs, prec, rel, on, z, names):
    """the asynchronous function runs no algorithm that needs more than its caller must allot"""
    from tcv import apicheck as AC
    factor = DRIVERS[z]
    pz = {names.get("plasma_" + rt, "plasma_" + rt): rt for t in (qr.C08, qr.TREE) for rt in t}

    def run(r):
        fn = AC.Fn(srcs, rel, names[on], r, names=names)
        seen = set()
        mode = z3.Int("plasma.householder_mode")
        for k, p in enumerate(fn.paths):
            for e in p.events:
                if e.name in pz:
                    rt = pz[e.name]
                    seen.add(rt)
                    fn.flag("space-of-%s#%d" % (rt, k), factor or rt not in FACTOR, str(e.line), "scratch", "%s needs more scratch space than %s requires of its caller" % (e.name, names[on]))
                    P = AC.Prover(p.pc, p.facts)
                    P.model = None
                    tree = mode == fn.en["PlasmaTreeHouseholder"]
                    fn.check(P, "tree-mode-of-%s#%d" % (rt, k), tree if rt.endswith("_tree") else z3.Not(tree), str(e.line), "scratch", "%s is called in the other Householder mode" % e.name)
        fn.flag("reached", len(seen) > 0, "", "vacuity")
    return run


def driver_jobs(ctx):
    from tcv import tilecheck
    from specs import api
    tilecheck.register(qr.C08)
    tilecheck.register(qr.TREE)
    out, srcs = [], ctx.srcs
    for z in DRIVERS:
        zf, sn, on = api.names_of(z[1:])
        mixed, prs = srcs.precisions_of(zf)
        for p in ctx.precs:
            if p not in prs:
                continue
            if p != "z":
                srcs.generate_all()
            nm = srcs.names(p, mixed)
            rel = "compute/%s.c" % nm[sn][len("plasma_"):]
            out.append((nm[sn] + "[scratch]", driver_job(srcs, p, rel, sn, on, z, nm)))
            out.append((nm[on] + "[scratch]", omp_job(srcs, p, rel, on, z, nm)))
    return out


# ---------------------------------------------------------------------------- mixed-precision solvers: scratch of the norms
MIXED = {"zcgesv": ("pzlange", "zlange"), "zcposv": ("pzlanhe", "zlanhe"), "zcgbsv": ("pzlangb", "zlangb")}


def mixed_need(z, A, X, R_):
    """what the asynchronous function requires of (work, Rnorm, Xnorm): the arrays must hold each of these"""
    F = lambda d: (lambda x: to_int(d.f[x]))
    return [worksize.need(MIXED[z][1], "Inf", F(A)), F(X)("mt") * F(X)("n") + F(R_)("mt") * F(R_)("n")], F(R_)("n"), F(X)("n")


def shape(z, A, X, R_):
    F = lambda d, x: to_int(d.f[x])
    out = [F(d, x) >= 1 for d in (A, X, R_) for x in ("m", "n", "mt", "nt", "nb")]
    out += [F(X, "m") == F(R_, "m"), F(X, "n") == F(R_, "n"), F(X, "mt") == F(R_, "mt"), F(A, "m") == F(A, "n") if z != "zcgbsv" else z3.BoolVal(True)]
    if z != "zcgbsv":
        out.append(F(A, "mt") == F(A, "nt"))
    return out


def mixed_driver(srcs, prec, rel, z, names, sn, on):
    from tcv import apicheck as AC

    def run(r):
        fn = AC.Fn(srcs, rel, names[sn], r, names=names, extra=worksize.OPAQUE)
        seen = 0
        for k, p in enumerate(fn.paths):
            for e in p.events:
                if e.name != names[on]:
                    continue
                ds = [a for a in e.args if isinstance(a, Struct) and "mt" in a.f]
                wk = [a for a in e.args if isinstance(a, Ptr) and isinstance(a.obj, symex_maybe())]
                if len(ds) != 6 or len(wk) != 3:
                    raise OutOfReach("arguments of %s" % e.name)
                seen += 1
                A, X, R_ = ds[0], ds[2], ds[5]
                needs, nr, nx = mixed_need(z, A, X, R_)
                for w, req, nm in zip(wk, (needs, [nr], [nx]), ("work", "Rnorm", "Xnorm")):
                    al = [x for x in p.events if x.name == "malloc" and x.args[0] == w.obj.name]
                    if not al or not z3.is_int_value(z3.simplify(w.off)) or z3.simplify(w.off).as_long():
                        raise OutOfReach("origin of %s" % nm)
                    size = al[0].args[1]
                    for i, q in enumerate(req):
                        pos = list(p.pc) + list(p.facts) + shape(z, A, X, R_)
                        worksize.self_check(fn, p, z3.BoolVal(True), pos, worksize.quotient_ge(size, 8, q), "%s-size[%d]#%d" % (nm, i, k), "%s:%s" % (fn.tu.rel, al[0].line))
        fn.flag("reached", seen > 0, "", "vacuity")
    return run


def symex_maybe():
    from tcv.symex import MaybeNull
    return MaybeNull


class PD:
    """fields of a descriptor parameter"""
    def __init__(self, fn, name):
        self.f = PF(name)


class PF(dict):
    def __init__(self, name):
        self.n = name

    def __getitem__(self, x):
        return z3.Int("%s.%s" % (self.n, x))

    def __contains__(self, x):
        return True


def mixed_omp(srcs, prec, rel, z, names, on):
    """every norm the asynchronous function computes stays inside the scratch it was given"""
    from tcv import apicheck as AC
    pn, amax = names.get("plasma_" + MIXED[z][0]), names.get("plasma_pdzamax")

    def run(r):
        fn = AC.Fn(srcs, rel, names[on], r, names=names)
        seen = set()
        for k, p in enumerate(fn.paths):
            for e in p.events:
                if e.name not in (pn, amax):
                    continue
                D = [a for a in e.args if isinstance(a, Struct)][0]
                ptrs = [a for a in e.args if isinstance(a, Ptr)]
                Fd = lambda x: to_int(D.f[x]) if x in D.f else z3.Int("%s.%s" % (D.f["$id"], x))
                P3 = [PD(fn, x) for x in ("A", "X", "R")]
                W, NR, NX = z3.Ints("size_of_work size_of_Rnorm size_of_Xnorm")
                needs, nr, nx = mixed_need(z, *P3)
                pos = list(p.pc) + list(p.facts) + shape(z, *P3) + [W >= x for x in needs] + [NR >= nr, NX >= nx]
                cap = {"work": W, "Rnorm": NR, "Xnorm": NX}
                seen.add(e.name)
                use = [worksize.need(MIXED[z][1], "Inf", Fd)] if e.name == pn else [worksize.need("dzamax", "Columnwise", Fd), Fd("n")]
                for i, q in enumerate(use):
                    w = ptrs[i]
                    nm = str(w.obj).strip("*'")
                    nm = getattr(w.obj, "name", nm).strip("*'")
                    if nm not in cap:
                        raise OutOfReach("array %r of %s" % (w, e.name))
                    worksize.self_check(fn, p, z3.BoolVal(True), pos, z3.And(w.off >= 0, z3.simplify(w.off + q, som=True) <= cap[nm]),
                                        "%s-of-%s#%d" % (nm, e.name[7:], k), "%s:%s" % (fn.tu.rel, e.line))
        fn.flag("reached", seen == {pn, amax}, "", "vacuity")
    return run


def mixed_jobs(ctx):
    from specs import api
    out, srcs = [], ctx.srcs
    for z in MIXED:
        zf, sn, on = api.names_of(z[1:])
        mixed, prs = srcs.precisions_of(zf)
        for p in ctx.precs:
            if p not in prs:
                continue
            if p != "z":
                srcs.generate_all()
            nm = srcs.names(p, mixed)
            rel = "compute/%s.c" % nm[sn][len("plasma_"):]
            out.append((nm[sn] + "[scratch]", mixed_driver(srcs, p, rel, z, nm, sn, on)))
            out.append((nm[on] + "[scratch]", mixed_omp(srcs, p, rel, z, nm, on)))
    return out


ALL_Z_NAMES += ["plasma_" + x for x in ("pzlange", "pzlanhe", "pzlangb", "pdzamax")]


# ---------------------------------------------------------------------------- the scratch space of the threads
ELT = dict(PlasmaRealFloat=4, PlasmaRealDouble=8, PlasmaComplexFloat=8, PlasmaComplexDouble=16)


def workspace_job(ctx):
    """plasma_workspace_create: success means that every thread of a team has a block of lworkspace elements of its own"""
    def run(r):
        from tcv.ctl import CtlMachine
        from specs.storage import prove, b2i
        tu = ctx.srcs.tu("control/workspace.c")
        en = tu.enum_names
        m = CtlMachine(tu, ctx.srcs, ())
        lw, dt = z3.Int("lworkspace"), z3.Int("dtyp")
        fn = "plasma_workspace_create"
        n = 0
        legal = z3.Or(*[dt == en[x] for x in ELT])
        for k, P in enumerate(m.run_ctl(fn, [Ref("ws"), lw, dt], (), lambda: dict(ws=Struct("plasma_workspace_t", {"$id": "ws"})))):
            if P.kind != "return":
                continue
            pc = P.pc + [lw >= 1, legal]
            ok = b2i(P.ret) == en["PlasmaSuccess"]
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*pc, ok)
            if s.check() == z3.unsat:
                continue
            n += 1
            ws = P.state.env["ws"].f
            team = z3.Int("omp_get_num_threads")
            ev = {e.args[0]: e for e in P.events if e.name == "malloc"}
            sp = ws.get("spaces")
            tag = lambda t: "%s.%s#%d" % (fn, t, k)
            good = isinstance(sp, Ptr) and getattr(sp.obj, "name", sp.obj) in ev
            prove(r, tag("array"), pc, z3.Implies(ok, z3.BoolVal(good)), info=dict(kind="scratch"))
            if not good:
                continue
            nth = b2i(ws.get("nthread", ZI(-1)))
            pc = pc + [z3.Int("omp_get_max_threads") >= team]
            asz = ev[getattr(sp.obj, "name", sp.obj)].args[1]
            prove(r, tag("array-size"), pc, z3.Implies(ok, z3.And(asz >= 8 * nth, nth >= team)), info=dict(kind="scratch"))
            prove(r, tag("size-recorded"), pc, z3.Implies(ok, b2i(ws.get("lworkspace", ZI(-1))) == lw), info=dict(kind="scratch"))
            st = [e for e in P.events if e.name == "store" and isinstance(e.args[0], Ptr) and getattr(e.args[0].obj, "name", e.args[0].obj) == getattr(sp.obj, "name", sp.obj)]
            own = [e for e in st if isinstance(e.args[1], Ptr) and getattr(e.args[1].obj, "name", e.args[1].obj) in ev and z3.is_int_value(z3.simplify(e.args[1].off)) and z3.simplify(e.args[1].off).as_long() == 0]
            inside_team = own and len(st) == len(own) == 1 and team_region(P, own[0])
            prove(r, tag("own-block"), pc, z3.Implies(ok, z3.BoolVal(bool(inside_team))), info=dict(kind="scratch"))
            if inside_team:
                e = own[0]
                prove(r, tag("own-index"), pc, z3.Implies(ok, e.args[0].off == z3.Int("omp_get_thread_num")), info=dict(kind="scratch"))
                size = ev[getattr(e.args[1].obj, "name", e.args[1].obj)].args[1]
                for x, b in ELT.items():
                    prove(r, tag("block-size[%s]" % x), pc + [dt == en[x]], z3.Implies(ok, size >= b * lw), info=dict(kind="scratch"))
        prove(r, fn + ".can-succeed", [], z3.BoolVal(n >= 1), info=dict(kind="vacuity"))
        r.functions = [fn]
    return run


def team_region(P, e):
    """is the event executed by every thread of a parallel region (not by the master alone)?"""
    depth = 0
    master = 0
    for x in P.events:
        depth += (x.name == "parallel-begin") - (x.name == "parallel-end")
        master += (x.name in ("master-begin", "task-begin")) - (x.name in ("master-end", "task-end"))
        if x is e:
            return depth >= 1 and master == 0
    return False


def workspace_jobs(ctx):
    return [("plasma_workspace_create", workspace_job(ctx))]
