"""Tile-level contracts: geometry of descriptors, kernel contracts as canonical effects, specification families,
and the obligations that tie the ghost log of a tile algorithm to its specification."""
import re
import z3
from .cfront import OutOfReach, ALL_Z_NAMES
from .symex import (Machine, fresh, Ptr, PIte, Tile, Struct, Opaque, Ref, NULL, S, I, ZERO, ONE, MONE, lit, ufun, subst, UNDEF,
                    before, rename_map, is_scalar, to_scalar, to_int, fresh, POSITIVE, State)
from .vc import Ob, Theory, solve

NB = z3.Int("nb")
POSITIVE.add("nb")
NB2 = z3.Int("nb2")          # the size of the tiles in the other dimension, where a contract covers tiles that are not square
POSITIVE.add("nb2")
BIG = 1 << 30


class Dim:
    """a row or column dimension cut in tiles of nb: length L, nt tiles, V(k) rows in tile k"""
    def __init__(self, name, th, aligned=True, nb=NB):
        self.name, self.nb = name, nb
        NB = nb
        self.L, self.nt = z3.Int("len_" + name), z3.Int("nt_" + name)
        self.V = z3.Function("view_" + name, I, I)
        self.W = z3.Function("main_" + name, I, I)
        th.facts += [NB >= 1, self.nt >= 0, self.L >= 0, (self.nt == 0) == (self.L == 0), self.L >= self.nt,
                     z3.Implies(self.nt == 1, z3.And(self.L <= NB, self.L == self.V(0)))]
        V, W, nt = self.V, self.W, self.nt
        th.add(V, lambda k: [z3.Implies(z3.And(0 <= k, k < nt), z3.And(1 <= V(k), V(k) <= NB)),
                             z3.Implies(z3.And(0 <= k, k < nt - 1), V(k) == NB) if aligned else z3.BoolVal(True)])


class Mat:
    def __init__(self, name, rows, cols, th, tconst, type="General", extra=None, ld_dim=None):
        self.name, self.rows, self.cols, self.type = name, rows, cols, type
        self.M = z3.Function("mmain_" + name, I, I)
        self.N = z3.Function("nmain_" + name, I, I)
        M, N, rd, cd = self.M, self.N, rows, cols
        MB, NB = rows.nb, cols.nb
        if type == "GeneralBand":
            th.add(M, lambda k: [M(k) == NB])
        else:
            th.add(M, lambda k: [z3.Implies(z3.And(0 <= k, k < rd.nt), z3.And(M(k) >= rd.V(k), M(k) <= MB)),
                                 z3.Implies(z3.And(0 <= k, k < rd.nt - 1), M(k) == MB)])
        th.add(N, lambda k: [z3.Implies(z3.And(0 <= k, k < cd.nt), z3.And(N(k) >= cd.V(k), N(k) <= NB)),
                             z3.Implies(z3.And(0 <= k, k < cd.nt - 1), N(k) == NB)])
        f = dict(type=z3.IntVal(tconst), m=rows.L, n=cols.L, mt=rows.nt, nt=cols.nt, mb=MB, nb=NB,
                 i=z3.Int("i_" + name), j=z3.Int("j_" + name), gm=z3.Int("gm_" + name), gn=z3.Int("gn_" + name),
                 gmt=z3.Int("gmt_" + name), gnt=z3.Int("gnt_" + name), uplo=z3.Int("uplo_" + name),
                 kl=z3.Int("kl_" + name), ku=z3.Int("ku_" + name), klt=z3.Int("klt_" + name), kut=z3.Int("kut_" + name),
                 precision=z3.Int("precision_" + name), matrix=Opaque(name + ".matrix"), _mat=Opaque("mat:" + name))
        f.update(extra or {})
        th.facts += [f["i"] >= 0, f["j"] >= 0]
        self.struct = Struct("plasma_desc_t", f)
        self.dense = None
        if type == "GeneralBand":
            kl, ku, klt, kut = f["kl"], f["ku"], f["klt"], f["kut"]
            # (descriptor contract, C02) klt-1 tile rows below and kut-1 tile columns right of the diagonal meet the band
            th.facts += [kl >= 0, ku >= 0, klt >= 1, kut >= 1, (klt - 1) * NB >= kl, (klt - 2) * NB < kl, z3.Implies(kl == 0, klt == 1)]
            self.dense = lambda i, j: z3.And(i - j <= klt - 1, j - i <= kut - 1)

    def __repr__(self):
        return self.name

    def __call__(self, i, j):
        i = z3.IntVal(i) if isinstance(i, int) else i
        j = z3.IntVal(j) if isinstance(j, int) else j
        return Opnd(Ptr(Tile(self.name, i, j)), self.M(i))

    def view(self, k):
        return self.rows.V(k if not isinstance(k, int) else z3.IntVal(k))

    def nview(self, k):
        return self.cols.V(k if not isinstance(k, int) else z3.IntVal(k))


class Opnd:
    __slots__ = ("ptr", "ld", "acc", "region")

    def __init__(self, ptr, ld, acc=None, region="full"):
        self.ptr, self.ld, self.acc, self.region = ptr, ld, acc, region

    def __call__(self, acc, region="full"):
        return Opnd(self.ptr, self.ld, acc, region)

    def subst(self, m):
        return Opnd(subst(self.ptr, m), subst(self.ld, m), self.acc, self.region)

    def __repr__(self):
        return "%r%s" % (self.ptr, "" if self.region == "full" else "[%s]" % self.region)


class Eff:
    """one canonical effect"""
    def __init__(self, kind, f, ops, guard=True):
        self.kind, self.f, self.ops, self.guard = kind, f, ops, guard if not isinstance(guard, bool) else z3.BoolVal(guard)

    def __repr__(self):
        return "%s(%s; %s)" % (self.kind, ", ".join("%s=%s" % (k, z3.simplify(v) if isinstance(v, z3.ExprRef) else v) for k, v in self.f.items()),
                               ", ".join("%s=%r" % kv for kv in self.ops.items()))


REG_OVERLAP = {  # regions of one tile that can share elements
    "full": {"full", "upper", "lower", "supper", "slower"},
    "upper": {"full", "upper", "supper", "lower"},
    "lower": {"full", "lower", "slower", "upper"},
    "supper": {"full", "upper", "supper"},
    "slower": {"full", "lower", "slower"},
}


class K:
    """kernel contracts, precision-aware.  Every function returns the canonical effects of one call."""
    def __init__(self, en, prec):
        self.en, self.prec = en, prec
        self.real = prec in "sd"

    def e(self, name):
        return z3.IntVal(self.en[name])

    def trans(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            if self.real and t.as_long() == self.en["PlasmaConjTrans"]:
                return self.e("PlasmaTrans")
        return t

    def tri(self, uplo, strict=False):
        u = z3.simplify(uplo)
        if not z3.is_int_value(u):
            raise OutOfReach("symbolic uplo")
        u = u.as_long()
        if u == self.en["PlasmaUpper"]:
            return "supper" if strict else "upper"
        if u == self.en["PlasmaLower"]:
            return "slower" if strict else "lower"
        return "full"

    def scale(self, uplo, m, n, val, C):
        return Eff("scale", dict(uplo=uplo, m=m, n=n, val=val), dict(C=C("rw", self.tri(uplo))), val != ONE)

    # --- level 3
    def gemm(self, ta, tb, m, n, k, alpha, A, B, beta, C):
        G = self.e("PlasmaGeneral")
        return [self.scale(G, m, n, beta, C),
                Eff("gemm", dict(ta=self.trans(ta), tb=self.trans(tb), m=m, n=n, k=k, alpha=alpha),
                    dict(C=C("acc"), A=A("r"), B=B("r")), z3.And(alpha != ZERO, k != 0))]

    def symm(self, side, uplo, m, n, alpha, A, B, beta, C, kind="symm"):
        return [self.scale(self.e("PlasmaGeneral"), m, n, beta, C),
                Eff(kind, dict(side=side, uplo=uplo, m=m, n=n, alpha=alpha),
                    dict(C=C("acc"), A=A("r", self.tri(uplo)), B=B("r")), alpha != ZERO)]

    def hemm(self, *a):
        return self.symm(*a, kind="symm" if self.real else "hemm")

    def syrk(self, uplo, trans, n, k, alpha, A, beta, C, kind="syrk"):
        return [self.scale(uplo, n, n, beta, C),
                Eff(kind, dict(uplo=uplo, trans=self.trans(trans), n=n, k=k, alpha=alpha),
                    dict(C=C("acc", self.tri(uplo)), A=A("r")), z3.And(alpha != ZERO, k != 0))]

    def herk(self, *a):
        return self.syrk(*a, kind="syrk" if self.real else "herk")

    def syr2k(self, uplo, trans, n, k, alpha, A, B, beta, C, kind="syr2k"):
        return [self.scale(uplo, n, n, beta, C),
                Eff(kind, dict(uplo=uplo, trans=self.trans(trans), n=n, k=k, alpha=alpha),
                    dict(C=C("acc", self.tri(uplo)), A=A("r"), B=B("r")), z3.And(alpha != ZERO, k != 0))]

    def her2k(self, *a):
        return self.syr2k(*a, kind="syr2k" if self.real else "her2k")

    def trmm(self, side, uplo, ta, diag, m, n, alpha, A, B):
        return [self.scale(self.e("PlasmaGeneral"), m, n, alpha, B),
                Eff("trmm", dict(side=side, uplo=uplo, ta=self.trans(ta), diag=diag, m=m, n=n),
                    dict(B=B("rw"), A=A("r", self.tri(uplo))))]

    def trsm(self, side, uplo, ta, diag, m, n, alpha, A, B):
        return [self.scale(self.e("PlasmaGeneral"), m, n, alpha, B),
                Eff("trsm", dict(side=side, uplo=uplo, ta=self.trans(ta), diag=diag, m=m, n=n),
                    dict(B=B("rw"), A=A("r", self.tri(uplo))))]

    def potrf(self, uplo, n, A, iinfo=None):
        return [Eff("potrf", dict(uplo=uplo, n=n, iinfo=iinfo), dict(A=A("rw", self.tri(uplo))))]

    def geswp(self, k1, k2, m, n, incx, B):
        return [Eff("geswp", dict(colrow=self.e("PlasmaRowwise"), i=z3.IntVal(0), m=m, n=n, k1=k1, k2=k2, incx=z3.IntVal(incx),
                                  tile=z3.BoolVal(True)), dict(B=Opnd(B.ptr, None, "rw", "col")))]

    def trtri(self, uplo, diag, n, A, iinfo=None):
        return [Eff("trtri", dict(uplo=uplo, diag=diag, n=n, iinfo=iinfo), dict(A=A("rw", self.tri(uplo))))]

    def lauum(self, uplo, n, A):
        return [Eff("lauum", dict(uplo=uplo, n=n), dict(A=A("rw", self.tri(uplo))))]

    # --- element-wise
    def geadd(self, ta, m, n, alpha, A, beta, B):
        return [self.scale(self.e("PlasmaGeneral"), m, n, beta, B),
                Eff("geadd", dict(ta=self.trans(ta), m=m, n=n, alpha=alpha), dict(B=B("acc"), A=A("r")), alpha != ZERO)]

    def tradd(self, uplo, ta, m, n, alpha, A, beta, B):
        return [Eff("tradd", dict(uplo=uplo, ta=self.trans(ta), m=m, n=n, alpha=alpha, beta=beta),
                    dict(B=B("rw", self.tri(uplo)), A=A("r")))]

    def lacpy(self, uplo, ta, m, n, A, B):
        return [Eff("lacpy", dict(uplo=uplo, ta=self.trans(ta), m=m, n=n), dict(B=B("w", self.tri(uplo)), A=A("r", "full")))]

    def lascl(self, uplo, cfrom, cto, m, n, A):
        return [Eff("lascl", dict(uplo=uplo, cfrom=cfrom, cto=cto, m=m, n=n), dict(A=A("rw", self.tri(uplo))))]

    def laset(self, uplo, mb, nb, i, j, m, n, alpha, beta, A):
        return [Eff("laset", dict(uplo=uplo, mb=mb, nb=nb, i=i, j=j, m=m, n=n, alpha=alpha, beta=beta),
                    dict(A=Opnd(A.ptr, None, "w", self.tri(uplo))))]

    def lag2c(self, m, n, A, B):
        return [Eff("lag2c", dict(m=m, n=n), dict(A=A("r"), B=B("w")))]

    def clag2z(self, m, n, A, B):
        return [Eff("clag2z", dict(m=m, n=n), dict(A=A("r"), B=B("w")))]

    def hegst(self, itype, uplo, n, A, B):
        return [Eff("hegst", dict(itype=itype, uplo=uplo, n=n), dict(A=A("rw", self.tri(uplo)), B=B("r", self.tri(uplo))))]

    # --- QR / LQ kernels.  V of a panel tile: strict lower (QR) / strict upper (LQ); R / L is the other triangle.
    def geqrt(self, m, n, ib, A, T):
        return [Eff("geqrt", dict(m=m, n=n, ib=ib), dict(A=A("rw"), T=T("w")))]

    def gelqt(self, m, n, ib, A, T):
        return [Eff("gelqt", dict(m=m, n=n, ib=ib), dict(A=A("rw"), T=T("w")))]

    def tsqrt(self, m, n, ib, A1, A2, T):
        return [Eff("tsqrt", dict(m=m, n=n, ib=ib), dict(A1=A1("rw", "upper"), A2=A2("rw"), T=T("w")))]

    def tslqt(self, m, n, ib, A1, A2, T):
        return [Eff("tslqt", dict(m=m, n=n, ib=ib), dict(A1=A1("rw", "lower"), A2=A2("rw"), T=T("w")))]

    def ttqrt(self, m, n, ib, A1, A2, T):
        return [Eff("ttqrt", dict(m=m, n=n, ib=ib), dict(A1=A1("rw", "upper"), A2=A2("rw", "upper"), T=T("w")))]

    def ttlqt(self, m, n, ib, A1, A2, T):
        return [Eff("ttlqt", dict(m=m, n=n, ib=ib), dict(A1=A1("rw", "lower"), A2=A2("rw", "lower"), T=T("w")))]

    def unmqr(self, side, trans, m, n, k, ib, A, T, C, vreg="slower", kind="unmqr"):
        return [Eff(kind, dict(side=side, trans=self.trans(trans), m=m, n=n, k=k, ib=ib),
                    dict(A=A("r", vreg), T=T("r"), C=C("rw")))]

    def unmlq(self, *a):
        return self.unmqr(*a, vreg="supper", kind="unmlq")

    def tsmqr(self, side, trans, m1, n1, m2, n2, k, ib, A1, A2, V, T, kind="tsmqr", vreg="full"):
        return [Eff(kind, dict(side=side, trans=self.trans(trans), m1=m1, n1=n1, m2=m2, n2=n2, k=k, ib=ib),
                    dict(A1=A1("rw"), A2=A2("rw"), V=V("r", vreg), T=T("r")))]

    def tsmlq(self, *a):
        return self.tsmqr(*a, kind="tsmlq")

    def ttmqr(self, *a):
        return self.tsmqr(*a, kind="ttmqr", vreg="upper")

    def ttmlq(self, *a):
        return self.tsmqr(*a, kind="ttmlq", vreg="lower")


# parameter lists of the task-inserting kernels: P = pointer followed by its leading dimension, otherwise plain;
# W = workspace, X = ignored.  Trailing sequence/request ignored.
SIGS = {
    "zgemm": "t t i i i s P P s P", "zsymm": "t t i i s P P s P", "zhemm": "t t i i s P P s P",
    "zsyrk": "t t i i s P s P", "zherk": "t t i i s P s P", "zsyr2k": "t t i i s P P s P", "zher2k": "t t i i s P P s P",
    "ztrmm": "t t t t i i s P P", "ztrsm": "t t t t i i s P P", "zpotrf": "t i P i", "ztrtri": "t t i P i", "zlauum": "t i P",
    "zgeadd": "t i i s P s P", "ztradd": "t t i i s P s P", "zlacpy": "t t i i P P", "zlascl": "t s s i i P",
    "zlaset": "t i i i i i i s s Q", "zlag2c": "i i P P", "clag2z": "i i P P", "zhegst": "i t i P P",
    "zgeqrt": "i i i P P W", "zgelqt": "i i i P P W", "ztsqrt": "i i i P P P W", "ztslqt": "i i i P P P W",
    "zttqrt": "i i i P P P W", "zttlqt": "i i i P P P W",
    "zunmqr": "t t i i i i P P P W", "zunmlq": "t t i i i i P P P W",
    "ztsmqr": "t t i i i i i i P P P P W", "ztsmlq": "t t i i i i i i P P P P W",
    "zttmqr": "t t i i i i i i P P P P W", "zttmlq": "t t i i i i i i P P P P W",
}
ALL_Z_NAMES += ["plasma_core_omp_" + z for z in SIGS]
METHOD = {k: (k if k == "clag2z" else k[1:]) for k in SIGS}


def split_pite(args):
    """[(guard, args)] with all pointer choices resolved"""
    for i, a in enumerate(args):
        if isinstance(a, PIte):
            out = []
            for g, v in ((a.c, a.a), (z3.Not(a.c), a.b)):
                rest = list(args)
                rest[i] = v
                for g2, r in split_pite(rest):
                    out.append((z3.And(g, g2), r))
            return out
    return [(z3.BoolVal(True), list(args))]


def split_options(params, args):
    """options chosen by a condition: one effect per choice"""
    i = 0
    for p in params:
        if p == "t" and isinstance(args[i], z3.ExprRef):
            t = z3.simplify(args[i])
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                out = []
                for g, v in ((t.arg(0), t.arg(1)), (z3.Not(t.arg(0)), t.arg(2))):
                    rest = list(args)
                    rest[i] = v
                    for g2, r in split_options(params, rest):
                        out.append((z3.And(g, g2), r))
                return out
        i += 2 if p == "P" else 1
    return [(z3.BoolVal(True), list(args))]


class TileMachine(Machine):
    """symbolic execution of a tile algorithm against the contracts of kernels and tile accessors"""
    def __init__(self, srcs, tu, prec, mats, th, extra_contracts=None, inline_extra=None, scratch_kernels=True):
        Machine.__init__(self, tu, {}, inline_extra=inline_extra)
        self.srcs, self.prec, self.th = srcs, prec, th
        self.mats = {m.name: m for m in mats}
        self.en = tu.enum_names
        self.k = K(self.en, prec)
        self.effects = []       # (event, sub, guard, Eff)
        names = srcs.names(prec)
        for z, params in SIGS.items():
            self.contracts[names["plasma_core_omp_" + z]] = self.kernel(z, params)
        # real precisions: the symmetric kernel is the contract of both names
        for z in ("zsymm", "zsyrk", "zsyr2k"):
            self.contracts[names["plasma_core_omp_" + z]] = self.kernel(z, SIGS[z])
        self.contracts.update({
            "plasma_tile_addr": self.c_addr, "plasma_tile_mview": self.c_mview, "plasma_tile_nview": self.c_nview,
            "plasma_tile_mmain": self.c_mmain, "plasma_tile_nmain": self.c_nmain,
            "plasma_tile_mmain_band": self.c_mmain_band,
            "plasma_tile_addr_general": self.c_addr, "plasma_tile_addr_triangle": self.c_addr,
        })
        self.contracts["plasma_desc_view"] = self.c_view
        self.contracts[names.get("plasma_core_zgeswp", "plasma_core_%sgeswp" % prec)] = self.c_geswp
        self.contracts.update(extra_contracts or {})

    # --- accessors (their bodies are proved against these contracts in C01)
    def mat_of(self, a):
        if not isinstance(a, Struct) or "_mat" not in a.f:
            raise OutOfReach("descriptor argument %r" % (a,))
        return self.mats[a.f["_mat"].tag.split(":", 1)[1]]

    def c_addr(self, m, a, n, st):
        mat = self.mat_of(a[0])
        oi, oj = a[0].f.get("_oi", z3.IntVal(0)), a[0].f.get("_oj", z3.IntVal(0))
        return Ptr(Tile(mat.name, z3.simplify(to_int(a[1]) + oi), z3.simplify(to_int(a[2]) + oj)))

    def c_mview(self, m, a, n, st):
        return self.mat_of(a[0]).rows.V(z3.simplify(to_int(a[1])))

    def c_nview(self, m, a, n, st):
        return self.mat_of(a[0]).cols.V(z3.simplify(to_int(a[1])))

    def c_mmain(self, m, a, n, st):
        mat = self.mat_of(a[0])
        if mat.type == "GeneralBand":
            return NB
        return mat.M(z3.simplify(to_int(a[1])))

    def c_nmain(self, m, a, n, st):
        return self.mat_of(a[0]).N(z3.simplify(to_int(a[1])))

    def c_mmain_band(self, m, a, n, st):
        mat = self.mat_of(a[0])
        if mat.type == "GeneralBand":
            return NB
        raise OutOfReach("band leading dimension of a general matrix")

    def c_view(self, m, a, n, st):
        """plasma_desc_view (contract proved in C02): rows i.. i+m-1, columns j .. j+n-1"""
        mat = self.mat_of(a[0])
        return Struct("plasma_desc_t", dict(a[0].f, _view=Struct("view", dict(i=to_int(a[1]), j=to_int(a[2]), m=to_int(a[3]), n=to_int(a[4])))))

    @staticmethod
    def tiles_of(x, NB=NB):
        """t with x = t*nb, if x has that form"""
        x = z3.simplify(x, som=True)
        t = z3.simplify(z3.substitute(x, (NB, z3.IntVal(1))))
        d = z3.simplify(t * NB - x, som=True)
        if not (z3.is_int_value(d) and d.as_long() == 0):
            raise OutOfReach("offset %s is not a multiple of the tile size" % x)
        return t

    def c_geswp(self, m, a, n, st):
        e = self.emit("zgeswp", a, st, n)
        if e is None:
            return z3.IntVal(0)
        v = a[1].f.get("_view")
        if v is None:
            raise OutOfReach("row interchange of a whole matrix")
        k1, k2 = to_int(a[2]), to_int(a[3])
        mat = self.mat_of(a[1])
        eff = Eff("geswp", dict(colrow=to_int(a[0]), i=v.f["i"], m=v.f["m"], n=v.f["n"], k1=k1, k2=k2, incx=to_int(a[5]),
                                tile=z3.BoolVal(repr(a[4]) == "<ipiv>")),
                  dict(B=Opnd(Ptr(Tile(mat.name, self.tiles_of(k1 - 1), self.tiles_of(v.f["j"]))), None, "rw", "col")))
        self.effects.append(CodeEff(e, 0, z3.BoolVal(True), eff))
        return z3.IntVal(0)

    def kernel(self, z, params):
        params = params.split()
        meth = METHOD[z]

        def h(m, args, n, st):
            e = self.emit(z, args, st, n)
            if e is None:
                return z3.IntVal(0)
            e.sig = z
            for g, a in split_pite(args):
                for g2, a2 in split_options(params, a):
                    self.add_effects(e, z3.And(g, g2), z, params, meth, a2)
            return z3.IntVal(0)
        return h

    def add_effects(self, e, g, z, params, meth, a):
        vals, i = [], 0
        for p in params:
            if p == "P":
                vals.append(Opnd(a[i], z3.simplify(to_int(a[i + 1]))))
                i += 2
            elif p == "Q":
                vals.append(Opnd(a[i], None))
                i += 1
            elif p == "W":
                i += 1
            elif p == "s":
                vals.append(to_scalar(a[i]))
                i += 1
            else:
                vals.append(z3.simplify(to_int(a[i])))
                i += 1
        for sub, eff in enumerate(getattr(self.k, meth)(*vals)):
            gd = z3.simplify(z3.And(g, eff.guard))
            if z3.is_false(gd):
                continue
            self.effects.append(CodeEff(e, sub, gd, eff))

    def opaque_field(self, s, name, n, st):
        if name == "status":
            return z3.IntVal(self.en["PlasmaSuccess"])
        return Machine.opaque_field(self, s, name, n, st)


class CodeEff:
    def __init__(self, ev, sub, guard, eff):
        self.ev, self.sub, self.guard, self.eff = ev, sub, guard, eff
        self.cand = []      # (family, binding)

    def cond(self):
        return z3.And(self.ev.cond(), self.guard)


class Fam:
    """specification family: for all idx in dom exactly one such effect, at the given time"""
    def __init__(self, name, idx, dom, time, eff):
        self.name, self.idx, self.dom, self.time, self.eff = name, list(idx), dom, time, eff


def fams(name, idx, dom, time, effs):
    out = []
    for s, e in enumerate(effs):
        g = z3.simplify(e.guard)
        if z3.is_false(g):
            continue
        out.append(Fam(name if len(effs) == 1 else name + "." + e.kind, idx, z3.And(dom, g), tuple(time) + (s,), e))
    return out


def tiles(eff):
    return [(k, o) for k, o in eff.ops.items()]


def bind(fam, eff):
    """binding idx var -> code expression from tile coordinates; None if statically impossible"""
    if fam.eff.kind != eff.kind or set(fam.eff.ops) != set(eff.ops):
        return None
    for k, v in fam.eff.f.items():
        c = eff.f.get(k)
        if isinstance(v, z3.ExprRef) and isinstance(c, z3.ExprRef) and z3.is_int_value(v) and z3.is_int_value(c) \
                and v.as_long() != c.as_long():
            return None
    b = {}
    for k, so in fam.eff.ops.items():
        co = eff.ops[k]
        if not (isinstance(co.ptr, Ptr) and isinstance(co.ptr.obj, Tile)):
            if co.ptr is so.ptr or repr(co.ptr) == repr(so.ptr):
                continue
            return None
        if not isinstance(so.ptr.obj, Tile) or so.ptr.obj.mat != co.ptr.obj.mat or so.region != co.region:
            return None
        for sv, cv in ((so.ptr.obj.i, co.ptr.obj.i), (so.ptr.obj.j, co.ptr.obj.j)):
            if any(sv.eq(x) for x in fam.idx) and sv.get_id() not in b:
                b[sv.get_id()] = (sv, cv)
    # families may declare other ways to recover an index (e.g. from i = a + 1)
    for k, so in fam.eff.ops.items():
        co = eff.ops[k]
        if isinstance(so.ptr.obj, Tile):
            for sv, cv in ((so.ptr.obj.i, co.ptr.obj.i), (so.ptr.obj.j, co.ptr.obj.j)):
                for x in fam.idx:
                    if x.get_id() in b:
                        continue
                    d = z3.simplify(sv - x)
                    if not Machine.occurs(d, x) and all(y.get_id() in b for y in fam.idx if Machine.occurs(d, y)):
                        dd = z3.substitute(d, *[b[y.get_id()] for y in fam.idx if y.get_id() in b]) if b else d
                        b[x.get_id()] = (x, z3.simplify(cv - dd))
                    d = z3.simplify(sv + x)
                    if x.get_id() not in b and not Machine.occurs(d, x) and all(y.get_id() in b for y in fam.idx if Machine.occurs(d, y)):
                        dd = z3.substitute(d, *[b[y.get_id()] for y in fam.idx if y.get_id() in b]) if b else d
                        b[x.get_id()] = (x, z3.simplify(dd - cv))
    # an index that only a scalar argument tells
    for x in fam.idx:
        for k, v in fam.eff.f.items():
            if x.get_id() not in b and isinstance(v, z3.ExprRef) and x.eq(v) and isinstance(eff.f.get(k), z3.ExprRef):
                b[x.get_id()] = (x, eff.f[k])
    if len(b) < len(fam.idx):
        return None
    return list(b.values())


def eq_conj(fam, eff, m, ignore=()):
    """equality of all fields of the family (indices replaced by m) and the code effect"""
    out = []
    sub = lambda v: z3.substitute(v, *m) if m else v
    for k, v in fam.eff.f.items():
        if k in ignore or v is None:
            continue
        c = eff.f.get(k)
        if c is None:
            continue
        out.append((k, sub(v) == c))
    for k, so in fam.eff.ops.items():
        co = eff.ops[k]
        if isinstance(so.ptr.obj, Tile):
            out.append((k + ".tile", z3.And(sub(so.ptr.obj.i) == co.ptr.obj.i, sub(so.ptr.obj.j) == co.ptr.obj.j,
                                            co.ptr.off == sub(so.ptr.off))))
        if so.ld is not None and co.ld is not None:
            out.append((k + ".ld", sub(so.ld) == co.ld))
    return out


def lex_lt(a, b):
    """lexicographic order of two integer tuples (padded with zeros)"""
    n = max(len(a), len(b))
    z = z3.IntVal(0)
    f = lambda t: [z3.IntVal(x) if isinstance(x, int) else x for x in t] + [z] * (n - len(t))
    a, b = f(a), f(b)
    out, eq = [], []
    for x, y in zip(a, b):
        out.append(z3.And(*(eq + [x < y])))
        eq = eq + [x == y]
    return z3.Or(*out)


def conflicts(e1, e2, m1, m2):
    """z3 condition: the effects touch common elements and do not commute"""
    out = []
    for k1, o1 in e1.ops.items():
        for k2, o2 in e2.ops.items():
            if o1.acc == "r" and o2.acc == "r":
                continue
            if o1.acc == "acc" and o2.acc == "acc":
                continue
            t1, t2 = o1.ptr.obj if isinstance(o1.ptr, Ptr) else None, o2.ptr.obj if isinstance(o2.ptr, Ptr) else None
            if not (isinstance(t1, Tile) and isinstance(t2, Tile)):
                if t1 is not None and t1 == t2 and not isinstance(t1, Tile):
                    out.append(z3.BoolVal(True))
                continue
            if t1.mat != t2.mat:
                continue
            if {"col", "row"} == {o1.region, o2.region}:
                out.append(z3.BoolVal(True))
                continue
            if "row" in (o1.region, o2.region):     # a whole row of tiles
                out.append(subst(t1.i, m1) == subst(t2.i, m2))
                continue
            if "col" in (o1.region, o2.region):     # a whole column of tiles
                out.append(subst(t1.j, m1) == subst(t2.j, m2))
                continue
            if o2.region not in REG_OVERLAP[o1.region]:
                continue
            out.append(z3.And(subst(t1.i, m1) == subst(t2.i, m2), subst(t1.j, m1) == subst(t2.j, m2)))
    return z3.Or(*out) if out else z3.BoolVal(False)


def first_witness(c, eqs):
    """values of the loop variables: determined ones from the operands, the others their first iteration"""
    free = []
    for l in c.ev.loops:
        if any(Machine.occurs(e, l.x) for e, _ in eqs):
            continue
        if getattr(l, "first", None) is None:
            return None
        free.append((l.x, l.first))
    sol = solve_linear(eqs, [l.x for l in c.ev.loops if not any(l.x.eq(x) for x, _ in free)])
    if sol is None:
        return None
    sol = list(sol)
    for x, v in free:
        sol.append((x, z3.simplify(z3.substitute(v, *sol)) if sol else v))
    return sol


def solve_linear(eqs, unknowns):
    """eqs: list of (expr over unknowns, rhs). returns substitution for all unknowns or None"""
    sol = {}
    eqs = [(z3.simplify(l - r)) for l, r in eqs]
    left = list(unknowns)
    progress = True
    while left and progress:
        progress = False
        for x in list(left):
            for e in eqs:
                e1 = z3.simplify(z3.substitute(e, *[(y, v) for y, v in sol.items()]) if sol else e)
                if not Machine.occurs(e1, x):
                    continue
                for sg in (1, -1):
                    d = z3.simplify(e1 - sg * x)     # e1 = sg*x + d
                    if not Machine.occurs(d, x) and not any(Machine.occurs(d, y) for y in left if not y.eq(x)):
                        sol[x] = z3.simplify(-d if sg == 1 else d)
                        left.remove(x)
                        progress = True
                        break
                if x not in left:
                    break
    if left:
        return None
    return [(x, v) for x, v in sol.items()]


class TileVC:
    """obligations: the ghost log of the machine realises exactly the specification families"""
    def __init__(self, name, mach, spec, th, hyps=(), ignore=(), only=None, bounds=None):
        self.name, self.m, self.spec, self.th, self.hyps, self.ignore = name, mach, spec, th, list(hyps), set(ignore)
        self.obs = []
        self.only = only
        self.bounds = bounds

    def ob(self, name, hyps, goal, where="", info=None):
        self.obs.append(Ob("%s:%s" % (self.name, name), self.hyps + self.m.assume + hyps, goal, where, info))

    def facts(self, ev, mp=None):
        return [subst(f, mp or []) for l in ev.loops for f in getattr(l, "facts", [])]

    def generate(self):
        effs = self.m.effects
        for c in effs:
            c.cand = []
            for f in self.spec:
                b = bind(f, c.eff)
                if b is not None:
                    c.cand.append((f, b))
        # soundness: every effect of the code is one of the specification, with the right operands
        for n, c in enumerate(effs):
            hyps = [c.cond()] + self.facts(c.ev)
            alts = []
            detail = []
            for f, b in c.cand:
                eqs = eq_conj(f, c.eff, b, self.ignore)
                alts.append(z3.And(z3.substitute(f.dom, *b) if b else f.dom, *[x for _, x in eqs]))
                detail.append((f.name, eqs))
            self.ob("effect[%s@%s]" % (c.eff.kind, c.ev.line()), hyps, z3.Or(*alts) if alts else z3.BoolVal(False), c.ev.where(),
                    dict(kind="effect", effect=repr(c.eff), candidates=[d[0] for d in detail]))
            # operands inside their matrices
            for k, o in c.eff.ops.items():
                if isinstance(o.ptr, Ptr) and isinstance(o.ptr.obj, Tile):
                    mat = self.m.mats[o.ptr.obj.mat]
                    t = o.ptr.obj
                    g = z3.And(0 <= t.i, t.i < mat.rows.nt, 0 <= t.j, t.j < mat.cols.nt)
                    if mat.dense is not None:
                        g = z3.And(g, mat.dense(t.i, t.j))
                    self.ob("inside[%s.%s@%s]" % (c.eff.kind, k, c.ev.line()), hyps, g, c.ev.where(), dict(kind="bounds"))
        # completeness: every instance of the specification occurs, and only once
        for f in self.spec:
            sk = [(x, z3.Const(str(x) + "#", I)) for x in f.idx]
            dom = z3.substitute(f.dom, *sk) if sk else f.dom
            wit = []
            for c in effs:
                for g, b in c.cand:
                    if g is not f:
                        continue
                    eqs = [(expr, z3.substitute(x, *sk)) for x, expr in b]
                    xs = [l.x for l in c.ev.loops]
                    others = [s for l in c.ev.loops for s in l.syms[1:]]
                    sol = solve_linear(eqs, xs)
                    if sol is not None:     # symbols that depend on the iteration: an own copy per witness
                        sol = list(sol) + [(s_, fresh("w", s_.sort())) for s_ in others]
                    wit.append((c, b, sol, eqs))
            alts = []
            for c, b, sol, eqs in wit:
                full = z3.And(c.cond(), *[e == r for e, r in eqs])
                match = z3.And(*[x for _, x in eq_conj(f, c.eff, sk, self.ignore)])
                if sol is not None:
                    alts.append((c, z3.substitute(z3.And(full, match), *sol) if sol else z3.And(full, match), sol))
                else:
                    xs = [l.x for l in c.ev.loops]
                    # loops that no operand determines: the first iteration is the usual witness
                    first = first_witness(c, eqs)
                    if first is not None:
                        first += [(s_, fresh("w", s_.sort())) for l in c.ev.loops for s_ in l.syms[1:]]
                        alts.append((c, z3.substitute(z3.And(full, match), *first), first))
                    alts.append((c, z3.Exists(xs, z3.And(full, match)), None))
            fh = []
            for c, a, sol in alts:
                if sol is not None:
                    fh += [z3.substitute(x, *sol) if sol else x for x in self.facts(c.ev)]
            self.ob("complete[%s]" % f.name, [dom] + fh, z3.Or(*[a for _, a, _ in alts]) if alts else z3.BoolVal(False), "",
                    dict(kind="complete", family=f.name))
            for p in range(len(wit)):
                c1, b1, s1, e1 = wit[p]
                m1 = rename_map(c1.ev, "'")
                for q in range(p, len(wit)):
                    c2, b2, s2, e2 = wit[q]
                    if p == q:
                        xs = [l.x for l in c1.ev.loops]
                        if s1 is not None or not xs:
                            continue
                        goal = z3.And(*[x == subst(x, m1) for x in xs])
                    else:
                        goal = z3.BoolVal(False)
                        if c1.ev is c2.ev and c1.sub == c2.sub:
                            pass
                    h = [subst(c1.cond(), m1), c2.cond()] + self.facts(c1.ev, m1) + self.facts(c2.ev)
                    h += [subst(x, m1) == r for x, r in e1] + [x == r for x, r in e2] + [dom]
                    h += [subst(x, m1) for _, x in eq_conj(f, c1.eff, sk, self.ignore)]
                    h += [x for _, x in eq_conj(f, c2.eff, sk, self.ignore)]
                    self.ob("once[%s:%s/%s]" % (f.name, c1.ev.line(), c2.ev.line()), h, goal, c2.ev.where(),
                            dict(kind="once", family=f.name))
        # order of conflicting effects
        for p, c1 in enumerate(effs):
            m1 = rename_map(c1.ev, "'")
            for q, c2 in enumerate(effs):
                cf = conflicts(c1.eff, c2.eff, m1, None)
                if z3.is_false(z3.simplify(cf)):
                    continue
                for f1, b1 in c1.cand:
                    for f2, b2 in c2.cand:
                        t1 = [subst(z3.substitute(x, *b1) if b1 else x, m1) if isinstance(x, z3.ExprRef) else x for x in f1.time]
                        t2 = [(z3.substitute(x, *b2) if b2 else x) if isinstance(x, z3.ExprRef) else x for x in f2.time]
                        h = [subst(c1.cond(), m1), c2.cond(), cf, lex_lt(t1, t2)]
                        h += [subst(z3.substitute(f1.dom, *b1) if b1 else f1.dom, m1), z3.substitute(f2.dom, *b2) if b2 else f2.dom]
                        h += [subst(x, m1) for _, x in eq_conj(f1, c1.eff, b1, self.ignore)]
                        h += [x for _, x in eq_conj(f2, c2.eff, b2, self.ignore)]
                        h += self.facts(c1.ev, m1) + self.facts(c2.ev)
                        g = ev_before(c1, c2, m1)
                        if z3.is_true(z3.simplify(g)):
                            continue
                        self.ob("order[%s@%s<%s@%s]" % (c1.eff.kind, c1.ev.line(), c2.eff.kind, c2.ev.line()), h, g, c2.ev.where(),
                                dict(kind="order"))
        # the specification itself orders every conflicting pair (a sanity obligation on the contract)
        for p, f1 in enumerate(self.spec):
            m1 = [(x, z3.Const(str(x) + "'", I)) for x in f1.idx]
            for q in range(p, len(self.spec)):
                f2 = self.spec[q]
                cf = conflicts(f1.eff, f2.eff, m1, None)
                if z3.is_false(z3.simplify(cf)):
                    continue
                t1 = [subst(x, m1) if isinstance(x, z3.ExprRef) else x for x in f1.time]
                same = z3.BoolVal(False)
                if f1 is f2:
                    same = z3.And(*[a == b for a, b in m1]) if m1 else z3.BoolVal(True)
                self.ob("spec-order[%s/%s]" % (f1.name, f2.name), [subst(f1.dom, m1), f2.dom, cf],
                        z3.Or(same, lex_lt(t1, f2.time), lex_lt(f2.time, t1)), "", dict(kind="spec"))
        # every family is satisfiable (guard against vacuous specifications) is done by the caller
        return self.obs


def ev_before(c1, c2, m1):
    if c1.ev is c2.ev:
        # same call site: earlier iteration, or same iteration and earlier effect
        b = before(c1.ev, c2.ev, m1, None)
        same = z3.And(*[subst(l.x, m1) == l.x for l in c1.ev.loops]) if c1.ev.loops else z3.BoolVal(True)
        return z3.Or(b, z3.And(same, z3.BoolVal(c1.sub < c2.sub)))
    return before(c1.ev, c2.ev, m1, None)
