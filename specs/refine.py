"""C18: the mixed-precision solvers (compute/zcposv.c, zcgesv.c, zcgbsv.c).

The function bodies are executed path by path; every tile routine they call is replaced by the effect its contract states (C05-C08, C16, C17),
as an uninterpreted function on the contents of the matrices.  Invariants of the loops are inferred from a fixed family of candidates: a candidate
that fails on entry or is not kept by an arbitrary iteration is dropped and the function executed again, so what remains is inductive."""
import z3
from tcv.ctl import CtlMachine, prove
from tcv.cfront import OutOfReach
from tcv.paths import Return, Break, Continue, EndPath
from tcv.symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, S, I as IS, to_int, to_scalar, to_bool, is_null, lit, lit_value, lit_axioms, ufun
from tcv.tilecheck import register

I = z3.Int
M = z3.DeclareSort("Matrix")
V = z3.DeclareSort("Vector")
register(["omp_zcposv", "omp_zcgesv", "omp_zcgbsv", "zcposv", "zcgesv", "zcgbsv", "pzlag2c", "pclag2z", "pcpotrf", "pzpotrf", "pcgetrf", "pzgetrf", "pcgbtrf", "pzgbtrf",
          "pctrsm", "pztrsm", "pctbsm", "pztbsm", "pzlacpy", "pzhemm", "pzgemm", "pzgeadd", "pdzamax", "pzlanhe", "pzlange", "pzlangb", "pcgeswp", "pzgeswp"])

ROLES = {"zcposv": ["uplo", "A", "B", "X", "As", "Xs", "R", "work", "Rnorm", "Xnorm", "iter", "sequence", "request"],
         "zcgesv": ["A", "ipiv", "B", "X", "As", "Xs", "R", "work", "Rnorm", "Xnorm", "iter", "sequence", "request"],
         "zcgbsv": ["A", "ipiv", "B", "X", "As", "Xs", "R", "work", "Rnorm", "Xnorm", "iter", "sequence", "request"]}
LIMIT = 30
U, L, NN, CT, TT, NU, UN, LEFT, ROW, COL, INF, GEN = 121, 122, 111, 113, 112, 131, 132, 141, 402, 401, 175, 123


def F(name, *sorts):
    return z3.Function(name, *sorts)


low, high = F("low", M, M), F("high", M, M)
chol, lu, gblu = F("cholesky", IS, M, M), F("lu", M, M), F("band_lu", M, M)
piv, gbpiv = F("lu_pivots", M, V), F("band_lu_pivots", M, V)
trsm = F("trsm", IS, IS, IS, IS, S, M, M, M)
tbsm = F("tbsm", IS, IS, IS, IS, S, M, V, M, M)
swp = F("geswp", IS, V, IS, M, M)
gemm = F("gemm", IS, IS, S, M, M, S, M, M)
hemm = F("hemm", IS, IS, S, M, M, S, M, M)
add = F("geadd", IS, S, M, S, M, M)
colmax = F("column_maxima", M, V)
norm = F("norm", IS, IS, M, S)
el = F("element", V, IS, S)
garbage = F("garbage", IS, S)


class Restart(Exception):
    pass


def canon(t, memo=None):
    """floating-point comparisons with one direction and products as sorted factors (rounding of products is not looked at)"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(t):
        r = t
    elif z3.is_app(t) and t.num_args():
        n = t.decl().name()
        a = [canon(x, memo) for x in t.children()]
        if n in ("fp>", "fp>="):
            r = ufun("fp<" if n == "fp>" else "fp<=", S, S, z3.BoolSort())(product(a[1]), product(a[0]))
        elif n in ("fp<", "fp<="):
            r = ufun(n, S, S, z3.BoolSort())(product(a[0]), product(a[1]))
        elif n == "isnan" and False:
            r = t
        else:
            r = t.decl()(*a) if not z3.is_and(t) and not z3.is_or(t) else (z3.And if z3.is_and(t) else z3.Or)(*a)
    else:
        r = t
    memo[k] = (t, r)
    return r


def factors(t):
    if z3.is_app(t) and t.decl().name() == "fmul":
        return factors(t.arg(0)) + factors(t.arg(1))
    v = lit_value(t)
    if v is not None and v == 1:
        return []
    return [t]


def product(t):
    fs = sorted(factors(t), key=lambda x: x.sexpr())
    if not fs:
        return lit(1.0)
    r = fs[0]
    for x in fs[1:]:
        r = ufun("fmul", S, S, S)(r, x)
    return r


class RefineMachine(CtlMachine):
    def __init__(self, tu, srcs, names, kind, prec, dropped):
        super().__init__(tu, srcs)
        self.kind, self.prec, self.dropped = kind, prec, dropped
        inv = {v: k[len("plasma_"):] for k, v in names.items() if k.startswith("plasma_p")}
        for fn, z in inv.items():
            h = getattr(self, "k_" + z, None)
            if h:
                self.contracts[fn] = (lambda h, z: lambda m, a, n, st: h(z, a, n, st) or z3.IntVal(0))(h, z)
        self.contracts["plasma_desc_check"] = lambda m, a, n, st: z3.IntVal(0)
        self.contracts["plasma_context_self"] = lambda m, a, n, st: Opaque("plasma")
        self.contracts["plasma_request_fail"] = lambda m, a, n, st: (m.event("request_fail", a, n), a[2])[1]
        lam = lambda m, a, n, st: ufun("lamch", IS, S)(to_int(a[0]))
        self.contracts["LAPACKE_dlamch_work"] = self.contracts["LAPACKE_slamch_work"] = lam
        self.contracts["__builtin_isinf_sign"] = self.contracts["isinf"] = self.contracts["__isinf"] = self.contracts["__builtin_isinf"] = \
            lambda m, a, n, st: z3.If(ufun("isinf", S, z3.BoolSort())(to_scalar(a[0])), z3.IntVal(1), z3.IntVal(0))
        self.contracts["__builtin_isfinite"] = self.contracts["isfinite"] = \
            lambda m, a, n, st: z3.If(z3.Or(ufun("isinf", S, z3.BoolSort())(to_scalar(a[0])), ufun("isnan", S, z3.BoolSort())(to_scalar(a[0]))), z3.IntVal(0), z3.IntVal(1))

    def symf(self, s):
        return s

    # ---------------------------------------------------------------- ghost state
    def begin(self, st):
        self.c = {k: z3.Const("initial " + k, M) for k in ("A", "B", "X", "As", "Xs", "R")}
        self.v = {k: z3.Const("initial " + k, V) for k in ("ipiv", "Rnorm", "Xnorm")}
        self.A0, self.B0 = self.c["A"], self.c["B"]
        self.rpend = []           # (what, finalizer)
        self.busy = []              # regions of the workspace in use: (from, to or None)
        self.nref = z3.IntVal(0)
        self.iter = z3.Const("initial iter", IS)
        self.entered = False
        self.rgoals = []
        self.ng = 0

    def role(self, x):
        if isinstance(x, Struct):
            v = x.f.get("$view")
            if v is not None:
                raise OutOfReach("part of a matrix in a mixed-precision solver")
            return self.roles.get(x.f.get("$id"))
        if isinstance(x, Ptr):
            if isinstance(x.obj, str) and x.obj.startswith("*"):
                return self.roles.get(x.obj[1:])
        return None

    def mat(self, x):
        r = self.role(x)
        if r not in self.c:
            raise OutOfReach("operand %r" % (x,))
        return r

    def vecrole(self, x):
        r = self.role(x)
        if r not in self.v:
            raise OutOfReach("operand %r" % (x,))
        if not z3.is_true(z3.simplify(x.off == 0)):
            raise OutOfReach("part of a vector")
        return r

    def goal(self, name, g, n):
        self.ng += 1
        line = n.tu.line_of(n.line) if n is not None and n.line is not None else 0
        self.rgoals.append((name, list(self.pc), g, line))

    def wait(self, st):
        for f in self.rpend:
            f(st)
        self.rpend, self.busy = [], []

    def use_work(self, p, size, n):
        if self.role(p) != "work":
            raise OutOfReach("workspace %r" % (p,))
        a, b = to_int(p.off), None if size is None else to_int(p.off) + size
        for c, d in self.busy:
            g = []
            if d is not None:
                g.append(a >= d)
            if b is not None:
                g.append(b <= c)
            self.goal("workspace-not-in-use", z3.Or(*g) if g else z3.BoolVal(False), n)
        self.busy.append((a, b))

    def tr(self, x):
        x = to_int(x)
        return z3.If(x == CT, z3.IntVal(TT), x) if self.prec == "d" else x

    # ---------------------------------------------------------------- contracts: effects of the tile routines
    def k_pzlag2c(self, z, a, n, st):
        self.c[self.mat(a[1])] = low(self.c[self.mat(a[0])])

    def k_pclag2z(self, z, a, n, st):
        self.c[self.mat(a[1])] = high(self.c[self.mat(a[0])])

    def k_pcpotrf(self, z, a, n, st):
        r = self.mat(a[1])
        self.c[r] = chol(to_int(a[0]), self.c[r])
    k_pzpotrf = k_pcpotrf

    def k_pcgetrf(self, z, a, n, st):
        r = self.mat(a[0])
        f, p = (gblu, gbpiv) if "gb" in z else (lu, piv)
        old = self.c[r]
        self.c[r] = f(old)
        self.v[self.vecrole(a[1])] = p(old)
    k_pzgetrf = k_pcgbtrf = k_pzgbtrf = k_pcgetrf

    def k_pctrsm(self, z, a, n, st):
        r = self.mat(a[6])
        self.c[r] = trsm(to_int(a[0]), to_int(a[1]), self.tr(a[2]), to_int(a[3]), to_scalar(a[4]), self.c[self.mat(a[5])], self.c[r])
    k_pztrsm = k_pctrsm

    def k_pctbsm(self, z, a, n, st):
        r = self.mat(a[6])
        if is_null(a[7]) is True or (isinstance(a[7], Ptr) and a[7].obj == "NULL") or a[7] is NULL:
            pv = z3.Const("no pivots", V)
        else:
            pv = self.v[self.vecrole(a[7])]
            # with pivots the lower solve waits for all tasks before every interchange (proved of the routine)
            if self.ask(z3.And(to_int(a[0]) == LEFT, to_int(a[1]) == L, self.tr(a[2]) == NN)):
                self.wait(st)
        self.c[r] = tbsm(to_int(a[0]), to_int(a[1]), self.tr(a[2]), to_int(a[3]), to_scalar(a[4]), self.c[self.mat(a[5])], pv, self.c[r])
    k_pztbsm = k_pctbsm

    def k_pcgeswp(self, z, a, n, st):
        r = self.mat(a[1])
        self.c[r] = swp(to_int(a[0]), self.v[self.vecrole(a[2])], to_int(a[3]), self.c[r])
    k_pzgeswp = k_pcgeswp

    def k_pzlacpy(self, z, a, n, st):
        x, y = self.c[self.mat(a[2])], self.mat(a[3])
        ok = self.ask(z3.And(to_int(a[0]) == GEN, to_int(a[1]) == NN))
        self.c[y] = x if ok else self.sym("part copied", M)

    def k_pzgemm(self, z, a, n, st):
        r = self.mat(a[6])
        self.c[r] = gemm(self.tr(a[0]), self.tr(a[1]), to_scalar(a[2]), self.c[self.mat(a[3])], self.c[self.mat(a[4])], to_scalar(a[5]), self.c[r])

    def k_pzhemm(self, z, a, n, st):
        r = self.mat(a[6])
        self.c[r] = hemm(to_int(a[0]), to_int(a[1]), to_scalar(a[2]), self.c[self.mat(a[3])], self.c[self.mat(a[4])], to_scalar(a[5]), self.c[r])

    def k_pzgeadd(self, z, a, n, st):
        x, y = self.mat(a[2]), self.mat(a[4])
        if y == "X":
            one = z3.And(to_scalar(a[1]) == lit(1.0), to_scalar(a[3]) == lit(1.0), to_int(a[0]) == NN)
            self.goal("correction-is-the-solution-for-the-residual",
                      z3.And(one, self.c[x] == high(self.solve(self.factor(low(self.A0)), self.pivots(low(self.A0)), low(self.resid(self.c["X"]))))), n)
            self.nref = self.nref + 1
        self.c[y] = add(self.tr(a[0]), to_scalar(a[1]), self.c[x], to_scalar(a[3]), self.c[y])

    def k_pdzamax(self, z, a, n, st):
        x = self.mat(a[1])
        self.use_work(a[2], I("tiles") * to_int(a[1].f["n"]), n)
        out = self.vecrole(a[3])
        if not self.ask(to_int(a[0]) == COL):
            raise OutOfReach("row maxima")
        self.v[out] = self.sym("not yet computed", V)
        val = colmax(self.c[x])

        def fin(st):
            self.v[out] = val
        self.rpend.append(fin)

    def norm_(self, kind, A, uplo, w, val, n, st):
        self.use_work(w, None, n)
        if not isinstance(val, Ref):
            raise OutOfReach("result of a norm")
        t = norm(kind, uplo, self.c[self.mat(A)])
        g = self.sym("not yet computed", S)
        self.write_ref(val, g, st)

        def fin(st):
            v = self.read_ref(val, st)
            if isinstance(v, z3.ExprRef) and v.eq(g):
                self.write_ref(val, t, st)
        self.rpend.append(fin)

    def k_pzlanhe(self, z, a, n, st):
        self.norm_(to_int(a[0]), a[2], to_int(a[1]), a[3], a[4], n, st)

    def k_pzlange(self, z, a, n, st):
        self.norm_(to_int(a[0]), a[1], z3.IntVal(0), a[2], a[3], n, st)
    k_pzlangb = k_pzlange

    def k_pzlansy(self, z, a, n, st):
        if self.prec != "d":        # the real routines share one name for both kinds
            raise OutOfReach("symmetric norm of a complex matrix")
        self.k_pzlanhe(z, a, n, st)

    def k_pzsymm(self, z, a, n, st):
        if self.prec != "d":
            raise OutOfReach("symmetric product of a complex matrix")
        self.k_pzhemm(z, a, n, st)

    def ask(self, c):
        """is the condition certain?"""
        return not self.feasible(z3.Not(c))

    # ---------------------------------------------------------------- specification
    def uplo(self):
        return I(self.par["uplo"]) if "uplo" in self.par else z3.IntVal(0)

    def ct(self):
        return TT if self.prec == "d" else CT

    def factor(self, A):
        return chol(self.uplo(), A) if self.kind == "zcposv" else lu(A) if self.kind == "zcgesv" else gblu(A)

    def pivots(self, A):
        return piv(A) if self.kind == "zcgesv" else gbpiv(A)

    def solve(self, Fx, p, B):
        one = lit(1.0)
        if self.kind == "zcposv":
            u = self.uplo()
            t1 = z3.If(u == U, z3.IntVal(self.ct()), z3.IntVal(NN))
            t2 = z3.If(u == U, z3.IntVal(NN), z3.IntVal(self.ct()))
            return trsm(LEFT, u, t2, NU, one, Fx, trsm(LEFT, u, t1, NU, one, Fx, B))
        if self.kind == "zcgesv":
            return trsm(LEFT, U, NN, NU, one, Fx, trsm(LEFT, L, NN, UN, one, Fx, swp(ROW, p, 1, B)))
        return tbsm(LEFT, U, NN, NU, one, Fx, p, tbsm(LEFT, L, NN, UN, one, Fx, p, B))

    def resid(self, X):
        mone, one = lit(-1.0), lit(1.0)
        if self.kind == "zcposv":
            return hemm(LEFT, self.uplo(), mone, self.A0, X, one, self.B0)
        return gemm(NN, NN, mone, self.A0, X, one, self.B0)

    def threshold(self, xn):
        nrm = norm(INF, self.uplo() if self.kind == "zcposv" else z3.IntVal(0), self.A0)
        t = xn
        for f in (nrm, ufun("lamch", IS, S)(z3.IntVal(ord("E"))), ufun("sqrt", S, S)(ufun("i2s", IS, S)(I("n")))):
            t = ufun("fmul", S, S, S)(t, f)
        return t

    def met(self, j, rv=None, xv=None):
        """the criterion for column j of the given (default: current) maxima"""
        r = el(self.v["Rnorm"] if rv is None else rv, j)
        x = el(self.v["Xnorm"] if xv is None else xv, j)
        return z3.And(ufun("fp<=", S, S, z3.BoolSort())(r, product(self.threshold(x))), z3.Not(ufun("isinf", S, z3.BoolSort())(x)))

    # ---------------------------------------------------------------- memory
    def ld(self, p, name, n, st):
        r = self.role(p)
        if name is None and r in ("Rnorm", "Xnorm"):
            return el(self.v[r], to_int(p.off))
        if name is None and r == "iter":
            return self.iter
        if name is None and r == "ipiv":
            return self.sym("pivot")
        return self.load_any(p, name, n)

    def sto(self, p, v, st, n):
        r = self.role(p)
        if r == "iter":
            self.iter = to_int(v)
        elif r in ("Rnorm", "Xnorm", "ipiv"):
            self.v[r] = self.sym("changed", V)
        elif r == "work":
            pass
        else:
            self.event("store", [p, v], n)
        return True

    # ---------------------------------------------------------------- loops
    def holds(self, cand):
        """does the candidate follow from the path?"""
        if isinstance(cand, bool):
            return cand
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*[canon(x) for x in list(self.hyps) + list(self.pc)])
        s.add(*lit_axioms())
        s.add(z3.Not(canon(cand)))
        return s.check() == z3.unsat

    def candidates(self, key, st, mod, before, ghost0, count, up, big):
        out = {}
        c0 = before.get(count) if count is not None else None
        c = st.env.get(count) if count is not None else None
        g = ghost0
        for k in (self.c if big else ()):
            out["content of %s" % k] = self.c[k] == g["c"][k]
        for k in (self.v if big else ()):
            out["content of %s" % k] = self.v[k] == g["v"][k]
        if big:
            out["R is the residual"] = self.c["R"] == self.resid(self.c["X"])
        out["iter"] = self.iter == g["iter"]
        if big:
            out["refinements"] = self.nref == g["nref"]
            out["nothing pending"] = not self.rpend and not self.busy
        if big:
            out["limit of refinements"] = self.nref <= LIMIT
        j = I("column")
        rng = None
        if c is not None:
            rng = (lambda x: z3.And(c0 <= x, x < c)) if up else (lambda x: z3.And(c < x, x <= c0))
        for v in mod:
            x = st.env[v]
            if isinstance(x, z3.BoolRef):
                x = to_int(x)
            if not isinstance(x, z3.ArithRef) or not isinstance(before[v], z3.ArithRef):
                continue
            nm = str(v)
            out["%s not below" % nm] = x >= before[v]
            out["%s not above" % nm] = x <= before[v]
            if big:
                out["%s counts refinements" % nm] = self.nref - g["nref"] == x - before[v]
                out["%s counts refinements down" % nm] = self.nref - g["nref"] == before[v] - x
            if v == count:
                continue
            out["%s unchanged" % nm] = x == before[v]
            out["%s 0/1" % nm] = z3.And(x >= 0, x <= 1)
            if rng is not None:
                allok = z3.ForAll([j], z3.Implies(rng(j), self.met(j)))
                bad = z3.Exists([j], z3.And(rng(j), z3.Not(self.met(j))))
                out["%s: all met" % nm] = z3.Implies(x != 0, allok)
                out["not %s: all met" % nm] = z3.Implies(x == 0, allok)
                out["%s: one not met" % nm] = z3.Implies(x != 0, bad)
                out["not %s: one not met" % nm] = z3.Implies(x == 0, bad)
        if rng is not None:
            out["all met"] = z3.ForAll([j], z3.Implies(rng(j), self.met(j)))
        # also one index at a time (no quantifiers) is not needed: the quantified facts are over one variable
        return {(key, k): v for k, v in out.items() if (key, k) not in self.dropped}

    def snapshot(self):
        return dict(c=dict(self.c), v=dict(self.v), iter=self.iter, nref=self.nref)

    def drop(self, bad):
        self.dropped.update(bad)
        raise Restart()

    def loop(self, n, cond, inc, body, st):
        nodes = [x for x in (cond, inc, body) if x is not None]
        mod = [v for v in self.assigned(nodes) if v in st.env]
        for v in mod:
            if isinstance(st.env[v], z3.BoolRef):
                st.env[v] = to_int(st.env[v])
        before = {v: st.env[v] for v in mod}
        line = n.tu.line_of(n.line) if n.line is not None else 0
        key = line
        count, up = None, True
        if inc is not None:
            e = inc
            one = e.kind == "CompoundAssignOperator" and e.kids[1].kind == "IntegerLiteral" and int(e.kids[1].value) == 1
            if e.kind == "UnaryOperator" and e.opcode in ("++", "--") or one and e.opcode in ("+=", "-="):
                a = self.assigned([e])
                if len(a) == 1 and a[0] not in self.assigned([body]) and isinstance(before.get(a[0]), z3.ArithRef):
                    count, up = a[0], e.opcode in ("++", "+=")
        else:
            # while loop: a variable incremented once, at the end of the body
            last = body.kids[-1] if body.kind == "CompoundStmt" and body.kids else None
            if last is not None and last.kind == "UnaryOperator" and last.opcode == "++":
                a = self.assigned([last])
                if len(a) == 1 and isinstance(before.get(a[0]), z3.ArithRef) and a[0] not in self.assigned(body.kids[:-1]):
                    count = a[0]
        ghost0 = self.snapshot()
        big = self.has_effects(nodes)
        # entry
        cs = self.candidates(key, st, mod, before, ghost0, count, up, big)
        bad = [k for k, v in cs.items() if not self.holds(v)]
        if bad:
            self.drop(bad)
        # arbitrary iteration
        for v in mod:
            st.env[v] = self.havoc_path(before[v], "L%d" % line)
        if big:
            for k in self.c:
                self.c[k] = self.sym("%s at L%d" % (k, line), M)
            for k in self.v:
                self.v[k] = self.sym("%s at L%d" % (k, line), V)
            self.nref = self.sym("refinements at L%d" % line)
            if (key, "nothing pending") in self.dropped:
                self.rpend = []
                self.busy = [(z3.IntVal(0), None)]
            else:
                self.rpend, self.busy = [], []
        self.iter = self.sym("iter at L%d" % line)
        for k, v in self.candidates(key, st, mod, before, ghost0, count, up, big).items():
            if not isinstance(v, bool):
                self.add(v)
        head_entered = self.entered
        if self.choose("loop@%d" % line):
            old = self.loopid
            self.loopid = old + (line,)
            if cond is not None:
                c = self.cond(cond, st)
                if z3.is_false(z3.simplify(c)) or not self.feasible(c):
                    raise EndPath("infeasible")
                self.add(c)
            try:
                self.stmt(body, st)
                if inc is not None:
                    self.expr(inc, st)
            except Continue:
                if inc is not None:
                    self.expr(inc, st)
            except Break:
                self.loopid = old
                return
            bad = [k for k, v in self.candidates(key, st, mod, before, ghost0, count, up, big).items() if not self.holds(v)]
            if bad:
                self.drop(bad)
            raise EndPath("loop-back")
        if cond is None:
            raise EndPath("infeasible")
        c = z3.Not(self.cond(cond, st))
        if z3.is_false(z3.simplify(c)) or not self.feasible(c):
            raise EndPath("infeasible")
        self.add(c)

    def has_effects(self, nodes):
        found = False

        def walk(e):
            nonlocal found
            if e.kind == "CallExpr":
                k = e.kids[0]
                while k.kind in ("ImplicitCastExpr", "ParenExpr"):
                    k = k.kids[0]
                nm = k.j.get("referencedDecl", {}).get("name") if k.kind == "DeclRefExpr" else None
                if nm is None or nm in self.contracts and nm.startswith("plasma_p"):
                    found = True
                fn = self.find_function(nm) if nm else None
                if fn is not None and nm not in self.contracts and nm not in seen:
                    seen.add(nm)
                    walk(fn.body)
            for k in e.kids:
                walk(k)
        seen = set()
        for x in nodes:
            walk(x)
        return found

    def event(self, name, args, n):
        if name == "taskwait":
            self.wait(self.cur)
        return super().event(name, args, n)


def jobs(ctx):
    out = []
    for p in ("z", "d"):
        if p not in ctx.precs:
            continue
        for kind in ROLES:
            names = ctx.srcs.names(p, p == "d")
            fn = names["plasma_omp_" + kind]
            rel = "compute/%s.c" % names["plasma_" + kind][len("plasma_"):]
            if p != "z":
                ctx.srcs.generate(["compute/%s.c" % kind])
            out.append((fn, job(ctx.srcs, rel, fn, kind, p, names)))
            tb = names["plasma_pctbsm"], names["plasma_pztbsm"]
            if kind == "zcgbsv":
                ctx.srcs.generate(["compute/pztbsm.c"])
                for t in tb:
                    out.append((t, wait_job(ctx, t)))
    return out


def job(srcs, rel, fname, kind, prec, names):
    def run(r):
        r.functions = [fname]
        tu = srcs.tu(rel)
        dropped = set()
        while True:
            m = RefineMachine(tu, srcs, names, kind, prec, dropped)
            try:
                res = execute(m, fname)
                break
            except Restart:
                continue
        if __import__("os").environ.get("TCV_DEBUG"):
            print("dropped", sorted(map(str, dropped)))
            for P in res[0]:
                print(P.kind, [(e.name, e.line) for e in P.events][-6:], P.g["iter"], P.g["nref"], len(P.g["goals"]))
        judge(r, m, fname, res)
    return run


def execute(m, fname):
    fn = m.tu.funcs.get(fname)
    if fn is None:
        raise OutOfReach("function %s not found" % fname)
    if len(fn.params) != len(ROLES[m.kind]):
        raise OutOfReach("parameters of %s" % fname)
    m.roles = {p.name: q for p, q in zip(fn.params, ROLES[m.kind])}
    m.par = {q: p.name for p, q in zip(fn.params, ROLES[m.kind])}
    m.entry = fname
    m.goals_extra = []
    for p in fn.params:
        m.vtypes[p.id] = p.type
    m.store_hook = lambda a, v, st, n: m.sto(a, v, st, n)
    m.load_hook = lambda p, name, n, st: m.ld(p, name, n, st)
    hyps = [I("n") >= 0, I("nrhs") >= 0, I("nb") >= 1, I("tiles") >= 0, I("rhs tiles") >= 0]
    hyps += [z3.Not(z3.Bool("isnull(%s)" % x)) for x in ("plasma", m.par["sequence"], m.par["request"])]
    if "uplo" in m.par:
        hyps.append(z3.Or(I(m.par["uplo"]) == U, I(m.par["uplo"]) == L))

    def mkargs(mm):
        out = []
        for p in fn.params:
            role = mm.roles[p.name]
            if role in ("A", "B", "X", "As", "Xs", "R"):
                # A and As are n by n, the others n by nrhs (as the driver creates them)
                sq = role in ("A", "As")
                out.append(Struct("plasma_desc_t", {"$id": p.name, "m": I("n"), "n": I("n" if sq else "nrhs"), "mb": I("nb"), "nb": I("nb"),
                                                    "mt": I("tiles"), "nt": I("tiles" if sq else "rhs tiles")}))
            elif role in ("ipiv", "work", "Rnorm", "Xnorm", "iter"):
                out.append(Ptr("*" + p.name))
            elif role in ("sequence", "request"):
                out.append(Opaque(p.name))
            else:
                out.append(I(p.name))
        return out

    ends = []
    old_init = m.begin

    def mkenv(mm, st):
        if getattr(mm, "snap", None):
            pass
        mm.begin(st)
        cur = dict(m=None)
        mm.finals.append(cur)
        mm.curfinal = cur
        cur["goals"] = mm.rgoals
    m.finals = []
    paths = run(m, fname, mkargs, hyps, mkenv)
    return paths, hyps


def run(m, fname, mkargs, hyps, mkenv):
    """as PathMachine.paths, keeping the ghost state at the end of every path"""
    out = []
    real = m.paths_iter if hasattr(m, "paths_iter") else None
    # PathMachine.paths calls mkenv at the start of every path: the state of the path that ended before is the machine's
    prev = []

    def env(mm, st):
        if prev:
            prev[-1].update(ghost(mm))
        prev.append({})
        mkenv(mm, st)
    ps = m.paths(fname, mkargs, hyps, env)
    prev[-1].update(ghost(m))
    for P, g in zip(ps, prev):
        P.g = g
    return ps


def ghost(m):
    return dict(c=dict(m.c), v=dict(m.v), iter=m.iter, nref=m.nref, goals=list(m.rgoals), pending=len(m.rpend))


def judge(r, m, fname, res):
    paths, hyps = res
    done = conv = fall = 0
    inv = sorted(str(k) for k in m.dropped)
    N = I("nrhs")

    def ob(name, pc, goal, where=""):
        prove(r, name, [canon(x) for x in list(hyps) + pc], canon(goal), where=where, info=dict(kind="refine"))
    for k, P in enumerate(paths):
        if P.kind == "infeasible":
            continue
        g = P.g
        for name, pc, goal, line in g["goals"]:
            ob("%s.%s@%s#%d" % (fname, name, line, k), pc, goal, str(line))
        if P.kind != "return":
            continue
        if any(e.name == "request_fail" for e in P.events):
            # not with legal arguments
            ob("%s.legal-arguments#%d" % (fname, k), P.pc, z3.BoolVal(False))
            continue
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*[canon(x) for x in list(hyps) + list(P.pc)])
        s.add(*lit_axioms())
        if s.check() == z3.unsat:
            continue
        done += 1
        it = g["iter"]
        pc = list(P.pc)
        empty = z3.Or(I("n") == 0, I("nrhs") == 0)
        if not any(c.decl().name() in ("colmax",) for c in []) and s_entails(s, empty):
            ob("%s.nothing-to-do#%d" % (fname, k), pc, it == 0)
            continue
        line = str(getattr(P, "line", ""))
        m.v, m.c = g["v"], g["c"]
        j = z3.Int("any column")
        X = g["c"]["X"]
        rv, xv = colmax(m.resid(X)), colmax(X)
        ob("%s.limit#%d" % (fname, k), pc, z3.And(it <= LIMIT, it >= -(LIMIT + 1)))
        full = X == m.solve(m.factor(m.A0), m.pivots(m.A0), m.B0)
        inr = [j >= 0, j < N]
        if s_entails(s, it >= 0):
            conv += 1
            ob("%s.converged-columns-meet-the-criterion#%d" % (fname, k), pc + inr, m.met(j, rv, xv))
            ob("%s.count-is-the-number-of-corrections#%d" % (fname, k), pc, it == g["nref"])
        elif s_entails(s, it < 0):
            fall += 1
            ob("%s.fallback-is-the-full-precision-solution#%d" % (fname, k), pc, full)
            ob("%s.fallback-count#%d" % (fname, k), pc, it == -(LIMIT + 1))
            ob("%s.fallback-after-the-limit#%d" % (fname, k), pc, g["nref"] == LIMIT)
        else:
            ob("%s.converged-or-full-precision#%d" % (fname, k), pc + inr, z3.And(z3.Implies(it >= 0, m.met(j, rv, xv)), z3.Implies(it < 0, full)))
    prove(r, fname + ".reached", [], z3.BoolVal(done >= 3 and conv + fall >= 2), info=dict(kind="vacuity"))


def s_entails(s, c):
    s.push()
    s.add(z3.Not(c))
    q = s.check()
    s.pop()
    return q == z3.unsat


def wait_job(ctx, fn):
    """the band solve with pivots waits for all tasks before it interchanges rows"""
    def run(r):
        from tcv.pz import PzMachine
        from .failure import pz_files, pz_functions
        r.functions = [fn]
        rel = "compute/%s.c" % fn[len("plasma_"):]
        m = PzMachine(ctx.srcs.tu(rel), ctx.srcs)
        f = m.tu.funcs[fn]
        n = 0
        names = [p.name for p in f.params]
        hyps = [I("sequence.status") == 0, I(names[0]) == LEFT, I(names[1]) == L, I(names[2]) == NN]
        for k, P in enumerate(m.run_ctl(fn, {}, hyps)):
            if P.kind == "infeasible":
                continue
            waited = False
            for e in P.events:
                if e.name == "taskwait" and e.task is None:
                    waited = True
                if e.name == "insert":
                    waited = False if e.loop and False else waited
                if e.name == "kernel" and "geswp" in e.args[0]:
                    n += 1
                    prove(r, "%s.waits@%s#%d" % (fn, e.line, k), P.pc, z3.BoolVal(waited), info=dict(kind="wait"))
        prove(r, fn + ".interchanges", [], z3.BoolVal(n > 0), info=dict(kind="vacuity"))
    return run
