"""Obligations over the paths of API functions (compute/*.c): argument reporting, quick returns, composition of steps,
release of resources.  The contract of a routine (specs/api.py) is evaluated over its symbolic parameters; every path
produced by the path machine contributes obligations  path condition => clause."""
import time
import z3
from .cfront import OutOfReach
from .symex import Ptr, PIte, Opaque, Ref, Struct, NULL, S, I, is_null, lit, lit_axioms, ufun
from .apimach import APIMachine, run_paths

OK = 0


class D:
    """a local or parameter descriptor, by its name in the contract"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class DV(D):
    def __init__(self, name, i, j, m, n):
        self.name, self.v = name, [i, j, m, n]

    def __repr__(self):
        return "%s(view)" % self.name


class _Any:
    def __repr__(self):
        return "any"


ANY = _Any()


class GE:
    def __init__(self, x):
        self.x = x

    def __repr__(self):
        return ">= %s" % z3.simplify(self.x)


class Pred:
    """an argument described by a formula"""
    def __init__(self, f, text):
        self.f, self.text = f, text

    def __repr__(self):
        return self.text


class SEQ:
    pass


class REQ:
    pass


class Step:
    def __init__(self, name, args, cond=None, opt=False, binds=None):
        self.names = name if isinstance(name, tuple) else (name,)
        self.name, self.args, self.cond, self.opt, self.binds = self.names[0], args, cond, opt, binds

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(str(z3.simplify(a)) if isinstance(a, z3.ExprRef) else str(a) for a in self.args if a is not SEQ and a is not REQ))


HARMLESS = {"loop-count", "acquire", "release", "loop-enter", "loop-exit", "sequence-init", "tune", "malloc", "destroy", "parallel-begin",
            "parallel-end", "plasma_desc_check", "alloc-failed", "free", "view", "taskwait", "plasma_barrier_init", "iteration-end",
            "omp_get_max_threads", "omp_get_thread_num", "omp_get_num_threads", "plasma_request_fail", "task-begin", "task-end", "master-begin", "master-end"}


def is_compute(e):
    """does the event touch a matrix, create something or start a computation?"""
    n = e.name
    if n == "load":
        return True
    if n.startswith("create:") or n == "created":
        return True
    return n not in HARMLESS and not n.startswith("!")


class Prover:
    """validity under a path condition and the facts known about it.  Divisions by a tile size get their defining facts;
    quotients by the same size whose dividends differ by a multiple of it are related."""
    def __init__(self, pc, facts=()):
        self.s = z3.Solver()
        self.s.set("timeout", 8000)
        self.divs = []
        self.model = None
        self.seen = set()
        for e in list(pc) + list(facts):
            self.s.add(e)
            self.note(e)
        self.s.add(*lit_axioms())

    def note(self, e):
        """side facts of the terms of e"""
        todo = [e]
        while todo:
            x = todo.pop()
            if x.get_id() in self.seen:
                continue
            self.seen.add(x.get_id())
            todo += x.children()
            n = x.decl().name() if z3.is_app(x) else ""
            if x.num_args() == 0 if z3.is_app(x) else False:
                if n.startswith("plasma") and (n.endswith(".nb") or n.endswith(".ib")):
                    self.s.add(x >= 1)
                self.keep = getattr(self, "keep", []) + [x]
            if n == "cdiv":
                a, d = x.arg(0), x.arg(1)
                self.s.add(z3.Implies(z3.And(a >= 0, d >= 1), z3.And(x >= 0, x * d <= a, a < x * d + d)))
                for y in self.divs:
                    if y.arg(1).eq(d):
                        c = y.arg(0)
                        for k in (-2, -1, 0, 1, 2):
                            self.s.add(z3.Implies(z3.And(a >= 0, c >= 0, d >= 1, a == c + k * d), x == y + k))
                self.divs.append(x)
        self.keep = getattr(self, "keep", []) + [e]

    def valid(self, g):
        """True / False / None"""
        if isinstance(g, bool):
            return g
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        self.note(g)
        self.s.push()
        self.s.add(z3.Not(g))
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        return True if r == z3.unsat else False if r == z3.sat else None

    def possible(self, g=True):
        if not isinstance(g, bool):
            self.note(g)
        self.s.push()
        if not isinstance(g, bool) or not g:
            self.s.add(g)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        return r != z3.unsat


def mtext(m):
    if m is None:
        return ""
    return ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and not d.name().startswith("lit("))[:1200]


class Fn:
    """one function: its paths, the contract environment, and recording of obligations"""
    def __init__(self, srcs, rel, fname, r, extra=None, names=None):
        self.r = r
        self.names = names or {}
        tu = srcs.tu(rel)
        self.tu, self.fname = tu, fname
        self.m = APIMachine(tu, tu.enum_names, srcs, extra)
        self.en = tu.enum_names
        self.paths = run_paths(self.m, fname)
        self.fn = self.m.find_function(fname)
        r.functions.append(fname)
        r.functions += sorted(self.m.inlined - {fname})
        for p in self.paths:
            p.facts = self.facts(p)

    def facts(self, p):
        """contracts of the callees about their return codes"""
        out = []
        seen = set()
        for e in p.pc:
            for v in consts(e):
                nm = v.decl().name()
                if nm in seen:
                    continue
                seen.add(nm)
                if nm.startswith("ret:") and nm.split("#")[0] in ("ret:general", "ret:band", "ret:triangular", "ret:T", "ret:workspace"):
                    out.append(z3.Or(v == 0, v == self.en["PlasmaErrorOutOfMemory"], v == self.en["PlasmaErrorIllegalValue"]))
                if nm.startswith("seq.status"):
                    out.append(z3.Or(v >= 0, v <= -101))
        if isinstance(p.ret, z3.ArithRef):
            for v in consts(p.ret):
                nm = v.decl().name()
                if nm.startswith("seq.status") and nm not in seen:
                    out.append(z3.Or(v >= 0, v <= -101))
        return out

    def ob(self, name, status, secs, where, info, model=""):
        self.r.obs.append((name, status, secs, where, info, model))

    def check(self, P, name, goal, where, kind, hint=""):
        t = time.time()
        v = P.valid(goal)
        info = dict(kind=kind, hint=hint)
        if v is False:
            info["inputs"] = self.inputs(P.model)
        self.ob(name, "proved" if v else "refuted" if v is False else "unknown", time.time() - t, where, info, mtext(P.model) if v is False else "")
        return v

    def inputs(self, m):
        """the scalar arguments of the counterexample, by position"""
        out = {}
        try:
            for k, a in enumerate(_args(self)):
                if not isinstance(a, z3.ExprRef) or not any(d.name() == a.decl().name() for d in m.decls()):
                    continue
                if isinstance(a, z3.ArithRef):
                    v = m.eval(a).as_long()
                    if abs(v) < 2**31:
                        out[k] = v
                else:
                    for x in (0.0, 1.0, -1.0):
                        if z3.is_true(m.eval(a == lit(x))):
                            out[k] = x
        except Exception:       # noqa: only a help for the replay
            pass
        return out

    def flag(self, name, ok, where, kind, hint="", model=""):
        self.ob(name, "proved" if ok else "refuted", 0.0, where, dict(kind=kind, hint=hint), model)

    def where(self, p):
        return "%s:%s" % (self.tu.rel, p.events[-1].line if p.events else "")

    # -------------------------------------------------------------- matching
    def version_tag(self, p):
        return p.version if hasattr(p, "version") else 0


def consts(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def dims_of(x):
    return lambda f: x.f[f] if f in x.f and isinstance(x.f[f], z3.ExprRef) else z3.Int("%s.%s" % (x.f.get("$id"), f))


def seqish(a):
    return isinstance(a, (Ref, Opaque))


class Matcher:
    def __init__(self, fn, p, P, bind):
        self.fn, self.p, self.P, self.bind = fn, p, P, dict(bind)
        self.why = ""
        self.unsure = False

    def yes(self, g):
        v = self.P.valid(g)
        if v is None:
            self.unsure = True
        return v is True

    def arg(self, x, a):
        """does actual a match expected x (under the path condition)?"""
        if x is ANY:
            return True
        if isinstance(x, Pred):
            return isinstance(a, z3.ExprRef) and self.yes(x.f(a))
        if x is SEQ or x is REQ:
            if not seqish(a):
                return False
            k = "$" + x.__name__
            if k in self.bind:
                return self.bind[k] == repr(a)
            other = "$REQ" if x is SEQ else "$SEQ"
            if self.bind.get(other) == repr(a):
                return False
            self.bind[k] = repr(a)
            return True
        if isinstance(x, D):
            if not isinstance(a, Struct):
                return False
            ident = a.f.get("$id")
            if x.name in self.bind:
                if self.bind[x.name] != ident:
                    return False
            elif ident in self.bind.values():
                return False
            else:
                return False        # descriptors are bound where they are created
            av = a.f.get("$view")
            par = a
            while "$parent" in par.f:
                par = par.f["$parent"]
            d = dims_of(par)
            if av is None:
                av = [z3.IntVal(0), z3.IntVal(0), d("m"), d("n")]
            xv = x.v if isinstance(x, DV) else [z3.IntVal(0), z3.IntVal(0), d("m"), d("n")]
            xv = [v(d) if callable(v) else v for v in xv]
            return all(self.yes(u == v) for u, v in zip(av, xv))
        if isinstance(x, GE):
            return isinstance(a, z3.ArithRef) and self.yes(a >= x.x)
        if isinstance(x, Struct):
            return isinstance(a, Struct) and a.f.get("$id") == x.f.get("$id") and "$view" not in a.f
        if isinstance(x, Ptr):
            if isinstance(a, PIte):
                cs = self.P.valid(a.c)
                if cs is True:
                    return self.arg(x, a.a)
                if self.yes(z3.Not(a.c)):
                    return self.arg(x, a.b)
                return self.arg(x, a.a) and self.arg(x, a.b)
            if not isinstance(a, Ptr):
                return False
            if x.obj == "NULL" or a.obj == "NULL":
                return x.obj == a.obj
            return str(x.obj) == str(a.obj) and self.yes(x.off == a.off)
        if isinstance(x, Alloc):
            if not (isinstance(a, Ptr) and hasattr(a.obj, "name")):
                return False
            if x.name in self.bind:
                if self.bind[x.name] != a.obj.name:
                    return False
            elif a.obj.name in self.bind.values():
                return False
            else:
                self.bind[x.name] = a.obj.name
            return self.yes(a.off == x.off)
        if isinstance(x, (int, float)):
            x = lit(x) if isinstance(x, float) else z3.IntVal(x)
        if isinstance(x, z3.ExprRef):
            if not isinstance(a, z3.ExprRef) or a.sort() != x.sort():
                return False
            if self.yes(a == x):
                return True
            self.why = "%s is not %s" % (z3.simplify(a), z3.simplify(x))
            return False
        if isinstance(x, str):
            return str(a) == x
        return repr(x) == repr(a)

    def step(self, s, name, args):
        if name not in s.names or len(s.args) != len(args):
            return False
        b = dict(self.bind)
        for i, (x, a) in enumerate(zip(s.args, args)):
            if not self.arg(x, a):
                self.why = "argument %d of %s: %s" % (i + 1, name, self.why or show(a))
                self.bind = b
                return False
        return True


class Alloc:
    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return "memory %s" % self.name


def show(x):
    if isinstance(x, Struct):
        return "%s%s" % (x.f.get("$id"), [z3.simplify(v) for v in x.f["$view"]] if "$view" in x.f else "")
    if isinstance(x, Ptr):
        return "%s+%s" % (x.obj, z3.simplify(x.off))
    if isinstance(x, z3.ExprRef):
        return str(z3.simplify(x)).replace("\n", " ")
    return str(x)


CREATE = Step("created", [])


def actual_steps(p):
    """the significant events as (name, args, ident, line, touched names)"""
    out = []
    for e in p.events:
        if e.name == "created":
            ident, kind, a = e.args
            out.append(("create:" + kind, list(a[:-1]), ident, e.line, {ident} | ids(a[:-1])))
        elif e.name == "create:workspace":
            out.append((e.name, list(e.args[1:]), e.args[0], e.line, {e.args[0]}))
        elif e.name.startswith("create:"):
            continue
        elif e.name in HARMLESS or e.name.startswith("!") or e.name == "load":
            continue
        elif is_compute(e):
            out.append((e.name, list(e.args), None, e.line, ids(e.args)))
    return out


def ids(args):
    s = set()
    for a in args:
        if isinstance(a, Struct):
            s.add(a.f.get("$id"))
        elif isinstance(a, PIte):
            s |= ids([a.a, a.b])
        elif isinstance(a, Ptr) and a.obj != "NULL":
            s.add(str(a.obj))
    return s


def match_script(fn, p, P, expected, bind, failed):
    """None if the path performs the expected steps, else a reason"""
    act = actual_steps(p)
    todo = list(range(len(act)))
    m = Matcher(fn, p, P, bind)
    chosen = []
    for s in expected:
        hit = None
        why = ""
        for i in todo:
            nm, args, ident, line, touched = act[i]
            if nm not in s.names:
                continue
            m.why = ""
            if m.step(s, nm, args):
                hit = i
                if ident is not None and s.binds:
                    if s.binds in m.bind and m.bind[s.binds] != ident:
                        hit = None
                        continue
                    m.bind[s.binds] = ident
                break
            why = why or m.why
        if hit is None:
            if s.opt or failed:
                continue
            return ("?" if m.unsure else "") + "step %r is not performed%s" % (s, " (%s)" % why if why else "")
        # conflicting later steps must come later: every earlier unmatched conflicting actual step is out of order
        for j in chosen:
            if j > hit and (act[j][4] & act[hit][4]):
                return "step %r comes before %s" % (s, act[j][0])
        todo.remove(hit)
        chosen.append(hit)
    if todo:
        nm, args, ident, line, _ = act[todo[0]]
        return ("?" if m.unsure else "") + "unexpected step %s(%s) at line %s" % (nm, ", ".join(show(a)[:60] for a in args), line)
    return None


def match_all(fn, p, P, expected, bind, failed):
    """splits on undecided conditions of the contract, then matches"""
    open_ = [s for s in expected if s.cond is not None and not isinstance(s.cond, bool)]
    und = []
    for s in open_:
        if P.valid(s.cond) is True or P.valid(z3.Not(s.cond)) is True:
            continue
        if not any(s.cond.eq(u) for u in und):
            und.append(s.cond)
    if len(und) > 6:
        raise OutOfReach("too many undecided conditions")
    reasons = []

    def rec(k, extra):
        Q = Prover(p.pc + extra, p.facts) if extra else P
        if extra and not Q.possible():
            return
        if k < len(und):
            rec(k + 1, extra + [und[k]])
            rec(k + 1, extra + [z3.Not(und[k])])
            return
        exp = [s for s in expected if s.cond is None or s.cond is True or (not isinstance(s.cond, bool) and Q.valid(s.cond) is True)]
        why = match_script(fn, p, Q, exp, bind, failed)
        if why:
            Q.possible()
            reasons.append((why, mtext(Q.model)))
    rec(0, [])
    return reasons


class Env:
    """what a contract may refer to: parameters by position, the context fields and the enum constants"""
    def __init__(self, fn, p, prec):
        self.fn, self.path, self.prec = fn, p, prec
        self.en = fn.en
        self.p = []
        m = fn.m

        class Box:
            env = {}
        m.cur_state0 = Box()
        for q, a in zip(fn.fn.params, _args(fn)):
            self.p.append(a)
        v = sum(1 for e in p.events if e.name == "tune") if p is not None else 0
        t = "plasma@%d" % v if v else "plasma"
        self.nb, self.ib = z3.Int(t + ".nb"), z3.Int(t + ".ib")
        self.ctx = lambda f: z3.Int("%s.%s" % (t, f))
        self.isnull_ctx = z3.Bool("isnull(plasma)")
        self.cplx = prec in "zc"
        self.names = fn.names
        self.CT = z3.IntVal(self.en["PlasmaConjTrans" if self.cplx else "PlasmaTrans"])
        self.isnan = lambda x: ufun("isnan", S, z3.BoolSort())(x)
        self.P = self.en["Plasma" + {"z": "ComplexDouble", "c": "ComplexFloat", "d": "RealDouble", "s": "RealFloat"}[prec]]
        self.Plow = self.en["Plasma" + {"z": "ComplexFloat", "d": "RealFloat"}.get(prec, "RealFloat")]

    def __getattr__(self, n):
        if n.startswith("Plasma"):
            return z3.IntVal(self.__dict__["en"][n])
        raise AttributeError(n)

    def name(self, z):
        return z


def _args(fn):
    from .apimach import sym_args
    fn.m.cur_env_init = []
    return sym_args(fn.m, fn.fn)


def first_illegal(err):
    """code -> condition 'this is the first illegal argument'; and 'all legal'"""
    out, prev = [], []
    for pos, c in err:
        out.append((pos, z3.And(*([z3.Not(x) for x in prev] + [c]))))
        prev.append(c)
    legal = z3.And(*[z3.Not(x) for x in prev]) if prev else z3.BoolVal(True)
    return out, legal


def nothing(p, allow=()):
    return [e for e in p.events if is_compute(e) and e.name not in allow]


def hyps(fn, p, e, sp, omp):
    """preconditions of the routine: checked descriptors have sane sizes (C02), documented shape relations"""
    out = list(p.facts) + list(sp.get("pre", []))
    if omp:
        for d in sp.get("descs", []):
            i = e.p[d].f["$id"]
            m, n = z3.Int(i + ".m"), z3.Int(i + ".n")
            out.append(z3.Implies(z3.Int("check(%s)" % i) == 0, z3.And(m >= 0, n >= 0)))
        for d in sp.get("square", []):
            i = e.p[d].f["$id"]
            out.append(z3.Int(i + ".m") == z3.Int(i + ".n"))
    return out


def usable(p):
    return p.kind in ("return", "exit")


def alloc_failed(p):
    return any(e.name == "alloc-failed" for e in p.events)


def last_status(p):
    """the seq.status symbols constrained on the path"""
    out = {}
    for c in p.pc:
        for v in consts(c):
            if v.decl().name().startswith("seq.status"):
                out[v.decl().name()] = v
    return list(out.values())


# ------------------------------------------------------------------ C04
def check_args_sync(fn, spec, prec):
    if not fn.paths:
        raise OutOfReach("no paths")
    for i, p in enumerate(fn.paths):
        if p.kind == "infeasible" or p.kind == "loop-back":
            continue
        e = Env(fn, p, prec)
        sp = spec(e)
        set_aside(p, e, sp)
        H = hyps(fn, p, e, sp, False)
        P = Prover(p.pc, H)
        P.model = None
        if not P.possible():
            continue
        first, legal = first_illegal(sp["err"])
        nul = e.isnull_ctx
        w = fn.where(p)
        dirty = nothing(p)
        if p.kind == "exit":
            fn.check(P, "stop-only-without-init", nul, w, "C04-fatal", "the library stops the program only when it was not initialized")
            continue
        if P.possible(nul):
            fn.check(P, "not-initialized", z3.Implies(nul, z3.And(not dirty, p.ret == fn.en["PlasmaErrorNotInitialized"]) if isinstance(p.ret, z3.ArithRef) else z3.BoolVal(not dirty)),
                     w, "C04-context", "no context: nothing is done")
        for pos, c in first:
            c = z3.And(z3.Not(nul), c)
            if not P.possible(c):
                continue
            if dirty:
                fn.check(P, "illegal-%d-touches-nothing" % pos, z3.Not(c), w, "C04-frame", "argument %d is illegal, yet %s" % (pos, dirty[0].name))
            if p.ret is None or not isinstance(p.ret, z3.ArithRef):
                r = None
                if isinstance(p.ret, z3.ExprRef):
                    r = p.ret == lit(float(-pos))
                fn.check(P, "illegal-%d-reported" % pos, z3.Implies(c, r if r is not None else z3.BoolVal(False)), w, "C04-code", "returns %s" % show(p.ret))
            else:
                fn.check(P, "illegal-%d-reported" % pos, z3.Implies(c, p.ret == -pos), w, "C04-code", "first illegal argument is %d, returns %s" % (pos, show(p.ret)))
        if isinstance(p.ret, z3.ArithRef):
            fn.check(P, "legal-not-reported", z3.Implies(z3.And(z3.Not(nul), legal), z3.Or(p.ret >= 0, p.ret <= -101)), w, "C04-legal", "all arguments legal, returns %s" % show(p.ret))
        elif isinstance(p.ret, z3.ExprRef):
            for pos, c in first:
                if p.ret.eq(lit(float(-pos))):
                    fn.check(P, "legal-not-reported", z3.Not(z3.And(z3.Not(nul), legal)), w, "C04-legal", "all arguments legal, returns %s" % show(p.ret))


def omp_bad(e, sp):
    """illegal conditions of a tile-level routine: options, descriptors, sequence, request"""
    out = list(sp.get("bad", []))
    for d in sp.get("descs", []):
        st = e.p[d]
        out.append(z3.Int("check(%s)" % st.f["$id"]) != 0)
    for q, a in zip(e.fn.fn.params, e.p):
        if "sequence" in q.type or "request" in q.type:
            out.append(is_null(a))
    return out


def set_aside(p, e, sp):
    """stores of zero to a counter the routine returns (before anything else is decided) are no effect on data"""
    for pos in sp.get("counter", ()):
        obj = repr(e.p[pos].obj) if isinstance(e.p[pos], Ptr) else None
        p.events = [x for x in p.events if not (x.name == "store" and isinstance(x.args[0], Ptr) and repr(x.args[0].obj) == obj and
                                                isinstance(x.args[1], z3.ArithRef) and z3.simplify(x.args[1]).eq(z3.IntVal(0)))]


def check_args_omp(fn, spec, prec):
    for p in fn.paths:
        if p.kind in ("infeasible",):
            continue
        e = Env(fn, p, prec)
        sp = spec(e)
        set_aside(p, e, sp)
        H = hyps(fn, p, e, sp, True)
        P = Prover(p.pc, H)
        P.model = None
        bad = omp_bad(e, sp) + [e.isnull_ctx]
        w = fn.where(p)
        dirty = nothing(p)
        ill = z3.Or(*bad)
        if dirty:
            fn.check(P, "illegal-touches-nothing", z3.Not(ill), w, "C04-omp-frame", "illegal argument, yet %s" % dirty[0].name)
        rf = [x for x in p.events if x.name == "plasma_request_fail"]
        if p.kind == "exit":
            fn.check(P, "stop-only-when-illegal", ill, w, "C04-omp-fatal")
        elif rf and not dirty:
            fn.check(P, "failure-only-when-illegal", ill, w, "C04-omp-legal", "request_fail(%s)" % show(rf[0].args[2]))
        elif not dirty and not rf and p.kind == "return" and not sp.get("silent"):
            fn.check(P, "illegal-reported", z3.Not(z3.And(ill)), w, "C04-omp-code", "illegal argument and no failure recorded")


# ------------------------------------------------------------------ C19
def check_quick(fn, spec, prec, omp=False):
    zeroing = None
    for p in fn.paths:
        if (not usable(p) or p.kind == "exit") and p.kind != "loop-back":
            continue
        e = Env(fn, p, prec)
        sp = spec(e)
        set_aside(p, e, sp)
        if p.kind == "loop-back" and "quick_zeroes" not in sp:
            continue
        H = hyps(fn, p, e, sp, omp)
        P = Prover(p.pc, H)
        P.model = None
        legal = z3.Not(z3.Or(*(omp_bad(e, sp) + [e.isnull_ctx]))) if omp else z3.And(z3.Not(e.isnull_ctx), first_illegal(sp["err"])[1])
        quick = sp["quick"]
        if "quick_zeroes" in sp and quick is not None:
            if zeroing is None:
                zeroing = Zeroing(fn, e, sp, z3.And(legal, quick), H)
            if P.possible(z3.And(legal, quick)):
                zeroing.path(p)
            if p.kind == "loop-back":
                continue
        if quick is None:
            continue
        w = fn.where(p)
        q = z3.And(legal, quick)
        dirty = nothing(p)
        if sp.get("quick_stores"):      # the value of the norm is set
            dirty = [x for x in dirty if not (x.name == "store" and z3.is_expr(x.args[1]) and z3.simplify(x.args[1]).eq(lit(0.0)))]
        if "quick_zeroes" in sp:
            pos = sp["quick_zeroes"][0]
            dirty = [x for x in dirty if not (x.name == "store" and isinstance(x.args[0], Ptr) and repr(x.args[0].obj) == repr(e.p[pos].obj) and
                                              z3.is_expr(x.args[1]) and z3.simplify(x.args[1]).eq(lit(0.0)))]
        if P.possible(q):
            if sp.get("quick_stores"):
                z0 = [x for x in p.events if x.name == "store" and z3.is_expr(x.args[1]) and z3.simplify(x.args[1]).eq(lit(0.0))]
                if not z0:
                    fn.check(P, "zero-size-value", z3.Not(q), w, "C19-quick", "the value is not set to zero")
            qs = sp.get("quick_steps")
            if qs is not None:
                Q = Prover(p.pc + [q], H)
                why = match_all(fn, PathView(p, p.pc + [q], H), Q, qs, bind0(e, sp, omp), False)
                why = [x for x in why if not x[0].startswith("?")]
                fn.flag("zero-size-effect", not why, w, "C19-quick", why[0][0] if why else "", why[0][1] if why else "")
            elif dirty and not sp.get("quick_free"):
                fn.check(P, "zero-size-no-effect", z3.Not(q), w, "C19-quick", "nothing to compute, yet %s" % dirty[0].name)
            if not omp:
                ret = sp.get("quick_ret", z3.IntVal(0))
                if isinstance(p.ret, z3.ExprRef) and p.ret.sort() == ret.sort():
                    fn.check(P, "zero-size-returns-success", z3.Implies(q, p.ret == ret), w, "C19-ret", "returns %s" % show(p.ret))
                else:
                    fn.flag("zero-size-returns-success", False, w, "C19-ret", "returns %s" % show(p.ret))
            elif any(x.name == "plasma_request_fail" for x in p.events):
                fn.check(P, "zero-size-no-failure", z3.Not(q), w, "C19-ret", "a failure is recorded")
        work = [x for x in dirty if not x.name.startswith("create") and x.name not in ("store", "load")]
        if not work and not alloc_failed(p):
            fn.check(P, "work-not-skipped", z3.Not(z3.And(legal, z3.Not(quick))), w, "C19-work", "there is work to do and nothing is called")
    if zeroing is not None:
        zeroing.done()


class Zeroing:
    """nothing to compute, but the result is zero: every element of the documented region is set to zero, and nothing else"""
    def __init__(self, fn, e, sp, q, H):
        self.fn, self.q, self.H = fn, q, H
        pos, self.rows, self.cols, self.ld = sp["quick_zeroes"]
        self.obj = repr(e.p[pos].obj)
        self.cover, self.unsure = [], False
        self.i, self.j = z3.Int("i*"), z3.Int("j*")

    def path(self, p):
        if any(is_compute(x) and x.name != "store" for x in p.events):
            self.unsure = True
        counts = [(x.args[0], x.args[1]) for x in p.events if x.name == "loop-count"]
        for x in p.events:
            if x.name != "store":
                continue
            ptr, val = x.args[:2]
            if not (isinstance(ptr, Ptr) and repr(ptr.obj) == self.obj and z3.is_expr(val) and z3.simplify(val).eq(lit(0.0))):
                self.unsure = True
                continue
            w = "%s:%s" % (self.fn.tu.rel, x.line)
            P = Prover(p.pc + [self.q], self.H)
            # frame: some (i, j) of the region is written
            off = ptr.off
            inside = False
            for a, _ in counts:
                for b, _ in counts:
                    if not a.eq(b) and P.valid(z3.And(off == b * self.ld + a, a >= 0, a < self.rows, b >= 0, b < self.cols)) is True:
                        inside = True
            if not inside and P.valid(z3.Or(off < 0, off >= self.ld * self.cols)) is True:
                self.fn.flag("zeroes-only-the-result", False, w, "C19-quick", "element %s is written" % show(off))
            self.unsure |= not inside
            self.fn.ob("zeroes-only-the-result", "proved" if inside else "unknown", 0.0, w, dict(kind="C19-quick"), "")
            if len(counts) == 2:
                pc = [c for c in p.pc if not any(v.decl().name().startswith("choice:") for v in consts(c))]
                for a, b in (counts, counts[::-1]):
                    sub = [(a[0], self.i), (b[0], self.j)]
                    g = z3.And(*(pc + [self.i >= a[1], self.j >= b[1], off == self.j * self.ld + self.i]))
                    self.cover.append(z3.substitute(g, *sub))
            else:
                self.unsure = True

    def done(self):
        P = Prover([self.q, self.i >= 0, self.i < self.rows, self.j >= 0, self.j < self.cols], self.H)
        g = z3.Or(*self.cover) if self.cover else z3.BoolVal(False)
        v = P.valid(g)
        st = "proved" if v is True else "unknown" if v is None or self.unsure else "refuted"
        self.fn.ob("zeroes-the-whole-result", st, 0.0, self.fn.tu.rel, dict(kind="C19-quick", hint="an element of the result is not set to zero"), mtext(P.model) if v is False else "")


class PathView:
    def __init__(self, p, pc, facts):
        self.__dict__.update(p.__dict__)
        self.pc, self.facts = pc, facts


def bind0(e, sp, omp):
    b = {}
    for q, a in zip(e.fn.fn.params, e.p):
        if isinstance(a, Struct) and "desc" in q.type:
            b[a.f["$id"]] = a.f["$id"]
    if omp:
        for q, a in zip(e.fn.fn.params, e.p):
            if "sequence" in q.type:
                b["$SEQ"] = repr(a)
            if "request" in q.type:
                b["$REQ"] = repr(a)
    return b


# ------------------------------------------------------------------ C20
def check_steps(fn, spec, prec, omp=False):
    seen = False
    for p in fn.paths:
        if p.kind != "return" or alloc_failed(p):
            continue
        e = Env(fn, p, prec)
        sp = spec(e)
        set_aside(p, e, sp)
        if sp.get("steps") is None:
            raise OutOfReach("no step contract")
        H = hyps(fn, p, e, sp, omp)
        P = Prover(p.pc, H)
        P.model = None
        legal = z3.Not(z3.Or(*(omp_bad(e, sp) + [e.isnull_ctx]))) if omp else z3.And(z3.Not(e.isnull_ctx), first_illegal(sp["err"])[1])
        quick = sp["quick"] if sp["quick"] is not None else z3.BoolVal(False)
        c = z3.And(legal, z3.Not(quick))
        if not P.possible(c):
            continue
        pc = p.pc + [c]
        Q = Prover(pc, H)
        Q.model = None
        ls = last_status(p)
        failed = bool(ls) and not Q.possible(z3.And(*[v == 0 for v in ls]))
        t = time.time()
        why = match_all(fn, PathView(p, pc, H), Q, sp["steps"], bind0(e, sp, omp), failed)
        n = len([s for s in sp["steps"]])
        fn.ob("steps-performed", "proved" if not why else "unknown" if all(x[0].startswith("?") for x in why) else "refuted", time.time() - t, fn.where(p),
              dict(kind="C20-steps", steps=n, hint=why[0][0] if why else ""), why[0][1] if why else "")
        seen = True
        if not omp:
            want = sp.get("ret", "status")
            if want == "status":
                ok = isinstance(p.ret, z3.ArithRef) and status_is_last(fn, p)
                fn.flag("returns-final-status", ok, fn.where(p), "C20-ret", "returns %s" % show(p.ret))
            elif want is not None:
                fn.flag("returns-value", bool(want(p)), fn.where(p), "C20-ret", "returns %s" % show(p.ret))
    if not seen:
        fn.flag("steps-reachable", False, fn.tu.rel, "C20-steps", "no path performs the computation")


def status_is_last(fn, p):
    """the returned value is the value of the sequence status when the function returns"""
    cur = [v for k, v in p.state.env.items() if isinstance(v, Struct) and "sequence" in v.tag]
    return any(isinstance(v.f.get("status"), z3.ExprRef) and v.f["status"].eq(p.ret) for v in cur) or (
        z3.is_int_value(p.ret) and p.ret.as_long() == 0 and last_zero(p, cur))


def last_zero(p, cur):
    P = Prover(p.pc)
    return any(P.valid(v.f["status"] == 0) is True for v in cur if isinstance(v.f.get("status"), z3.ExprRef))


# ------------------------------------------------------------------ C13
def check_release(fn, keep=(), omp=False):
    """at every return nothing is held except what the caller gets; failures are reported and nothing is written after them"""
    n = 0
    for p in fn.paths:
        if p.kind == "infeasible":
            continue
        P = Prover(p.pc, p.facts)
        P.model = None
        if not P.possible():
            continue
        n += 1
        w = fn.where(p)
        bad = [e for e in p.events if e.name in ("!leak", "!release")]
        fn.flag("released-once", not bad, w, "C13-once", bad[0].args[1] if bad else "", mtext(P.model) if bad else "")
        if p.kind == "exit":
            continue
        held = {k: v for k, v in p.res.items() if v[0] == "held"}
        if p.kind == "loop-back":
            inl = {e.args[0] for e in p.events if e.name == "acquire" and e.loop}
            lk = [v[2] for k, v in held.items() if k in inl]
            fn.flag("iteration-releases", not lk, w, "C13-loop", ", ".join(lk))
            continue
        fl = [e for e in p.events if e.name == "alloc-failed"]
        out = {k for k in held if k.startswith("desc:ref(*")}
        lk = [v[2] for k, v in held.items() if k not in out or fl]
        if not fl and isinstance(p.ret, z3.ArithRef) and out and P.valid(p.ret < 0) is True:
            lk = [v[2] for v in held.values()]
        fn.flag("nothing-leaks", not lk, w, "C13-leak", "still held on return: " + ", ".join(lk) if lk else "", mtext(P.model) if lk else "")
        if fl:
            k = p.events.index(fl[0])
            code = fl[0].args[1] if len(fl[0].args) > 1 else z3.IntVal(fn.en["PlasmaErrorOutOfMemory"])
            after = [e for e in p.events[k + 1:] if is_compute(e) and not e.name.startswith("create") and e.name not in ("created", "load")]
            if omp:
                rf = [e for e in p.events[k:] if e.name == "plasma_request_fail"]
                good = rf and P.valid(rf[0].args[2] == code) is True
                fn.flag("failure-reported", bool(good), w, "C13-code", "request_fail(%s)" % (show(rf[0].args[2]) if rf else "not called"))
            else:
                if isinstance(p.ret, z3.ArithRef):
                    fn.check(P, "failure-reported", p.ret == code, w, "C13-code", "returns %s" % show(p.ret))
                elif isinstance(p.ret, z3.ExprRef):
                    fn.check(P, "failure-reported", p.ret == lit(float(fn.en["PlasmaErrorOutOfMemory"])) if code is None else z3.Or(p.ret == lit(float(fn.en["PlasmaErrorOutOfMemory"])), i2s_of(p.ret, code)), w, "C13-code", "returns %s" % show(p.ret))
            fn.flag("nothing-written-after-failure", not after, w, "C13-frame", "%s" % (after[0].name if after else ""))
    if not n:
        raise OutOfReach("no feasible path")


def i2s_of(ret, code):
    from .symex import ufun
    return ret == ufun("i2s", I, S)(code)
