"""Path-wise symbolic execution of loop-free control code (the API layer, control/, descriptor code).

Every path is executed on its own: a branch whose condition is not decided by the path condition is a decision
point, and the function is run again for each decision (feasibility decided by z3).  A loop is cut: the executor
visits an arbitrary iteration (assigned variables havocked, condition assumed; the path then ends as 'loop-back'
with the state of an arbitrary completed iteration) and, separately, the exit (assigned variables havocked,
condition false).  For a canonical counting loop the bound `variable >= initial value` is assumed, which is
inductive because the variable is changed only by the increment (checked syntactically).
A loop without calls, returns and branches is summarised instead by the loop rule of symex.Machine.

Contracts (dict name -> handler(machine, args, node, state)) stand for the callees."""
import z3
from .cfront import OutOfReach
from .symex import (Machine, State, Ptr, PIte, Opaque, Ref, Struct, MaybeNull, NULL, UNDEF, S, I, ite, fresh, is_bool, is_int, is_scalar, is_null,
                    to_int, to_bool, to_scalar, type_kind, lit, ufun, lit_axioms)


class Return(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Goto(Exception):
    def __init__(self, label):
        self.label = label


class EndPath(Exception):
    """the path ends here (arbitrary iteration finished, or execution stopped)"""
    def __init__(self, kind):
        self.kind = kind


class Path:
    def __init__(self):
        self.pc, self.events, self.ret, self.kind, self.decisions = [], [], None, "return", ()
        self.state = None
        self.line = 0


class Ev:
    """event of a path"""
    __slots__ = ("name", "args", "line", "n", "fresh", "loop", "task", "region", "extra")

    def __init__(self, name, args, line, n, loop, task, region):
        self.name, self.args, self.line, self.n, self.loop, self.task, self.region = name, args, line, n, loop, task, region
        self.extra = None

    def __repr__(self):
        return "%s(%s)@%s" % (self.name, ", ".join(str(a)[:60] for a in self.args), self.line)


class PathMachine(Machine):
    max_paths = 4000
    max_depth = 30

    def __init__(self, tu, contracts=None, srcs=None, inline_extra=None, auto=True):
        super().__init__(tu, contracts, srcs, inline_extra)
        self.auto = auto            # unknown calls become events with an unconstrained result
        self.summ = 0
        self.version = 0
        self.axioms = []
        self.cache = {}
        self.hyps = []
        self.loop_depth = 0
        self.init_hook = None
        self.param_objs = {}

    # ------------------------------------------------------------ driver
    def paths(self, fname, mkargs, hyps=(), mkenv=None):
        """all paths of the function; mkargs(machine) -> arguments (called anew for every path)"""
        out, todo = [], [()]
        fn = self.find_function(fname)
        if fn is None:
            raise OutOfReach("function %s not found" % fname)
        while todo:
            pre = todo.pop()
            self.prefix, self.k, self.taken = pre, 0, []
            self.hyps = list(hyps)
            self.pc, self.evs, self.version, self.counter = [], [], 0, {}
            self.alts = []
            self.solver = z3.Solver()
            self.solver.set("timeout", 4000)
            self.solver.add(*self.hyps)
            self.solver.add(*lit_axioms())
            self.loop_depth, self.loopid, self.region, self.task, self.summ = 0, (), (), None, 0
            self.res = {}
            self.events, self.loops, self.assume = [], [], []
            st = State({}, [])
            if mkenv:
                mkenv(self, st)
            args = mkargs(self)
            for p, a in zip(fn.params, args):
                st.env[p.id] = a
            P = Path()
            self.cur = st
            old = self.tu
            self.tu = fn.tu
            self.depth += 1
            self.inlined.add(fname)
            try:
                self.stmt(fn.body, st)
                P.kind = "return"
            except Return:
                P.kind = "return"
            except EndPath as e:
                P.kind = e.kind
            finally:
                self.tu = old
                self.depth -= 1
            P.pc, P.events, P.ret, P.state, P.decisions = list(self.pc), self.evs, st.ret, st, tuple(self.taken)
            P.res = dict(self.res)
            out.append(P)
            if len(out) > self.max_paths:
                raise OutOfReach("more than %d paths in %s" % (self.max_paths, fname))
            todo += self.alts
        return out

    def sym(self, name, sort=I):
        """a symbol that is the same in every run of the same path position"""
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return z3.Const("%s#%d" % (name, k) if k else name, sort)

    def fresh(self, prefix, sort=I):
        if self.summ:
            return super().fresh(prefix, sort)
        return self.sym(prefix + "!", sort)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def decide(self, c):
        """forks on a condition; returns the branch of this run"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.k < len(self.prefix):
            d = self.prefix[self.k]
            both = False
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise EndPath("infeasible")
            both = t and f
            d = t
            if both:
                self.alts.append(tuple(self.taken) + (False,))
            if not both:
                d = ("only", t)
        self.k += 1
        self.taken.append(d)
        if isinstance(d, tuple):
            return d[1]
        self.add(c if d else z3.Not(c))
        return d

    def choose(self, name):
        """a free choice (used for loop cuts)"""
        return self.decide(self.sym("choice:" + name, z3.BoolSort()))

    # ------------------------------------------------------------ events
    def event(self, name, args, n):
        line = n.tu.line_of(n.line) if n is not None and n.line is not None else 0
        e = Ev(name, args, line, n, self.loopid, self.task, self.region)
        self.evs.append(e)
        return e

    def emit(self, name, args, st, node):
        if self.summ:
            return super().emit(name, args, st, node)
        return self.event(name, args, node)

    # ------------------------------------------------------------ control flow
    def branch(self, c, th, el, st):
        if self.summ:
            return super().branch(c, th, el, st)
        if self.decide(c):
            self.stmt(th, st)
        elif el is not None:
            self.stmt(el, st)

    def s_ReturnStmt(self, n, st):
        if self.summ:
            return super().s_ReturnStmt(n, st)
        v = self.expr(n.kids[0], st) if n.kids else None
        if isinstance(v, z3.ExprRef) and is_bool(v):
            v = to_int(v)
        st.ret = v
        self.retline = n.tu.line_of(n.line)
        raise Return()

    def s_BreakStmt(self, n, st):
        if self.summ:
            return super().s_BreakStmt(n, st)
        raise Break()

    def s_ContinueStmt(self, n, st):
        if self.summ:
            return super().s_ContinueStmt(n, st)
        raise Continue()

    def s_GotoStmt(self, n, st):
        if self.summ:
            return super().s_GotoStmt(n, st)
        raise Goto(n.get("targetLabelDeclId"))

    def s_LabelStmt(self, n, st):
        for k in n.kids:
            self.stmt(k, st)

    def s_CompoundStmt(self, n, st):
        if self.summ:
            return super().s_CompoundStmt(n, st)
        i = 0
        while i < len(n.kids):
            try:
                self.stmt(n.kids[i], st)
            except Goto as g:
                t = [j for j, k in enumerate(n.kids) if k.kind == "LabelStmt" and k.get("declId") == g.label]
                if not t:
                    raise
                if t[0] <= i:
                    raise OutOfReach("backward goto")
                i = t[0]
                continue
            i += 1

    def s_SwitchStmt(self, n, st):
        if self.summ:
            return super().s_SwitchStmt(n, st)
        v = to_int(self.expr(n.kids[0], st))
        items = []

        def flat(x, labels):
            while x.kind in ("CaseStmt", "DefaultStmt"):
                if x.kind == "CaseStmt":
                    labels = labels + [to_int(self.expr(x.kids[0], st))]
                else:
                    labels = labels + [None]
                x = x.kids[-1]
            items.append((labels, x))
        for k in n.kids[-1].kids:
            flat(k, [])
        allc = [l for ls, _ in items for l in ls if l is not None]
        target = None
        for i, (ls, x) in enumerate(items):
            cs = [v == l for l in ls if l is not None]
            if cs and self.decide(z3.Or(*cs) if len(cs) > 1 else cs[0]):
                target = i
                break
        if target is None:
            d = [i for i, (ls, x) in enumerate(items) if None in ls]
            if not d:
                return
            target = d[0]
        try:
            for ls, x in items[target:]:
                self.stmt(x, st)
        except Break:
            pass

    def simple_body(self, nodes):
        """no calls (other than pure maths), returns, branches, tasks: the loop rule of Machine applies"""
        bad = False

        def walk(e):
            nonlocal bad
            if e.kind in ("ReturnStmt", "BreakStmt", "ContinueStmt", "GotoStmt", "SwitchStmt") or e.kind.startswith("OMP"):
                bad = True
            if e.kind == "CallExpr":
                from .symex import MATHFN
                k = e.kids[0]
                while k.kind in ("ImplicitCastExpr", "ParenExpr"):
                    k = k.kids[0]
                nm = k.j.get("referencedDecl", {}).get("name") if k.kind == "DeclRefExpr" else None
                if nm not in MATHFN and nm not in ("imin", "imax"):
                    bad = True
            for k in e.kids:
                walk(k)
        for x in nodes:
            walk(x)
        return not bad

    def loop(self, n, cond, inc, body, st):
        if self.summ:
            return super().loop(n, cond, inc, body, st)
        nodes = [x for x in (cond, inc, body) if x is not None]
        mod = [v for v in self.assigned(nodes) if v in st.env]
        before = {v: st.env[v] for v in mod}
        line = n.tu.line_of(n.line) if n.line is not None else 0
        # canonical counting variable: assigned only by the increment, by ++ or += positive literal
        count = None
        if inc is not None:
            e = inc
            up = (e.kind == "UnaryOperator" and e.opcode == "++") or (
                e.kind == "CompoundAssignOperator" and e.opcode == "+=" and e.kids[1].kind == "IntegerLiteral" and int(e.kids[1].value) > 0)
            down = (e.kind == "UnaryOperator" and e.opcode == "--")
            if up or down:
                a = self.assigned([e])
                if len(a) == 1 and a[0] not in self.assigned([body]) and isinstance(before.get(a[0]), z3.ArithRef):
                    count = (a[0], up)
        self.enter_loop(n, st, line)
        for v in mod:
            st.env[v] = self.havoc_path(before[v], "L%d" % line)
        if count:
            v, up = count
            self.add(st.env[v] >= before[v] if up else st.env[v] <= before[v])
        if count and count[1] and (inc.kind == "UnaryOperator" or int(inc.kids[1].value) == 1):
            # counts one by one from its initial value while the condition holds
            self.event("loop-count", [st.env[count[0]], before[count[0]]], n)
        it = self.choose("loop@%d" % line)
        if it:
            old = self.loopid
            self.loopid = old + (line,)
            if cond is not None:
                c = self.cond(cond, st)
                if z3.is_false(z3.simplify(c)) or not self.feasible(c):
                    raise EndPath("infeasible")
                self.add(c)
            try:
                self.stmt(body, st)
                if inc is not None:
                    self.expr(inc, st)
            except Continue:
                if inc is not None:
                    self.expr(inc, st)
            except Break:
                self.loopid = old
                self.exit_loop(n, st, line)
                return
            self.end_iteration(n, st, line)
            raise EndPath("loop-back")
        if cond is not None:
            c = self.cond(cond, st)
            c = z3.Not(c)
            if z3.is_false(z3.simplify(c)) or not self.feasible(c):
                raise EndPath("infeasible")
            self.add(c)
        else:
            raise EndPath("infeasible")
        self.exit_loop(n, st, line)

    def enter_loop(self, n, st, line):
        self.event("loop-enter", [line], n)

    def exit_loop(self, n, st, line):
        self.event("loop-exit", [line], n)

    def end_iteration(self, n, st, line):
        self.event("iteration-end", [line], n)

    def havoc_path(self, v, name):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Struct):
            return Struct(v.tag, {k: (x if str(k).startswith("$") else self.havoc_path(x, name + "." + str(k))) for k, x in v.f.items()})
        if isinstance(v, z3.ExprRef):
            if is_bool(v):
                v = to_int(v)
            return self.sym(name, v.sort())
        if isinstance(v, Ptr):
            return Ptr(v.obj, self.sym(name + ".off"))
        return v

    # ------------------------------------------------------------ expressions
    def e_ConditionalOperator(self, n, st):
        return super().e_ConditionalOperator(n, st)

    def e_StmtExpr(self, n, st):
        if self.summ:
            return super().e_StmtExpr(n, st)
        v = z3.IntVal(0)
        for k in n.kids[0].kids if n.kids and n.kids[0].kind == "CompoundStmt" else n.kids:
            if hasattr(self, "s_" + k.kind) or k.kind.startswith("OMP"):
                self.stmt(k, st)
            else:
                v = self.expr(k, st)
        return v

    def e_CallExpr(self, n, st):
        return super().e_CallExpr(n, st)

    def inline(self, fn, args, st, n):
        if self.summ:
            return super().inline(fn, args, st, n)
        self.depth += 1
        if self.depth > self.max_depth:
            raise OutOfReach("inlining too deep: " + fn.name)
        saved = {}
        for p, a in zip(fn.params, args):
            saved[p.id] = st.env.get(p.id)
            st.env[p.id] = self.coerce(a, p.type)
        self.inlined.add(fn.name)
        old, ret0 = self.tu, st.ret
        self.tu = fn.tu
        st.ret = None
        try:
            self.stmt(fn.body, st)
        except Return:
            pass
        finally:
            self.tu = old
            self.depth -= 1
        r, st.ret = st.ret, ret0
        for k, v in saved.items():
            if v is not None:
                st.env[k] = v
        return r if r is not None else z3.IntVal(0)

    def unknown_call(self, name, n, st):
        if not self.auto:
            return super().unknown_call(name, n, st)
        args = [self.expr(k, st) for k in n.kids[1:]]
        self.event(name, args, n)
        return self.result(name, n.type)

    def result(self, name, t):
        k = type_kind(t)
        if k == "void":
            return z3.IntVal(0)
        if k == "scalar":
            return self.sym("ret:" + name, S)
        if k == "int":
            return self.sym("ret:" + name)
        if k == "struct":
            return Struct(t)
        return Opaque("ret:%s" % name)

    def opaque_field(self, s, name, n, st):
        key = "%s.%s" % (s.tag, name)
        v = self.fields.get(key) if hasattr(self, "fields") else None
        return v if v is not None else super().opaque_field(s, name, n, st)

    def missing_field(self, s, name, n, st):
        k = type_kind(n.type)
        key = "%s.%s" % (s.f.get("$id", s.tag), name)
        return Opaque(key) if k in ("ptr", "struct") else z3.Const(key, S) if k == "scalar" else z3.Int(key)
