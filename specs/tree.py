"""C09: the list of operations of the tree QR/LQ is a valid elimination order.

The list is built by plasma_tree_block_greedy through two insertion routines.  Deductive part: ghost state per panel j
   T[j]  number of blocks of rows (of bs rows, numbered from the bottom) whose first row is triangularized and whose other rows are eliminated
   E[j]  number of blocks whose first row is eliminated
   SL    what is left of the length of the list:  sum over panels of  2(mt-j)-1 - (rows covered by the T[j] blocks) - E[j]
Every insertion is a call under a contract whose precondition is the validity of that entry and which moves the ghost state; the loops carry
invariants that tie the counters of the code to the ghost state; at the end every panel is complete.  An obligation that is not discharged is
reported as undecided: the list itself is then checked by running the real code on a box of sizes (which also runs every time)."""
import os, re, json, subprocess, tempfile, shutil
import z3
from tcv import runner
from tcv.ctl import CtlMachine, prove
from tcv.paths import Break, Continue, EndPath
from tcv.symex import Ptr, PIte, Ref, Opaque, MaybeNull, NULL, UNDEF, I as INT, to_int, is_null
from tcv.cfront import OutOfReach

AR = z3.ArraySort(INT, INT)
ST = z3.Function("blocks", INT, INT)        # number of blocks of bs rows in n rows
MT, NT_, MN, BS = z3.Int("mt"), z3.Int("nt"), z3.Int("minnt"), z3.Int("bs")
GE, TT, TS = 1, 2, 3


def zmin(a, b):
    return z3.If(a < b, a, b)


def S(j):
    return ST(MT - j)


def walk(n, f):
    f(n)
    for k in n.kids:
        walk(k, f)


def calls_in(n):
    out = []

    def f(x):
        if x.kind == "DeclRefExpr" and x.j.get("referencedDecl", {}).get("kind") == "FunctionDecl":
            out.append(x.j["referencedDecl"]["name"])
    walk(n, f)
    return out


LOOPS = ("ForStmt", "WhileStmt", "DoStmt")
INSERT = ("plasma_tree_insert_operation", "plasma_tree_insert_flat_tree")


class TreeInv(CtlMachine):
    max_depth = 12

    def __init__(self, tu, srcs, r):
        super().__init__(tu, srcs)
        self.r = r
        self.contracts["get_super_tiles"] = self.c_blocks
        self.contracts["plasma_tree_insert_flat_tree"] = self.c_flat
        self.contracts["plasma_tree_insert_operation"] = self.c_insert
        self.ids = {}
        for fn in ("plasma_tree_block_greedy",):
            def f(x):
                if x.kind in ("VarDecl", "ParmVarDecl"):
                    self.ids.setdefault(x.j["name"], x.j["id"])
            walk(tu.funcs[fn].body, f)
            for p in tu.funcs[fn].params:
                self.ids[p.name] = p.id
        self.n = 0

    # ------------------------------------------------------------- state
    def var(self, st, name):
        v = st.env.get(self.ids.get(name))
        if v is None:
            raise OutOfReach("variable %s" % name)
        return v

    def arr(self, st, name):
        p = self.var(st, name)
        return st.env[self.hkey(p)]

    def hkey(self, p):
        if isinstance(p, Ptr) and isinstance(p.obj, MaybeNull):
            return "heap:" + p.obj.name
        raise OutOfReach("heap block %r" % (p,))

    def g(self, st, k):
        key = "ghost:" + k
        if key not in st.env:
            st.env[key] = z3.K(INT, z3.IntVal(0)) if k in "TE" else None
        return st.env[key]

    def ctl_load(self, p, name, n, st):
        if isinstance(p, Ptr) and isinstance(p.obj, MaybeNull) and name is None:
            k = self.hkey(p)
            if k not in st.env:
                st.env[k] = z3.Const(k, AR)
            self.goal(st, "counter-inside", z3.And(0 <= p.off, p.off < MN), n)
            return st.env[k][p.off]
        return super().ctl_load(p, name, n, st)

    def store(self, a, v, st, n):
        if isinstance(a, Ptr) and isinstance(a.obj, MaybeNull):
            k = self.hkey(a)
            self.goal(st, "counter-inside", z3.And(0 <= a.off, a.off < MN), n)
            st.env[k] = z3.Store(st.env.get(k, z3.Const(k, AR)), a.off, to_int(v))
            return True
        self.event("store", [a, v], n)
        return True

    # ------------------------------------------------------------- logic
    def terms(self, st, extra=()):
        t = [z3.IntVal(0), MN - 1]
        j = st.env.get(self.ids.get("j"))
        if isinstance(j, z3.ExprRef):
            t += [j, j - 1, j + 1]
        for e in extra:
            t += [e, e - 1, e + 1]
        return t

    def block_facts(self, st, terms):
        """facts about the number of blocks (each proved once, see lemmas()) at the panels in question"""
        out = []
        for t in terms:
            for x in (MT - t, MT - t + 1):
                out.append(z3.Implies(x >= 0, z3.And(ST(x) * BS >= x, (ST(x) - 1) * BS < x, ST(x) >= 0, z3.Implies(x >= 1, ST(x) >= 1), ST(x) <= x)))
                out.append(z3.Implies(z3.And(x >= 1, BS == 1), ST(x) == ST(x - 1) + 1))
                md = self.mod(x)
                out.append(z3.Implies(z3.And(x >= 1, BS > 1, md == 1), ST(x) == ST(x - 1) + 1))
                out.append(z3.Implies(z3.And(x >= 1, BS > 1, md != 1), ST(x) == ST(x - 1)))
        return out

    def mod(self, x):
        from tcv.symex import cmod
        return cmod(z3.simplify(x), BS)

    def goal(self, st, name, f, n=None, extra=(), facts=()):
        if self.summ or self.k < len(self.prefix):
            return                      # replayed part of a path: proved on the path it branched from
        terms = self.terms(st, extra)
        hy = list(self.pc) + list(self.hyps) + list(facts) + self.block_facts(st, terms)
        for q in self.qfacts:
            hy += [q(t) for t in terms]
        where = str(n.tu.line_of(n.line)) if n is not None and n.line is not None else ""
        self.n += 1
        prove(self.r, "%s@%s#%d" % (name, where, self.n), hy, f, where, dict(kind="tree"), timeout=20000)

    def goals(self, st, todo, n, extra):
        """several goals in the same state: together first, one by one only when that fails"""
        if self.summ or self.k < len(self.prefix):
            return
        t = runner.Result("batch")
        keep, self.r = self.r, t
        try:
            self.goal(st, "all", z3.And(*[f for _, f in todo]), n, extra)
        finally:
            self.r = keep
        if t.obs[0][1] == "proved":
            where = t.obs[0][3]
            for nm, _ in todo:
                self.n += 1
                keep.obs.append(("%s@%s#%d" % (nm, where, self.n), "proved", t.obs[0][2] / len(todo), where, dict(kind="tree"), ""))
            for k, v in t.smt2.items():
                keep.smt2[k] = keep.smt2.get(k, 0) + v
            return
        for nm, f in todo:
            self.goal(st, nm, f, n, extra)

    def reach(self, st, name):
        """the facts assumed here do not contradict each other"""
        if self.reached.get(name) or self.k < len(self.prefix):
            return
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.pc, *self.hyps, *self.block_facts(st, self.terms(st)))
        for q in self.qfacts:
            s.add(*[q(t) for t in self.terms(st)])
        self.reached[name] = s.check() != z3.unsat

    def fact(self, q):
        self.qfacts.append(q)

    # the ghost state of one panel and of its relation to the panel before
    def colinv(self, st, counters=True, T=None, E=None, NT=None, NZ=None):
        T = self.g(st, "T") if T is None else T
        E = self.g(st, "E") if E is None else E
        if counters:
            NT = self.arr(st, "NT") if NT is None else NT
            NZ = self.arr(st, "NZ") if NZ is None else NZ

        def q(i):
            c = [0 <= T[i], T[i] <= S(i), 0 <= E[i], z3.Implies(T[i] == 0, E[i] == 0), z3.Implies(T[i] > 0, E[i] < T[i]),
                 z3.Implies(i == 0, z3.Or(T[i] == 0, T[i] == S(i)))]
            if counters:
                c += [NT[i] == T[i], NZ[i] == E[i]]
            return z3.Implies(z3.And(0 <= i, i < MN), z3.And(*c))
        return q

    def delta(self, T, i):
        return z3.If(z3.And(ST(MT - i + 1) == S(i), T[i - 1] > 0), z3.IntVal(1), z3.IntVal(0))

    def relinv(self, st, T=None, E=None):
        T = self.g(st, "T") if T is None else T
        E = self.g(st, "E") if E is None else E
        return lambda i: z3.Implies(z3.And(1 <= i, i < MN), T[i] <= E[i - 1] + self.delta(T, i))

    def fix(self, st, i):
        """panel i would not change in a round"""
        T, E = self.g(st, "T"), self.g(st, "E")
        return z3.And(T[i] == z3.If(i == 0, S(i), E[i - 1] + self.delta(T, i)), T[i] - E[i] <= 1)

    def complete(self, st, i):
        return z3.And(self.g(st, "T")[i] == S(i), self.g(st, "E")[i] == S(i) - 1)

    def covered(self, T, j):
        return z3.If(T[j] == 0, z3.IntVal(0), MT - (j + (S(j) - T[j]) * BS))

    def slack(self, st, j):
        """the sum of the non-negative remainders of all panels is at least that of panel j (lemma on finite sums, trusted)"""
        T, E = self.g(st, "T"), self.g(st, "E")
        return [st.env["ghost:SL"] >= 2 * (MT - j) - 1 - self.covered(T, j) - E[j], st.env["ghost:SL"] >= 0]

    # ------------------------------------------------------------- contracts of the callees
    def c_blocks(self, m, a, n, st):
        x = z3.simplify(to_int(a[0]))
        self.goal(st, "block-size", to_int(a[1]) == BS, n)
        self.goal(st, "rows-not-negative", x >= 0, n)
        return ST(x)

    def must(self, st, c):
        return not self.feasible(z3.Not(c))

    def live(self, st, n):
        if not hasattr(self, "ghost_on") or not self.ghost_on:
            raise OutOfReach("insertion before the counters are set up")

    def c_flat(self, m, a, n, st):
        """plasma_tree_insert_flat_tree(ops, length, iops, j, k, len): triangularize row k, eliminate rows k+1 .. k+len-1 by it"""
        self.live(st, n)
        self.reach(st, "a block of rows")
        L, iops, j, k, ln = (to_int(x) for x in a[1:6])
        T, E = self.g(st, "T"), self.g(st, "E")
        b = T[j]
        s = S(j) - 1 - b
        G = lambda nm, f, facts=(): self.goal(st, nm, f, n, extra=[j], facts=facts)
        G("flat.list", L == self.LOPS)
        G("flat.panel", z3.And(0 <= j, j < MN))
        G("flat.next-block-from-the-bottom", z3.And(b < S(j), k == j + s * BS))
        G("flat.rows", z3.And(ln == zmin(BS, MT - k), ln >= 1))
        prev = z3.Implies(j > 0, z3.And(z3.Implies(BS > 1, S(j - 1) - 1 - s < T[j - 1]), z3.Implies(ln == BS, S(j - 1) - 2 - s < E[j - 1])))
        G("flat.rows-eliminated-from-the-panel-before", prev)
        G("flat.inside-the-list", iops + ln <= self.LOPS, self.slack(st, j))
        st.env["ghost:SL"] = st.env["ghost:SL"] - ln
        st.env["ghost:T"] = z3.Store(T, j, b + 1)
        return iops + ln

    def c_insert(self, m, a, n, st):
        """one entry.  In the greedy loop it is an elimination of the first row of a block by that of another"""
        self.live(st, n)
        self.reach(st, "an elimination in the first panel" if self.must(st, to_int(a[4]) == 0) else "an elimination in a later panel")
        L, iops, kern, j, row, piv = (to_int(x) for x in a[1:7])
        T, E = self.g(st, "T"), self.g(st, "E")
        c = E[j]
        p = self.sym("pivot-block")
        G = lambda nm, f, facts=(): self.goal(st, nm, f, n, extra=[j], facts=facts)
        G("tt.kernel", kern == TT)
        G("tt.list", L == self.LOPS)
        G("tt.panel", z3.And(0 <= j, j < MN))
        G("tt.next-block-from-the-bottom", row == j + (S(j) - 1 - c) * BS)
        G("tt.triangularized", c < T[j])
        # the pivot row is the first row of a block further up, triangularized and not eliminated
        pv = self.witness(st, piv, j)
        G("tt.pivot", z3.And(piv == j + (S(j) - 1 - pv) * BS, c < pv, pv < T[j]))
        G("tt.inside-the-list", iops + 1 <= self.LOPS, self.slack(st, j))
        st.env["ghost:SL"] = st.env["ghost:SL"] - 1
        st.env["ghost:E"] = z3.Store(E, j, c + 1)
        return iops + 1

    def witness(self, st, piv, j):
        """block of the pivot row: read off  piv = j + x*bs"""
        d = z3.simplify(piv - j, som=True)
        x = z3.simplify(z3.substitute(d, (BS, z3.IntVal(1))))
        return z3.simplify(S(j) - 1 - x)

    # ------------------------------------------------------------- loops
    def classify(self, n, body):
        cs = calls_in(n)
        if not any(c in INSERT for c in cs):
            return "init"
        inner = []
        walk(body, lambda x: inner.append(x) if x.kind in LOOPS else None)
        deep = [x for x in inner if any(c in INSERT for c in calls_in(x))]
        if not deep:
            return "flat" if "plasma_tree_insert_flat_tree" in cs else "tt"
        if any(any(c in INSERT for c in calls_in(y)) for x in deep for y in self.loops_in(x)):
            return "main"
        return "col"

    @staticmethod
    def loops_in(x):
        out = []
        for k in x.kids:
            walk(k, lambda y: out.append(y) if y.kind in LOOPS else None)
        return out

    def heap(self, st):
        return [k for k in st.env if isinstance(k, str) and k.startswith("heap:")]

    def by_one(self, n, cond, inc, body, st):
        """(variable, +1/-1, bound) of a loop that counts by one"""
        if inc is None or inc.kind != "UnaryOperator" or inc.opcode not in ("++", "--") or cond is None:
            raise OutOfReach("loop form")
        (v,) = self.assigned([inc])
        if v in self.assigned([body]):
            raise OutOfReach("loop counter changed in the body")
        return v, 1 if inc.opcode == "++" else -1

    def loop(self, n, cond, inc, body, st):
        if self.summ:
            return super().loop(n, cond, inc, body, st)
        kind = self.classify(n, body)
        line = n.tu.line_of(n.line) if n.line is not None else 0
        mod = [v for v in self.assigned([x for x in (cond, inc, body) if x is not None]) if v in st.env]
        nq = len(self.qfacts)
        if kind == "main" and not getattr(self, "ghost_on", False):
            self.ghost_on = True
            for k in "TE":
                st.env["ghost:" + k] = z3.K(INT, z3.IntVal(0))
            st.env["ghost:SL"] = self.LOPS
        e = dict(st.env)                          # state at loop entry
        cnt = None
        if kind != "main":
            cnt = self.by_one(n, cond, inc, body, st)
            k0 = e[cnt[0]]
        if kind == "col":
            self.ids["j"] = cnt[0]
        sk = z3.Int("i@%d" % line)

        def between(x):
            """the counter stays between its first value and the first one that fails the condition"""
            old = st.env[cnt[0]]
            st.env[cnt[0]] = x - cnt[1]
            c = self.cond(cond, st)
            st.env[cnt[0]] = old
            return z3.And(x >= k0 if cnt[1] > 0 else x <= k0, z3.Or(x == k0, c))

        def inv(check):
            """prove (check=True) or assume the invariant in the current state"""
            todo = []
            inv1(check, todo)
            if todo:
                self.goals(st, todo, n, [sk])

        def inv1(check, todo):
            def U(nm, q):       # for every panel
                if check:
                    todo.append(("%s.%s" % (kind, nm), q(sk)))
                else:
                    self.fact(q)

            def C(nm, f):
                if check:
                    todo.append(("%s.%s" % (kind, nm), f))
                else:
                    self.add(f)
            if cnt:
                C("counter", between(st.env[cnt[0]]))
            T, E = (st.env.get("ghost:T"), st.env.get("ghost:E"))
            if kind == "init":
                i = st.env[cnt[0]]
                for k in self.heap(st):
                    a = st.env[k]
                    U("zeroed", lambda x, a=a: z3.Implies(z3.And(0 <= x, x < i), a[x] == 0))
                return
            iops = self.var(st, "iops")
            C("list-length", iops + st.env["ghost:SL"] == self.LOPS)
            if kind in ("main", "col"):
                U("panels", self.colinv(st))
                U("neighbours", self.relinv(st))
            if kind == "col":
                j = st.env[cnt[0]]
                upd = self.var(st, "updated")
                T, E = self.g(st, "T"), self.g(st, "E")
                e0, e1 = e["ghost:T"], e["ghost:E"]
                U("unchanged-counters", lambda x: z3.Implies(z3.And(upd == 0, 0 <= x, x < MN), z3.And(T[x] == e0[x], E[x] == e1[x])))
                U("unchanged-panels", lambda x: z3.Implies(z3.And(upd == 0, j < x, x < MN), self.fixof(T, E, x)))
                C("progress", z3.And(iops >= e[self.ids["iops"]], z3.Implies(upd != 0, iops > e[self.ids["iops"]])))
            if kind in ("flat", "tt"):
                j = self.var(st, "j")
                d = (st.env[cnt[0]] - k0) * cnt[1]
                A, A0 = (T, e["ghost:T"]) if kind == "flat" else (E, e["ghost:E"])
                C("count", A[j] == A0[j] + d)
                U("other-panels", lambda x: z3.Implies(x != j, A[x] == A0[x]))
                O, O0 = (E, e["ghost:E"]) if kind == "flat" else (T, e["ghost:T"])
                U("frame", lambda x: O[x] == O0[x])
                for k in self.heap(st):
                    U("frame-counters", lambda x, k=k, a=st.env[k]: a[x] == e[k][x])
                C("entries", iops - e[self.ids["iops"]] >= d)
        self.touch(st)
        for k in self.heap(st):
            e.setdefault(k, st.env[k])
        inv(True)
        # an arbitrary iteration
        for v in mod:
            st.env[v] = self.havoc_path(st.env[v], "L%d" % line)
        for k in self.heap(st):
            st.env[k] = self.sym("%s@L%d" % (k, line), AR)
        if kind != "init":
            st.env["ghost:T"] = self.sym("T@L%d" % line, AR)
            st.env["ghost:E"] = self.sym("E@L%d" % line, AR)
            st.env["ghost:SL"] = self.sym("SL@L%d" % line)
        inv(False)
        if kind == "main":
            round0 = self.var(st, "iops")
        if self.choose("loop@%d" % line):
            if cond is not None:
                c = self.cond(cond, st)
                if z3.is_false(z3.simplify(c)) or not self.feasible(c):
                    raise EndPath("infeasible")
                self.add(c)
            start = dict(st.env)
            try:
                self.stmt(body, st)
                if inc is not None:
                    self.expr(inc, st)
            except Continue:
                if inc is not None:
                    self.expr(inc, st)
            except Break:
                if kind == "main":
                    self.stuck(st, cond, n)
                return
            inv(True)
            if kind == "main":
                self.goal(st, "main.every-round-adds-entries", self.var(st, "iops") > round0, n)
            raise EndPath("loop-back")
        c = z3.Not(self.cond(cond, st))
        if not self.feasible(c):
            raise EndPath("infeasible")
        self.add(c)
        if kind == "main":
            self.finished(st, n)

    def forget(self, keep):
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.solver.add(*self.hyps)
        for f in keep:
            self.add(f)

    def touch(self, st):
        for nm in ("NT", "NZ"):
            k = self.hkey(self.var(st, nm))
            if k not in st.env:
                st.env[k] = z3.Const(k, AR)

    def fixof(self, T, E, i):
        return z3.And(T[i] == z3.If(i == 0, S(i), E[i - 1] + self.delta(T, i)), T[i] - E[i] <= 1)

    def stuck(self, st, cond, n):
        """the loop is left because no panel changed: then every panel is complete and the loop had ended before"""
        i = z3.Int("i@stuck")
        self.goal(st, "stuck.first-panel", self.complete(st, z3.IntVal(0)), n)
        self.goal(st, "stuck.next-panel", z3.Implies(z3.And(0 < i, i < MN, self.complete(st, i - 1)), self.complete(st, i)), n, extra=[i])
        # induction over the panels
        self.goal(st, "stuck.not-reached", z3.Not(self.complete(st, MN - 1)), n)
        raise EndPath("stuck")

    def finished(self, st, n):
        i = z3.Int("i@end")
        self.reach(st, "the end")
        self.goal(st, "end.last-panel", self.complete(st, MN - 1), n)
        self.goal(st, "end.panel-before", z3.Implies(z3.And(0 < i, i < MN, self.complete(st, i)), self.complete(st, i - 1)), n, extra=[i])
        self.fact(lambda x: z3.Implies(z3.And(0 <= x, x < MN), self.complete(st, x)))     # induction over the panels, downwards
        for f in self.slack(st, z3.IntVal(0)):
            self.add(f)


def job(ctx, r):
    r.functions = ["plasma_tree_operations", "plasma_tree_block_greedy"]
    tu = ctx.srcs.tu("control/tree.c")
    m = TreeInv(tu, ctx.srcs, r)
    conc = z3.Int("omp_get_num_threads")
    hyps = [MT >= 1, NT_ >= 1, conc >= 1, MN == zmin(MT, NT_), BS >= 1, BS <= MT]
    m.store_hook = None
    orig = m.paths

    # the values of bs, minnt and loperations are named when they are first computed
    def assign_var(vid, v, st, _o=m.assign_var, **kw):
        _o(vid, v, st, **kw)
        name_value(vid, st)

    def name_value(vid, st):
        if vid == m.ids.get("bs") and isinstance(st.env[vid], z3.ExprRef) and not st.env[vid].eq(BS):
            prove(r, "block-size-in-range#%d" % len(r.obs), m.pc + [h for h in hyps if not occurs(h, BS)], z3.And(st.env[vid] >= 1, st.env[vid] <= MT), info=dict(kind="tree"))
            # from here on any block size from 1 to mt: forget how it was computed, and go on from each state once
            st.env[vid] = BS
            m.forget([1 <= BS, BS <= MT])
            key = str(sorted((str(k), str(v)) for k, v in st.env.items()))
            if m.k >= len(m.prefix) and key in m.visited:
                raise EndPath("infeasible")
            m.visited.add(key)
        elif vid == m.ids.get("minnt") and isinstance(st.env[vid], z3.ExprRef) and not st.env[vid].eq(MN):
            prove(r, "panels#%d" % len(r.obs), m.pc + [MN == zmin(MT, NT_)], st.env[vid] == MN, info=dict(kind="tree"))
            st.env[vid] = MN
        elif vid == m.ids.get("loperations") and isinstance(st.env[vid], z3.ExprRef) and not st.env[vid].eq(m.LOPS):
            prove(r, "list-length#%d" % len(r.obs), list(m.pc) + list(m.hyps) + even + [closed], st.env[vid] == m.LOPS, info=dict(kind="tree"))
            st.env[vid] = m.LOPS
    m.LOPS = z3.Int("length_of_list")
    # sum over the panels of 2(mt-j)-1, in closed form
    closed = m.LOPS == 2 * MT * MN - MN * MN
    h = z3.Int("half")
    even = [MN * MN == 2 * h + MN]          # the product of consecutive integers is even
    m.assign_var = assign_var
    old_decl = m.s_DeclStmt

    def s_DeclStmt(n, st):
        old_decl(n, st)
        for k in n.kids:
            if k.j.get("id") in m.ids.values() and isinstance(st.env.get(k.j["id"]), z3.ExprRef):
                name_value(k.j["id"], st)
    m.s_DeclStmt = s_DeclStmt
    m.qfacts = []
    m.visited = set()
    m.reached = {}

    def mkstate():
        m.qfacts = []
        m.ghost_on = False
        return dict(ops=NULL, num=z3.Int("num0"))
    m.entry = "plasma_tree_operations"
    vals = [MT, NT_, Ref("ops"), Ref("num"), Opaque("sequence"), Opaque("request")]
    hyps2 = [h for h in hyps if not occurs(h, BS)]
    fn = tu.funcs["plasma_tree_operations"]
    for p in fn.params:
        m.vtypes[p.id] = p.type
    m.goals_extra = []
    m.store_hook = m.store
    m.load_hook = lambda p, name, n, st: m.ctl_load(p, name, n, st)

    def mkenv(mm, st):
        st.env.update(mkstate())
    done = failed = 0
    for k, P in enumerate(m.paths("plasma_tree_operations", lambda mm: list(vals), hyps2, mkenv)):
        if P.kind in ("infeasible", "loop-back", "stuck"):
            continue
        H = P.pc + hyps2
        st = P.state
        fails = [e for e in P.events if e.name in ("request_fail", "plasma_request_fail")]
        lost = [e for e in P.events if e.name == "alloc-failed"]
        if lost:
            failed += 1
            prove(r, "failed-allocation-is-reported#%d" % k, H, z3.BoolVal(bool(fails)), info=dict(kind="tree"))
            prove(r, "failed-allocation-empty-list#%d" % k, H, to_int(st.env["num"]) == 0, info=dict(kind="tree"))
            continue
        done += 1
        prove(r, "declared-length#%d" % k, H, to_int(st.env["num"]) == m.var(st, "iops"), info=dict(kind="tree"))
        prove(r, "no-failure#%d" % k, H, z3.BoolVal(not fails), info=dict(kind="tree"))
        al = [e for e in P.events if e.name == "malloc"]
        ops = st.env["ops"]
        own = [e for e in al if isinstance(ops, Ptr) and isinstance(ops.obj, MaybeNull) and e.args[0] == ops.obj.name]
        prove(r, "list-allocated#%d" % k, H, z3.And(z3.BoolVal(len(own) == 1), *( [own[0].args[1] >= 16 * m.LOPS, m.LOPS >= to_int(st.env["num"])] if own else [])), info=dict(kind="tree"))
    prove(r, "reaches-the-end", [], z3.BoolVal(done > 0 and failed > 0), info=dict(kind="vacuity"))
    for nm in ("a block of rows", "an elimination in the first panel", "an elimination in a later panel", "the end"):
        prove(r, "reaches." + nm.replace(" ", "-"), [], z3.BoolVal(bool(m.reached.get(nm))), info=dict(kind="vacuity"))


def occurs(f, x):
    todo = [f]
    while todo:
        t = todo.pop()
        if t.eq(x):
            return True
        todo += t.children()
    return False


# ------------------------------------------------------------- the callees
def blocks_job(ctx, r):
    """get_super_tiles(n, bs) is the number of blocks of bs rows in n rows; and the facts about that number the main proof uses"""
    r.functions = ["get_super_tiles"]
    tu = ctx.srcs.tu("control/tree.c")
    m = CtlMachine(tu, ctx.srcs)
    n, bs = z3.Int("n"), z3.Int("bs")
    H = [n >= 0, bs >= 1]
    for k, P in enumerate(m.run_ctl("get_super_tiles", [n, bs], H)):
        if P.kind == "infeasible":
            continue
        v = to_int(P.ret)
        prove(r, "covers#%d" % k, P.pc + H, v * bs >= n, info=dict(kind="tree"))
        prove(r, "no-more-than-needed#%d" % k, P.pc + H, (v - 1) * bs < n, info=dict(kind="tree"))
    # x = q*bs + md
    a, b, q, md = z3.Ints("blocks(x) blocks(x-1) q md")
    x = z3.Int("x")
    D = [bs >= 1, x >= 0, a * bs >= x, (a - 1) * bs < x]
    L = lambda nm, hy, g: prove(r, "lemma." + nm, hy, g, info=dict(kind="lemma"))
    L("not-negative", D, a >= 0)
    L("some", D + [x >= 1], a >= 1)
    L("at-most", D, a <= x)
    D1 = [bs >= 1, x >= 1, a * bs >= x, (a - 1) * bs < x, b * bs >= x - 1, (b - 1) * bs < x - 1]
    L("single-rows", D1 + [bs == 1], a == b + 1)
    # products that differ by less than bs have equal factors
    u, w = z3.Ints("u w")
    L("distinct-multiples", [bs >= 1, u > w], u * bs >= w * bs + bs)
    mono = lambda u, w: z3.Implies(u > w, u * bs >= w * bs + bs)
    dm = [x == q * bs + md, 0 <= md, md < bs]
    L("one-row-left", D1 + dm + [md == 1, bs > 1] + [mono(a, q + 1), mono(q + 1, a), mono(b, q), mono(q, b)], z3.And(a == q + 1, b == q))
    L("rest", D1 + dm + [md > 1, bs > 1] + [mono(a, q + 1), mono(q + 1, a), mono(b, q + 1), mono(q + 1, b)], z3.And(a == q + 1, b == q + 1))
    L("none-left", D1 + dm + [md == 0, bs > 1] + [mono(a, q), mono(q, a), mono(b, q), mono(q, b)], z3.And(a == q, b == q))
    from tcv.symex import cmod
    L("remainder", [x >= 0, bs >= 1], z3.And(cmod(x, bs) >= 0, cmod(x, bs) < bs))


class FlatInv(CtlMachine):
    """loop of plasma_tree_insert_flat_tree: one entry per iteration, at consecutive positions"""
    def loop(self, n, cond, inc, body, st):
        if self.summ:
            return super().loop(n, cond, inc, body, st)
        mod = [v for v in self.assigned([x for x in (cond, inc, body) if x is not None]) if v in st.env]
        first = {v: st.env[v] for v in mod}
        d = self.sym("rows-done")
        # every changed variable moves by one per iteration: checked below
        for v in mod:
            st.env[v] = to_int(st.env[v]) + d
        self.add(d >= 0)
        self.inloop = d
        c = self.cond(cond, st)
        prev = {v: st.env[v] for v in mod}
        if self.choose("loop"):
            self.add(c)
            self.stmt(body, st)
            if inc is not None:
                self.expr(inc, st)
            for v in mod:
                prove(self.r, "flat-tree.steps-by-one#%d" % len(self.r.obs), self.pc + self.hyps, to_int(st.env[v]) == prev[v] + 1, info=dict(kind="tree"))
            raise EndPath("loop-back")
        # the first time the condition fails: it held one row before
        keep = dict(st.env)
        for v in mod:
            st.env[v] = to_int(prev[v]) - 1
        held = self.cond(cond, st)
        st.env.update(keep)
        self.add(z3.Not(c))
        self.add(z3.Or(d == 0, held))
        self.inloop = None


def flat_job(ctx, r):
    r.functions = ["plasma_tree_insert_flat_tree"]
    tu = ctx.srcs.tu("control/tree.c")
    m = FlatInv(tu, ctx.srcs)
    m.r = r
    m.inloop = None
    L, i0, j, k, bs = z3.Ints("list iops j k rows")

    def ins(mm, a, n, st):
        mm.event("entry", [mm.inloop, [to_int(x) for x in a[1:7]]], n)
        return to_int(a[2]) + 1
    m.contracts["plasma_tree_insert_operation"] = ins
    H = [bs >= 1, k >= 0, j >= 0]
    E = lambda nm, hy, g: prove(r, "flat-tree.%s#%d" % (nm, len(r.obs)), hy, g, info=dict(kind="tree"))
    done = 0
    for P in m.run_ctl("plasma_tree_insert_flat_tree", [Opaque("operations"), L, i0, j, k, bs], H, lambda: setattr(m, "inloop", None) or {}):
        g = [tuple(e.args) for e in P.events if e.name == "entry"]
        if P.kind == "infeasible":
            continue
        done += 1
        hy = P.pc + H
        first = [x for x in g if x[0] is None]
        E("one-pivot", hy, z3.BoolVal(len(first) == 1))
        if first:
            E("pivot", hy, z3.And(*[a == b for a, b in zip(first[0][1], [L, i0, z3.IntVal(GE), j, k])]))
        for d, a in g:
            if d is not None:
                E("row", hy, z3.And(*[x == y for x, y in zip(a, [L, i0 + 1 + d, z3.IntVal(TS), j, k + 1 + d, k])]))
        if P.kind == "loop-back":
            E("one-entry-per-row", hy, z3.BoolVal(len([x for x in g if x[0] is not None]) == 1))
            E("rows-inside", hy, z3.And(*[z3.And(d >= 0, d < bs - 1) for d, a in g if d is not None]))
        else:
            E("length", hy, to_int(P.ret) == i0 + bs)
    E("reaches-the-end", [], z3.BoolVal(done >= 2))


def entry_job(ctx, r):
    """one entry: what plasma_tree_insert_operation stores is what plasma_tree_get_operation reads, and nothing else is written"""
    r.functions = ["plasma_tree_insert_operation", "plasma_tree_get_operation"]
    tu = ctx.srcs.tu("control/tree.c")
    m = CtlMachine(tu, ctx.srcs)
    L, i, kern, col, row, piv = z3.Ints("list ind kernel col row rowpiv")
    ops = Ptr(("list", "operations"))
    H = [0 <= i, i < L]
    vals = [kern, col, row, piv]
    wrote = {}
    E = lambda nm, hy, g: prove(r, "entry.%s#%d" % (nm, len(r.obs)), hy, g, info=dict(kind="tree"))
    n = 0
    for P in m.run_ctl("plasma_tree_insert_operation", [ops, L, i, kern, col, row, piv], H):
        if P.kind == "infeasible":
            continue
        n += 1
        hy = P.pc + H
        st = [e for e in P.events if e.name == "store"]
        A = z3.Const("mem", AR)
        for e in st:
            E("place", hy, z3.And(z3.BoolVal(isinstance(e.args[0], Ptr) and e.args[0].obj == ops.obj), e.args[0].off >= 4 * i, e.args[0].off < 4 * i + 4))
            A = z3.Store(A, e.args[0].off, to_int(e.args[1]))
        wrote[n] = (hy, A)
        E("next", hy, to_int(P.ret) == i + 1)
        E("no-failure", hy, z3.BoolVal(not [e for e in P.events if e.name == "__assert_fail"]))
    E("inserts", [], z3.BoolVal(n >= 1))
    for hy0, A in wrote.values():
        m2 = CtlMachine(ctx.srcs.tu("compute/zgeqrf.c") if False else tu, ctx.srcs)

        def load(p, name, nn, st):
            if isinstance(p, Ptr) and p.obj == ops.obj:
                return A[p.off]
            return CtlMachine.ctl_load(m2, p, name, nn, st)
        m2.ctl_load = load
        outs = ["kernel", "col", "row", "rowpiv"]
        for P in m2.run_ctl("plasma_tree_get_operation", [ops, i] + [Ref("o:" + x) for x in outs], H, lambda: {"o:" + x: z3.Int("before." + x) for x in outs}):
            if P.kind == "infeasible":
                continue
            for x, v in zip(outs, vals):
                E("reads-" + x, P.pc + H + hy0, to_int(P.state.env["o:" + x]) == v)


def soften(f):
    """what is not discharged here is undecided: the bounded run of the real code decides"""
    def g(ctx, r):
        f(ctx, r)
        r.obs = [(a, "unknown" if b != "proved" else b, c, d, e, "not discharged; " + x if b != "proved" else x) for a, b, c, d, e, x in r.obs]
    return g


def jobs(ctx):
    from functools import partial
    return [("control/tree.c " + nm, partial(lambda f, r: soften(f)(ctx, r), f)) for nm, f in
            (("plasma_tree_block_greedy", job), ("get_super_tiles", blocks_job), ("plasma_tree_insert_flat_tree", flat_job), ("plasma_tree_insert_operation", entry_job))]


def bounded(ctx, lib, bnd):
    """the real code, exhaustively over a box of sizes and thread counts and on larger random sizes"""
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "replay", "tree_check.c")
    ctx.srcs.generate_all()
    d = tempfile.mkdtemp(prefix="tcvtree")
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    try:
        inc = ["-I" + os.path.join(ctx.srcs.dir, "include"), "-I" + os.path.join(os.path.dirname(here), "..", "tcv")]
        exe, obj = os.path.join(d, "tc"), os.path.join(d, "tree.o")
        p = subprocess.run(["gcc", "-std=gnu99", "-O1", "-w", "-fopenmp"] + inc + ["-c", ctx.srcs.path("control/tree.c"), "-o", obj], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("control/tree.c does not build: " + p.stderr[:300])
        p = subprocess.run(["gcc", "-std=gnu99", "-O1", "-w"] + inc + ["-Wl,--wrap=malloc,--wrap=free", here, obj, "-o", exe], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("replay/tree_check.c does not link: " + p.stderr[:300])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        runs = [("60", "40", "3000"), ("12", "200", "0")] if thorough else [("40", "24", "600"), ("8", "128", "0")]
        fails = []
        for a in runs:
            try:
                p = subprocess.run([exe] + list(a) + [str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=240)
                out = p.stdout
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
                out += '\n{"fail": "does not end", "mt": 0, "nt": 0, "threads": 0}'
            ended = False
            for l in out.splitlines():
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if "done" in x:
                    bnd.evaluations += x["done"]
                    bnd.distinct += x["done"]
                    bnd.samples.append(dict(routine="plasma_tree_operations", box=x["box"], maxthreads=x["maxthreads"], lists=x["done"], entries=x["ops"]))
                    ended = True
                elif "fail" in x:
                    ended = True
                    fails.append(dict(fail=x["fail"], routine="plasma_tree_operations", seed=seed, prec="", call=dict(mt=x["mt"], nt=x["nt"], threads=x["threads"]),
                                      tree=[x["mt"], x["nt"], x["threads"]]))
            if not ended:
                fails.append(dict(fail="the run ends without a result (status %s)" % getattr(p, "returncode", "?"), routine="plasma_tree_operations", seed=seed, prec="",
                                  call={}, tree=None))
            if fails:
                break
        return fails
    finally:
        shutil.rmtree(d, ignore_errors=True)
