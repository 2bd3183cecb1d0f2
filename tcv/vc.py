"""Obligations: named verification conditions, discharged by z3 (cross-checked by cvc5 in the thorough tier)."""
import os, subprocess, tempfile, time
import z3
from . import symex

TIMEOUT_MS = int(os.environ.get("TCV_TIMEOUT_MS", "10000"))


class Ob:
    __slots__ = ("name", "hyps", "goal", "status", "model", "time", "info", "where", "backend")

    def __init__(self, name, hyps, goal, where="", info=None):
        self.name, self.hyps, self.goal = name, hyps, goal
        self.status, self.model, self.time, self.info, self.where, self.backend = None, None, 0.0, info, where, None


class Theory:
    """ground instantiation of the axioms of the tile-geometry functions"""
    def __init__(self):
        self.inst = {}       # decl name -> function(args) -> [facts]
        self.facts = []

    def add(self, decl, gen):
        self.inst[decl.name()] = gen

    def instantiate(self, fs):
        seen, out, done = set(), [], set()
        todo = list(fs)
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(t):
                nm = t.decl().name()
                if nm == "cdiv":
                    f = symex.cdiv_axiom(*t.children())
                    out.append(f)
                    todo.append(f)
                if nm in self.inst and t.num_args() and t.get_id() not in done:
                    done.add(t.get_id())
                    for f in self.inst[nm](*t.children()):
                        out.append(f)
                        todo.append(f)
                todo.extend(t.children())
        return out


def pos_factor(t):
    return z3.is_const(t) and t.decl().name() in symex.POSITIVE


def abstract_products(fs, triples=True):
    """replaces x*nb (nb a positive symbol) by P(x) and adds the order facts of multiplication by a positive number.
    Unsatisfiability of the result implies that of fs."""
    memo, prods = {}, {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if not z3.is_app(t):
            r = t
        else:
            ch = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_MUL:
                num, pf, rest = 1, [], []
                for c in ch:
                    if z3.is_int_value(c):
                        num *= c.as_long()
                    elif pos_factor(c) and not pf:
                        pf.append(c)
                    else:
                        rest.append(c)
                if pf and rest:
                    x = rest[0]
                    for y in rest[1:]:
                        x = x * y
                    f = z3.Function("P_" + pf[0].decl().name(), z3.IntSort(), z3.IntSort())
                    prods.setdefault(pf[0].decl().name(), (pf[0], f, {}))[2][x.get_id()] = x
                    r = f(x) * num if num != 1 else f(x)
                else:
                    r = t.decl()(*ch) if ch else t
            elif ch:
                if z3.is_and(t):
                    r = z3.And(*ch)
                elif z3.is_or(t):
                    r = z3.Or(*ch)
                elif t.decl().kind() == z3.Z3_OP_ADD:
                    r = z3.Sum(*ch)
                elif t.decl().kind() == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(*ch)
                else:
                    r = t.decl()(*ch)
            else:
                r = t
        memo[i] = (r, t)        # t is kept so that its id is not used again
        return r
    out = [go(z3.simplify(f, som=True)) for f in fs]
    for nb, f, xs in prods.values():
        l = list(xs.values())
        if len(l) > 40:
            continue
        for i, x in enumerate(l):
            out += [z3.Implies(x >= 1, f(x) >= nb), z3.Implies(x <= -1, f(x) <= -nb), z3.Implies(x == 0, f(x) == 0),
                    z3.Implies(x >= 2, f(x) >= 2 * nb)]
            for y in l[:i]:
                out += [z3.Implies(x >= y + 1, f(x) >= f(y) + nb), z3.Implies(y >= x + 1, f(y) >= f(x) + nb), z3.Implies(x == y, f(x) == f(y)),
                        z3.Implies(x == y + 1, f(x) == f(y) + nb), z3.Implies(y == x + 1, f(y) == f(x) + nb)]
                if triples and len(l) <= 12:
                    for w in l:
                        # x*nb and (y+w)*nb
                        if w.eq(x) or w.eq(y):
                            continue
                        out += [z3.Implies(x >= y + w, f(x) >= f(y) + f(w)), z3.Implies(x <= y + w, f(x) <= f(y) + f(w)),
                                z3.Implies(x >= y + w + 1, f(x) >= f(y) + f(w) + nb), z3.Implies(x + 1 <= y + w, f(x) + nb <= f(y) + f(w)),
                                z3.Implies(x >= y - w, f(x) >= f(y) - f(w)), z3.Implies(x <= y - w, f(x) <= f(y) - f(w)),
                                z3.Implies(x >= y - w + 1, f(x) >= f(y) - f(w) + nb), z3.Implies(x + 1 <= y - w, f(x) + nb <= f(y) - f(w)),
                                z3.Implies(y >= x - w, f(y) >= f(x) - f(w)), z3.Implies(y <= x - w, f(y) <= f(x) - f(w)),
                                z3.Implies(y >= x - w + 1, f(y) >= f(x) - f(w) + nb), z3.Implies(y + 1 <= x - w, f(y) + nb <= f(x) - f(w))]
    return out, bool(prods)


def solve(hyps, goal, theory=None, timeout=None):
    """('proved'|'refuted'|'unknown', model, seconds)"""
    t0 = time.time()
    fs = [h for h in hyps if h is not None] + [z3.Not(goal)]
    g = z3.simplify(z3.And(*fs))
    if z3.is_false(g):
        return "proved", None, time.time() - t0
    ax = []
    if theory is not None:
        ax = theory.facts + theory.instantiate(fs + theory.facts)
    if symex.POSITIVE:
        for triples in (False, True):
            ab, nonlinear = abstract_products(fs + ax, triples)
            if not nonlinear:
                break
            s = z3.Solver()
            s.set("timeout", timeout or TIMEOUT_MS)
            s.add(*ab)
            s.add(*symex.lit_axioms())
            if s.check() == z3.unsat:
                return "proved", None, time.time() - t0
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    s.add(*fs)
    s.add(*ax)
    s.add(*symex.lit_axioms())
    r = s.check()
    dt = time.time() - t0
    if r == z3.unsat:
        return "proved", None, dt
    if r == z3.sat:
        return "refuted", s.model(), dt
    # second try with another configuration
    s2 = z3.SolverFor("AUFLIA") if False else z3.Tactic("smt").solver()
    s2.set("timeout", timeout or TIMEOUT_MS)
    s2.add(*fs)
    s2.add(*ax)
    s2.add(*symex.lit_axioms())
    r = s2.check()
    dt = time.time() - t0
    return ("proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"), (s2.model() if r == z3.sat else None), dt


def smt2_of(hyps, goal, theory):
    fs = [h for h in hyps if h is not None] + [z3.Not(goal)]
    ax = theory.facts + theory.instantiate(fs + theory.facts) if theory is not None else []
    s = z3.Solver()
    s.add(*fs)
    s.add(*ax)
    s.add(*symex.lit_axioms())
    return s.to_smt2()


def cvc5_check(text, timeout=20):
    """second opinion: True iff cvc5 also reports unsat"""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (timeout * 1000), f.name], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout + 10)
        return p.stdout.decode().strip().split("\n")[0]
    except Exception as e:      # noqa
        return "error " + str(e)
    finally:
        os.unlink(f.name)
