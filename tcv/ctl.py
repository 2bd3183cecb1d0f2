"""Path machine for control/*.c and the header functions: real bodies, globals as state, callers' variables by reference."""
import os
import z3
from .cfront import OutOfReach
from .symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, S, I, to_int, type_kind, is_null, lit_axioms, cdiv_axiom
from .apimach import APIMachine, c_nothing
from . import symex


def driver_tu(srcs, rel, text, tag):
    """translation unit: the real file `rel` of the tree followed by a driver that only calls its functions"""
    out = "%s__tcv_%s.c" % (rel[:-2], tag)
    with open(srcs.path(rel)) as f:
        src = f.read()
    with open(srcs.path(out), "w") as f:
        f.write(src + "\n" + text + "\n")
    return srcs.tu(out)


class CtlMachine(APIMachine):
    """no contract for anything defined in the unit; globals live in the state"""
    def __init__(self, tu, srcs, keep=()):
        super().__init__(tu, tu.enum_names, srcs)
        for k in list(self.contracts):
            if k in tu.funcs and k not in keep:
                if not k.startswith(("plasma_error", "plasma_warning", "plasma_fatal")):
                    del self.contracts[k]
        self.fields = {}

    def find_function(self, name):
        return self.tu.funcs.get(name) or self.inline_extra.get(name)

    # ---- globals
    def gkey(self, d, st):
        k = "g:" + d["name"]
        if k not in st.env:
            t = (d.get("type") or {})
            t = t.get("desugaredQualType") or t.get("qualType", "int")
            st.env[k] = self.sym_value(t, d["name"])
        return k

    def sym_value(self, t, name):
        k = type_kind(t)
        if k == "struct":
            return Struct(t, {"$id": name})
        if k == "arr":
            return Ptr(("arr", name))
        if k == "ptr":
            return Opaque(name)
        return z3.Const(name, S) if k == "scalar" else z3.Int(name)

    def load_global(self, d, n, st):
        return st.env[self.gkey(d, st)]

    def store_global(self, d, v, st, n):
        st.env[self.gkey(d, st)] = v

    def lvalue_addr(self, n, st):
        if n.kind == "DeclRefExpr":
            d = n.j["referencedDecl"]
            if d["kind"] == "VarDecl" and d["id"] not in st.env:
                k = self.gkey(d, st)
                return st.env[k] if isinstance(st.env[k], Ptr) else Ref(k)
        return super().lvalue_addr(n, st)

    def missing_field(self, s, name, n, st):
        return self.sym_value(n.type, "%s.%s" % (s.f.get("$id", s.tag), name))

    def unknown_call(self, name, n, st):
        args = [self.expr(k, st) for k in n.kids[1:]]
        self.event(name, args, n)
        # a pure query of the environment gives the same answer every time it is asked
        if name in ("omp_in_parallel", "omp_get_max_threads", "omp_get_num_threads", "omp_get_thread_num"):
            return z3.Int(name)
        return self.result(name, n.type)

    # ---- constant tables of strings
    def table(self, name):
        for g in self.tu.globals.values():
            if g.name == name:
                out = []

                def strs(x):
                    if x.kind == "StringLiteral":
                        out.append(eval(x.value))
                        return
                    if x.kind == "ImplicitValueInitExpr":
                        raise OutOfReach("sparse table")
                    for k in x.kids:
                        strs(k)
                strs(g)
                return out
        raise OutOfReach("table %s" % name)

    def ctl_load(self, p, name, n, st):
        if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "arr" and name is None:
            tab = self.table(p.obj[1])
            self.goals_extra.append(("table-bounds", list(self.pc), z3.And(p.off >= 0, p.off < len(tab))))
            return Ptr(("str", p.obj[1], p.off))
        if isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "str" and name is None:
            tab = self.table(p.obj[1])
            off = z3.simplify(p.off)
            if not z3.is_int_value(off):
                raise OutOfReach("string at symbolic position")
            k = off.as_long()
            self.goals_extra.append(("string-bounds", list(self.pc), z3.BoolVal(k == 0)))
            r = z3.IntVal(0)
            for i, s in enumerate(tab):
                c = ord(s[k]) if k < len(s) else 0
                if c:
                    r = z3.If(p.obj[2] == i, z3.IntVal(c), r)
            return r
        return self.load_any(p, name, n)

    def sizeof(self, t):
        import re
        m = re.match(r"(.*)\[(\d+)\]$", t.replace("const ", "").strip())
        if m:
            e = self.sizeof(m.group(1))
            return z3.IntVal(e.as_long() * int(m.group(2)))
        return super().sizeof(t)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.kids and not n.get("argType"):
            return self.sizeof(n.kids[0].type)
        return super().e_UnaryExprOrTypeTraitExpr(n, st)

    def run_ctl(self, fname, values, hyps=(), state=None):
        """values: {parameter name: value}; a Ref argument names a variable of the caller (its value in state)"""
        self.entry = fname
        fn = self.tu.funcs.get(fname)
        if fn is None:
            raise OutOfReach("function %s not found" % fname)
        for p in fn.params:
            self.vtypes[p.id] = p.type
        self.goals_extra = []
        self.store_hook = lambda a, v, st, n: self.event("store", [a, v], n) or True
        self.load_hook = lambda p, name, n, st: self.ctl_load(p, name, n, st)

        def mkenv(mm, st):
            st.env.update(state() if state else {})

        def mkargs(mm):
            out = []
            for i, p in enumerate(fn.params):
                if isinstance(values, (list, tuple)):
                    out.append(values[i])
                else:
                    out.append(values[p.name] if p.name in values else self.sym_value(p.type, p.name))
            return out
        return self.paths(fname, mkargs, hyps, mkenv)


def nonlinear_facts(fs, extra=()):
    """axioms of the C divisions that occur"""
    seen, out, todo = set(), [], list(fs) + list(extra)
    keep = []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        keep.append(t)
        if z3.is_app(t):
            if t.decl().name() == "cdiv":
                f = cdiv_axiom(*t.children())
                out.append(f)
                todo.append(f)
            todo.extend(t.children())
    return out


def prove(r, name, hyps, goal, where="", info=None, timeout=10000):
    """discharge one obligation into the result"""
    import time
    t0 = time.time()
    goal = z3.simplify(goal, som=True) if isinstance(goal, z3.ExprRef) else z3.BoolVal(bool(goal))
    mt = ""
    if z3.is_true(goal):
        st = "proved"
    else:
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*hyps)
        s.add(*lit_axioms())
        s.add(*nonlinear_facts(list(hyps) + [goal]))
        s.add(z3.Not(goal))
        a = s.check()
        st = "proved" if a == z3.unsat else "refuted" if a == z3.sat else "unknown"
        if a == z3.sat:
            m = s.model()
            mt = ", ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and not d.name().startswith("lit("))[:1500]
        elif a == z3.unsat and os.environ.get("VERIF_TIER") == "thorough":
            from . import vc
            try:
                ans = vc.cvc5_check(s.to_smt2())
            except Exception:       # noqa
                ans = "error"
            r.smt2[ans] = r.smt2.get(ans, 0) + 1
            if ans == "sat":
                st = "disputed"
    r.obs.append((name, st, time.time() - t0, where, info or {}, mt))
    return st
