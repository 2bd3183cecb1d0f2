"""Machine for the kernels in core_blas/core_*.c: BLAS and LAPACK calls are events, element accesses are events with addresses."""
import z3
from .cfront import OutOfReach
from .wrap import WrapMachine
from .ctl import prove
from .symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, S, I, to_int, to_scalar, type_kind, is_scalar, ufun, lit

LETTER = z3.Function("lapack_letter", I, I)


class KernMachine(WrapMachine):
    def __init__(self, tu, srcs):
        super().__init__(tu, srcs)
        self.contracts["lapack_const"] = self.contracts["plasma_lapack_const"] = lambda m, a, n, st: LETTER(to_int(a[0]))
        for k in ("plasma_coreblas_error", "plasma_coreblas_error_func_line_file", "coreblas_error_func_line_file"):
            self.contracts[k] = lambda m, a, n, st: z3.IntVal(0)
        self.contracts["imin"] = lambda m, a, n, st: z3.If(to_int(a[0]) < to_int(a[1]), to_int(a[0]), to_int(a[1]))
        self.contracts["imax"] = lambda m, a, n, st: z3.If(to_int(a[0]) > to_int(a[1]), to_int(a[0]), to_int(a[1]))
        self.contracts["memset"] = self.lib("memset")
        for k in list(self.contracts):
            if k.startswith("plasma_core_") and k in tu.funcs and not k.startswith("plasma_core_omp_"):
                del self.contracts[k]

    def lib(self, name):
        def h(m, a, n, st):
            vals = []
            for x in a:
                if isinstance(x, Ref):
                    v = m.read_ref(x, st)
                    vals.append(("ref", v, x))
                else:
                    vals.append(x)
            e = m.event("kernel", [name] + vals, n)
            e.extra = n
            # written through a reference: unknown afterwards
            for x in a:
                if isinstance(x, Ref):
                    v = m.read_ref(x, st)
                    if isinstance(v, z3.ExprRef) and name.startswith("LAPACK_") and False:
                        m.write_ref(x, m.sym("out:" + name, v.sort()), st)
            return m.result(name, n.type)
        return h

    def unknown_call(self, name, n, st):
        if name.startswith(("cblas_", "LAPACKE_", "LAPACK_", "plasma_core_", "memset", "memcpy")) or (name.endswith("_") and name[0] in "zcdsZCDS"):
            return self.lib(name)(self, [self.expr(k, st) for k in n.kids[1:]], n, st)
        return super().unknown_call(name, n, st)

    def ctl_load(self, p, name, n, st):
        if isinstance(p, Ptr) and name is None and isinstance(p.obj, str) and not p.obj.startswith("string:") and type_kind(n.type) in ("int", "scalar"):
            self.event("load", [p], n)
            s = S if type_kind(n.type) == "scalar" else I
            return z3.Function("elt:%s" % p.obj, I, s)(p.off)
        return super().ctl_load(p, name, n, st)


def leaves(t):
    """(shape, [(array, offset)]) of a value: shape with array elements named by their array"""
    out = []

    def go(t):
        if z3.is_app(t):
            nm = t.decl().name()
            if nm.startswith("elt:"):
                out.append((nm[4:], t.children()[0]))
                return nm
            ch = [go(c) for c in t.children()]
            if nm in ("fadd", "fmul"):
                flat = []
                for c in ch:
                    flat += list(c[1:]) if isinstance(c, tuple) and c[0] == nm else [c]
                return (nm,) + tuple(sorted(flat, key=repr))
            if nm == "fsub":            # a - b = a + (-b)
                return go_sub(ch)
            return (nm,) + tuple(ch) if ch else nm
        return str(t)

    def go_sub(ch):
        a, b = ch
        flat = list(a[1:]) if isinstance(a, tuple) and a[0] == "fadd" else [a]
        return ("fadd",) + tuple(sorted(flat + [("neg", b)], key=repr))
    return go(t), out


def skolem(path, subst_pairs):
    """path condition with the loop counters replaced; free choices of loop cuts taken as on the path"""
    pc = []
    for c in path.pc:
        pc.append(z3.substitute(c, *subst_pairs) if subst_pairs else c)
    return z3.And(*pc) if pc else z3.BoolVal(True)


def drop_choices(pc):
    out = []
    for c in pc:
        b = c.children()[0] if z3.is_not(c) else c
        if z3.is_const(b) and z3.is_bool(b) and b.decl().name().startswith("choice:"):
            continue
        out.append(c)
    return out


def counters(path):
    """loop counters of a path: (symbol at this iteration, first value, loop line)"""
    return [(e.args[0], e.args[1], e.line) for e in path.events if e.name == "loop-count"]
