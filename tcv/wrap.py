"""Task wrappers of the kernels (core_blas/): what a task declares, when it runs and what it hands to its kernel."""
import os, re
import z3
from .cfront import OutOfReach
from .ctl import CtlMachine, prove
from .symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, S, I, to_int, to_bool, to_scalar, type_kind, is_null

STATUS = "sequence.status"


class WrapMachine(CtlMachine):
    """pointer parameters are bases Ptr(name); kernels (plasma_core_*, BLAS, LAPACK) are events; element accesses are events"""
    def __init__(self, tu, srcs):
        super().__init__(tu, srcs)
        self.kernels = set()
        for k in list(tu.funcs) + list(getattr(tu, "protos", {})):
            if k.startswith("plasma_core_") and not k.startswith("plasma_core_omp_"):
                self.contracts[k] = self.kernel(k)
        self.contracts["plasma_request_fail"] = lambda m, a, n, st: (m.event("request_fail", a, n), a[2])[1]

    def kernel(self, name):
        def h(m, a, n, st):
            m.event("kernel", [name] + list(a), n)
            return m.result(name, n.type)
        return h

    def sym_value(self, t, name):
        if type_kind(t) == "ptr" and name not in ("sequence", "request"):
            return Ptr(name)
        return super().sym_value(t, name)

    def ctl_load(self, p, name, n, st):
        if isinstance(p, Ptr):
            if name is None:
                if p.obj == "work.spaces":
                    return Ptr(("space", z3.simplify(p.off)))
                if isinstance(p.obj, str) and not p.obj.startswith("string:"):
                    self.event("load", [p], n)
                    return self.result("elt", n.type) if type_kind(n.type) in ("int", "scalar") else Opaque("elt")
        return super().ctl_load(p, name, n, st)


def base_of(p):
    """name of the parameter a pointer points into, and the offset"""
    if isinstance(p, Ptr):
        return p.obj, z3.simplify(p.off)
    return None, None


def _predef(self, n, st):
    return Ptr("string:func")


WrapMachine.e_PredefinedExpr = _predef
_old = WrapMachine.lvalue_addr


def _addr(self, n, st):
    return Ptr("string:func") if n.kind == "PredefinedExpr" else _old(self, n, st)


WrapMachine.lvalue_addr = _addr
