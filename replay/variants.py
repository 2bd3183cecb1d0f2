"""Variants of the random calls: illegal arguments, zero sizes, failing allocations.  What must happen is read off the same
contracts (specs/api.py) the proofs use, evaluated on the concrete arguments."""
import ctypes as C, os, sys
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import Mismatch, same
import z3
from tcv.symex import lit, Ptr, NULL
from specs import api

EN = {}


class CEnv:
    """the contract environment of one concrete call"""
    def __init__(self, e, args, en):
        self.en, self.prec, self.cplx = en, e.prec, e.prec in "zc"
        self.p = args
        self.nb, self.ib = z3.IntVal(e.nb), z3.IntVal(e.ib)
        self.ctx = lambda f: z3.Int("plasma." + f)
        self.names = {}
        self.CT = z3.IntVal(en["PlasmaConjTrans" if self.cplx else "PlasmaTrans"])
        self.isnan = lambda x: z3.BoolVal(False)
        self.P, self.Plow = 0, 0

    def __getattr__(self, n):
        if n.startswith("Plasma"):
            return z3.IntVal(self.__dict__["en"][n])
        raise AttributeError(n)


def zval(e, ps, args):
    out = []
    for (ty, ptr, nm), a in zip(ps, args):
        if ptr:
            out.append(NULL if a is None else Ptr("*" + nm, z3.IntVal(0)))
        elif ty in ("int", "plasma_enum_t", "size_t"):
            out.append(z3.IntVal(e.c(a) if isinstance(a, str) else int(a)))
        elif ty == "char":
            out.append(z3.IntVal(a[0] if isinstance(a, bytes) else int(a)))
        elif isinstance(a, C.Structure):
            out.append(None)
        else:
            out.append(lit(complex(a).real) if complex(a).imag == 0 else z3.Const("scalar.im", lit(0.0).sort()))
    return out


def truth(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    from tcv import symex
    s = z3.Solver()
    s.add(*symex.lit_axioms())
    s.add(z3.Not(c))
    if s.check() == z3.unsat:
        return True
    return False


def zname(e, name):
    """the z routine of a precision-specific name"""
    if not EN.get(e.prec):
        m = {}
        for z in api.TABLE:
            for s in (api.names_of(z)[1],):
                try:
                    m.setdefault(e.name(s), z)
                except Exception:      # noqa
                    pass
        m.update({"plasma_dlag2s": "lag2c", "plasma_slag2d": "clag2z", "plasma_zlag2c": "lag2c", "plasma_clag2z": "clag2z"})
        EN[e.prec] = m
    return EN[e.prec].get(name)


def contract(e, name, args):
    z = zname(e, name)
    if z is None or api.TABLE[z][0] is None:
        return None
    ps = e.protos[name][1]
    en = CEnv(e, zval(e, ps, args), e.consts)
    return api.TABLE[z][0](en)


def first_error(sp):
    for pos, c in sp["err"]:
        if truth(c):
            return pos
    return 0


def snapshot(args):
    return [a.copy(order="K") if isinstance(a, np.ndarray) else bytes(a) if isinstance(a, C.Structure) else None for a in args]


def unchanged(args, snap, what):
    for k, (a, s) in enumerate(zip(args, snap)):
        if isinstance(a, np.ndarray):
            same(a, s, "argument %d (%s)" % (k + 1, what))
        elif isinstance(a, C.Structure) and bytes(a) != s:
            raise Mismatch("argument %d (%s) was changed" % (k + 1, what))


def mutate(e, ps, args, zero):
    args = list(args)
    fixed = getattr(e, "inputs", None)
    if fixed:
        e.inputs = None
        for k, v in fixed.items():
            if int(k) < len(args) and not isinstance(args[int(k)], np.ndarray):
                args[int(k)] = v
        return args
    ints = [k for k, (ty, ptr, nm) in enumerate(ps) if not ptr and ty in ("int", "plasma_enum_t")]
    opts = [k for k in ints if isinstance(args[k], str) or (ps[k][0] == "plasma_enum_t")]
    dims = [k for k in ints if k not in opts]
    vals = [int(args[k]) for k in dims if not isinstance(args[k], str)]
    for k in {int(e.rng.choice(ints)) for _ in range(e.pick(1, 1, 2, 3))}:
        if k in opts:
            if zero:
                continue
            args[k] = e.pick(0, -1, 110, 114, 120, 124, 130, 133, 140, 143, 500, e.i(100, 180))
        elif zero:
            args[k] = 0
        else:
            v = e.pick(*vals)
            args[k] = e.pick(-1, -3, 0, 1, v, v - 1, v + 1, max(0, int(args[k]) - 1), int(args[k]) + 1, e.i(0, 30), 1000)
    return args


def badarg(e, f):
    """one call with a mutated argument list: reported by position, nothing touched"""
    name, args, _ = f(e)
    if args is None or zname(e, name) is None:
        return None
    if getattr(e, "entry", None) not in (None, name):
        return None
    ps = e.protos[name][1]
    for _ in range(12):
        a = mutate(e, ps, args, False)
        sp = contract(e, name, a)
        if sp is None:
            return None
        pos = first_error(sp)
        if pos:
            break
    else:
        return None
    snap = snapshot(a)
    ex = e.lib.shim_executed()
    e.lib.shim_track(1, -1)
    ret = e.call(name, *a)
    n = e.lib.shim_allocs()
    e.lib.shim_track(0, -1)
    if ret != -pos:
        raise Mismatch("argument %d is the first illegal one: returned %s, want %s" % (pos, ret, -pos), a)
    unchanged(a, snap, "call with an illegal argument")
    if n:
        raise Mismatch("call with an illegal argument %d allocated memory" % pos, a)
    if e.lib.shim_executed() != ex:
        raise Mismatch("call with an illegal argument %d started a computation" % pos, a)
    return name, a


def zero(e, f):
    """one call with a size set to zero: success and no effect when the definition asks for none"""
    name, args, _ = f(e)
    if args is None or zname(e, name) is None:
        return None
    if getattr(e, "entry", None) not in (None, name):
        return None
    ps = e.protos[name][1]
    for _ in range(12):
        a = mutate(e, ps, args, True)
        sp = contract(e, name, a)
        if sp is None or sp["quick"] is None:
            return None
        if not first_error(sp) and truth(sp["quick"]):
            break
    else:
        return None
    snap = snapshot(a)
    ex = e.lib.shim_executed()
    ret = e.call(name, *a)
    if ret != 0:
        raise Mismatch("nothing to compute: returned %s, want 0" % ret, a)
    if not any(k in sp for k in ("quick_steps", "quick_stores", "quick_zeroes", "quick_free")):
        for k in sp.get("counter", ()):     # an output count of zero
            if int(a[k][0]) == 0:
                a[k][0] = snap[k][0]
        unchanged(a, snap, "nothing to compute")
        if e.lib.shim_executed() != ex:
            raise Mismatch("nothing to compute, yet a computation was started", a)
    return name, a


def alloc(e, f, seedrng):
    """the call with every allocation failing in turn: out-of-memory code, data unmodified, nothing lost or released twice"""
    name, args, chk = f(e)
    if args is None:
        return None
    Tpos = [k for k, (ty, ptr, nm) in enumerate(e.protos[name][1]) if ty == "plasma_desc_t" and ptr]
    e.lib.shim_track(1, -1)
    ret0 = e.call(name, *args)
    n = e.lib.shim_allocs()

    def drop(args):
        for k in Tpos:
            e.lib.plasma_desc_destroy(C.byref(args[k]))
    drop(args)
    live, bad = e.lib.shim_live(), e.lib.shim_bad_free()
    e.lib.shim_track(0, -1)
    if live or bad > 0:
        raise Mismatch("after the call %d blocks are still allocated, %d were released twice" % (live, bad), args)
    oom = e.consts["PlasmaErrorOutOfMemory"]
    for k in range(1, n + 1):
        seedrng()
        name, args, chk = f(e)
        snap = snapshot(args)
        e.lib.shim_track(1, k)
        ret = e.call(name, *args)
        hit = e.lib.shim_allocs() >= k
        if ret == 0 or e.lib.shim_live() == len(Tpos):      # the block-reflector factors belong to the caller once the computation started
            drop(args)
        live, bad = e.lib.shim_live(), e.lib.shim_bad_free()
        e.lib.shim_track(0, -1)
        if not hit:
            continue
        if ret != oom and not (ret == ret0 > 0):        # a numerical failure recorded first stays
            raise Mismatch("allocation %d of %d fails: returned %s, want %s" % (k, n, ret, oom), args)
        for q, (a, s) in enumerate(zip(args, snap)):
            if isinstance(a, np.ndarray) and a.dtype.kind in "fc" and not getattr(e, "alloc_may_write", False):
                same(a, s, "argument %d (allocation %d of %d failed)" % (q + 1, k, n))
        if live or bad:
            raise Mismatch("allocation %d of %d fails: %d blocks are still allocated, %d were released twice" % (k, n, live, bad), args)
    return name, args
