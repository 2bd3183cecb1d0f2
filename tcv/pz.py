"""Path machine for the tile algorithms compute/p*.c: tasks with their bodies, tile addresses, kernels as events.

The status of the sequence can change between tasks (an earlier task may fail), so it is a new symbol at the start of every outermost task."""
import z3
from .cfront import OutOfReach
from .wrap import WrapMachine
from .symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, S, I, to_int, type_kind, is_null, subst
from . import apimach

TILEFN = {}
for _k in ("plasma_tile_mview", "plasma_tile_nview", "plasma_tile_mmain", "plasma_tile_nmain", "plasma_tile_mmain_band", "BLKLDD"):
    TILEFN[_k] = _k


class PzMachine(WrapMachine):
    def __init__(self, tu, srcs):
        super().__init__(tu, srcs)
        for k in list(tu.funcs) + list(getattr(tu, "protos", {})):
            if k.startswith("plasma_core_omp_"):
                self.contracts[k] = self.insert(k)
            elif k.startswith("plasma_p") and k not in ("plasma_pdesc",):
                self.contracts[k] = self.insert(k)
        self.contracts["plasma_tile_addr"] = self.addr
        for k in ("plasma_tile_addr_general", "plasma_tile_addr_triangle", "plasma_tile_addr_general_band"):
            self.contracts[k] = self.addr
        for k in TILEFN:
            self.contracts[k] = self.tilefn(k)
        self.contracts["plasma_desc_view"] = apimach.c_view
        self.contracts["malloc"] = self.malloc
        self.contracts["calloc"] = self.malloc
        self.contracts["free"] = lambda m, a, n, st: (m.event("free", a, n), z3.IntVal(0))[1]
        self.contracts["plasma_barrier_init"] = lambda m, a, n, st: z3.IntVal(0)

        self.contracts["imin"] = lambda m, a, n, st: z3.If(to_int(a[0]) < to_int(a[1]), to_int(a[0]), to_int(a[1]))
        self.contracts["imax"] = lambda m, a, n, st: z3.If(to_int(a[0]) > to_int(a[1]), to_int(a[0]), to_int(a[1]))

        self.contracts["plasma_tree_operations"] = c_tree
        self.contracts["plasma_tree_get_operation"] = c_tree_get

    def unknown_call(self, name, n, st):
        if name.startswith("plasma_core_omp_") or name.startswith("plasma_p"):
            return self.insert(name)(self, [self.expr(k, st) for k in n.kids[1:]], n, st)
        if name.startswith(("plasma_core_", "cblas_", "LAPACKE_")):
            return self.kernel(name)(self, [self.expr(k, st) for k in n.kids[1:]], n, st)
        return super().unknown_call(name, n, st)

    @property
    def statver(self):
        return getattr(self, "_sv", 0)

    def malloc(self, m, a, n, st):
        self.event("malloc", a, n)
        k = self.counter.get("malloc", 0)
        self.counter["malloc"] = k + 1
        return Ptr(("block", k))

    def desc_id(self, A):
        v = A.f.get("$view")
        return (A.f.get("$id"), tuple(v) if v else None)

    def addr(self, m, a, n, st):
        A = a[0]
        i, j = to_int(a[1]), to_int(a[2])
        return Ptr(("tile", A.f.get("$id"), z3.simplify(i), z3.simplify(j), A.f.get("$view")))

    def tilefn(self, name):
        def h(m, a, n, st):
            A = a[0]
            f = z3.Function("%s(%s)" % (name, A.f.get("$id")), *([I] * (len(a) - 1)), I)
            return f(*[to_int(x) for x in a[1:]])
        return h

    def insert(self, name):
        def h(m, a, n, st):
            m.event("insert", [name] + list(a), n)
            return m.result(name, n.type)
        return h

    def kernel(self, name):
        def h(m, a, n, st):
            m.event("kernel", [name] + list(a), n)
            for x in a:
                if isinstance(x, Ref):
                    v = m.read_ref(x, st)
                    if isinstance(v, z3.ExprRef):
                        m.write_ref(x, m.sym("out:" + name, v.sort()), st)
            return m.result(name, n.type)
        return h

    def sym_value(self, t, name):
        if type_kind(t) == "struct" and "desc" in t:
            return Struct("plasma_desc_t", {"$id": name})
        return super().sym_value(t, name)

    # ---- the status of the sequence
    def opaque_field(self, s, name, n, st):
        if s.tag == "sequence" and name == "status":
            return self.status()
        return super().opaque_field(s, name, n, st)

    def status(self):
        t, k = self.task, 0
        if t is None:
            return z3.Int("sequence.status")
        return z3.Int("sequence.status@%d" % self.task_no(t))

    def task_no(self, t):
        """number of the outermost task"""
        while getattr(t, "task", None) is not None:
            t = t.task
        ks = [e for e in self.evs if e.name == "task" and e.task is None]
        return ks.index(t)

    def paths(self, *a, **k):
        return super().paths(*a, **k)


def c_tree(m, a, n, st):
    m.event("malloc", [a[0]], n)
    m.write_ref(a[2], Ptr(("block", "operations")), st)
    m.write_ref(a[3], m.sym("num_operations"), st)
    return z3.IntVal(0)


def c_tree_get(m, a, n, st):
    for x, nm in zip(a[2:], ("kernel", "col", "row", "rowpiv")):
        m.write_ref(x, z3.Function("op." + nm, I, I)(to_int(a[1])), st)
    return z3.IntVal(0)
