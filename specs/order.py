"""C10: conflicting accesses of two tasks are ordered by the declared dependences.

(a) every task wrapper declares every array its kernel touches (wrapper contracts, part "depend");
(b) the dependence of OpenMP is on the first element of the array: every matrix operand of a task is a whole tile, named by the start of the tile, or a
    vector of which every task names the same start or a disjoint part; where a later task names only the start of what earlier tasks wrote at other
    places, or the calling thread reads or writes the data itself, all tasks have been waited for;
(c) tasks written out in a tile algorithm declare every tile they hand to a kernel, or, where a task works on a whole panel, its first and last tile."""
import re
import z3
from tcv.pz import PzMachine
from tcv.ctl import prove
from tcv.cfront import OutOfReach
from tcv.symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, to_int
from .failure import pz_files, pz_functions, WITH_TASKS

I = z3.Int
# statically scheduled by the threads of a team, not tasks
STATIC = re.compile(r"gbbrd_static|_blgtrd$|gecpy_tile2lapack_band")


def wrapper_part(ctx):
    from specs.wrappers import wrapper_jobs
    return wrapper_jobs(ctx, {"depend"})


def pz_jobs(ctx):
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        for rel in pz_files(ctx.srcs, p):
            for fn in pz_functions(ctx.srcs, rel):
                if STATIC.search(fn):
                    continue
                out.append((fn, pz_job(ctx, rel, fn)))
    return out


def is_tile(p):
    return isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj and p.obj[0] == "tile"


def vec(p):
    """name of the array (parameter or block) a pointer points into, if it is not a tile"""
    if isinstance(p, Ptr) and not is_tile(p) and p.obj != "NULL" and not (isinstance(p.obj, str) and p.obj.startswith("string:")):
        return p.obj
    return None


def pz_job(ctx, rel, fn):
    def run(r):
        r.functions = [fn]
        tu = ctx.srcs.tu(rel)
        m = PzMachine(tu, ctx.srcs)
        hyps = [I("sequence.status") == 0, I("A.mb") >= 1, I("A.nb") >= 1]
        user = "2desc" in fn or "desc2" in fn           # layout translation: the other operand is the user's array
        if user:                                        # whole matrices are translated (contract of the drivers, C20)
            hyps += [I("A.i") == 0, I("A.j") == 0]
        paths = [P for P in m.run_ctl(fn, {}, hyps) if P.kind != "infeasible"]
        # what the tasks inside each loop write into vectors, and where (loop, vector) -> offsets
        inloop = {}
        n = 0
        for P in paths:
            for e in P.events:
                if e.name == "insert" and e.task is None and e.loop:
                    for a in e.args[1:]:
                        v = vec(a)
                        if v is not None:
                            inloop.setdefault(v, set()).update(e.loop)
        for k, P in enumerate(paths):
            H = P.pc + hyps
            tag = lambda s, e: "%s.%s@%s#%d" % (fn, s, e.line, k)
            waited = 0          # index of the last taskwait
            for q, e in enumerate(P.events):
                if e.name == "taskwait" and e.task is None:
                    waited = q
                if e.name == "insert":
                    n += 1
                    for a in e.args[1:]:
                        if is_tile(a):
                            prove(r, tag("whole-tiles", e), H, a.off == 0, where=str(e.line), info=dict(kind="depend"))
                if e.name == "insert" and e.task is None and not user and not e.loop:
                    # a task outside of the loops that filled a vector sees it complete
                    for a in e.args[1:]:
                        v = vec(a)
                        if v is None:
                            continue
                        for L in inloop.get(v, ()):
                            if L in e.loop:
                                continue
                            ends = [i for i, x in enumerate(P.events[:q]) if x.name == "loop-exit" and x.args and z3.is_int_value(z3.IntVal(x.args[0])) and x.args[0] == L]
                            if ends:
                                prove(r, tag("waits-for-the-parts", e), H, z3.BoolVal(waited > ends[-1]), where=str(e.line), info=dict(kind="depend"))
                if e.name == "kernel" and e.task is None and any(is_tile(a) for a in e.args[1:]):
                    prove(r, tag("works-in-a-task", e), H, z3.BoolVal(False), where=str(e.line), info=dict(kind="depend"))
                if e.name in ("store", "load") and is_tile(e.args[0]) and e.task is None:
                    prove(r, tag("touches-tiles-in-a-task", e), H, z3.BoolVal(False), where=str(e.line), info=dict(kind="depend"))
                if e.name in ("store", "load") and e.task is None and vec(e.args[0]) is not None and inloop.get(vec(e.args[0])):
                    ends = [i for i, x in enumerate(P.events[:q]) if x.name == "loop-exit" and x.args[0] in inloop[vec(e.args[0])]]
                    if ends:
                        prove(r, tag("waits-for-the-tasks", e), H, z3.BoolVal(waited > ends[-1]), where=str(e.line), info=dict(kind="depend"))
                if e.name == "kernel" and e.task is not None:
                    panel_deps(r, tag, H, e)
        if not n:
            r.may_be_empty = True
        if True:
            prove(r, fn + ".reached", [], z3.BoolVal(len(paths) > 0), info=dict(kind="vacuity"))
    return run


WRITES = {"gemm": {2}, "trsm": {1}, "herk": {1}, "her2k": {2}, "lacpy": {1}}     # which of the tile operands a kernel writes (by position)


def panel_deps(r, tag, H, e):
    """the outermost task and the tasks around the kernel declare a tile of the column (or row) of every tile the kernel touches"""
    deps = []
    t = e.task
    while t is not None:
        deps += t.args[0]
        t = t.task
    name = re.sub(r"^plasma_core_[zcds]", "", e.args[0])
    name = {"sygst": "hegst", "syrk": "herk", "syr2k": "her2k"}.get(name, name)
    tiles = [a for a in e.args[1:] if is_tile(a)]
    views = [a for a in e.args[1:] if isinstance(a, Struct) and a.f.get("$view")]
    dt = [(m, b) for m, b, ln in deps if is_tile(b)]
    for q, a in enumerate(tiles):
        w = q in WRITES.get(name, ())
        alts = [z3.And(z3.BoolVal(b.obj[1] == a.obj[1]), z3.Or(b.obj[3] == a.obj[3], b.obj[2] == a.obj[2])) for m, b in dt if m != "in" or not w]
        prove(r, tag("declares-its-tiles", e), H, z3.Or(*alts) if alts else z3.BoolVal(False), where=str(e.line), info=dict(kind="depend"))
    for v in views:
        i, j, mm, nn = v.f["$view"]
        mb, nb = I("%s.mb" % v.f["$id"]), I("%s.nb" % v.f["$id"])
        alts = [z3.And(z3.BoolVal(b.obj[1] == v.f["$id"]), z3.Or(b.obj[3] * nb == j, b.obj[2] * mb == i)) for m, b in dt if m != "in"]
        prove(r, tag("declares-its-panel", e), H, z3.Or(*alts) if alts else z3.BoolVal(False), where=str(e.line), info=dict(kind="depend"))
