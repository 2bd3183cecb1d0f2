"""C11: the first failure of a sequence is kept, has the index in the whole matrix, and no task works after it."""
import os, re
import z3
from tcv.pz import PzMachine
from tcv.ctl import CtlMachine, driver_tu, prove
from tcv.cfront import OutOfReach
from tcv.symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, to_int, I as IS

I = z3.Int


# ------------------------------------------------------------------ the record of a failure
ASYNC = """
int tcv_fail(int sq, int rq, int s0, int r0, int status)
{
    plasma_sequence_t seq; plasma_request_t req, other;
    seq.status = s0; seq.request = &other; req.status = r0; other.status = 77;
    plasma_sequence_t *ps = 0; plasma_request_t *pr = 0;
    if (sq) ps = &seq;
    if (rq) pr = &req;
    int ret = plasma_request_fail(ps, pr, status);
    tcv_note(ret, seq.status, req.status, seq.request == &req, other.status);
    return ret;
}
int tcv_init(int s0, int r0)
{
    plasma_sequence_t seq; plasma_request_t req;
    seq.status = s0; seq.request = &req; req.status = r0;
    int a = plasma_sequence_init(&seq), b = plasma_request_init(&req);
    tcv_note(a, b, seq.status, req.status, 0);
    return 0;
}
"""


def async_jobs(ctx):
    srcs = ctx.srcs
    tu = driver_tu(srcs, "control/async.c", "void tcv_note(int, int, int, int, int);" + ASYNC, "async")

    def fail(r):
        r.functions = ["plasma_request_fail"]
        m = CtlMachine(tu, srcs, keep=())
        m.contracts.pop("plasma_request_fail", None)
        sq, rq, s0, r0, st = z3.Ints("sq rq s0 r0 st")
        seen = 0
        for k, P in enumerate(m.run_ctl("tcv_fail", [sq, rq, s0, r0, st])):
            if P.kind == "infeasible":
                continue
            ev = [e for e in P.events if e.name == "tcv_note"]
            H = P.pc
            prove(r, "plasma_request_fail.returns#%d" % k, H, z3.BoolVal(P.kind == "return" and len(ev) == 1), info=dict(kind="record"))
            if not ev:
                continue
            seen += 1
            ret, s1, r1, same, oth = [to_int(x) for x in ev[0].args]
            prove(r, "plasma_request_fail.returns-the-code#%d" % k, H, ret == st, info=dict(kind="record"))
            prove(r, "plasma_request_fail.first-failure-of-the-sequence#%d" % k, H, s1 == z3.If(z3.And(sq != 0, s0 == 0), st, s0), info=dict(kind="record"))
            prove(r, "plasma_request_fail.first-failure-of-the-request#%d" % k, H, r1 == z3.If(z3.And(rq != 0, r0 == 0), st, r0), info=dict(kind="record"))
            prove(r, "plasma_request_fail.failed-request-is-recorded#%d" % k, H, (same == 1) == z3.And(sq != 0, s0 == 0, rq != 0) if True else None, info=dict(kind="record"))
            prove(r, "plasma_request_fail.other-requests-untouched#%d" % k, H, oth == 77, info=dict(kind="record"))
        prove(r, "plasma_request_fail.runs", [], z3.BoolVal(seen > 0), info=dict(kind="vacuity"))

    def init(r):
        r.functions = ["plasma_sequence_init", "plasma_request_init"]
        m = CtlMachine(tu, srcs)
        for x in ("plasma_sequence_init", "plasma_request_init"):
            m.contracts.pop(x, None)
        s0, r0 = z3.Ints("s0 r0")
        for k, P in enumerate(m.run_ctl("tcv_init", [s0, r0])):
            if P.kind == "infeasible":
                continue
            ev = [e for e in P.events if e.name == "tcv_note"]
            prove(r, "init.returns#%d" % k, P.pc, z3.BoolVal(P.kind == "return" and len(ev) == 1), info=dict(kind="record"))
            if ev:
                prove(r, "init.success#%d" % k, P.pc, z3.And(*[to_int(x) == 0 for x in ev[0].args]), info=dict(kind="record"))
    return [("plasma_request_fail", fail), ("plasma_sequence_init", init)]


# ------------------------------------------------------------------ tile algorithms
def pz_files(srcs, prec):
    d = os.path.join(srcs.dir, "compute")
    for f in sorted(os.listdir(d)):
        q = re.match(r"p([zcds])\w+\.c$", f)
        if q and q.group(1) == prec and "__tcv" not in f:
            yield "compute/" + f


def pz_functions(srcs, rel):
    text = open(srcs.path(rel)).read()
    return [q.group(1) for q in re.finditer(r"\n(?:static\s+)?void\s+(plasma_p\w+)\s*\(([^;{]*)\{", text) if "plasma_sequence_t" in q.group(2)]


def stop_jobs(ctx):
    """with a sequence that has failed a tile algorithm does nothing at all"""
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        for rel in pz_files(ctx.srcs, p):
            for fn in pz_functions(ctx.srcs, rel):
                out.append((fn, stop_job(ctx, rel, fn)))
    return out


INERT = {"loop-enter", "loop-exit", "loop-count", "iteration-end", "load", "parallel-begin", "parallel-end", "barrier", "taskwait", "request_fail", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads"}


def stop_job(ctx, rel, fn):
    def run(r):
        r.functions = [fn]
        tu = ctx.srcs.tu(rel)
        m = PzMachine(tu, ctx.srcs)
        hyps = [I("sequence.status") != 0]
        n = 0
        for k, P in enumerate(m.run_ctl(fn, {}, hyps)):
            if P.kind == "infeasible":
                continue
            n += 1
            bad = [e for e in P.events if e.name not in INERT]
            for e in bad[:3]:
                prove(r, "%s.idle-after-a-failure[%s]#%d" % (fn, e.name, k), P.pc + hyps, z3.BoolVal(False), where=str(e.line), info=dict(kind="guard"))
            if not bad:
                prove(r, "%s.idle-after-a-failure#%d" % (fn, k), P.pc, z3.BoolVal(P.kind == "return"), info=dict(kind="guard"))
        prove(r, fn + ".reached", [], z3.BoolVal(n > 0), info=dict(kind="vacuity"))
    return run


WITH_TASKS = re.compile(r"#pragma\s+omp\s+task\b(?!wait)")


def task_jobs(ctx):
    """tasks written out in the tile algorithms: kernels run only while the sequence has not failed; indices are those of the whole matrix"""
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        for rel in pz_files(ctx.srcs, p):
            text = open(ctx.srcs.path(rel)).read()
            if not WITH_TASKS.search(text):
                continue
            for fn in pz_functions(ctx.srcs, rel):
                out.append((fn, task_job(ctx, rel, fn)))
    return out


def matrix_store(e):
    p = e.args[0]
    return isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "tile"


def task_job(ctx, rel, fn):
    def run(r):
        r.functions = [fn]
        tu = ctx.srcs.tu(rel)
        m = PzMachine(tu, ctx.srcs)
        n = ntask = 0
        hyps = [I("sequence.status") == 0]
        for k, P in enumerate(m.run_ctl(fn, {}, hyps)):
            if P.kind == "infeasible":
                continue
            H = P.pc + hyps
            tag = lambda s, e: "%s.%s@%s#%d" % (fn, s, e.line, k)
            tasks = [e for e in P.events if e.name == "task" and e.task is None]
            ntask += len(tasks)
            for q, e in enumerate(P.events):
                if e.name == "kernel" or (e.name == "store" and matrix_store(e)):
                    if e.args[0] in ("plasma_core_zlange",):
                        pass
                    if e.task is None:
                        continue
                    t = e.task
                    while t.task is not None:
                        t = t.task
                    st = I("sequence.status@%d" % tasks.index(t))
                    # the status may also have been recorded as failed earlier in the same task
                    prove(r, tag("idle-after-a-failure", e), H, st == 0, where=str(e.line), info=dict(kind="guard"))
                    n += 1
                if e.name == "request_fail" and e.task is not None:
                    code = to_int(e.args[2])
                    prev = [x for x in P.events[:q] if x.name == "kernel" and re.match(r"plasma_core_[zcds]getrf$", x.args[0]) and x.task is e.task]
                    if z3.is_int_value(z3.simplify(code)):
                        prove(r, tag("code", e), H, code < 0, where=str(e.line), info=dict(kind="report"))
                        continue
                    if not prev:
                        prove(r, tag("failure-of-a-kernel", e), H, z3.BoolVal(False), where=str(e.line), info=dict(kind="report"))
                        continue
                    kern = prev[-1]
                    view, ip = kern.args[1], kern.args[2]
                    info = I_out(P, kern)
                    if info is None:
                        raise OutOfReach("no output of the panel kernel in the code")
                    base = z3.simplify(code - info)
                    off = ip.off if isinstance(ip, Ptr) else None
                    prove(r, tag("index", e), H, z3.BoolVal(off is not None) if off is None else base == off, where=str(e.line), info=dict(kind="report"))
                    vw = view.f.get("$view")
                    if vw and "getrf" in fn:
                        prove(r, tag("index-is-the-row", e), H, base == vw[0], where=str(e.line), info=dict(kind="report"))
                    prove(r, tag("only-failures", e), H, info != 0, where=str(e.line), info=dict(kind="report"))
            # a panel kernel that reported an index is followed by its report
            for q, e in enumerate(P.events):
                if e.name == "kernel" and re.match(r"plasma_core_[zcds]getrf$", e.args[0]):
                    info = I_out(P, e)
                    rep = [x for x in P.events[q + 1:] if x.name == "request_fail"]
                    if info is None:
                        prove(r, tag("failure-is-reported", e), H, z3.BoolVal(False), where=str(e.line), info=dict(kind="report"))
                    else:
                        prove(r, tag("failure-is-reported", e), H, z3.Or(info == 0, z3.BoolVal(bool(rep))), where=str(e.line), info=dict(kind="report"))
        prove(r, fn + ".reached", [], z3.BoolVal(ntask > 0), info=dict(kind="vacuity"))
        if not n:
            r.may_be_empty = True
    return run


def I_out(P, kern):
    """symbol written by the panel kernel through its info argument"""
    from specs.wrappers import syms
    out = [s for s in syms([c for c in P.pc if isinstance(c, z3.ExprRef)]) if s.decl().name().startswith("out:" + kern.args[0])]
    return out[-1] if out else None


# ------------------------------------------------------------------ the index handed to the tile kernel; the code handed to the caller
def keep(jobs, rx):
    """the obligations of the jobs whose name matches"""
    def wrap(j):
        def run(r):
            j(r)
            r.obs = [o for o in r.obs if re.search(rx, o[0])]
        return run
    return [(l, wrap(j)) for l, j in jobs]


def index_jobs(ctx):
    from specs import level3
    from tcv import tilecheck
    tab = {k: v for k, v in level3.C06.items() if k in ("pzpotrf", "pzpbtrf", "pztrtri")}
    tilecheck.register(tab)
    jobs = []
    for p in ctx.precs:
        jobs += tilecheck.make_jobs(ctx.srcs, tab, p, level3.Cx, ignore=set("uplo n m k diag side ta tb alpha trans val".split()))
    return keep(jobs, r"(effect|complete)\[(potrf|trtri|factor|block)\b")


STATUS_OF = "potrf posv pbtrf pbsv getrf gesv gbtrf gbsv trtri poinv potri geinv".split()


def status_jobs(ctx):
    from tcv import apijobs
    return keep([j for j in apijobs.jobs(ctx, "C20", only=STATUS_OF) if "_omp_" not in j[0]], r"returns-final-status")


def wrapper_part(ctx):
    from specs.wrappers import wrapper_jobs
    return wrapper_jobs(ctx, {"guard", "report"})
