"""Contracts of the task wrappers plasma_core_omp_*: one task, the kernel with the wrapper's own arguments, only while the sequence has not failed,
a failure of the kernel reported (with the offset of the tile), and every array the kernel touches declared as a dependence.

The declared contract is generated from the prototypes (which arrays are const), except where the tables below say otherwise."""
import os, re
import z3
from tcv.wrap import WrapMachine, base_of
from tcv.ctl import prove
from tcv.symex import Ptr, Opaque, Struct, to_int, to_scalar, type_kind, I as IS, is_int
from tcv.cfront import OutOfReach

I = z3.Int
FAMILY = dict(
    C05="gemm symm hemm syrk herk syr2k her2k trmm",
    C06="potrf trsm trtri lauum hegst",
    C07="geadd tradd lacpy lacpy_lapack2tile_band lacpy_tile2lapack_band lascl laset lag2c clag2z",
    C08="geqrt gelqt tsqrt tslqt ttqrt ttlqt tsmqr tsmlq ttmqr ttmlq unmqr unmlq",
    C16="lange lange_aux lansy lansy_aux lanhe lanhe_aux lantr lantr_aux gessq gessq_aux hessq hessq_aux syssq syssq_aux trssq dzamax")
# arrays that are not const in the prototype but only read
READ_ONLY = {"zlag2c": {"A"}, "clag2z": {"As"}, "zhegst": {"B"}}
# scratch that is private to the task (its value is not communicated): no dependence needed
SCRATCH = {"zlange": {"work"}, "zlansy": {"work"}, "zlanhe": {"work"}, "zlantr": {"work"}}
# no kernel: the body itself is the kernel
INLINE = ("_aux", "dzamax")
# kernels that report a positive index
INDEXED = ("zpotrf", "ztrtri")
STATUS_CODE = ("zlag2c",)       # the code itself (overflow) is the failure


def zname(fn):
    """z-name of a wrapper of any precision"""
    s = fn[len("plasma_core_omp_"):]
    for p, q in (("clag2z", "clag2z"), ("slag2d", "clag2z"), ("zlag2c", "zlag2c"), ("dlag2s", "zlag2c")):
        if s == p:
            return q
    if re.match(r"(dz|sc|[sd])amax$", s):
        return "dzamax"
    return "z" + {"sygst": "hegst", "ormqr": "unmqr", "ormlq": "unmlq"}.get(s[1:], s[1:])


def family(z):
    b = z[1:] if z.startswith("z") else z
    for f, t in FAMILY.items():
        if b in t.split():
            return f
    return None


def files(srcs, prec):
    d = os.path.join(srcs.dir, "core_blas")
    for f in sorted(os.listdir(d)):
        m = re.match(r"core_(\w+)\.c$", f)
        if not m or "__tcv" in f:
            continue
        n = m.group(1)
        if n in ("clag2z", "slag2d"):
            p = "z" if n == "clag2z" else "d"
        elif n in ("zlag2c", "dlag2s"):
            p = n[0]
        elif re.match(r"(dz|sc|[sd])amax$", n):
            p = {"dzamax": "z", "scamax": "c", "damax": "d", "samax": "s"}[n]
        elif re.match(r"(dc|sc)abs1$", n):
            continue
        else:
            p = n[0]
        if p == prec:
            yield "core_blas/" + f


def wrapper_jobs(ctx, parts, families=None):
    """parts: subset of {"guard", "args", "depend", "report"}"""
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        for rel in files(ctx.srcs, p):
            text = open(ctx.srcs.path(rel)).read()
            names = []
            for q in re.finditer(r"\n(?:static\s+)?void\s+(plasma_core_omp_\w+)\s*\([^;{]*\{", text):
                names.append(q.group(1))
            for fn in names:
                z = zname(fn)
                if families and family(z) not in families:
                    continue
                out.append((fn, job(ctx, rel, fn, z, p, parts)))
    return out


def job(ctx, rel, fn, z, prec, parts):
    def run(r):
        r.functions = [fn]
        tu = ctx.srcs.tu(rel)
        m = WrapMachine(tu, ctx.srcs)
        f = tu.funcs[fn]
        params = [(q.name, q.type) for q in f.params]
        byname = dict(params)
        ptrs = [n for n, t in params if "*" in t and n not in ("sequence", "request")]
        const = {n for n, t in params if "*" in t and re.match(r"\s*const\b", t)} | READ_ONLY.get(z, set())
        scratch = SCRATCH.get(z, set())
        inline = z.endswith("_aux") or z == "dzamax"
        kernel = fn.replace("_omp_", "_")
        st = I("sequence.status")
        hyps = []
        created = ran = 0
        P_all = m.run_ctl(fn, {}, hyps)
        for k, P in enumerate(P_all):
            if P.kind == "infeasible":
                continue
            H = P.pc
            tag = lambda s: "%s.%s#%d" % (fn, s, k)
            kern = [e for e in P.events if e.name == "kernel" and "dcabs1" not in e.args[0]]
            loads = [e for e in P.events if e.name == "load"]
            stores = [e for e in P.events if e.name == "store" and base_of(e.args[0])[0] in ptrs]
            wild = [e for e in P.events if e.name == "store" and base_of(e.args[0])[0] not in ptrs and not is_space(e.args[0])]
            tasks = [e for e in P.events if e.name == "task"]
            fails = [e for e in P.events if e.name == "request_fail"]
            created += len(tasks)
            ran += len(kern) + len(stores)
            if P.kind not in ("return", "loop-back"):
                if parts & {"guard", "report"}:
                    prove(r, tag("returns"), H, z3.BoolVal(False))
                continue
            if "guard" in parts:
                for e in kern + stores + wild:
                    prove(r, tag("works-inside-the-task"), H, z3.BoolVal(e.task is not None), info=dict(kind="guard"), where=str(e.line))
                if kern or stores:
                    prove(r, tag("idle-after-a-failure"), H, st == 0, info=dict(kind="guard"))
                prove(r, tag("one-task"), H, z3.BoolVal(len(tasks) <= 1), info=dict(kind="guard"))
            if "args" in parts and not inline:
                if P.kind == "return":
                    prove(r, tag("runs-the-kernel"), H, z3.Implies(st == 0, z3.BoolVal(len(kern) == 1 and len(tasks) == 1)), info=dict(kind="args"))
                for e in kern:
                    check_args(r, tag, H, e, kernel, params, z)
                if stores:       # sums of squares start from the neutral element
                    vals = {base_of(e.args[0])[0]: e.args[1] for e in stores}
                    ok = z.endswith("ssq") and set(vals) == {"scale", "sumsq"}
                    prove(r, tag("stores"), H, z3.And(z3.BoolVal(ok), *([to_scalar(vals["scale"]) == to_scalar(z3.IntVal(0)), to_scalar(vals["sumsq"]) == to_scalar(z3.IntVal(1))] if ok else [])),
                          info=dict(kind="args"))
            if "report" in parts and kern:
                info = [x for x in syms(H + [z3.IntVal(0)]) if x.decl().name().startswith("ret:plasma_core_")]
                rs = I("ret:" + kernel)
                code = [e.args[2] for e in fails]
                used = any(x.eq(rs) for x in info) or bool(fails)
                has_ret = type_kind(tu_ret(tu, kernel)) == "int" and z != "zhegst"      # its code only reports illegal arguments
                if has_ret:
                    prove(r, tag("failure-is-reported"), H, z3.Implies(rs != 0, z3.BoolVal(bool(fails))), info=dict(kind="report"))
                    if fails:
                        prove(r, tag("success-is-not-reported"), H, rs != 0, info=dict(kind="report"))
                for c in code:
                    c = to_int(c)
                    want = I("iinfo") + rs if z in INDEXED else rs if z in STATUS_CODE else None
                    if want is not None:
                        prove(r, tag("index"), H, c == want, info=dict(kind="report"))
                    else:
                        prove(r, tag("code"), H, c < 0, info=dict(kind="report"))
                for e in fails:
                    ok = isinstance(e.args[0], Opaque) and e.args[0].tag == "sequence"
                    prove(r, tag("reported-to-its-sequence"), H, z3.BoolVal(ok), info=dict(kind="report"))
            if "depend" in parts and tasks:
                dep = {}
                for mode, b, ln in tasks[0].args[0]:
                    n, off = base_of(b)
                    if n in ptrs and z3.is_int_value(off) and off.as_long() == 0:
                        dep.setdefault(n, set()).add(mode)
                W = lambda n: bool(dep.get(n, set()) & {"out", "inout"})
                R = lambda n: bool(dep.get(n, set()) & {"in", "out", "inout"})
                if not inline:
                    for n in ptrs:
                        if n in scratch:
                            continue
                        ok = R(n) if n in const else W(n)
                        prove(r, tag("declares-%s" % n), H, z3.BoolVal(ok), info=dict(kind="depend"))
                for e in stores:
                    prove(r, tag("declares-written-%s" % base_of(e.args[0])[0]), H, z3.BoolVal(W(base_of(e.args[0])[0])), info=dict(kind="depend"), where=str(e.line))
                for e in loads:
                    n = base_of(e.args[0])[0]
                    if n in ptrs and e.task is not None:
                        prove(r, tag("declares-read-%s" % n), H, z3.BoolVal(R(n)), info=dict(kind="depend"), where=str(e.line))
                for e in loads:
                    n = base_of(e.args[0])[0]
                    if n in ptrs and e.task is None:
                        prove(r, tag("reads-%s-outside-the-task" % n), H, z3.BoolVal(False), info=dict(kind="depend"), where=str(e.line))
        prove(r, fn + ".has-a-task", [], z3.BoolVal(created > 0 and ran > 0), info=dict(kind="vacuity"))
    return run


def tu_ret(tu, name):
    f = tu.funcs.get(name)
    t = f.type if f else (getattr(tu, "protos", {}).get(name) or "void")
    t = t if isinstance(t, str) else getattr(t, "type", "void")
    return t.split("(")[0].strip()


def is_space(p):
    return isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == "space"


def syms(fs):
    seen, out, todo = set(), [], list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        todo += t.children()
    return out


def check_args(r, tag, H, e, kernel, params, z):
    name, args = e.args[0], e.args[1:]
    prove(r, tag("kernel"), H, z3.BoolVal(name == kernel), info=dict(kind="args"), where=str(e.line))
    if z == "zlaset":
        ix = lambda n: I(n)
        want = [("uplo", I("uplo")), ("m", I("m")), ("n", I("n")), ("alpha", None), ("beta", None), ("A", I("i") + I("j") * I("mb")), ("lda", I("mb"))]
    else:
        skip = ("plasma_workspace_t", "plasma_sequence_t", "plasma_request_t")
        want = [(n, None) for n, t in params if not any(s in t for s in skip) and n != "iinfo"]
    types = dict(params)
    for k, (n, v) in enumerate(want):
        if k >= len(args):
            prove(r, tag("arg-%s" % n), H, z3.BoolVal(False), info=dict(kind="args"))
            continue
        a = args[k]
        if isinstance(a, Ptr):
            b, off = base_of(a)
            prove(r, tag("arg-%s" % n), H, z3.And(z3.BoolVal(b == n), off == (v if v is not None else 0)), info=dict(kind="args"), where=str(e.line))
        elif isinstance(a, z3.ExprRef):
            t = types.get(n, "int")
            if type_kind(t) == "scalar":
                prove(r, tag("arg-%s" % n), H, to_scalar(a) == z3.Const(n, to_scalar(a).sort()), info=dict(kind="args"), where=str(e.line))
            else:
                prove(r, tag("arg-%s" % n), H, to_int(a) == (v if v is not None else I(n)), info=dict(kind="args"), where=str(e.line))
        else:
            prove(r, tag("arg-%s" % n), H, z3.BoolVal(False), info=dict(kind="args"))
    # what follows is scratch of the executing thread (and its leading dimension)
    for a in args[len(want):]:
        if isinstance(a, Ptr):
            tid = I("omp_get_thread_num")
            prove(r, tag("scratch-of-the-thread"), H, z3.And(z3.BoolVal(is_space(a)), a.obj[1] == tid if is_space(a) else z3.BoolVal(False)), info=dict(kind="args"), where=str(e.line))


def all_jobs(ctx):
    return wrapper_jobs(ctx, {"guard", "args", "depend", "report"})
