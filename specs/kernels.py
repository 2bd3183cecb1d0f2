"""Contracts of the kernels core_blas/core_*.c.

Thin kernels hand their operands to exactly one BLAS/LAPACK routine; element kernels are proved element by element."""
import os, re
import itertools
import z3
from tcv.kern import KernMachine, LETTER, leaves, drop_choices, counters
from tcv.ctl import prove
from tcv.cfront import OutOfReach
from tcv.symex import Ptr, Opaque, Ref, Struct, NULL, UNDEF, S, to_int, to_scalar, is_scalar, ufun, type_kind, lit
from .wrappers import files, syms

I = z3.Int
COL = 102       # LAPACK_COL_MAJOR, CblasColMajor

# kernel -> (routine, arguments).  x: integer or scalar parameter as is;  'x' upper-case array: its start;  ?x: the LAPACK letter of the option;
# *x: the scalar passed by value or address;  &x: the integer passed by address
G = "#col"
THIN = {
    "gemm": ("cblas_%sgemm", G + " transa transb m n k alpha A lda B ldb beta C ldc", "C05"),
    "symm": ("cblas_%ssymm", G + " side uplo m n alpha A lda B ldb beta C ldc", "C05"),
    "hemm": ("cblas_%shemm", G + " side uplo m n alpha A lda B ldb beta C ldc", "C05"),
    "syrk": ("cblas_%ssyrk", G + " uplo trans n k alpha A lda beta C ldc", "C05"),
    "herk": ("cblas_%sherk", G + " uplo trans n k alpha A lda beta C ldc", "C05"),
    "syr2k": ("cblas_%ssyr2k", G + " uplo trans n k alpha A lda B ldb beta C ldc", "C05"),
    "her2k": ("cblas_%sher2k", G + " uplo trans n k alpha A lda B ldb beta C ldc", "C05"),
    "trmm": ("cblas_%strmm", G + " side uplo transa diag m n alpha A lda B ldb", "C05"),
    "trsm": ("cblas_%strsm", G + " side uplo transa diag m n alpha A lda B ldb", "C06"),
    "potrf": ("LAPACKE_%spotrf_work", G + " ?uplo n A lda", "C06"),
    "trtri": ("LAPACKE_%strtri_work", G + " ?uplo ?diag n A lda", "C06"),
    "lauum": ("LAPACKE_%slauum_work", G + " ?uplo n A lda", "C06"),
    "hegst": ("LAPACKE_%shegst_work", G + " itype ?uplo n A lda B ldb", "C06"),
    "sygst": ("LAPACKE_%ssygst_work", G + " itype ?uplo n A lda B ldb", "C06"),
    "lange": ("LAPACKE_%slange_work", G + " ?norm m n A lda work", "C16"),
    "lansy": ("LAPACKE_%slansy_work", G + " ?norm ?uplo n A lda work", "C16"),
    "lanhe": ("LAPACKE_%slanhe_work", G + " ?norm ?uplo n A lda work", "C16"),
    "lantr": ("LAPACK_%slantr", "?norm ?uplo ?diag m n A lda work", "C16"),
    "lascl": ("LAPACK_%slascl", "?uplo _ _ cfrom cto m n A lda _", "C07"),
    "lacpy": ("LAPACKE_%slacpy_work", G + " ?uplo m n A lda B ldb", "C07"),      # not transposed; the transposed copy is an element kernel
    "lag2c": ("LAPACKE_%slag2c_work", G + " m n A lda As ldas", "C07"),
    "lag2s": ("LAPACKE_%slag2s_work", G + " m n A lda As ldas", "C07"),
    "clag2z": ("LAPACKE_clag2z_work", G + " m n As ldas A lda", "C07"),
    "slag2d": ("LAPACKE_slag2d_work", G + " m n As ldas A lda", "C07"),
}
RESULT = {"lange", "lansy", "lanhe", "lantr"}         # the value goes to *value


def kernel_files(srcs, prec):
    for rel in files(srcs, prec):
        nm = re.match(r"core_blas/core_(\w+)\.c$", rel).group(1)
        z = nm if nm in ("clag2z", "slag2d") else nm[1:]
        yield rel, z, "plasma_core_" + nm


def thin_jobs(families):
    def gen(ctx):
        out = []
        for p in ctx.precs:
            if p != "z":
                ctx.srcs.generate_all()
            for rel, z, fn in kernel_files(ctx.srcs, p):
                if z in THIN and THIN[z][2] in families:
                    out.append((fn, thin_job(ctx, rel, z, fn, p)))
        return out
    gen.__name__ = "thin_kernels"
    return gen


def value(a):
    return a[1] if isinstance(a, tuple) and a and a[0] == "ref" else a


def same_callee(name, want):
    n = name.lower()
    return n == want.lower() or (want.startswith("LAPACK_") and n == want[7:].lower() + "_")


def thin_job(ctx, rel, z, fn, prec):
    callee, args, fam = THIN[z]
    callee = callee % prec if "%" in callee else callee
    args = args.split()

    def run(r):
        r.functions = [fn]
        tu = ctx.srcs.tu(rel)
        m = KernMachine(tu, ctx.srcs)
        params = {q.name: q.type for q in tu.funcs[fn].params}
        hyps = [I(x) >= 0 for x in ("m", "n", "k") if x in params]
        if z == "lacpy":
            hyps.append(I("transa") == tu.enum_names["PlasmaNoTrans"])
        n = 0
        for k, P in enumerate(m.run_ctl(fn, {}, hyps)):
            if P.kind == "infeasible":
                continue
            n += 1
            tag = lambda s: "%s.%s#%d" % (fn, s, k)
            H = P.pc + hyps
            calls = [e for e in P.events if e.name == "kernel"]
            prove(r, tag("returns"), H, z3.BoolVal(P.kind == "return"), info=dict(kind="kernel"))
            prove(r, tag("one-call"), H, z3.BoolVal(len(calls) == 1), info=dict(kind="kernel"))
            if len(calls) != 1:
                continue
            e = calls[0]
            prove(r, tag("routine"), H, z3.BoolVal(same_callee(e.args[0], callee)), where=str(e.line), info=dict(kind="kernel"))
            got = e.args[1:]
            # hidden string lengths of Fortran routines may follow
            prove(r, tag("arguments"), H, z3.BoolVal(len(got) >= len(args)), info=dict(kind="kernel"))
            for a, g in zip(args, got):
                g = value(g)
                if a == "_":
                    continue
                if a == "#col":
                    prove(r, tag("layout"), H, to_int(g) == COL if isinstance(g, z3.ExprRef) else z3.BoolVal(False), info=dict(kind="kernel"))
                elif a[0] == "?":
                    # the letter of the option; an option the kernel cannot be given with another letter is its own business
                    ok = isinstance(g, z3.ExprRef)
                    prove(r, tag("arg-" + a[1:]), H, letter_of(g) == LETTER(I(a[1:])) if ok else z3.BoolVal(False), where=str(e.line), info=dict(kind="kernel"))
                elif a[0].isupper() or a == "work":
                    ok = isinstance(g, Ptr) and g.obj == a
                    prove(r, tag("arg-" + a), H, z3.And(z3.BoolVal(ok), g.off == 0) if ok else z3.BoolVal(False), where=str(e.line), info=dict(kind="kernel"))
                elif type_kind(params.get(a, "int")) == "scalar":
                    ok = isinstance(g, z3.ExprRef)
                    prove(r, tag("arg-" + a), H, to_scalar(g) == z3.Const(a, S) if ok else z3.BoolVal(False), where=str(e.line), info=dict(kind="kernel"))
                else:
                    prove(r, tag("arg-" + a), H, to_int(g) == I(a) if isinstance(g, z3.ExprRef) else z3.BoolVal(False), where=str(e.line), info=dict(kind="kernel"))
            stores = [x for x in P.events if x.name == "store"]
            if z in RESULT:
                ok = len(stores) == 1 and isinstance(stores[0].args[0], Ptr) and stores[0].args[0].obj == "value"
                ok = ok and isinstance(stores[0].args[1], z3.ExprRef) and "ret:" in str(stores[0].args[1])
                prove(r, tag("stores-the-value"), H, z3.BoolVal(bool(ok)), info=dict(kind="kernel"))
            else:
                prove(r, tag("writes-nothing-else"), H, z3.BoolVal(not stores), info=dict(kind="kernel"))
            if type_kind(fn_ret(tu, fn)) == "int":
                ok = isinstance(P.ret, z3.ExprRef) and str(P.ret).startswith("ret:")
                prove(r, tag("returns-the-code"), H, z3.BoolVal(ok), info=dict(kind="kernel"))
        prove(r, fn + ".reached", [], z3.BoolVal(n > 0), info=dict(kind="vacuity"))
    return run


def fn_ret(tu, fn):
    t = tu.funcs[fn].type
    t = t if isinstance(t, str) else getattr(t, "type", "void")
    return t.split("(")[0].strip()


def letter_of(g):
    return to_int(g)


# ------------------------------------------------------------------------------------------- element kernels
# kernel -> options, region of the written array B (r, c), expected shape of the value
def elem_jobs(ctx):
    out = []
    for p in ctx.precs:
        if p != "z":
            ctx.srcs.generate_all()
        for rel, z, fn in kernel_files(ctx.srcs, p):
            if z in ("geadd", "tradd", "lacpy"):
                out.append((fn, elem_job(ctx, rel, z, fn, p)))
            if z == "laset":
                out.append((fn, laset_job(ctx, rel, fn, p)))
    return out


def elem_cases(z, en, prec):
    """(label, hypotheses, rows, cols of B, region(r,c), source offset of A at (r,c), value shape)"""
    E = lambda x: z3.IntVal(en[x])
    m, n, lda, ldb = I("m"), I("n"), I("lda"), I("ldb")
    al, be = z3.Const("alpha", S), z3.Const("beta", S)
    eA, eB = z3.Function("elt:A", z3.IntSort(), S), z3.Function("elt:B", z3.IntSort(), S)
    conj = (lambda x: x) if prec in "sd" else ufun("conj", S, S)
    mul, add = ufun("fmul", S, S, S), ufun("fadd", S, S, S)
    trs = [("NoTrans", False, False), ("Trans", True, False)] + ([("ConjTrans", True, True)])
    for t, tr, cj in trs:
        f = conj if cj else (lambda x: x)
        ht = I("transa") == E("Plasma" + t)
        if z in ("geadd", "tradd"):
            for u in (["General"] if z == "geadd" else ["Lower", "Upper"]):
                H = [ht] + ([I("uplo") == E("Plasma" + u)] if z == "tradd" else [])
                H += [m >= 0, n >= 0, ldb >= m, ldb >= 1, lda >= 1, z3.If(z3.BoolVal(tr), lda >= n, lda >= m)]
                reg = {"General": lambda r, c: z3.BoolVal(True), "Lower": lambda r, c: r >= c, "Upper": lambda r, c: r <= c}[u]
                src = (lambda r, c: lda * r + c) if tr else (lambda r, c: lda * c + r)
                # nothing to do when alpha = 0 and beta = 1
                trivial = z3.And(al == lit(0), be == lit(1))
                yield "%s,%s" % (t, u), H, m, n, reg, src, add(mul(be, eB(I("_b"))), mul(al, f(eA(I("_a"))))), trivial
        elif z == "lacpy" and tr:
            for u in ("General", "Lower", "Upper"):
                H = [ht, I("uplo") == E("Plasma" + u), m >= 0, n >= 0, lda >= m, ldb >= n, lda >= 1, ldb >= 1]
                # B is n by m, the triangle is that of A
                reg = {"General": lambda r, c: z3.BoolVal(True), "Lower": lambda r, c: c >= r, "Upper": lambda r, c: c <= r}[u]
                yield "%s,%s" % (t, u), H, n, m, reg, (lambda r, c: lda * r + c), f(eA(I("_a"))), z3.BoolVal(False)


def elem_job(ctx, rel, z, fn, prec):
    def run(r):
        r.functions = [fn]
        tu = ctx.srcs.tu(rel)
        for label, H0, rows, cols, reg, src, shape, trivial in elem_cases(z, tu.enum_names, prec):
            if prec in "sd" and label.startswith("ConjTrans") and z == "lacpy":
                pass
            m = KernMachine(tu, ctx.srcs)
            m.contracts["conj"] = m.contracts["conjf"] = (lambda mm, a, n, st: a[0]) if prec in "sd" else (lambda mm, a, n, st: ufun("conj", S, S)(to_scalar(a[0])))
            paths = [P for P in m.run_ctl(fn, {"A": Ptr("A"), "B": Ptr("B")}, H0) if P.kind != "infeasible"]
            ld = I("ldb")
            wit = []
            want_shape, _ = leaves(shape)
            for k, P in enumerate(paths):
                H = P.pc + H0
                tag = lambda s: "%s.%s[%s]#%d" % (fn, s, label, k)
                st = [e for e in P.events if e.name == "store"]
                for e in [e for e in P.events if e.name == "kernel"]:
                    prove(r, tag("no-other-routine"), H, z3.BoolVal(False), where=str(e.line), info=dict(kind="element"))
                if P.kind == "return" and z != "lacpy":
                    prove(r, tag("returns-success"), H, to_int(P.ret) == 0 if isinstance(P.ret, z3.ExprRef) else z3.BoolVal(False), info=dict(kind="element"))
                if not st:
                    continue
                if len(st) > 1:
                    raise OutOfReach("several stores on one path of an element loop")
                e = st[0]
                p, v = e.args
                if not (isinstance(p, Ptr) and p.obj == "B"):
                    prove(r, tag("writes-only-B"), H, z3.BoolVal(False), where=str(e.line), info=dict(kind="element"))
                    continue
                cs = [c for c in counters(P)]
                perm = find_rc(H, p.off, ld, rows, [c[0] for c in cs])
                if perm is None:
                    prove(r, tag("writes-an-element"), H, z3.BoolVal(False), where=str(e.line), info=dict(kind="element"))
                    continue
                ri, ci = perm
                prove(r, tag("inside-the-region"), H, z3.And(ri >= 0, ri < rows, ci >= 0, ci < cols, reg(ri, ci)), where=str(e.line), info=dict(kind="element"))
                sh, lv = leaves(to_scalar(v))
                prove(r, tag("value"), H, z3.BoolVal(sh == want_shape), where=str(e.line), info=dict(kind="element", got=str(sh), want=str(want_shape)))
                for arr, off in lv:
                    prove(r, tag("operand-" + arr), H, off == (src(ri, ci) if arr == "A" else p.off), where=str(e.line), info=dict(kind="element"))
                wit.append((P, ri, ci, e))
            # every element of the region, once
            rr, cc = z3.Ints("r# c#")
            dom = H0 + [rr >= 0, rr < rows, cc >= 0, cc < cols, reg(rr, cc), z3.Not(trivial)]
            alts = []
            for P, ri, ci, e in wit:
                pc = z3.substitute(z3.And(*drop_choices(P.pc)), (ri, rr), (ci, cc))
                others = [x for x in syms([pc]) if re.match(r"L\d+", x.decl().name()) and not x.eq(rr) and not x.eq(cc)]
                alts.append(z3.Exists(others, pc) if others else pc)
            prove(r, "%s.every-element[%s]" % (fn, label), dom, z3.Or(*alts) if alts else z3.BoolVal(False), info=dict(kind="element"))
            for a, b in itertools.combinations(range(len(alts)), 2):
                prove(r, "%s.once[%s]/%d,%d" % (fn, label, a, b), dom, z3.Not(z3.And(alts[a], alts[b])), info=dict(kind="element"))
    return run


def find_rc(H, off, ld, rows, cs):
    """row and column counters of an element address off = ld*c + r"""
    from tcv.symex import lit_axioms
    for a, b in itertools.permutations(cs, 2):
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*H)
        s.add(off != ld * b + a)
        if s.check() == z3.unsat:
            return a, b
    return None


def laset_job(ctx, rel, fn, prec):
    def run(r):
        r.functions = [fn]
        tu = ctx.srcs.tu(rel)
        m = KernMachine(tu, ctx.srcs)
        mm, nn, lda = I("m"), I("n"), I("lda")
        hyps = [mm >= 0, nn >= 0, lda >= mm, lda >= 1]
        al, be = z3.Const("alpha", S), z3.Const("beta", S)
        size = {"z": 16, "c": 8, "d": 8, "s": 4}[prec]
        n = 0
        for k, P in enumerate(m.run_ctl(fn, {}, hyps)):
            if P.kind == "infeasible":
                continue
            n += 1
            H = P.pc + hyps
            tag = lambda s: "%s.%s#%d" % (fn, s, k)
            calls = [e for e in P.events if e.name == "kernel"]
            prove(r, tag("one-call"), H, z3.BoolVal(len(calls) == 1 and P.kind == "return"), info=dict(kind="kernel"))
            if len(calls) != 1:
                continue
            e = calls[0]
            a = [value(x) for x in e.args[1:]]
            if e.args[0] == "memset":
                ok = isinstance(a[0], Ptr) and a[0].obj == "A"
                # the elements are contiguous, all of them are zeroed and nothing else
                prove(r, tag("zeroes-the-block"), H, z3.And(z3.BoolVal(ok), a[0].off == 0, to_int(a[1]) == 0, to_int(a[2]) == mm * nn * size, mm == lda, al == lit(0), be == lit(0),
                      I("uplo") == tu.enum_names["PlasmaGeneral"]) if ok else z3.BoolVal(False), where=str(e.line), info=dict(kind="kernel"))
            else:
                want = [COL, LETTER(I("uplo")), mm, nn, al, be, None, lda]
                prove(r, tag("routine"), H, z3.BoolVal(same_callee(e.args[0], "LAPACKE_%slaset_work" % prec) and len(a) >= 8), info=dict(kind="kernel"))
                for nm, g, w in zip(("layout", "uplo", "m", "n", "alpha", "beta", "A", "lda"), a, want):
                    if w is None:
                        ok = isinstance(g, Ptr) and g.obj == "A"
                        prove(r, tag("arg-" + nm), H, g.off == 0 if ok else z3.BoolVal(False), where=str(e.line), info=dict(kind="kernel"))
                    elif nm in ("alpha", "beta"):
                        prove(r, tag("arg-" + nm), H, to_scalar(g) == w, where=str(e.line), info=dict(kind="kernel"))
                    else:
                        prove(r, tag("arg-" + nm), H, to_int(g) == w, where=str(e.line), info=dict(kind="kernel"))
        prove(r, fn + ".reached", [], z3.BoolVal(n > 0), info=dict(kind="vacuity"))
    return run


def all_thin(ctx):
    return thin_jobs({"C05", "C06", "C07", "C16"})(ctx)
