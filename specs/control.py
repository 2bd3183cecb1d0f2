"""Contracts of control/*.c and of the header functions (C01, C02, C14, C15)."""
import z3
from tcv.ctl import CtlMachine, driver_tu, prove
from tcv.cfront import OutOfReach
from tcv.symex import Ref, Struct, Ptr, NULL, UNDEF, Opaque, to_int

I = z3.Int


def b2i(x):
    return z3.simplify(to_int(x))


# ------------------------------------------------------------------ C15: option constants
CONSTS = dict(
    diag=dict(N="NonUnit", U="Unit"), direct=dict(F="Forward", B="Backward"),
    norm={"O": "OneNorm", "1": "OneNorm", "2": "TwoNorm", "F": "FrobeniusNorm", "E": "FrobeniusNorm", "I": "InfNorm", "M": "MaxNorm"},
    side=dict(L="Left", R="Right"), storev=dict(C="Columnwise", R="Rowwise"), trans=dict(N="NoTrans", T="Trans", C="ConjTrans"),
    uplo=dict(U="Upper", L="Lower"), job=dict(A="AllVec", S="SomeVec", V="Vec", N="NoVec", I="IVec"), range=dict(A="RangeAll", V="RangeV", I="RangeI"))
LETTER = dict(NoTrans="N", Trans="T", ConjTrans="C", Upper="U", Lower="L", General="G", NonUnit="N", Unit="U", Left="L", Right="R", OneNorm="O",
              TwoNorm="2", FrobeniusNorm="F", InfNorm="I", MaxNorm="M", NoVec="N", Vec="V", IVec="I", AllVec="A", SomeVec="S", RangeAll="A",
              RangeV="V", RangeI="I", Forward="F", Backward="B", Columnwise="C", Rowwise="R", W="W", A2="A")
# constants of the library that stand for no LAPACK option
NOLETTER = ["RealOneNorm", "RealInfNorm", "RealMaxNorm", "GeneralBand", "Count", "Invalid"]


def c15_jobs(ctx):
    srcs = ctx.srcs
    tu = driver_tu(srcs, "control/constants.c", '#include "plasma_core_blas.h"\n', "const")
    out = []
    en = tu.enum_names

    def to_const(kind, tab):
        fname = "plasma_%s_const" % kind

        def job(r):
            m = CtlMachine(tu, srcs)
            c = I("letter")
            hyps = [c >= -128, c <= 255]
            exp = z3.IntVal(en["PlasmaGeneral"] if kind == "uplo" else en["PlasmaInvalid"])
            for ch, nm in tab.items():
                exp = z3.If(z3.Or(c == ord(ch), c == ord(ch.lower())), z3.IntVal(en["Plasma" + nm]), exp)
            for k, P in enumerate(m.run_ctl(fname, [c], hyps)):
                if P.kind != "return" or P.ret is None:
                    if P.kind == "infeasible":
                        continue
                    prove(r, "%s.returns" % fname, P.pc + hyps, z3.BoolVal(False), info=dict(kind="post"))
                    continue
                prove(r, "%s.letter-to-constant#%d" % (fname, k), P.pc + hyps, b2i(P.ret) == exp, info=dict(kind="post"))
            # every letter of the kind has its own constant back (inverse on the table of the contract)
            r.functions = [fname]
        return job
    for kind, tab in CONSTS.items():
        out.append(("plasma_%s_const" % kind, to_const(kind, tab)))

    def back(r):
        m = CtlMachine(tu, srcs)
        v = I("constant")
        exp = z3.IntVal(0)
        for nm, ch in LETTER.items():
            exp = z3.If(v == en["Plasma" + nm], z3.IntVal(ord(ch)), exp)
        for k, P in enumerate(m.run_ctl("lapack_const", [v])):
            if P.kind == "infeasible":
                continue
            # constants that are not options: rejected (the null character); the same for every other value
            prove(r, "lapack_const.constant-to-letter#%d" % k, P.pc, b2i(P.ret) == exp, info=dict(kind="post"))
            for nm, pc, g in m.goals_extra:
                prove(r, "lapack_const." + nm, pc, g, info=dict(kind="safety"))
        r.functions = ["lapack_const"]
    out.append(("lapack_const", back))

    def inverse(r):
        """the two directions composed: constant -> letter -> constant is the identity on every option"""
        for kind, tab in CONSTS.items():
            fname = "plasma_%s_const" % kind
            for nm in sorted(set(tab.values())):
                m = CtlMachine(tu, srcs)
                ps = [P for P in m.run_ctl("lapack_const", [z3.IntVal(en["Plasma" + nm])]) if P.kind == "return"]
                for P in ps:
                    letter = z3.simplify(b2i(P.ret))
                    m2 = CtlMachine(tu, srcs)
                    for Q in m2.run_ctl(fname, [letter]):
                        if Q.kind != "return":
                            continue
                        goal = b2i(Q.ret) == en["Plasma" + nm]
                        prove(r, "%s(lapack_const(Plasma%s))" % (fname, nm), P.pc + Q.pc, goal, info=dict(kind="inverse"))
        r.functions = ["lapack_const"]
    out.append(("lapack_const-inverse", inverse))
    return out


# ------------------------------------------------------------------ C14: settings
SET_DRIVER = """
int tcv_set_get(plasma_enum_t param, int value, plasma_enum_t query, int *before, int *r0, int *after, int *r1)
{
    *r0 = plasma_get(query, before);
    int r = plasma_set(param, value);
    *r1 = plasma_get(query, after);
    return r;
}
int tcv_init_get(plasma_enum_t query, int *after, int *r1, int *again)
{
    int r = plasma_init();
    *r1 = plasma_get(query, after);
    *again = plasma_init();
    return r;
}
int tcv_fini_get(plasma_enum_t query, int *after, int *r1, int *again)
{
    int r = plasma_finalize();
    *r1 = plasma_get(query, after);
    *again = plasma_finalize();
    return r;
}
"""


def params_of(en):
    return dict(Tuning=lambda v: z3.Or(v == en["PlasmaEnabled"], v == en["PlasmaDisabled"]), Nb=lambda v: v >= 1, Ib=lambda v: v >= 1,
                NumPanelThreads=lambda v: v >= 1,
                HouseholderMode=lambda v: z3.Or(v == en["PlasmaFlatHouseholder"], v == en["PlasmaTreeHouseholder"]))


def c14_jobs(ctx):
    srcs = ctx.srcs
    tu = driver_tu(srcs, "control/context.c", SET_DRIVER, "ctx")
    tun = srcs.tu("control/tuning.c")
    en = tu.enum_names
    PAR = params_of(en)
    p, v, q = I("param"), I("value"), I("query")
    inpar, init = I("omp_in_parallel"), I("plasma_initialized_g")
    known = lambda x: z3.Or(*[x == en["Plasma" + k] for k in PAR])
    legal = lambda x, y: z3.Or(*[z3.And(x == en["Plasma" + k], f(y)) for k, f in PAR.items()])
    SENT = I("untouched")

    def machine():
        m = CtlMachine(tu, srcs, keep=("plasma_tuning_init", "plasma_tuning_finalize"))
        m.contracts["plasma_tuning_init"] = m.contracts["plasma_tuning_finalize"] = lambda mm, a, n, st: z3.IntVal(0)
        return m

    def val(P, name):
        return P.state.env[name]

    def set_get(r):
        m = machine()
        st0 = lambda: dict(before=SENT, r0=I("r0u"), after=SENT, r1=I("r1u"))
        args = [p, v, q, Ref("before"), Ref("r0"), Ref("after"), Ref("r1")]
        hyps = [z3.Or(init == 0, init == 1)]
        for k, P in enumerate(m.run_ctl("tcv_set_get", args, hyps, st0)):
            if P.kind == "infeasible":
                continue
            if P.kind != "return":
                prove(r, "plasma_set/get.returns", P.pc + hyps, z3.BoolVal(False))
                continue
            ret, r0, r1, a, b = b2i(P.ret), b2i(val(P, "r0")), b2i(val(P, "r1")), b2i(val(P, "after")), b2i(val(P, "before"))
            H = P.pc + hyps
            ok = z3.And(init == 1, inpar == 0, legal(p, v))
            G = [("legal-accepted", z3.Implies(ok, ret == 0)), ("illegal-rejected", z3.Implies(z3.Not(ok), ret != 0)),
                 ("illegal-code", z3.Implies(z3.And(init == 1, inpar == 0, z3.Not(legal(p, v))), ret == en["PlasmaErrorIllegalValue"])),
                 ("read-back", z3.Implies(z3.And(ok, q == p), z3.And(r1 == 0, a == v))),
                 ("others-unchanged", z3.Implies(z3.And(ok, q != p), z3.And(r1 == r0, a == b))),
                 ("rejected-changes-nothing", z3.Implies(z3.Not(ok), z3.And(r1 == r0, a == b))),
                 ("query-known", z3.Implies(z3.And(init == 1, known(q)), z3.And(r0 == 0, r1 == 0))),
                 ("query-unknown", z3.Implies(z3.Or(init == 0, z3.Not(known(q))), z3.And(r0 != 0, r1 != 0, a == SENT, b == SENT)))]
            for nm, g in G:
                prove(r, "plasma_set/get.%s#%d" % (nm, k), H, g, info=dict(kind="post"))
        r.functions = ["plasma_set", "plasma_get"]

    def frame(r):
        """what plasma_set and plasma_get do not store: every other field of the context, and the initialisation flag"""
        for fn, args in (("plasma_set", [p, v]), ("plasma_get", [p, Ref("out")])):
            m = machine()
            hyps = [z3.Or(init == 0, init == 1)]
            for k, P in enumerate(m.run_ctl(fn, args, hyps, lambda: dict(out=SENT))):
                if P.kind != "return":
                    continue
                g = P.state.env.get("g:plasma_context_g")
                ch = []
                if isinstance(g, Struct):
                    ch = [f for f, x in g.f.items() if not str(f).startswith("$")]
                prove(r, "%s.stores-one-parameter#%d" % (fn, k), P.pc, z3.BoolVal(len(ch) <= (1 if fn == "plasma_set" else 0)), info=dict(kind="frame"))
                i1 = P.state.env.get("g:plasma_initialized_g", init)
                prove(r, "%s.keeps-initialised#%d" % (fn, k), P.pc, b2i(i1) == init, info=dict(kind="frame"))
        r.functions = ["plasma_set", "plasma_get"]

    def initial(r):
        m = machine()
        st0 = lambda: dict(after=SENT, r1=I("r1u"), again=I("au"))
        hyps = [z3.Or(init == 0, init == 1), I("omp_get_max_threads") >= 1]
        for k, P in enumerate(m.run_ctl("tcv_init_get", [q, Ref("after"), Ref("r1"), Ref("again")], hyps, st0)):
            if P.kind == "infeasible":
                continue
            if P.kind != "return":
                prove(r, "plasma_init.returns", P.pc + hyps, z3.BoolVal(False))
                continue
            ret, r1, a = b2i(P.ret), b2i(val(P, "r1")), b2i(val(P, "after"))
            ok = z3.And(init == 0, inpar == 0)
            G = [("accepted", z3.Implies(ok, ret == 0)), ("refused", z3.Implies(z3.Not(ok), ret != 0)),
                 ("legal-defaults", z3.Implies(z3.And(ok, known(q)), z3.And(r1 == 0, legal(q, a)))),
                 ("second-refused", z3.Implies(ok, b2i(val(P, "again")) != 0))]
            for nm, g in G:
                prove(r, "plasma_init.%s#%d" % (nm, k), P.pc + hyps, g, info=dict(kind="post"))
        m = machine()
        for k, P in enumerate(m.run_ctl("tcv_fini_get", [q, Ref("after"), Ref("r1"), Ref("again")], hyps, st0)):
            if P.kind != "return":
                continue
            ret, r1 = b2i(P.ret), b2i(val(P, "r1"))
            ok = z3.And(init == 1, inpar == 0)
            G = [("accepted", z3.Implies(ok, z3.And(ret == 0, r1 != 0, b2i(val(P, "again")) != 0))), ("refused", z3.Implies(z3.Not(ok), ret != 0))]
            for nm, g in G:
                prove(r, "plasma_finalize.%s#%d" % (nm, k), P.pc + hyps, g, info=dict(kind="post"))
        r.functions = ["plasma_init", "plasma_finalize", "plasma_context_init", "plasma_get"]

    def selfp(r):
        m = machine()
        for k, P in enumerate(m.run_ctl("plasma_context_self", [], [z3.Or(init == 0, init == 1)])):
            if P.kind != "return":
                continue
            isn = isinstance(P.ret, Ptr) and P.ret.obj == "NULL"
            prove(r, "plasma_context_self#%d" % k, P.pc + [z3.Or(init == 0, init == 1)], (init == 0) if isn else z3.And(init == 1, z3.BoolVal(isinstance(P.ret, Ref) and P.ret.var == "g:plasma_context_g" and not P.ret.path)),
                  info=dict(kind="post"))
        r.functions = ["plasma_context_self"]

    def tune(fn):
        def job(r):
            """without a tuning state (L is NULL) the tuning hook of a routine changes no parameter"""
            m = CtlMachine(tun, srcs)
            m.contracts["plasma_tune"] = lambda mm, a, n, st: mm.event("tune-call", a, n) and z3.IntVal(0)
            f = tun.funcs[fn]
            vals = {f.params[0].name: Ref("ctx")}
            st0 = lambda: dict(ctx=Struct("plasma_context_t", {"$id": "ctx", "L": NULL}))
            for k, P in enumerate(m.run_ctl(fn, vals, (), st0)):
                if P.kind == "infeasible":
                    continue
                c = P.state.env["ctx"]
                ch = [x for x in c.f if not str(x).startswith("$") and x != "L"]
                calls = [e for e in P.events if e.name == "tune-call"]
                prove(r, "%s.no-change-without-tuning#%d" % (fn, k), P.pc, z3.BoolVal(not ch and not calls and P.kind == "return"), info=dict(kind="frame"))
            # with a tuning state: only the parameters nb, ib and the number of panel threads may be handed to the tuner
            m = CtlMachine(tun, srcs)
            m.contracts["plasma_tune"] = lambda mm, a, n, st: mm.event("tune-call", a, n) and z3.IntVal(0)
            st1 = lambda: dict(ctx=Struct("plasma_context_t", {"$id": "ctx", "L": Opaque("lua")}))
            for k, P in enumerate(m.run_ctl(fn, vals, (z3.Not(z3.Bool("isnull(lua)")),), st1)):
                if P.kind != "return":
                    continue
                for e in P.events:
                    if e.name == "tune-call":
                        out, nm = e.args[3], e.args[2]
                        fld = out.path[0] if isinstance(out, Ref) and out.var == "ctx" and len(out.path) == 1 else "?"
                        want = {"nb": "_nb", "ib": "_ib", "max_panel_threads": "_max_panel_threads"}.get(fld)
                        s = str(nm.obj) if isinstance(nm, Ptr) else ""
                        ok = want is not None and s.rstrip('"').endswith(want)
                        prove(r, "%s.tunes-the-named-parameter#%d" % (fn, k), P.pc, z3.BoolVal(ok), info=dict(kind="frame"))
            r.functions = [fn]
        return job
    out = [("plasma_set_get", set_get), ("plasma_set_get-frame", frame), ("plasma_init", initial), ("plasma_context_self", selfp)]
    out += [(fn, tune(fn)) for fn in sorted(tun.funcs) if fn.startswith("plasma_tune_")]
    return out
