"""Scratch arrays of the norms: what the tile algorithm uses (contract), what the drivers allocate, and whether it must arrive zeroed."""
import z3
from tcv import apimach
from tcv.symex import Ptr, MaybeNull, Struct, cdiv, to_int
from tcv import apicheck as AC

NORMS = {"Max": "PlasmaMaxNorm", "One": "PlasmaOneNorm", "Inf": "PlasmaInfNorm", "Fro": "PlasmaFrobeniusNorm"}


def need(rt, nm, F):
    """number of reals of the work array plasma_p<rt> may use; F gives the fields of the descriptor"""
    mt, nt, m, n, nb = (F(x) for x in ("mt", "nt", "m", "n", "nb"))
    if rt == "zlangb":
        span = cdiv(F("ku") + nb - 1, nb) + cdiv(F("kl") + nb - 1, nb) + 1
        return {"Max": span * nt, "One": n * span + n, "Inf": nt * mt * nb + nb * mt, "Fro": 2 * span * nt}[nm]
    if rt in ("zlansy", "zlanhe"):
        return {"Max": mt * nt, "One": mt * n + n, "Inf": mt * n + n, "Fro": 2 * mt * nt}[nm]
    if rt == "dzamax":
        return {"Columnwise": mt * n, "Rowwise": nt * m}[nm]
    return {"Max": mt * nt, "One": mt * n + n, "Inf": nt * m + m, "Fro": 2 * mt * nt}[nm]


def zeroed(rt, nm):
    return rt in ("zlantr", "zlangb") and nm != "Max"


def opaque(create, band=False):
    """descriptor creation with the numbers of tiles left opaque"""
    def h(m, a, n, st):
        r = create(m, a, n, st)
        d = m.read_ref(a[-1], st)
        if d.f.get("$owned") is not None:
            f = dict(d.f)
            for x in ("mt", "nt") + (("klt", "kut") if band else ()):
                f[x] = z3.Int("%s.%s" % (f["$id"], x))
            m.write_ref(a[-1], Struct(d.tag, f), st)
        return r
    return h


OPAQUE = {"plasma_desc_general_create": opaque(apimach.c_desc_create), "plasma_desc_triangular_create": opaque(apimach.c_desc_tri_create),
          "plasma_desc_general_band_create": opaque(apimach.c_desc_band_create, True)}


def driver_job(srcs, prec, rel, fname, rt, nm, what, names):
    """what: 'size' (C12) or 'zero' (C16)"""
    def run(r):
        fn = AC.Fn(srcs, rel, fname, r, names=names, extra=OPAQUE)
        real = {"z": "double", "d": "double", "c": "float", "s": "float"}[prec]
        omp = "plasma_omp_" + fname[len("plasma_"):]
        en = fn.en
        kinds = ("Columnwise", "Rowwise") if rt == "dzamax" else tuple(NORMS)
        reached = set()
        for k, p in enumerate(fn.paths):
            for e in p.events:
                if e.name != omp:
                    continue
                mats = [a for a in e.args if hasattr(a, "f") and "mt" in a.f]
                wk = [a for a in e.args if isinstance(a, Ptr) and isinstance(a.obj, MaybeNull)]
                if len(mats) != 1 or not wk:
                    raise AC.OutOfReach("arguments of %s" % omp)
                D = mats[0].f
                al = [x for x in p.events if x.name == "malloc" and x.args[0] == wk[0].obj.name]
                if not al:
                    raise AC.OutOfReach("origin of the work array")
                size, kind = al[0].args[1], al[0].args[2]
                for nmk in kinds:
                    opt = e.args[0] == (en["Plasma" + nmk] if rt == "dzamax" else en[NORMS[nmk]])
                    P = AC.Prover(p.pc + [opt], p.facts)
                    P.model = None
                    if not P.possible(z3.BoolVal(True)):
                        continue
                    reached.add(nmk)
                    w = "%s:%s" % (fn.tu.rel, al[0].line)
                    if what == "size":
                        F = lambda x: to_int(D[x])
                        sz = {"double": 8, "float": 4}[real]
                        pos = [F("mt") >= 1, F("nt") >= 1, F("m") >= 1, F("n") >= 1, F("nb") >= 1]
                        if "klt" in D:      # band storage of a general matrix (C02)
                            pos += [F("kl") >= 0, F("ku") >= 0, F("klt") == 1 + cdiv(F("kl") + F("nb") - 1, F("nb")), F("kut") == 1 + cdiv(F("ku") + F("kl") + F("nb") - 1, F("nb"))]
                        self_check(fn, p, opt, pos, quotient_ge(size, sz, need(rt, nmk, F)), "work-size[%s]#%d" % (nmk, k), w)
                    elif zeroed(rt, nmk):
                        fn.flag("work-zeroed[%s]#%d" % (nmk, k), kind == "calloc", w, "C16-zero", "the work array is not zeroed")
        for nmk in kinds:
            if what == "size" or zeroed(rt, nmk):
                fn.flag("reached[%s]" % nmk, nmk in reached, "", "vacuity")
    return run


def self_check(fn, p, opt, pos, goal, name, w):
    import time
    from tcv.vc import solve, Theory
    t = time.time()
    s, m, _ = solve(pos, goal, Theory())
    fn.ob(name, s, time.time() - t, w, dict(kind="C12-size", hint="the work array is too small"), str(m)[:300] if m else "")


def prover(p, extra):
    P = AC.Prover(p.pc + extra, p.facts)
    P.model = None
    return P


def quotient_ge(size, sz, nd):
    """size >= nd * sizeof, multiplied out"""
    return z3.simplify(size - sz * nd, som=True) >= 0


def jobs(ctx, what):
    from specs import api
    out = []
    srcs = ctx.srcs
    for rt in ("zlange", "zlansy", "zlanhe", "zlantr", "zlangb", "dzamax"):
        zf, sn, on = api.names_of(rt if rt == "dzamax" else rt[1:])
        mixed, prs = srcs.precisions_of(zf)
        for p in ctx.precs:
            if p not in prs:
                continue
            if what == "zero" and rt not in ("zlantr", "zlangb"):
                continue
            nm = srcs.names(p, mixed)
            if p != "z":
                srcs.generate_all()
            fname = nm[sn]
            rel = "compute/%s.c" % fname[len("plasma_"):]
            out.append(("%s[work]" % fname, driver_job(srcs, p, rel, fname, rt, nm, what, nm)))
    return out


def zero_jobs(ctx):
    return jobs(ctx, "zero")


def size_jobs(ctx):
    return jobs(ctx, "size")
