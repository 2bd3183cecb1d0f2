"""Proof jobs for the argument-handling layer (compute/z*.c): one job per routine, precision and entry point."""
from . import apicheck as AC
from .cfront import OutOfReach

CHECKS = {"C04": lambda fn, spec, prec, o: (AC.check_args_omp if o else AC.check_args_sync)(fn, spec, prec),
          "C19": lambda fn, spec, prec, o: AC.check_quick(fn, spec, prec, o),
          "C20": lambda fn, spec, prec, o: AC.check_steps(fn, spec, prec, o),
          "C13": lambda fn, spec, prec, o: AC.check_release(fn, (), o)}


def jobs(ctx, pid, only=None, skip=()):
    from specs import api
    srcs = ctx.srcs
    todo, gen, rels = [], set(), set()
    for z, (sy, om) in api.TABLE.items():
        if only and z not in only or z in skip:
            continue
        zf, sn, on = api.names_of(z)
        mixed, prs = srcs.precisions_of(zf)
        for prec in ctx.precs:
            if prec not in prs:
                continue
            nm = srcs.names(prec, mixed)
            rel = "compute/%s.c" % nm[sn][len("plasma_"):]
            if prec != "z":
                gen.add(zf)
            for spec, fname, o in ((sy, nm[sn], False), (om, nm[on], True)):
                if spec is None:
                    continue
                if (pid in getattr(spec, "skip", ())):
                    continue
                rels.add(rel)
                todo.append((z, prec, rel, fname, spec, o, nm))
    srcs.generate(sorted(gen))
    srcs.load(sorted(rels))
    out = []
    # the longest first
    heavy = ("gbmm", "gels", "gemm", "gbtrf", "gbsv", "cgbsv", "gesdd")
    todo.sort(key=lambda t: (t[5], t[0] not in heavy))
    for z, prec, rel, fname, spec, o, nm in todo:
        out.append((fname, job(srcs, pid, prec, rel, fname, spec, o, nm)))
    return out


def job(srcs, pid, prec, rel, fname, spec, o, nm):
    def run(r):
        fn = AC.Fn(srcs, rel, fname, r, names=nm)
        r.functions = [fname] + sorted(getattr(fn.m, "inlined", ()))
        CHECKS[pid](fn, spec, prec, o)
        if pid in ("C19",):
            r.may_be_empty = True
    return run


def layer(pid, only=None, skip=()):
    def gen(ctx):
        return jobs(ctx, pid, only, skip)
    gen.__name__ = "api_" + pid
    return gen
