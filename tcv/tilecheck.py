"""Proof jobs for tile algorithms."""
import z3
from .cfront import ALL_Z_NAMES
from .tile import TileMachine, TileVC
from .runner import discharge, consistent


def register(names):
    ALL_Z_NAMES.extend("plasma_" + x for x in names)


def make_jobs(srcs, table, precs, Cx, ignore=(), select=None, kinds=None, machine=TileMachine, extra=None):
    """[(label, job)] for the routines of the table in the given precisions"""
    need, todo = [], []
    for rt, gen in table.items():
        zfile = "compute/%s.c" % rt
        for p in precs:
            fn = srcs.names(p).get("plasma_" + rt, "plasma_" + rt)
            cases = list(gen(p))
            if not cases:
                continue
            # file name of the generated precision follows the function name
            rel = "compute/%s.c" % fn[len("plasma_"):]
            need.append((zfile, rel))
            for label, b in cases:
                todo.append((rt, p, fn, rel, label, b))
    srcs.generate(sorted({z for z, r in need if z != r}))
    import os
    rels = sorted({r for _, r in need if os.path.isfile(srcs.path(r))})
    srcs.load(rels)
    jobs = []
    for rt, p, fn, rel, label, b in todo:
        name = "%s[%s]" % (fn, label)
        if select and not select(name):
            continue
        jobs.append((name, tile_job(srcs, rt, p, fn, rel, name, b, Cx, ignore, kinds, machine, extra)))
    return jobs


def tile_job(srcs, rt, p, fn, rel, name, b, Cx, ignore, kinds, machine, extra):
    def job(r):
        tu = srcs.tu(rel)
        c = Cx(tu.enum_names, p)
        args, spec = b(c)
        mach = machine(srcs, tu, p, c.mats, c.th, **(extra(srcs, tu, p, c) if extra else {}))
        mach.run(fn, args)
        v = TileVC(fn, mach, spec, c.th, c.hyps, ignore)
        obs = v.generate() + list(getattr(mach, "extra_obs", ()))
        if kinds:
            obs = [o for o in obs if (o.info or {}).get("kind") in kinds]
        # vacuity: the precondition and every family must be satisfiable together
        for f in spec:
            if not consistent(c.hyps + mach.assume + [f.dom], c.th):
                r.obs.append(("%s:vacuous[%s]" % (fn, f.name), "vacuous", 0.0, "", None, ""))
        discharge(r, obs, c.th)
        r.functions = [fn] + sorted(mach.inlined)
        r.effects = len(mach.effects)
    return job
