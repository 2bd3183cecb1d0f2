"""run.py LIB INCDIR '{"prec":"z","routines":[..],"seeds":[lo,hi],"mode":0,...}' -- bounded differential runs in one process.
Prints one JSON line per failure and a summary line."""
import ctypes as C, json, os, sys, faulthandler
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
np.seterr(all="ignore")
import warnings
warnings.filterwarnings("ignore")
import harness, cases, control_cases


def describe(args, prec):
    out = []
    for a in args or []:
        if isinstance(a, np.ndarray):
            out.append("array%s" % (list(a.shape),))
        elif isinstance(a, complex):
            out.append(a.real if a.imag == 0 else "%g%+gi" % (a.real, a.imag))
        elif isinstance(a, C.Structure):
            out.append("T")
        else:
            out.append(a)
    return out


def main():
    lib, inc, cfg = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    dn = os.open("/dev/null", os.O_WRONLY)
    os.dup2(dn, 2) if not cfg.get("loud") else None
    e = harness.Env(lib, inc, cfg.get("prec", "z"))
    lo, hi = cfg["seeds"]
    n = 0
    seen = set()
    stop = cfg.get("stop", 1)
    bad = 0
    for seed in range(lo, hi):
        for r in cfg["routines"]:
            f, props, kw = cases.CASES[r]
            if "only" in kw and e.prec not in kw["only"]:
                continue
            sys.stdout.write("@%s %d\n" % (r, seed))
            sys.stdout.flush()
            outs = []
            for mode in cfg.get("modes", [0]):
                e.rng = np.random.default_rng([seed, sum(map(ord, r)), cfg.get("base", 0)])
                e.minsize = cfg.get("minsize", 0)
                e.pbld = True
                e.prefer = set(cfg.get("prefer", ()))
                e.note = ""
                e.lib.shim_mode(0, C.c_ulonglong(seed), cfg.get("threads", 1))
                prep = e.lib.shim_mode
                d = None
                try:
                    # factorizations run while the case is prepared use the same schedule mode
                    prep(mode, C.c_ulonglong(seed * 131 + mode), cfg.get("threads", 1))
                    if cfg.get("variant"):
                        import variants

                        def again():
                            e.rng = np.random.default_rng([seed, sum(map(ord, r)), cfg.get("base", 0)])
                            prep(mode, C.c_ulonglong(seed * 131 + mode), cfg.get("threads", 1))
                        e.inputs, e.entry = cfg.get("inputs"), cfg.get("entry")
                        v = getattr(variants, cfg["variant"])
                        got = v(e, f, again) if cfg["variant"] == "alloc" else v(e, f)
                        if got:
                            d = [got[0]] + describe(got[1], e.prec)
                            n += 1
                            seen.add(str(d))
                        continue
                    if cfg.get("guard"):
                        e.lib.shim_guard(1)
                    name, args, chk = f(e)
                    d = [name] + describe(args, e.prec)
                    emb = int(np.random.default_rng([seed, 77]).integers(1, 512)) if cfg.get("embed") and seed % 3 == 1 and r != "hesv" else 0   # hesv clears its workspace as a whole
                    if emb and args is not None and hasattr(e.lib, "probe_embed"):
                        e.note += " embedded=%d" % emb
                        e.lib.probe_embed(emb)
                        try:
                            ret = e.call(name, *args)
                            out = e.lib.probe_embed_bad()
                        finally:
                            e.lib.probe_embed(0)
                        if out:
                            raise harness.Mismatch("%d elements outside the sub-matrix were written" % out)
                    else:
                        ret = e.call(name, *args) if args is not None else 0
                    chk(ret)
                    if cfg.get("guard"):
                        out = e.lib.shim_guard_bad()
                        if out:
                            raise harness.Mismatch("memory behind %d allocated blocks was written" % out)
                    n += 1
                    seen.add(name + str(d))
                except (C.ArgumentError, TypeError, AttributeError, NameError, KeyError, ImportError) as x:
                    # a mistake of the harness: says nothing about the library
                    import traceback
                    print(json.dumps(dict(error="%s: %s" % (r, traceback.format_exc()[-600:]))))
                    sys.stdout.flush()
                    break
                except harness.Mismatch as x:
                    e.lib.shim_track(0, C.c_long(-1))
                    if cfg.get("guard") and e.lib.shim_guard_bad():
                        x = harness.Mismatch("%s; memory behind allocated blocks was written" % x.args[0], *x.args[1:])
                    if len(x.args) > 1:
                        d = [r] + describe(x.args[1], e.prec)
                        x = x.args[0]
                    print(json.dumps(dict(fail=str(x), routine=r, seed=seed, base=cfg.get("base", 0), prec=e.prec, mode=mode,
                                          threads=cfg.get("threads", 1), minsize=e.minsize, call=d, settings=e.note)))
                    sys.stdout.flush()
                    bad += 1
                    break
            if bad >= stop:
                break
        if bad >= stop:
            break
    print(json.dumps(dict(done=n, distinct=len(seen), bad=bad)))


main()
