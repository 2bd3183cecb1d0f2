"""Runs proof cases in parallel worker processes and collects obligation results."""
import multiprocessing as mp
import os, sys, time, traceback
import z3
from .cfront import OutOfReach
from . import vc

LIMIT = int(os.environ.get("TCV_LIMIT", "1500" if os.environ.get("VERIF_TIER") == "thorough" else "200"))     # per case
WORKERS = int(os.environ.get("TCV_JOBS", "8"))


class Result:
    """picklable outcome of one case"""
    def __init__(self, label):
        self.label = label
        self.obs = []           # (name, status, seconds, where, info, model text)
        self.error = None       # out-of-reach / internal reason
        self.functions = []
        self.smt2 = {}
        self.nontrivial = None
        self.props = None

    def bad(self):
        return [o for o in self.obs if o[1] != "proved"]


_JOBS = None


def _run(i):
    label, thunk = _JOBS[i]
    r = Result(label)
    t0 = time.time()
    if os.environ.get("TCV_TRACE"):
        print("start", label, flush=True)
    import signal

    def late(*a):
        raise OutOfReach("not finished in %d s" % LIMIT)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        thunk(r)
    except OutOfReach as e:
        r.error = "out of reach: %s" % e
    except RecursionError as e:
        r.error = "internal: recursion"
    except Exception as e:      # noqa
        r.error = "internal: %s: %s" % (type(e).__name__, e)
        if os.environ.get("TCV_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    r.secs = time.time() - t0
    if os.environ.get("TCV_TRACE"):
        print("done", label, round(r.secs, 1), flush=True)
    return r


def run_cases(jobs, workers=None):
    """jobs: [(label, function(Result))]; forked so that parsed sources are shared"""
    global _JOBS
    _JOBS = jobs
    n = min(workers or WORKERS, max(1, len(jobs)))
    sys.setrecursionlimit(20000)
    if n == 1 or os.environ.get("TCV_SERIAL"):
        return [_run(i) for i in range(len(jobs))]
    ctx = mp.get_context("fork")
    with ctx.Pool(n) as pool:
        return pool.map(_run, range(len(jobs)), chunksize=1)


def discharge(r, obs, theory, stop_after=6):
    """solve obligations into the result"""
    cache = {}
    bad = 0
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    for o in obs:
        st, model, dt = vc.solve(o.hyps, o.goal, theory)
        mt = ""
        if st != "proved":
            bad += 1
            if model is not None:
                mt = ", ".join("%s=%s" % (d.name(), model[d]) for d in model.decls() if d.arity() == 0 and not d.name().startswith("lit("))[:1500]
        elif thorough:
            try:
                ans = vc.cvc5_check(vc.smt2_of(o.hyps, o.goal, theory))
            except Exception as e:      # noqa
                ans = "error"
            r.smt2[ans] = r.smt2.get(ans, 0) + 1
            if ans == "sat":
                st = "disputed"
        r.obs.append((o.name, st, dt, o.where, o.info, mt))
        if bad >= stop_after:
            break


def consistent(hyps, theory, timeout=5000):
    """is the conjunction satisfiable (precondition not vacuous)?"""
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*hyps)
    s.add(*(theory.facts + theory.instantiate(list(hyps) + theory.facts)))
    from . import symex
    s.add(*symex.lit_axioms())
    return s.check() == z3.sat
