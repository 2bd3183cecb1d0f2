"""Runs the check of one property: proofs over the current sources first, then replay / bounded stand-ins."""
import json, os, re, signal, subprocess, sys, time, traceback, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed
from . import runner, build
from .cfront import Sources, OutOfReach

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class Prop:
    """proofs: functions ctx -> [(label, job)].  cases: replay cases exercising the property.
    replay_map: [(regex on the proof label, [replay cases])] - which cases replay a failed obligation of that label."""
    def __init__(self, pid, proofs, cases, assumptions, trusted, bounded_for, replay_map=(), precs="zd", modes=(0,), threads=1, post=None,
                 seeds=24, mins=0, bounded=None, variant=None, cflags=None, level="proof", technique=None, note=None):
        self.__dict__.update(locals())
        self.technique = technique or "contract-based deductive verification of the real C code (tcv verification conditions discharged by z3)"
        self.note = note or "Proof modulo the listed assumptions: " + "; ".join(assumptions)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.srcs = None
        self.precs = "zdcs" if tier == "thorough" else prop.precs
        self.notes = []


def load_findings():
    """known findings: lines 'finding: property=ID key=<text without blanks> ...'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s*(.*)", l)
            if m:
                out.append(m.groups())
    return out


class Library:
    """lazily built scratch library"""
    def __init__(self, ctx, cflags=None):
        self.ctx, self.path, self.err, self.done = ctx, None, "", False
        self.cflags = cflags

    def get(self):
        if not self.done:
            self.done = True
            self.dir = tempfile.mkdtemp(prefix="tcv_lib_")
            import atexit
            atexit.register(shutil.rmtree, self.dir, True)
            kw = dict(cflags=self.cflags) if self.cflags else {}
            self.path, self.err = build.build_lib(self.ctx.srcs, "zdcs", outdir=self.dir, **kw)
        return self.path


def run_case(lib, inc, cfg, timeout):
    """one harness process.  Returns (failures, done, distinct, text)"""
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    env.update(cfg.pop("_env", {}))
    p = subprocess.Popen([PY, os.path.join(VERIF, "replay", "run.py"), lib, inc, json.dumps(cfg)], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, start_new_session=True)
    hang = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        hang = True
    fails, done, distinct, last = [], 0, 0, None
    for l in out.decode(errors="replace").splitlines():
        if l.startswith("@"):
            last = l[1:].split()
        elif l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if "error" in d:
                print("harness error: " + d["error"], flush=True)
            elif "fail" in d:
                fails.append(d)
            elif "done" in d:
                done, distinct = d["done"], d.get("distinct", 0)
    if p.returncode and not hang and not fails:
        fails.append(dict(fail="the process running the library died (status %d)" % p.returncode, routine=last[0] if last else "?",
                          seed=int(last[1]) if last else -1, crash=True, cfg=dict(cfg), stderr=err.decode(errors="replace")[-1500:], prec=cfg.get("prec")))
    return fails, done, distinct, (last if hang else None)


class Bounded:
    """bounded differential runs of the real library"""
    def __init__(self, ctx, lib):
        self.ctx, self.lib = ctx, lib
        self.evaluations = self.distinct = 0
        self.samples = []
        self.error = None

    def run(self, cases, precs, seeds, modes=(0,), threads=1, budget=60, extra=None, mins=0, base=None):
        lib = self.lib.get()
        if lib is None:
            self.error = "the sources do not build: " + self.lib.err[:500]
            return []
        inc = os.path.join(self.ctx.srcs.dir, "include")
        t_end = time.time() + budget
        lo, hi = seeds
        step = max(1, min(12, (hi - lo + 1) // 2))
        todo = []
        for a in range(lo, hi, step):
            for p in precs:
                for c in cases:
                    todo.append(dict(prec=p, routines=[c], seeds=[a, min(hi, a + step)], modes=list(modes), threads=threads, minsize=mins,
                                     base=SEED if base is None else base, stop=1, embed=1, **(extra or {})))
        fails = []

        def one(cfg):
            left = t_end - time.time()
            if left < 2 or fails:
                return None
            return cfg, run_case(lib, inc, dict(cfg), max(20, min(60, left + 5)))
        hangs = []
        with ThreadPoolExecutor(8) as ex:
            for f in as_completed([ex.submit(one, c) for c in todo]):
                r = f.result()
                if r is None:
                    continue
                cfg, (fl, done, distinct, hang) = r
                self.evaluations += done
                self.distinct += distinct
                if len(self.samples) < 4 and done:
                    self.samples.append({k: cfg[k] for k in ("prec", "routines", "seeds", "modes", "base")})
                for x in fl:
                    x["cfg"] = dict(cfg, routines=[x["routine"]], seeds=[x["seed"], x["seed"] + 1])
                    fails.append(x)
                if hang:
                    hangs.append((cfg, hang))
        for cfg, h in hangs[:2]:       # a single case that does not end in a minute does not terminate
            one_cfg = dict(cfg, routines=[h[0]], seeds=[int(h[1]), int(h[1]) + 1])
            fl, done, distinct, hg = run_case(lib, inc, dict(one_cfg), 90)
            if hg:
                fails.append(dict(fail="the call does not return", routine=h[0], seed=int(h[1]), cfg=one_cfg, prec=cfg["prec"]))
            fails += [dict(x, cfg=one_cfg) for x in fl]
        # confirm: a failure counts only if the single case fails again on its own
        out = []
        for x in fails[:3]:
            fl, done, distinct, hg = run_case(lib, inc, dict(x["cfg"]), 90)
            if fl or hg:
                out.append(x)
        return out


def write_replay(pid, n, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def main(props):
    pid = sys.argv[1]
    prop = props()[pid]
    t0 = time.time()
    tier = "thorough" if TIER == "thorough" or "--thorough" in sys.argv else "quick"
    os.environ["VERIF_TIER"] = tier
    for f in os.listdir(os.path.join(VERIF, "replays")) if os.path.isdir(os.path.join(VERIF, "replays")) else []:
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(VERIF, "replays", f))
    ctx = Ctx(prop, tier)
    results, errors = [], []
    try:
        ctx.srcs = Sources()
    except Exception as e:      # the sources cannot even be prepared
        errors.append("sources: %s" % e)
    if ctx.srcs:
        jobs = []
        for gen in prop.proofs:
            try:
                jobs += gen(ctx)
            except Exception as e:      # noqa
                errors.append("%s: %s: %s" % (getattr(gen, "__name__", "proof"), type(e).__name__, str(e)[:300]))
                if os.environ.get("TCV_DEBUG"):
                    traceback.print_exc()
        results = runner.run_cases(jobs) if jobs else []
    if prop.post:
        prop.post(ctx, results)
    t_proof = time.time() - t0
    nobs = sum(len(r.obs) for r in results)
    proved = sum(1 for r in results for o in r.obs if o[1] == "proved")
    refuted = [(r, o) for r in results for o in r.obs if o[1] in ("refuted", "vacuous", "disputed")]
    unknown = [(r, o) for r in results for o in r.obs if o[1] not in ("proved", "refuted", "vacuous", "disputed")]
    failed_cases = [r for r in results if r.error or r.bad()]
    for r in results:
        if r.error:
            errors.append("%s: %s" % (r.label, r.error))
        elif not r.obs and not getattr(r, "may_be_empty", False):
            errors.append("%s: generated no obligation" % r.label)

    # ---- replay of failed obligations, and the bounded stand-ins
    lib = Library(ctx, prop.cflags)
    bnd = Bounded(ctx, lib)
    fails = []

    def cases_for(label):
        for rx, cs in prop.replay_map:
            if re.search(rx, label):
                return [c for c in cs]
        return list(prop.cases)
    variants = prop.variant if isinstance(prop.variant, list) else [prop.variant or {}]
    if ctx.srcs:
        # the counterexample of an obligation over the arguments of a call, replayed as such
        done = 0
        for r in failed_cases:
            inp = next((o[4]["inputs"] for o in r.bad() if isinstance(o[4], dict) and o[4].get("inputs")), None)
            if inp is None or not prop.cases or fails or done >= 6 or "_omp_" in r.label:
                continue
            done += 1
            for v in variants:
                if v.get("variant") in ("badarg", "zero") and not fails:
                    q = re.match(r"plasma_(?:dz|sc)?([zcds])", r.label)
                    fails = bnd.run(cases_for(r.label), q.group(1) if q else "z", (0, 60), budget=25, extra=dict(v, inputs=inp, entry=r.label))
        if failed_cases and prop.cases and not fails:
            groups = {}
            for r in failed_cases:
                opt = re.search(r"\[(.*)\]", r.label)
                opt = tuple("Plasma" + x.strip() for x in opt.group(1).split(",")) if opt else ()
                for c in cases_for(r.label):
                    for vi, v in enumerate(variants):
                        groups.setdefault((opt, vi), {}).setdefault(c, 1)
            precs = "".join(p for p in "zdcs" if p in "zd" or p in ctx.precs)
            modes = prop.modes if prop.modes != (0,) else (0, 1, 5)
            tl = 300 if tier == "thorough" else 120
            for (opt, vi), cs in list(groups.items())[:8]:
                fails = bnd.run(list(cs), precs, (0, 400 if tier == "thorough" else 120), modes, max(prop.threads, 1),
                                budget=max(15, tl / min(8, len(groups))), mins=prop.mins, extra=dict(dict(prefer=list(opt)) if opt else {}, **variants[vi]))
                if fails:
                    break
        for v in variants:
            if fails or not prop.cases:
                break
            fails = bnd.run(prop.cases, "zdcs" if tier == "thorough" else prop.precs, (1000, 1000 + (prop.seeds * 6 if tier == "thorough" else prop.seeds)),
                            prop.modes, prop.threads, budget=(400 if tier == "thorough" else 120) / len(variants), mins=prop.mins, extra=v)
        if not fails and prop.bounded:
            for fn in prop.bounded:
                try:
                    fails += fn(ctx, lib, bnd) or []
                except Exception as e:      # noqa
                    errors.append("bounded %s: %s: %s" % (fn.__name__, type(e).__name__, str(e)[:300]))
                    if os.environ.get("TCV_DEBUG"):
                        traceback.print_exc()
        if bnd.error:
            errors.append(bnd.error)

    # ---- verdict
    known = [(k, txt) for p, k, txt in load_findings() if p == pid]

    def is_known(text):
        return next(((k, t) for k, t in known if k in text), None)
    lines, nviol, shown = [], 0, set()
    seen_obs = set()
    by_fn = {}
    for r, o in refuted:
        key = "%s|%s" % (r.label, o[0])
        kf = is_known(key)
        if kf:
            if kf not in shown:
                shown.add(kf)
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[1]))
            continue
        by_fn.setdefault(r.label.split("[")[0], []).append((r, o))
    new_fails = []
    for x in fails:
        kf = is_known("%s|%s" % (x.get("routine"), x.get("fail")))
        if kf:
            if kf not in shown:
                shown.add(kf)
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, kf[1]))
            continue
        new_fails.append(x)
    obs_dump = [dict(case=r.label, obligation=o[0], status=o[1], where=o[3], info=o[4], model=o[5]) for l in by_fn.values() for r, o in l][:40]
    if new_fails:
        for n, x in enumerate(new_fails[:2]):
            path = write_replay(pid, n, dict(property=pid, failing_input=x, failed_obligations=obs_dump,
                                             reproduce="cd /verif && %s replay/replay.py %s-%d.json" % (os.path.basename(PY), pid, n)))
            print("  %s %s seed=%s: %s  %s" % (x.get("prec"), x.get("routine"), x.get("seed"), x.get("fail"), json.dumps(x.get("call"), default=str)))
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            nviol += 1
    elif by_fn:
        for n, (fn, l) in enumerate(list(by_fn.items())[:3]):
            r, o = l[0]
            path = write_replay(pid, n, dict(property=pid, failing_input=None, failed_obligation=o[0], where=o[3], case=r.label, verifier="z3: %s" % o[1],
                                             counterexample_of_the_obligation=o[5], info=o[4], all_failed=obs_dump))
            print("  obligation %s of %s at %s: %s %s" % (o[0], r.label, o[3], o[1], o[5][:300]))
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            nviol += 1
    for e in errors[:12]:
        print("  undecided:", e[:300])
    for r, o in unknown[:12]:
        print("  undecided: %s %s: %s" % (r.label, o[0], o[1]))

    # ---- evidence
    fns = sorted({f for r in results for f in r.functions})
    ok_fns = sorted({f for r in results if not r.error and not r.bad() for f in r.functions} - {f for r in failed_cases for f in r.functions})
    cv = {}
    for r in results:
        for k, v in r.smt2.items():
            cv[k] = cv.get(k, 0) + v
    assumptions = list(prop.assumptions)
    assumptions += ["undecided: " + e[:200] for e in errors] + ["undecided obligation: %s %s" % (r.label, o[0]) for r, o in unknown[:50]]
    kinds = {}
    for r in results:
        for o in r.obs:
            k = (o[4] or {}).get("kind", "other") if isinstance(o[4], dict) else "other"
            kinds[k] = kinds.get(k, 0) + 1
    cov = dict(obligations=nobs, discharged=proved, checker_cmd="python3-vt check.py %s" % pid, trusted_base=prop.trusted,
               obligations_by_kind=kinds, proof_cases=len(results), functions_under_contract=fns, functions_fully_discharged=ok_fns,
               solver=dict(back_end="z3 %s" % __import__("z3").get_version_string(), seconds=round(sum(o[2] for r in results for o in r.obs), 2), cvc5_crosscheck=cv),
               proof_wall_s=round(t_proof, 1), undecided=len(unknown), refuted=len(refuted))
    if prop.cases or prop.bounded:
        cov["bounded"] = dict(label="bounded, not counted as proved", stands_in_for=prop.bounded_for, evaluations=bnd.evaluations,
                              distinct_calls=bnd.distinct, samples=bnd.samples,
                              bound="seeded random sizes/options, %d seeds per routine, compared with numpy/scipy" % prop.seeds)
    ev = dict(property=pid, tier=tier, seed=SEED, level=prop.level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d cases (%.0f s), %d bounded evaluations (%.0f s total)" % (
        pid, proved, nobs, len(results), t_proof, bnd.evaluations, time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if nviol else 0
