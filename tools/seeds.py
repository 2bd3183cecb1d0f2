#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeddefs/*.py and tries them out.
seeds.py gen [ids]     write patch.diff, demo.sh, demo.py, plib.py, meta.json
seeds.py try [ids]     in a copy of /repo bound over /repo in a mount namespace: build, tests, demo, and the property's check"""
import difflib, glob, json, os, re, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
DEFS = {}


def seed(sid, prop, edits, needs, breaks, demo):
    DEFS[sid] = (prop, edits, needs, breaks, demo)


for f in sorted(glob.glob(os.path.join(H, "seeddefs", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})


def gen(sid):
    prop, edits, needs, breaks, demo = DEFS[sid]
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    files = {}
    for e in edits:
        p, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        s = files.setdefault(p, [open("/repo/" + p).read()] * 2)
        c = s[1].count(old)
        if nth is None:
            assert c == 1, (sid, p, old, c)
            t = s[1].replace(old, new)
        else:
            parts = s[1].split(old)
            assert len(parts) > nth + 1, (sid, p, old, c)
            t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        files[p] = [s[0], t]
    out = ""
    for p, (a, b) in files.items():
        out += "diff --git a/%s b/%s\n" % (p, p)
        out += "".join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), "a/" + p, "b/" + p))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec timeout 200 python3-vt "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(
        "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom plib import *\n" + textwrap.dedent(demo).strip() + "\ndone()\n")
    shutil.copy(os.path.join(H, "seedlib", "plib.py"), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


SCRIPT = r"""
mount --bind %(w)s /repo
cd /repo
bash /verif/seeded/%(s)s/demo.sh > %(w)s.base 2>&1; echo base=$?
git apply /verif/seeded/%(s)s/patch.diff || exit 1
bash /opt/vp/build.sh > %(w)s.build 2>&1; echo build=$?
timeout 300 bash /verif/seeded/%(s)s/demo.sh > %(w)s.demo 2>&1; echo demo=$?
if [ -z "%(notest)s" ]; then bash /opt/vp/test.sh %(w)s.json > /dev/null 2>&1; fi
cd /verif; timeout 900 python3-vt check.py %(p)s > %(w)s.check 2>&1; echo check=$?
tail -4 %(w)s.check
"""


def trial(sid, notest=False):
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    os.rmdir(w)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    p = DEFS[sid][0]
    r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT % dict(w=w, s=sid, p=p, notest="1" if notest else "")], capture_output=True, text=True)
    out = r.stdout + r.stderr
    if not notest and os.path.exists(w + ".json"):
        ok = set(json.load(open(w + ".json"))["passed"])
        bad = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
        out += "tests failing: %d %s\n" % (len(bad), bad[:3])
    if os.path.exists(w + ".demo"):
        out += "demo says: " + open(w + ".demo").read()[-200:].strip().replace("\n", " | ") + "\n"
    for f in glob.glob(w + "*"):
        shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    return sid, out


def quick(sid):
    """only the property's check, on a patched copy (no build, tests or demo)"""
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git apply /verif/seeded/%s/patch.diff" % (w, w, sid), shell=True, check=True)
    r = subprocess.run(["python3-vt", V + "/check.py", DEFS[sid][0]], capture_output=True, text=True, env=dict(os.environ, TCV_REPO=w))
    shutil.rmtree(w)
    return sid, "exit %d\n%s" % (r.returncode, "\n".join(x[:330] for x in r.stdout.splitlines()[-5:]))


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(DEFS)
    ids = [s for s in DEFS if any(s == i or re.fullmatch(i, s) for i in ids)]
    for s in ids:
        gen(s)
    if sys.argv[1] == "check":
        for s in ids:
            print("=====", s, DEFS[s][0])
            print(quick(s)[1])
            sys.stdout.flush()
    if sys.argv[1] == "try":
        with ThreadPoolExecutor(2) as ex:
            for s, o in ex.map(lambda s: trial(s, "--notest" in sys.argv), ids):
                print("=====", s, DEFS[s][0])
                print(o)
                sys.stdout.flush()
