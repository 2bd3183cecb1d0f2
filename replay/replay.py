#!/usr/bin/env python3-vt
"""replay.py FILE: builds the library from the current sources of /repo and runs the failing input of a replay file again."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tcv import driver
from tcv.cfront import Sources


class X:
    pass


d = json.load(open(sys.argv[1]))
x = d.get("failing_input")
if not x:
    print("no failing input is known; failed obligation: %s (%s)\n%s" % (d.get("failed_obligation"), d.get("where"), d.get("counterexample_of_the_obligation")))
    sys.exit(1)
ctx = X()
ctx.srcs = Sources()
lib = driver.Library(ctx)
if lib.get() is None:
    sys.exit("the library does not build: " + lib.err)
fl, done, distinct, hang = driver.run_case(lib.get(), os.path.join(ctx.srcs.dir, "include"), dict(x["cfg"]), 120)
print("still fails:" if fl or hang else "passes:", json.dumps(fl or x, indent=1, default=str))
sys.exit(1 if fl or hang else 0)
