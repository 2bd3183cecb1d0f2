"""Scratch build of the real sources (no tests) as a shared library, for replaying counterexamples.
The OpenMP runtime is replaced by replay/omp_shim.c, a deterministic adversarial task scheduler."""
import os, re, subprocess, tempfile, atexit, shutil
from concurrent.futures import ThreadPoolExecutor
from .cfront import Sources, INCS, REPO

HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(os.path.dirname(HERE), "replay", "omp_shim.c")


def build_lib(srcs=None, precs="z", cflags=("-O1", "-g"), outdir=None):
    """returns (path of the shared library, error text)"""
    srcs = srcs or Sources()
    out = outdir or tempfile.mkdtemp(prefix="tcv_lib_")
    if not outdir:
        atexit.register(shutil.rmtree, out, True)
    if any(p != "z" for p in precs):
        srcs.generate_all()
    # the project's own list of sources; only those present (their precision was generated) are compiled
    words = re.findall(r"(?:control|core_blas|compute)/\w+\.c", open(os.path.join(REPO, "CMakeLists.txt")).read())
    keep = [f for f in (os.path.join(srcs.dir, w) for w in sorted(set(words))) if os.path.isfile(f)]
    objs, errs = [], []

    def cc(f):
        o = os.path.join(out, os.path.relpath(f, srcs.dir).replace("/", "_") + ".o")
        cmd = ["gcc", "-std=gnu99", "-fopenmp", "-fPIC", "-w", *cflags, "-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS",
               "-I" + os.path.join(srcs.dir, "include")] + ["-I" + i for i in INCS] + ["-c", f, "-o", o]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o, p.returncode, p.stdout.decode()

    with ThreadPoolExecutor(8) as ex:
        for o, rc, txt in ex.map(cc, keep):
            if rc:
                errs.append(txt)
            else:
                objs.append(o)
    if errs:
        return None, "\n".join(errs)[:4000]
    shim = os.path.join(out, "omp_shim.o")
    subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-w", "-c", SHIM, "-o", shim], check=True)
    # wrappers of the header-only functions; without them the cases that need them are skipped
    probe = os.path.join(out, "probe.o")
    q = subprocess.run(["gcc", "-std=gnu99", "-fopenmp", "-O1", "-g", "-fPIC", "-w", "-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS", "-I" + os.path.join(srcs.dir, "include")] +
                       ["-I" + i for i in INCS] + ["-c", os.path.join(os.path.dirname(SHIM), "probe.c"), "-o", probe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    wraps = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
    if q.returncode == 0:
        objs.append(probe)
        wraps += ",--wrap=plasma_desc_general_create,--wrap=plasma_desc_destroy"
    lib = os.path.join(out, "libplasma_replay.so")
    p = subprocess.run(["gcc", "-shared", "-Wl,-Bsymbolic", wraps, "-o", lib] + objs + [shim, "-L/usr/lib/x86_64-linux-gnu/openblas-pthread", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openblas-pthread", "-lopenblas", "-llapacke", "-llua5.4", "-lm"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode()[:4000]
    return lib, ""
