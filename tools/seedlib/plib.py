"""Calls libplasma of the build in the current directory (/repo after build.sh)."""
import ctypes as C, os, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import numpy as np
_d = os.path.join(os.getcwd(), "_build", "cmake")
C.CDLL(os.path.join(_d, "libplasma_core_blas.so"), mode=C.RTLD_GLOBAL)
L = C.CDLL(os.path.join(_d, "libplasma.so"), mode=C.RTLD_GLOBAL)
N, T, CT, U, LO, G, NU, UN, LEFT, RIGHT = 111, 112, 113, 121, 122, 123, 131, 132, 141, 142
ONE, FRO, INF, MAX = 171, 174, 175, 177
COLWISE, ROWWISE = 401, 402
TUNING, NB, IB, INPLACE, MTPF, HMODE = range(6)


class Z(C.Structure):
    _fields_ = [("re", C.c_double), ("im", C.c_double)]


def init(nb=8, ib=4, tree=0, mtpf=1):
    assert L.plasma_init() == 0
    L.plasma_set(TUNING, 0)
    L.plasma_set(NB, nb)
    L.plasma_set(IB, ib)
    L.plasma_set(HMODE, tree)
    L.plasma_set(MTPF, mtpf)


def call(name, *a, ret=C.c_int):
    f = getattr(L, name)
    f.restype = ret
    out = []
    for x in a:
        if isinstance(x, np.ndarray):
            assert x.flags.f_contiguous
            out.append(x.ctypes.data_as(C.c_void_p))
        elif isinstance(x, complex):
            out.append(Z(x.real, x.imag))
        elif isinstance(x, float):
            out.append(C.c_double(x))
        elif isinstance(x, (int, np.integer)):
            out.append(C.c_int(int(x)))
        else:
            out.append(x)
    return f(*out)


rng = np.random.default_rng(7)


def rnd(m, n=None, cplx=False):
    s = (m,) if n is None else (m, n)
    x = rng.standard_normal(s)
    if cplx:
        x = x + 1j * rng.standard_normal(s)
    return np.asfortranarray(x)


def same(a, b, tol=1e-10):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0)
