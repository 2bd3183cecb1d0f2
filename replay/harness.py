"""Calls the real library (scratch build of the current sources) and compares with numpy/scipy references.
Used to replay counterexamples and as the bounded stand-in where no proof is in reach."""
import ctypes as C, json, os, re, sys
import numpy as np

Z64 = type("Z64", (C.Structure,), {"_fields_": [("re", C.c_double), ("im", C.c_double)]})
Z32 = type("Z32", (C.Structure,), {"_fields_": [("re", C.c_float), ("im", C.c_float)]})
DT = {"z": np.complex128, "c": np.complex64, "d": np.float64, "s": np.float32}
RT = {"z": np.float64, "c": np.float32, "d": np.float64, "s": np.float32}
CT = {"z": Z64, "c": Z32, "d": C.c_double, "s": C.c_float}


class Env:
    def __init__(self, lib, incdir, prec="z", quiet=True):
        if quiet:       # the library prints every error
            pass
        self.lib = C.CDLL(lib, mode=os.RTLD_LAZY | os.RTLD_LOCAL)
        self.inc = incdir
        self.consts = {}
        txt = open(os.path.join(incdir, "plasma_types.h")).read()
        for blk in re.findall(r"enum\s*\{(.*?)\}", txt, re.S):
            v = -1
            blk = re.sub(r"/\*.*?\*/|//[^\n]*", "", blk, flags=re.S)
            for it in blk.split(","):
                mm = re.match(r"\s*(\w+)\s*(?:=\s*(\S+))?\s*$", it)
                if not mm:
                    continue
                if mm.group(2):
                    t = mm.group(2)
                    v = {"INT_MIN": -2**31, "INT_MAX": 2**31 - 1}.get(t, self.consts.get(t, None) if not re.match(r"-?\d+$", t) else int(t))
                else:
                    v += 1
                self.consts[mm.group(1)] = v
        self.protos = {}
        self.structs = {}
        for h in sorted(os.listdir(incdir)):
            if h.endswith(".h"):
                self._protos(open(os.path.join(incdir, h)).read())
        d = open(os.path.join(incdir, "plasma_descriptor.h")).read()
        self.Desc = self._struct(d, "plasma_desc_t")
        self.Seq = self._struct(open(os.path.join(incdir, "plasma_async.h")).read(), "plasma_sequence_t")
        self.Req = self._struct(open(os.path.join(incdir, "plasma_async.h")).read(), "plasma_request_t")
        self.Work = self._struct(open(os.path.join(incdir, "plasma_workspace.h")).read(), "plasma_workspace_t")
        self.setprec(prec)
        self.rng = np.random.default_rng(0)
        self.verbose = False
        self.lib.plasma_init()
        self.set("PlasmaTuning", self.c("PlasmaDisabled"))
        self.lib.shim_live.restype = C.c_long
        self.lib.shim_allocs.restype = C.c_long
        self.lib.shim_bad_free.restype = C.c_long

    def setprec(self, prec):
        self.prec = prec
        self.dtype, self.rdtype, self.cplx = DT[prec], RT[prec], prec in "zc"
        self.eps = np.finfo(self.rdtype).eps

    def _struct(self, txt, name):
        body = re.search(r"typedef struct\s*\w*\s*\{([^}]*)\}\s*%s\s*;" % name, txt).group(1)
        body = re.sub(r"/\*.*?\*/|//[^\n]*", "", body, flags=re.S)
        fs = []
        for d in body.split(";"):
            d = d.strip()
            if not d:
                continue
            mm = re.match(r"(?:volatile |const )*([\w ]+?)\s*([\w\s,*]+)$", d)
            ty, names = re.match(r"(?:volatile\s+|const\s+)*(\w+(?:\s+int|\s+long)?)\s+(.*)$|(?:)(\w+)\s*(\*.*)$", d, re.S).groups()[:2]
            for nm in names.split(","):
                nm = nm.strip()
                if "*" in nm:
                    fs.append((nm.replace("*", "").strip(), C.c_void_p))
                else:
                    fs.append((nm, {"size_t": C.c_size_t, "double": C.c_double}.get(ty, C.c_int)))
        return type(name, (C.Structure,), {"_fields_": fs})

    def _protos(self, txt):
        txt = re.sub(r"/\*.*?\*/|//[^\n]*", "", txt, flags=re.S)
        for mm in re.finditer(r"(?:^|\n)\s*(int|void|double|float|plasma_enum_t|char)\s+(plasma_\w+)\s*\(([^;{]*?)\)\s*;", txt):
            ps = []
            for a in mm.group(3).split(","):
                a = re.sub(r"\s+", " ", a.strip())
                if a in ("", "void"):
                    continue
                am = re.match(r"(?:const |volatile )*([\w]+)\s*((?:\*|const |volatile )*)\s*(\w*)", a)
                ps.append((am.group(1), "*" in a, am.group(3)))
            self.protos[mm.group(2)] = (mm.group(1), ps)

    def c(self, name):
        return self.consts[name]

    def set(self, p, v):
        return self.lib.plasma_set(self.c(p), int(v))

    def name(self, z):
        """precision-specific name of a z routine"""
        p = self.prec
        if p == "z":
            return z
        sub = {"c": "c", "d": "d", "s": "s"}[p]
        base = z
        if p in "ds":
            base = base.replace("zher2k", "zsyr2k_").replace("zherk", "zsyrk_").replace("zhemm", "zsymm_").replace("zlanhe", "zlansy_")
            base = base.replace("zun", "zor").replace("zhe", "zsy").rstrip("_")
        m = re.match(r"(plasma_(?:omp_|core_omp_|core_)?)(dzamax|z)(.*)", base)
        if m.group(2) == "dzamax":
            return m.group(1) + {"c": "scamax", "d": "damax", "s": "samax"}[p] + m.group(3)
        return m.group(1) + sub + m.group(3)

    def conv(self, ty, ptr, v):
        if ptr:
            if v is None:
                return None
            if isinstance(v, np.ndarray):
                return C.c_void_p(v.ctypes.data)
            if isinstance(v, (C.Structure, C.c_int, C.c_double, C.c_float)):
                return C.byref(v)
            return v
        if ty == "plasma_complex64_t":
            return Z64(complex(v).real, complex(v).imag)
        if ty == "plasma_complex32_t":
            return Z32(complex(v).real, complex(v).imag)
        if ty == "double":
            return C.c_double(complex(v).real)
        if ty == "float":
            return C.c_float(complex(v).real)
        if ty in ("plasma_desc_t", "plasma_workspace_t"):
            return v
        if ty == "size_t":
            return C.c_size_t(v)
        if ty == "char":
            return C.c_char(v if isinstance(v, bytes) else bytes([v & 255]))
        if isinstance(v, str):
            v = self.c(v)
        return C.c_int(int(v))

    def call(self, name, *args):
        ret, ps = self.protos[name]
        f = getattr(self.lib, name)
        f.restype = {"int": C.c_int, "void": None, "double": C.c_double, "float": C.c_float, "plasma_enum_t": C.c_int, "char": C.c_char}[ret]
        assert len(ps) == len(args), (name, len(ps), len(args))
        return f(*[self.conv(t, p, a) for (t, p, n), a in zip(ps, args)])

    # ---- random data
    def i(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def pick(self, *xs):
        pref = getattr(self, "prefer", None)
        if pref and self.rng.uniform() < 0.9:
            ys = [x for x in xs if isinstance(x, str) and x in pref]
            if ys:
                return ys[int(self.rng.integers(0, len(ys)))]
        return xs[int(self.rng.integers(0, len(xs)))]

    def rand(self, *shape):
        x = self.rng.uniform(-1, 1, shape)
        if self.cplx:
            x = x + 1j * self.rng.uniform(-1, 1, shape)
        return np.asarray(x, dtype=self.dtype)

    def scalar(self, zero=True, real=False):
        v = self.pick(0.0, 0.0, 1.0, -1.0, 2.5, "r", "r")
        if v == "r":
            v = complex(self.rng.uniform(-1, 1), 0 if real or not self.cplx else self.rng.uniform(-1, 1))
            v = v if self.cplx and not real else v.real
        if v == 0.0 and not zero:
            v = 0.3
        # representable in the working precision
        return complex(np.asarray(v, dtype=np.complex64 if self.prec in "cs" else np.complex128))

    def arr(self, m, n, pad=None, fill=None):
        """(array with padding, view m x n).  Padding holds NaN."""
        ld = max(1, m) + (self.pick(0, 0, 1, 3) if pad is None else pad)
        buf = np.full((ld, max(1, n) + 1), np.nan, dtype=self.dtype, order="F")
        v = buf[:m, :n]
        v[...] = self.rand(m, n) if fill is None else fill
        return buf, v, ld


class Mismatch(Exception):
    pass


def close(got, want, tol, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Mismatch("%s: shape" % what)
    if got.size == 0:
        return
    ng, nw = np.isnan(got), np.isnan(want)
    if (ng != nw).any():
        i = tuple(int(x) for x in np.argwhere(ng != nw)[0])
        raise Mismatch("%s%s: got %s, want %s" % (what, list(i), got[i], want[i]))
    ok = ~nw
    d = np.abs(np.where(ok, got, 0) - np.where(ok, want, 0))
    if not np.isfinite(d).all() or d.max() > tol:
        with np.errstate(all="ignore"):
            d = np.where(np.isfinite(d), d, np.inf)
        i = tuple(int(x) for x in np.unravel_index(d.argmax(), d.shape))
        raise Mismatch("%s%s: got %s, want %s (tolerance %.2g)" % (what, list(i), got[i], want[i], tol))


def same(got, want, what):
    a, b = np.asarray(got), np.asarray(want)
    if a.tobytes() != b.tobytes():
        d = np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b))) if a.dtype.kind in "fc" else a != b)
        raise Mismatch("%s: data that must not change did, first at %s" % (what, d[0].tolist() if len(d) else "?"))
