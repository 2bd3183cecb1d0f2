"""Replay cases of the control layer: settings, option constants, descriptors and the tile storage map, on the real library."""
import ctypes as C
import numpy as np
from harness import Mismatch
from cases import case

PRECS = dict(PlasmaRealFloat=4, PlasmaRealDouble=8, PlasmaComplexFloat=8, PlasmaComplexDouble=16)


def need(cond, what, *call):
    if not cond:
        raise Mismatch(what, list(call))


def has(e, name):
    try:
        getattr(e.lib, name)
        return True
    except AttributeError:
        return False


# ------------------------------------------------------------------ C15
KINDS = dict(
    trans=dict(N="NoTrans", T="Trans", C="ConjTrans"), diag=dict(N="NonUnit", U="Unit"), direct=dict(F="Forward", B="Backward"),
    norm={"O": "OneNorm", "1": "OneNorm", "2": "TwoNorm", "F": "FrobeniusNorm", "E": "FrobeniusNorm", "I": "InfNorm", "M": "MaxNorm"},
    side=dict(L="Left", R="Right"), storev=dict(C="Columnwise", R="Rowwise"), uplo=dict(U="Upper", L="Lower"),
    job=dict(A="AllVec", S="SomeVec", V="Vec", N="NoVec", I="IVec"), range=dict(A="RangeAll", V="RangeV", I="RangeI"))
LETTER = dict(NoTrans="N", Trans="T", ConjTrans="C", Upper="U", Lower="L", General="G", NonUnit="N", Unit="U", Left="L", Right="R", OneNorm="O",
              TwoNorm="2", FrobeniusNorm="F", InfNorm="I", MaxNorm="M", NoVec="N", Vec="V", IVec="I", AllVec="A", SomeVec="S", RangeAll="A",
              RangeV="V", RangeI="I", Forward="F", Backward="B", Columnwise="C", Rowwise="R")


@case("C15")
def options(e):
    def chk(ret):
        for kind, tab in KINDS.items():
            fn = getattr(e.lib, "plasma_%s_const" % kind, None) or getattr(e.lib, "plasma_%s_const" % kind)
            fn.restype = C.c_int
            for c in range(0, 128):
                got = fn(C.c_char(bytes([c])))
                want = e.c("Plasma" + tab[chr(c).upper()]) if chr(c).upper() in tab else e.c("PlasmaGeneral" if kind == "uplo" else "PlasmaInvalid")
                need(got == want, "plasma_%s_const(%r) returns %d, want %d" % (kind, chr(c), got, want), c)
        if has(e, "probe_lapack_const"):
            f = e.lib.probe_lapack_const
            f.restype = C.c_char
            inv = {e.c("Plasma" + k): v for k, v in LETTER.items()}
            vals = {v for k, v in e.consts.items() if k.startswith("Plasma") and 0 <= v < 600}
            for v in sorted(set(inv) | {x for x in range(0, 500) if x not in vals}):
                got = f(v).decode("latin1")
                need(got == inv.get(v, "\0"), "lapack_const(%d) returns %r, want %r" % (v, got, inv.get(v, "\0")), v)
    return "plasma_option_constants", None, chk


# ------------------------------------------------------------------ C14
@case("C14")
def settings(e):
    pars = dict(PlasmaTuning=lambda v: v in (e.c("PlasmaEnabled"), e.c("PlasmaDisabled")), PlasmaNb=lambda v: v >= 1, PlasmaIb=lambda v: v >= 1,
                PlasmaNumPanelThreads=lambda v: v >= 1,
                PlasmaHouseholderMode=lambda v: v in (e.c("PlasmaFlatHouseholder"), e.c("PlasmaTreeHouseholder")))

    def get(p):
        x = C.c_int(-777)
        r = e.lib.plasma_get(p, C.byref(x))
        return r, x.value

    def snap():
        return {k: get(e.c(k)) for k in pars}

    def chk(ret):
        start = snap()
        for k, (r, v) in start.items():
            need(r == 0 and pars[k](v), "%s has the value %d after the start (code %d)" % (k, v, r))
        odd = [-2**31, -100, -1, 0, 1, 2, 3, 7, 64, 96, 255, 256, 257, 1000, 65536, 10**6, 2**31 - 1] + [e.c(x) for x in (
            "PlasmaEnabled", "PlasmaDisabled", "PlasmaFlatHouseholder", "PlasmaTreeHouseholder", "PlasmaNb", "PlasmaTuning")] + [e.i(-50, 5000) for _ in range(6)]
        hist = []
        try:
            for _ in range(60):
                k = e.pick(*pars)
                v = odd[e.i(0, len(odd) - 1)]
                before = snap()
                r = e.lib.plasma_set(e.c(k), v)
                hist.append((k, v))
                after = snap()
                if pars[k](v):
                    need(r == 0, "plasma_set(%s, %d) is refused with %d" % (k, v, r), hist)
                    need(after[k] == (0, v), "plasma_set(%s, %d), then plasma_get gives %s" % (k, v, after[k]), hist)
                else:
                    need(r != 0, "plasma_set(%s, %d) is accepted" % (k, v), hist)
                    need(after[k] == before[k], "the refused plasma_set(%s, %d) changes the value" % (k, v), hist)
                for q in pars:
                    need(q == k or after[q] == before[q], "plasma_set(%s, %d) changes %s from %s to %s" % (k, v, q, before[q], after[q]), hist)
            bad = [x for x in range(-3, 40) if x not in [e.c(k) for k in pars]]
            for x in bad:
                before = snap()
                need(e.lib.plasma_set(x, 5) != 0, "plasma_set accepts the unknown parameter %d" % x)
                r, v = get(x)
                need(r != 0 and v == -777, "plasma_get of the unknown parameter %d gives %d, code %d" % (x, v, r))
                need(snap() == before, "the refused plasma_set(%d) changes a parameter" % x)
            # settings of a fresh start; calls outside of one are refused
            need(e.lib.plasma_init() != 0, "a second plasma_init is accepted")
            need(e.lib.plasma_finalize() == 0, "plasma_finalize fails")
            for k in pars:
                r, v = get(e.c(k))
                need(r != 0 and v == -777, "plasma_get works after plasma_finalize")
                need(e.lib.plasma_set(e.c(k), 1) != 0, "plasma_set works after plasma_finalize")
            need(e.lib.plasma_finalize() != 0, "a second plasma_finalize is accepted")
            need(e.lib.plasma_init() == 0, "plasma_init after plasma_finalize fails")
            for k, (r, v) in snap().items():
                need(r == 0 and pars[k](v), "%s has the value %d after plasma_init" % (k, v))
        finally:
            e.lib.plasma_init()
            for k, (r, v) in start.items():
                e.lib.plasma_set(e.c(k), v)
    return "plasma_settings", None, chk


# ------------------------------------------------------------------ C01, C02
def cdiv(a, b):
    return -(-a // b)


def consistent(e, A):
    F = lambda f: getattr(A, f)
    if F("precision") not in [e.c(p) for p in PRECS] or F("mb") < 1 or F("nb") < 1 or F("m") < 0 or F("n") < 0 or F("i") < 0 or F("j") < 0:
        return False
    if F("i") and F("i") >= F("gm") or F("j") and F("j") >= F("gn") or F("j") + F("n") > F("gn") or F("i") % F("mb") or F("j") % F("nb"):
        return False
    G, U, L, B = [e.c("Plasma" + x) for x in ("General", "Upper", "Lower", "GeneralBand")]
    if F("type") in (G, U, L):
        return F("i") + F("m") <= F("gm")
    if F("type") != B or F("uplo") not in (G, U, L) or F("kl") < 0 or F("ku") < 0 or F("kl") + 1 > max(1, F("m")) or F("ku") + 1 > max(1, F("n")):
        return False
    t = lambda x: cdiv(x, F("mb"))
    rows = 1 + (t(F("kl")) + t(F("kl") + F("ku")) if F("uplo") == G else t(F("ku")) if F("uplo") == U else t(F("kl")))
    return F("gm") >= F("mb") * rows


def create(e, kind, prec, **k):
    A = e.Desc()
    mb, nb = k["mb"], k["nb"]
    if kind == "general":
        r = e.lib.plasma_desc_general_create(e.c(prec), mb, nb, k["lm"], k["ln"], k["i"], k["j"], k["m"], k["n"], C.byref(A))
    elif kind == "band":
        r = e.lib.plasma_desc_general_band_create(e.c(prec), k["uplo"], mb, nb, k["lm"], k["ln"], k["i"], k["j"], k["m"], k["n"], k["kl"], k["ku"], C.byref(A))
    else:
        r = e.lib.plasma_desc_triangular_create(e.c(prec), e.c("Plasma" + kind), mb, nb, k["lm"], k["ln"], k["i"], k["j"], k["m"], k["n"], C.byref(A))
    return r, A


def legal(e, kind):
    mb = e.i(1, 6)
    nb = mb if kind != "general" else e.i(1, 6)
    lm = e.i(0, 4 * mb + 2)
    ln = lm if kind in ("Upper", "Lower") else e.i(0, 4 * nb + 2)
    d = dict(mb=mb, nb=nb, lm=lm, ln=ln)
    i0, j0 = e.i(0, max(0, (lm - 1) // mb)), e.i(0, max(0, (ln - 1) // nb))
    if e.pick(0, 1):
        i0 = j0 = 0
    if kind in ("Upper", "Lower"):
        j0 = i0
    d.update(i=i0 * mb, j=j0 * nb)
    d.update(m=e.i(0, lm - i0 * mb) if e.pick(0, 1) else lm - i0 * mb, n=e.i(0, ln - j0 * nb) if e.pick(0, 1) else ln - j0 * nb)
    if kind == "band":
        u = e.pick("General", "Upper", "Lower")
        m, n = e.i(1, 20), e.i(1, 20)
        kl, ku = e.i(0, m - 1), e.i(0, n - 1)
        t = lambda x: cdiv(x, mb)
        rows = 1 + (t(kl) + t(kl + ku) if u == "General" else t(ku) if u == "Upper" else t(kl))
        d.update(uplo=e.c("Plasma" + u), m=m, n=n, kl=kl, ku=ku, lm=mb * (rows + e.pick(0, 0, 1)), ln=n + e.pick(0, 0, 3), i=0, j=0)
    return d


def size_of(kind, prec, k):
    es = PRECS[prec]
    if kind in ("Upper", "Lower"):
        q, r, mb = k["lm"] // k["mb"], k["lm"] % k["mb"], k["mb"]
        return es * (mb * mb * q * (q + 1) // 2 + q * mb * r + r * r)
    return es * k["lm"] * k["ln"]


@case("C02")
def desc(e):
    def chk(ret):
        for _ in range(25):
            kind = e.pick("general", "general", "band", "band", "Upper", "Lower")
            prec = e.pick(*PRECS)
            k = legal(e, kind)
            e.lib.shim_track(1, C.c_long(-1))
            r, A = create(e, kind, prec, **k)
            live = e.lib.shim_live()
            e.lib.shim_last_size.restype = C.c_long
            got = e.lib.shim_last_size()
            e.lib.shim_track(0, C.c_long(-1))
            if r == 0:
                need(got >= size_of(kind, prec, k), "%d bytes are allocated for a %s matrix whose tiles take %d" % (got, kind, size_of(kind, prec, k)), kind, prec, k)
            need(r == 0, "a legal %s matrix is refused with code %d" % (kind, r), kind, prec, k)
            want = dict(precision=e.c(prec), mb=k["mb"], nb=k["nb"], gm=k["lm"], gn=k["ln"], i=k["i"], j=k["j"], m=k["m"], n=k["n"],
                        gmt=cdiv(k["lm"], k["mb"]), gnt=cdiv(k["ln"], k["nb"]), type=e.c("PlasmaGeneralBand" if kind == "band" else "Plasma" + kind.capitalize()))
            if kind != "band":
                want.update(mt=cdiv(k["i"] + k["m"], k["mb"]) - k["i"] // k["mb"] if k["m"] else 0, nt=cdiv(k["j"] + k["n"], k["nb"]) - k["j"] // k["nb"] if k["n"] else 0)
            else:
                G, U = e.c("PlasmaGeneral"), e.c("PlasmaUpper")
                t = lambda x: cdiv(x, k["mb"])
                want.update(kl=k["kl"], ku=k["ku"], uplo=k["uplo"], klt=1 if k["uplo"] == U else 1 + t(k["kl"]),
                            kut=1 + t(k["ku"] + (k["kl"] if k["uplo"] == G else 0)) if k["uplo"] != e.c("PlasmaLower") else 1)
            for f, v in want.items():
                need(getattr(A, f) == v, "field %s of a %s matrix is %s, want %s" % (f, kind, getattr(A, f), v), kind, prec, k)
            if has(e, "probe_check"):
                need(e.lib.probe_check(C.byref(A)) == 0, "a created %s matrix fails the descriptor check" % kind, kind, prec, k)
                need(consistent(e, A), "created inconsistent", kind, prec, k)
                need(live == 1, "%d blocks are held after a creation" % live, kind, k)
                B = e.Desc.from_buffer_copy(A)
                for _ in range(40):
                    D = e.Desc.from_buffer_copy(B)
                    for _ in range(e.pick(1, 1, 2)):
                        f = e.pick("type", "uplo", "precision", "mb", "nb", "gm", "gn", "i", "j", "m", "n", "kl", "ku", "i", "j", "m", "n")
                        v = getattr(D, f)
                        setattr(D, f, e.pick(v - 1, v + 1, -1, 0, v + D.mb, v - D.mb, v + D.nb, -v, 100, 2 * v, e.c("PlasmaUpper"), e.c("PlasmaLower"), e.c("PlasmaGeneral"),
                                             e.c("PlasmaGeneralBand")))
                    got = e.lib.probe_check(C.byref(D)) == 0
                    need(got == consistent(e, D), "plasma_desc_check %s an %sconsistent descriptor" % ("accepts" if got else "rejects", "" if consistent(e, D) else "in"),
                         {f: getattr(D, f) for f, _ in D._fields_ if f not in ("matrix", "A21", "A12", "A22")})
            e.lib.plasma_desc_destroy(C.byref(A))
        # illegal creations
        for _ in range(25):
            kind = e.pick("general", "band", "Upper")
            k = legal(e, kind)
            f = e.pick("mb", "nb", "lm", "ln", "i", "j", "m", "n", *(["kl", "ku", "uplo"] if kind == "band" else []))
            k[f] = e.pick(-1, -k[f] - 1, k[f] + k["mb"], k[f] + 1, 0)
            if any(k[x] < 0 for x in ("lm", "ln")) or not (1 <= k["mb"] < 100) or not (1 <= k["nb"] < 100):
                if f not in ("mb", "nb"):
                    continue
            if f in ("mb", "nb") and k[f] <= 0:
                continue            # division by the tile size comes first
            if kind == "Upper" and (k["mb"] != k["nb"] or k["lm"] != k["ln"]):
                continue
            e.lib.shim_track(1, C.c_long(-1))
            r, A = create(e, kind, "PlasmaRealDouble", **k)
            live = e.lib.shim_live()
            e.lib.shim_track(0, C.c_long(-1))
            if r == 0:
                need(consistent(e, A), "an inconsistent %s matrix is created" % kind, kind, k)
                e.lib.plasma_desc_destroy(C.byref(A))
            else:
                need(live == 0, "a refused creation keeps %d blocks" % live, kind, k)
    return "plasma_desc_create", None, chk


@case("C01")
def tiles(e):
    def chk(ret):
        if not has(e, "probe_tile_addr"):
            return
        ad = e.lib.probe_tile_addr
        ad.restype = C.c_void_p
        e.lib.probe_element_size.restype = C.c_long
        for _ in range(25):
            kind = e.pick("general", "general", "band", "Upper", "Lower")
            prec = e.pick(*PRECS)
            es = PRECS[prec]
            need(e.lib.probe_element_size(e.c(prec)) == es, "element size of %s" % prec)
            k = legal(e, kind)
            k.update(i=0, j=0)
            if kind != "band":
                k.update(m=k["lm"], n=k["ln"])
            r, A = create(e, kind, prec, **k)
            if r:
                continue            # C02
            base, size = A.matrix, size_of(kind, prec, k)
            own = {}
            mb, nb = k["mb"], k["nb"]
            gmt, gnt = cdiv(k["lm"], mb), cdiv(k["ln"], nb)
            kut = A.kut
            tl = []
            for n in range(gnt):
                for s in range(gmt):
                    if kind == "band":
                        tl.append((s - (kut - 1) + n, n, min(mb, k["lm"] - s * mb), min(nb, k["ln"] - n * nb)))
                    elif kind == "general" or (kind == "Upper" and s <= n) or (kind == "Lower" and s >= n):
                        tl.append((s, n, min(mb, k["lm"] - s * mb), min(nb, k["ln"] - n * nb)))
            iv = []
            for (mi, n, rows, cols) in tl:
                p = ad(C.byref(A), mi, n)
                off = (p or 0) - base
                need(0 <= off and off + rows * cols * es <= size, "tile (%d,%d) at byte %d with %dx%d elements leaves the allocation of %d bytes" % (mi, n, off, rows, cols, size),
                     kind, prec, k)
                iv.append((off, off + rows * cols * es, mi, n))
                if kind != "band":
                    need(e.lib.probe_mmain(C.byref(A), mi) == rows, "plasma_tile_mmain(%d) = %d, the tile has %d rows" % (mi, e.lib.probe_mmain(C.byref(A), mi), rows), kind, k)
                    need(e.lib.probe_mview(C.byref(A), mi) == rows, "plasma_tile_mview(%d) = %d, want %d" % (mi, e.lib.probe_mview(C.byref(A), mi), rows), kind, k)
                else:
                    need(e.lib.probe_mmain_band(C.byref(A), mi, n) == rows, "plasma_tile_mmain_band(%d,%d)" % (mi, n), kind, k)
                need(e.lib.probe_nmain(C.byref(A), n) == cols, "plasma_tile_nmain(%d) = %d, the tile has %d columns" % (n, e.lib.probe_nmain(C.byref(A), n), cols), kind, k)
            iv.sort()
            for a, b in zip(iv, iv[1:]):
                need(a[1] <= b[0] or a[0] == a[1] or b[0] == b[1], "tiles (%d,%d) and (%d,%d) overlap" % (a[2:] + b[2:]), kind, prec, k)
            need(sum(x[1] - x[0] for x in iv) == size, "the tiles do not cover the allocation", kind, prec, k)
            # views
            if kind != "band" and gmt and gnt:
                i0, j0 = e.i(0, gmt - 1), e.i(0, gnt - 1)
                if kind != "general":
                    j0 = i0
                m, n = e.i(0, k["lm"] - i0 * mb), e.i(0, k["ln"] - j0 * nb)
                V = e.Desc()
                e.lib.probe_view(C.byref(A), i0 * mb, j0 * nb, m, n, C.byref(V))
                W = V
                if m and n and e.pick(0, 1):        # a view of a view
                    i1, j1 = e.i(0, (m - 1) // mb), e.i(0, (n - 1) // nb)
                    if kind != "general":
                        i1 = j1 = min(i1, j1)
                    m, n = e.i(0, m - i1 * mb), e.i(0, n - j1 * nb)
                    W = e.Desc()
                    e.lib.probe_view(C.byref(V), i1 * mb, j1 * nb, m, n, C.byref(W))
                    i0, j0 = i0 + i1, j0 + j1
                if m and n:
                    need((W.mt, W.nt, W.m, W.n) == (cdiv(m, mb), cdiv(n, nb), m, n), "a view of %dx%d has %dx%d tiles" % (m, n, W.mt, W.nt), kind, k)
                for a in range(cdiv(m, mb)):
                    for b in range(cdiv(n, nb)):
                        if kind == "Upper" and a + i0 > b + j0 or kind == "Lower" and a + i0 < b + j0:
                            continue
                        need(ad(C.byref(W), a, b) == ad(C.byref(A), a + i0, b + j0), "tile (%d,%d) of the view at (%d,%d) is not that of its parent" % (a, b, i0, j0), kind, k)
                        need(e.lib.probe_mmain(C.byref(W), a) == e.lib.probe_mmain(C.byref(A), a + i0) and e.lib.probe_nmain(C.byref(W), b) == e.lib.probe_nmain(C.byref(A), b + j0),
                             "leading dimension of tile (%d,%d) of the view at (%d,%d)" % (a, b, i0, j0), kind, k)
                        need(e.lib.probe_mview(C.byref(W), a) == min(mb, m - a * mb) and e.lib.probe_nview(C.byref(W), b) == min(nb, n - b * nb),
                             "extent of tile (%d,%d) of the %dx%d view at (%d,%d)" % (a, b, m, n, i0, j0), kind, k)
            e.lib.plasma_desc_destroy(C.byref(A))
    return "plasma_tile_addr", None, chk


# ------------------------------------------------------------------ C03
@case("C03")
def translate(e):
    """one direction at a time, every kind of layout and sub-matrix, against the definition"""
    def chk(ret):
        if not has(e, "probe_translate"):
            return
        ad = e.lib.probe_tile_addr
        ad.restype = C.c_void_p
        P = {np.dtype(np.float32): "PlasmaRealFloat", np.dtype(np.float64): "PlasmaRealDouble", np.dtype(np.complex64): "PlasmaComplexFloat", np.dtype(np.complex128): "PlasmaComplexDouble"}
        prec = P[np.dtype(e.dtype)]
        G, U, L = [e.c("Plasma" + x) for x in ("General", "Upper", "Lower")]
        es = np.dtype(e.dtype).itemsize
        for _ in range(30):
            kind = e.pick("general", "general", "Upper", "Lower", "pb", "pb", "gb")
            mb = e.i(1, 6)
            t = lambda x: cdiv(x, mb)
            i0 = j0 = 0
            if kind in ("pb", "gb"):
                u = e.pick(G, U, L) if kind == "pb" else G
                m = e.i(1, 4 * mb + 2)
                n = m if u != G or kind == "gb" else e.i(1, 4 * mb + 2)
                kl, ku = (0 if u == U else e.i(0, m - 1)), (0 if u == L else e.i(0, n - 1))
                fill = kl + ku if u == G else ku
                rows = 1 + t(kl) + t(fill)
                k = dict(mb=mb, nb=mb, lm=mb * rows, ln=n, i=0, j=0, m=m, n=n, kl=kl, ku=ku, uplo=u)
                r, A = create(e, "band", prec, **k)
            else:
                lm = e.i(1, 4 * mb + 2)
                ln = lm if kind != "general" else e.i(1, 4 * mb + 2)
                i0, j0 = e.pick(0, e.i(0, (lm - 1) // mb)), e.pick(0, e.i(0, (ln - 1) // mb))
                if kind != "general":
                    j0 = i0
                m = e.pick(lm - i0 * mb, e.i(1, lm - i0 * mb))
                n = m if kind != "general" else e.pick(ln - j0 * mb, e.i(1, ln - j0 * mb))
                k = dict(mb=mb, nb=mb, lm=lm, ln=ln, i=i0 * mb, j=j0 * mb, m=m, n=n)
                r, A = create(e, kind, prec, **k)
            need(r == 0, "a legal %s matrix is refused with code %d" % (kind, r), k)
            base = A.matrix
            total = k["lm"] * k["ln"] if kind in ("general", "pb", "gb") else size_of(kind, prec, k) // es
            store = np.ctypeslib.as_array(C.cast(base, C.POINTER(C.c_uint8)), shape=(total * es,)).view(e.dtype)
            # user's array
            if kind == "pb":
                ld = (mb * (1 + t(kl) + t(fill)) if u == G else (ku if u == U else kl) + 1) + e.i(0, 2)
                off = {G: kl + ku, U: ku, L: 0}[u]
            else:
                ld = m + e.i(0, 2)
            buf = e.rand(ld * n + 3, 1)[:, 0].copy()
            # element (i, j) of the tiles: position in the user's array and in the storage, moved or zeroed
            pos, zero = {}, set()
            for a in range(t(m)):
                for b in range(t(n)):
                    if kind == "Upper" and a > b or kind == "Lower" and a < b:
                        continue
                    if kind == "gb" and not (a - b <= A.klt - 1 and b - a <= A.kut - 1 and b * mb - ku <= a * mb + mb - 1):
                        continue
                    if kind == "pb":
                        up, lo = {G: ku + kl, U: ku, L: 0}[u], {G: kl, U: 0, L: kl}[u]
                        if not (a * mb <= b * mb + mb - 1 + lo and a * mb + mb - 1 >= b * mb - up):
                            continue
                    p = (ad(C.byref(A), a, b) - base) // es
                    ldt = mb if kind in ("pb", "gb") else e.lib.probe_mmain(C.byref(A), a)
                    for x in range(min(mb, m - a * mb)):
                        for y in range(min(mb, n - b * mb)):
                            i, j = a * mb + x, b * mb + y
                            q = p + x + y * ldt
                            if kind == "pb":
                                D = i - j
                                inn = (b <= a or D >= -(ku + kl)) and (b >= a or D <= kl + mb) if u == G else -ku <= D <= 0 if u == U else 0 <= D <= kl
                                if inn:
                                    pos[q] = ld * j + off + D
                                else:
                                    zero.add(q)
                            else:
                                pos[q] = i + j * ld
            mark = e.rand(total, 1)[:, 0]
            # every position of the user's array that is moved exists
            pos = {q: s for q, s in pos.items() if 0 <= s < len(buf)}
            store[:] = mark
            want = mark.copy()
            for q, s in pos.items():
                want[q] = buf[s]
            for q in zero:
                want[q] = 0
            keep = buf.copy()
            code = dict(general=0, Upper=1, Lower=1, pb=2, gb=3)[kind]
            what = "%s %s" % (kind, k)
            r = e.lib.probe_translate(e.c(prec), code, 0, buf.ctypes.data_as(C.c_void_p), ld, C.byref(A))
            need(r == 0 and same_bits(buf, keep), "the user's array is changed by the translation to tiles", what)
            need(same_bits(store, want), "translation to tiles: storage position %s" % first_diff(store, want), what)
            if kind != "gb":
                store[:] = mark
                want = keep.copy()
                for q, s in pos.items():
                    want[s] = mark[q]
                r = e.lib.probe_translate(e.c(prec), code, 1, buf.ctypes.data_as(C.c_void_p), ld, C.byref(A))
                need(r == 0 and same_bits(store, mark), "the tiles are changed by the translation to the user's array", what)
                # (the corners of a general band layout overlap: elements outside of the band of different columns share a position)
                src = list(pos.values())
                for x in {x for x in src if src.count(x) > 1}:
                    want[x] = buf[x]
                need(same_bits(buf, want), "translation from tiles: position %s of the user's array" % first_diff(buf, want), what)
            del store
            e.lib.plasma_desc_destroy(C.byref(A))
    return "plasma_translation", None, chk


@case("C17")
def swaprange(e):
    """a sub-range of a list on one column (row) of tiles, forward and backward"""
    def chk(ret):
        if not has(e, "probe_geswp"):
            return
        ad = e.lib.probe_tile_addr
        ad.restype = C.c_void_p
        P = {np.dtype(np.float32): "PlasmaRealFloat", np.dtype(np.float64): "PlasmaRealDouble", np.dtype(np.complex64): "PlasmaComplexFloat", np.dtype(np.complex128): "PlasmaComplexDouble"}
        es = np.dtype(e.dtype).itemsize
        for _ in range(30):
            mb = e.i(1, 6)
            rows = e.pick(True, False)
            ob = e.i(1, 6)
            lng, oth = e.i(1, 4 * mb + 2), e.i(1, ob)
            i0 = e.i(0, (lng - 1) // mb)
            lm, ln = (lng, oth) if rows else (oth, lng)
            k = dict(mb=mb if rows else ob, nb=ob if rows else mb, lm=lm, ln=ln, i=i0 * mb if rows else 0, j=0 if rows else i0 * mb, m=lm - i0 * mb if rows else lm, n=ln if rows else ln - i0 * mb)
            r, A = create(e, "general", P[np.dtype(e.dtype)], **k)
            need(r == 0, "a legal matrix is refused", k)
            store = np.ctypeslib.as_array(C.cast(A.matrix, C.POINTER(C.c_uint8)), shape=(lm * ln * es,)).view(e.dtype)
            store[:] = e.rand(lm * ln, 1)[:, 0]
            want = store.copy()
            start = store.copy()
            N = lng - i0 * mb
            k1 = e.i(1, N)
            k2 = e.i(k1 - 1, N)
            inc = e.pick(1, -1, 1, -1, 2, -3)
            piv = np.array([e.i(1, N) for _ in range(N)], dtype=np.int32)

            def vec(x):
                x = int(x)
                t, o = x // mb, x % mb
                if rows:
                    b = (ad(C.byref(A), t, 0) - A.matrix) // es
                    return [b + o + y * e.lib.probe_mmain(C.byref(A), t) for y in range(oth)]
                b = (ad(C.byref(A), 0, t) - A.matrix) // es
                return [b + o * e.lib.probe_mmain(C.byref(A), 0) + y for y in range(oth)]
            for x in (range(k1 - 1, k2, inc) if inc > 0 else range(k2 - 1, k1 - 2, inc)):
                a, b = vec(x), vec(piv[x] - 1)
                want[a], want[b] = want[b], want[a].copy()
            keep = piv.copy()
            cr = e.c("PlasmaRowwise" if rows else "PlasmaColumnwise")
            f = lambda inc: e.lib.probe_geswp(e.c(P[np.dtype(e.dtype)]), cr, C.byref(A), k1, k2, piv.ctypes.data_as(C.c_void_p), inc)
            f(inc)
            need(same_bits(store, want), "entries %d..%d of the list %s applied with increment %d: storage position %s" % (k1, k2, list(piv), inc, first_diff(store, want)), rows, k)
            need(same_bits(piv, keep), "the list is changed", k)
            if abs(inc) == 1:
                f(-inc)
                need(same_bits(store, start), "applying the list in the other direction does not undo it", rows, k, list(piv), k1, k2)
            del store
            e.lib.plasma_desc_destroy(C.byref(A))
    return "plasma_interchanges", None, chk


def same_bits(a, b):
    return a.tobytes() == b.tobytes()


def first_diff(a, b):
    d = [x for x in range(len(a)) if a[x:x + 1].tobytes() != b[x:x + 1].tobytes()]
    return d[0] if d else None
