"""Tile-level contracts of the element-wise routines (C07): every tile that meets the region, once, with the region of that tile."""
import z3
from tcv.symex import S, ZERO, ONE, I, cdiv, cmod
from tcv.tile import fams, NB
from .level3 import Cx, rng, m, n, k, NOTR, TR, CT, UP, LO, GEN, SEQ, REQ, transposes

UPLOS = (GEN, UP, LO)


def op_shape(ta, r, c):
    return (r, c) if ta == NOTR else (c, r)


def geadd(prec):
    for ta in transposes(prec):
        def b(c, ta=ta):
            dm, dn = c.dim("m"), c.dim("n")
            A, B = c.mat("A", *op_shape(ta, dm, dn)), c.mat("B", dm, dn)
            al, be = c.sc("alpha"), c.sc("beta")
            d = rng((0, m, dm.nt), (0, n, dn.nt))
            sp = fams("tile", [m, n], d, (0,), c.k.geadd(c.E(ta), dm.V(m), dn.V(n), al, A(m, n) if ta == NOTR else A(n, m), be, B(m, n)))
            return [c.E(ta), al, A.struct, be, B.struct, SEQ, REQ], sp
        yield ta[6:], b


def tradd(prec):
    for uplo in (LO, UP):
        for ta in transposes(prec):
            def b(c, uplo=uplo, ta=ta):
                dm, dn = c.dim("m"), c.dim("n")
                A, B = c.mat("A", *op_shape(ta, dm, dn)), c.mat("B", dm, dn)
                al, be = c.sc("alpha"), c.sc("beta")
                d = rng((0, m, dm.nt), (0, n, dn.nt))
                off = (m > n) if uplo == LO else (m < n)
                sp = fams("diagonal", [n], rng((0, n, dm.nt), (0, n, dn.nt)), (0,),
                          c.k.tradd(c.E(uplo), c.E(ta), dm.V(n), dn.V(n), al, A(n, n), be, B(n, n)))
                sp += fams("off", [m, n], z3.And(d, off), (0,), c.k.geadd(
                    c.E(ta), dm.V(m), dn.V(n), al, A(m, n) if ta == NOTR else A(n, m), be, B(m, n)))
                return [c.E(uplo), c.E(ta), al, A.struct, be, B.struct, SEQ, REQ], sp
            yield "%s,%s" % (uplo[6:], ta[6:]), b


def region(uplo):
    return {GEN: z3.BoolVal(True), UP: m < n, LO: m > n}[uplo]


def lacpy(prec):
    for uplo in UPLOS:
        for ta in transposes(prec):
            def b(c, uplo=uplo, ta=ta):
                dm, dn = c.dim("m"), c.dim("n")
                if ta != NOTR:      # (precondition of the transposed copy, C04) square
                    dn = dm
                A, B = c.mat("A", dm, dn), c.mat("B", *op_shape(ta, dm, dn))
                d = rng((0, m, dm.nt), (0, n, dn.nt))
                sp = fams("tile" if uplo == GEN else "off", [m, n], z3.And(d, region(uplo)), (0,), c.k.lacpy(
                    c.E(GEN), c.E(ta), dm.V(m), dn.V(n), A(m, n), B(m, n) if ta == NOTR else B(n, m)))
                if uplo != GEN:
                    sp += fams("diagonal", [n], rng((0, n, dm.nt), (0, n, dn.nt)), (0,), c.k.lacpy(
                        c.E(uplo), c.E(ta), dm.V(n), dn.V(n), A(n, n), B(n, n)))
                return [c.E(uplo), c.E(ta), A.struct, B.struct, SEQ, REQ], sp
            yield "%s,%s" % (uplo[6:], ta[6:]), b


def lascl(prec):
    for uplo in UPLOS:
        def b(c, uplo=uplo):
            dm, dn = c.dim("m"), c.dim("n")
            A = c.mat("A", dm, dn)
            cf, ct = c.sc("cfrom"), c.sc("cto")
            d = rng((0, m, dm.nt), (0, n, dn.nt))
            sp = fams("tile" if uplo == GEN else "off", [m, n], z3.And(d, region(uplo)), (0,), c.k.lascl(c.E(GEN), cf, ct, dm.V(m), dn.V(n), A(m, n)))
            if uplo != GEN:
                sp += fams("diagonal", [n], rng((0, n, dm.nt), (0, n, dn.nt)), (0,), c.k.lascl(c.E(uplo), cf, ct, dm.V(n), dn.V(n), A(n, n)))
            return [c.E(uplo), cf, ct, A.struct, SEQ, REQ], sp
        yield uplo[6:], b


def exact(c, M, dim, org, main, gm):
    """the reported sizes of the tiles (contract of plasma_tile_mview/mmain, proved in C01)"""
    V, nt, L = dim.V, dim.nt, dim.L
    o = M.struct.f[org]
    g = M.struct.f[gm]
    c.th.facts += [o >= 0, g >= o + L,
                   nt == z3.If(L == 0, 0, cdiv(o + L - 1, NB) - cdiv(o, NB) + 1)]
    c.th.add(V, lambda x: [z3.Implies(z3.And(x == 0, 0 < nt), V(x) == z3.If(nt == 1, L, NB - cmod(o, NB))),
                           z3.Implies(z3.And(0 < x, x < nt - 1), V(x) == NB),
                           z3.Implies(z3.And(x == nt - 1, 0 < x), V(x) == cmod(o + L + NB - 1, NB) + 1)])
    if main is not None:
        c.th.add(main, lambda x: [z3.Implies(z3.And(0 <= x, x < nt), main(x) == z3.If(cdiv(o, NB) + x == cdiv(g, NB), g - cdiv(g, NB) * NB, NB))])


def laset(prec):
    for uplo in UPLOS:
        def b(c, uplo=uplo):
            dm, dn = c.dim("m", False), c.dim("n", False)
            A = c.mat("A", dm, dn)
            exact(c, A, dm, "i", A.M, "gm")
            exact(c, A, dn, "j", A.N, "gn")
            al, be = c.sc("alpha"), c.sc("beta")
            fi, fj = A.struct.f["i"], A.struct.f["j"]
            d = rng((0, m, dm.nt), (0, n, dn.nt))
            oi, oj = z3.If(m == 0, cmod(fi, NB), 0), z3.If(n == 0, cmod(fj, NB), 0)
            rg = z3.And(d, m != n, region(uplo))
            sp = fams("off", [m, n], rg, (0,), c.k.laset(c.E(GEN), A.M(m), A.N(n), oi, oj, dm.V(m), dn.V(n), al, al, A(m, n)))
            on = z3.If(n == 0, cmod(fi, NB), 0)
            sp += fams("diagonal", [n], rng((0, n, dm.nt), (0, n, dn.nt)), (0,), c.k.laset(
                c.E(uplo), A.M(n), A.N(n), on, oj, dm.V(n), dn.V(n), al, be, A(n, n)))
            return [c.E(uplo), al, be, A.struct, SEQ, REQ], sp
        yield uplo[6:], b


def convert(kind):
    def gen(prec):
        if prec in "cs":
            return
        for band in (False, True):
            def b(c, band=band):
                dm, dn = c.dim("m"), c.dim("n")
                if band:            # band matrices of the mixed-precision solver are square
                    dn = dm
                t = "PlasmaGeneralBand" if band else "PlasmaGeneral"
                src = c.mat("S", dm, dn, type=t)
                ex = {x: src.struct.f[x] for x in ("kl", "ku", "klt", "kut")}
                dst = c.mat("D", dm, dn, type=t, extra=ex)
                d = rng((0, m, dm.nt), (0, n, dn.nt))
                if band:
                    kl, ku, kut = ex["kl"], ex["ku"], ex["kut"]
                    # factors of a band matrix: kl more superdiagonals
                    c.hyps += [(kut - 1) * NB >= ku + kl, ku >= 0]
                    c.hyps += [z3.Implies(dm.nt >= 1, z3.And(dm.L > (dm.nt - 1) * NB, dm.L <= dm.nt * NB))]
                    d = z3.And(d, m * NB <= n * NB + NB - 1 + kl, m * NB + NB - 1 >= n * NB - ku - kl)
                kern = getattr(c.k, kind)
                sp = fams("tile", [m, n], d, (0,), kern(dm.V(m), dn.V(n), src(m, n), dst(m, n)))
                return [src.struct, dst.struct, SEQ, REQ], sp
            yield "band" if band else "general", b
    return gen


C07 = {"pzgeadd": geadd, "pztradd": tradd, "pzlacpy": lacpy, "pzlascl": lascl, "pzlaset": laset, "pzlag2c": convert("lag2c"), "pclag2z": convert("clag2z")}
