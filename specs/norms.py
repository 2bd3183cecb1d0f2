"""Matrix norms (C16): every tile of the stored region contributes once, to its own slot of the work array, and the closing reduction
reads exactly the slots that were written (or zeroed by the caller)."""
import itertools
import z3
from tcv.cfront import OutOfReach, ALL_Z_NAMES
from tcv.symex import Ptr, Tile, Ref, S, I, ZERO, ONE, to_int, subst, rename_map, fresh, cdiv, is_int
from tcv.tile import TileMachine, TileVC, Eff, Opnd, CodeEff, fams, NB, split_pite, solve_linear, ev_before
from tcv.vc import Ob
from tcv.runner import discharge, consistent
from .level3 import Cx, rng, m, n, NOTR, UP, LO, SEQ, REQ

ZI = z3.IntVal
# t option, i size, P tile and its leading dimension, X scratch, v result
TILE_K = {"zlange": "t i i P X v", "zlange_aux": "t i i P v", "zlansy": "t t i P X v", "zlanhe": "t t i P X v",
          "zlansy_aux": "t t i P v", "zlanhe_aux": "t t i P v", "zlantr": "t t t i i P X v", "zlantr_aux": "t t t i i P v",
          "zgessq": "i i P v v", "zsyssq": "t i P v v", "zhessq": "t i P v v", "ztrssq": "t t i i P v v", "dzamax": "t i i P v"}
FIELDS = {"zlange": "norm m n", "zlange_aux": "norm m n", "zlansy": "norm uplo n", "zlanhe": "norm uplo n", "zlansy_aux": "norm uplo n",
          "zlanhe_aux": "norm uplo n", "zlantr": "norm uplo diag m n", "zlantr_aux": "norm uplo diag m n", "zgessq": "m n", "zsyssq": "uplo n",
          "zhessq": "uplo n", "ztrssq": "uplo diag m n", "dzamax": "colrow m n"}
REDUCE_K = {"lange": "t i i P X v", "lansy": "t t i P X v", "lantr": "t t t i i P X v", "gessq_aux": "i v v v", "syssq_aux": "i i v v v", "amax": "t i i P v"}
ALL_Z_NAMES += ["plasma_core_omp_" + x for x in list(TILE_K) + ["zgessq_aux", "zsyssq_aux"]]


class NormMachine(TileMachine):
    def __init__(self, srcs, tu, prec, mats, th, **kw):
        super().__init__(srcs, tu, prec, mats, th, **kw)
        names = srcs.names(prec)
        self.reduces = []
        base = {"z": "d", "c": "s"}.get(prec, prec)
        todo = {}
        for z in TILE_K:
            f = "plasma_core_omp_" + z
            if z == "dzamax":
                f = "plasma_core_omp_" + {"z": "dzamax", "c": "scamax"}.get(prec, prec + "amax")
            elif prec != "z":
                f = "plasma_core_omp_" + prec + z[1:]
            todo.setdefault(f, [None, None])[0] = z
        for r in REDUCE_K:
            todo.setdefault("plasma_core_omp_" + base + r, [None, None])[1] = r
        for f, (z, r) in todo.items():
            self.contracts[f] = self.norm_kernel(z, r)

    def norm_kernel(self, z, r):
        def h(mc, args, node, st):
            tile = any(isinstance(a, Ptr) and isinstance(a.obj, Tile) for a in args)
            e = self.emit(z if tile else "reduce:%s" % r, args, st, node)
            if e is None:
                return ZI(0)
            params = (TILE_K[z] if tile and z else REDUCE_K[r] if r else "").split()
            if not params:
                raise OutOfReach("norm kernel used in an unexpected way")
            for g, a in split_pite(args):
                vals, outs, op, i, bases = [], [], None, 0, []
                for p in params:
                    x = a[i]
                    i += 1
                    if p == "P":
                        if tile:
                            op = Opnd(x, z3.simplify(to_int(a[i])), "r")
                        else:
                            bases.append(x)
                            vals.append(z3.simplify(to_int(a[i])))
                        i += 1
                    elif p == "X":
                        outs.append(x) if not tile else None
                    elif p == "v":
                        (outs if tile else bases).append(x)
                    else:
                        vals.append(z3.simplify(to_int(x)))
                if tile:
                    f = dict(zip(FIELDS[z].split(), vals))
                    eff = Eff(z, f, dict(A=op))
                    eff.outs = outs
                    self.effects.append(CodeEff(e, 0, g, eff))
                else:
                    e.kind, e.vals, e.bases, e.scratch, e.g = r, vals, bases, outs, g
                    self.reduces.append(e)
            return ZI(0)
        return h


def keff(c, kind, M, i, j, **f):
    e = Eff(kind, f, dict(A=M(i, j)("r")))
    return e


def offsets(eff):
    out = []
    for p in eff.outs:
        if not (isinstance(p, Ptr) and p.obj == "work"):
            raise OutOfReach("result slot %r" % (p,))
        out.append(p.off)
    return out


def quotient(off, ld):
    if z3.is_const(ld) and ld.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        q0, q1 = (z3.simplify(z3.substitute(off, (ld, ZI(k)))) for k in (0, 1))
        q = z3.simplify(q1 - q0, som=True)
        return q
    return None


class NormVC(TileVC):
    """norm: the one computed; zeroed: the caller hands over zeroed work; square: symmetric storage"""
    def __init__(self, *a, norm=None, uplo=None, zeroed=False, shape="ge", rt=None, extent=False, **k):
        super().__init__(*a, **k)
        self.norm, self.uplo, self.zeroed, self.shape, self.rt, self.extent = norm, uplo, zeroed, shape, rt, extent

    def acc_facts(self, ev, mp=None):
        """an accumulator that never shrinks: its value stays between those before and after the loop"""
        out = []
        for l in ev.loops:
            for x0, h, d, e in l.accs:
                if self.never_shrinks(l, d):
                    out += [h >= x0, h + d <= e]
        return [subst(f, mp or []) for f in out]

    def acc_order(self, ev, m1):
        """two iterations of a loop: the earlier one has added its part"""
        out = []
        for l in ev.loops:
            for x0, h, d, e in l.accs:
                if self.never_shrinks(l, d):
                    x1, x2 = (subst(l.x, m1), l.x) if l.sign > 0 else (l.x, subst(l.x, m1))
                    h1, h2 = subst(h, m1), h
                    d1, d2 = subst(d, m1), d
                    if l.sign < 0:
                        h1, h2, d1, d2 = h2, h1, d2, d1
                    out += [z3.Implies(x1 < x2, h1 + d1 <= h2), z3.Implies(x2 < x1, h2 + d2 <= h1), z3.Implies(x1 == x2, h1 == h2)]
        return out

    def never_shrinks(self, l, d):
        return self.try_prove(list(l.dom) + list(l.facts), d >= 0)

    def facts(self, ev, mp=None):
        return super().facts(ev, mp) + (self.acc_facts(ev, mp) if any(l.accs for l in ev.loops) else [])

    def generate(self):
        super().generate()
        E = self.m.en
        red = self.m.reduces
        true = z3.BoolVal(True)
        self.ob("one-reduction", [], z3.BoolVal(len(red) == 1 and not red[0].loops) if red else z3.BoolVal(False), info=dict(kind="reduce"))
        if len(red) != 1:
            return self.obs
        R = red[0]
        self.ob("reduction-always", [], R.cond(), R.where(), info=dict(kind="reduce"))
        for c in self.m.effects:
            self.ob("reduced-after[%s@%s]" % (c.eff.kind, c.ev.line()), [c.cond()] + self.facts(c.ev), z3.BoolVal(c.ev.path[0] < R.path[0]), R.where(), info=dict(kind="reduce"))
        val = R.bases[-1]
        self.ob("stores-the-result", [], z3.BoolVal(isinstance(val, Ptr) and val.obj == "value" and z3.is_int_value(z3.simplify(val.off))), R.where(), info=dict(kind="reduce"))
        self.ob("result-at-its-place", [], val.off == 0 if isinstance(val, Ptr) else z3.BoolVal(False), R.where(), info=dict(kind="reduce"))
        for b in R.bases[:-1]:
            if not (isinstance(b, Ptr) and b.obj == "work"):
                raise OutOfReach("reduction of %r" % (b,))
        o0 = R.bases[0].off
        kind, v = R.kind, R.vals
        W = R.where()
        nm = self.norm

        def const(x, *names):
            return z3.Or(*[x == E[y] for y in names])
        if nm == "Fro":
            self.fro(R, kind, v)
            return self.obs
        single = nm == "Max"
        tri = None
        if single:
            if kind == "lange":
                norm, rows, cols, ld = v
            elif kind == "lansy":
                norm, up, rows, ld = v
                cols, tri = rows, up
            elif kind == "lantr":
                norm, up, dg, rows, cols, ld = v
                tri = up
                self.ob("stored-diagonal", [], dg == E["PlasmaNonUnit"], W, info=dict(kind="reduce"))
            else:
                raise OutOfReach("maximum by " + kind)
            self.ob("reduction-of-the-norm", [], norm == E["PlasmaMaxNorm"], W, info=dict(kind="reduce"))
        else:
            if kind == "lange":
                norm, rows, cols, ld = v
                self.ob("reduction-of-the-norm", [], norm == E["PlasmaInfNorm"], W, info=dict(kind="reduce"))
                ws = R.scratch[0] if R.scratch else None
                ok = isinstance(ws, Ptr) and ws.obj == "work"
                self.ob("scratch-apart", [], z3.And(ws.off - o0 >= ld * cols) if ok else z3.BoolVal(False), W, info=dict(kind="reduce"))
            elif kind == "amax":
                cr, rows, cols, ld = v
                self.ob("reduction-of-the-norm", [], cr == E["PlasmaRowwise"], W, info=dict(kind="reduce"))
            else:
                raise OutOfReach("sum by " + kind)
        self.ob("leading-dimension", [], rows <= ld, W, info=dict(kind="reduce"))

        def inreg(r, c):
            g = [0 <= r, r < rows, 0 <= c, c < cols]
            if tri is not None:
                g.append(z3.If(tri == E["PlasmaLower"], r >= c, r <= c))
            return z3.And(*g)
        slots, counted = [], []
        for ce in self.m.effects:
            off = z3.simplify(offsets(ce.eff)[0] - o0)
            t = ce.eff.ops["A"].ptr.obj
            H = [ce.cond()] + self.facts(ce.ev)
            tag = "%s@%s" % (ce.eff.kind, ce.ev.line())
            if single:
                c, r = self.split(off, ld, t, H, lambda r_, c_: inreg(r_, c_))
                self.ob("slot[%s]" % tag, H, z3.And(off == ld * c + r, inreg(r, c)), ce.ev.where(), info=dict(kind="slot"))
                slots.append((ce, c, r, tag))
                accs = [a for l in ce.ev.loops for a in l.accs]
                if accs and self.shape == "gb":
                    counted.append((ce, off, accs))
            else:
                byrow = self.is_row(ce.eff, E)
                blk = t.i if byrow else t.j
                mat = self.m.mats[t.mat]
                ln = (mat.rows if byrow else mat.cols).V(blk)
                r = blk * NB
                c = self.split_sum(off, ld, t, r, H, cols)
                self.ob("slot[%s]" % tag, H, off == ld * c + r, ce.ev.where(), info=dict(kind="slot"))
                self.ob("slot-inside[%s]" % tag, H + (self.band_lemmas(t, c, cols, H, tag, ce) if not byrow else []), z3.And(0 <= c, c < cols, r + ln <= rows), ce.ev.where(), info=dict(kind="slot"))
                slots.append((ce, c, blk, tag))
        self.injective(slots)
        for ce, off, accs in counted:
            # prefix sums: the slots between the values before and after an iteration are written by that iteration,
            # so all slots between the first and the last value are
            ls = [l for l in ce.ev.loops if l.accs]
            x0, h, d, e = accs[0]
            ok = len(accs) == 1 and z3.is_int_value(z3.simplify(x0)) and z3.simplify(x0).as_long() == 0
            self.ob("counted-from-zero", [], z3.BoolVal(ok), ce.ev.where(), info=dict(kind="coverage"))
            self.ob("counted-to-the-end", [], z3.simplify(rows * cols) == e, W, info=dict(kind="coverage"))
            l = ls[0]
            inner = ce.ev.loops[ce.ev.loops.index(l) + 1:]
            s_ = z3.Int("slot#")
            sol = solve_linear([(off, s_)], [y.x for y in inner])
            H = list(l.dom) + list(l.facts) + [s_ >= h, s_ < h + d]
            sub = (lambda z: z3.substitute(z, *sol) if sol else z)
            if sol is None:
                raise OutOfReach("slots by a counter")
            self.ob("counted-slots-written[%s@%s]" % (ce.eff.kind, ce.ev.line()), H + [sub(f) for y in inner for f in y.facts], sub(z3.And(ce.cond(), off == s_)),
                    ce.ev.where(), info=dict(kind="coverage"))
        if not self.zeroed:
            C, B = z3.Ints("c# r#")
            if single:
                dom = inreg(B, C)
            else:
                # every block of rows
                t0 = slots[0][0].eff.ops["A"].ptr.obj if slots else None
                dims = {id(x): x for x in [(self.m.mats[s[0].eff.ops["A"].ptr.obj.mat].rows if self.is_row(s[0].eff, E) else
                                            self.m.mats[s[0].eff.ops["A"].ptr.obj.mat].cols) for s in slots]}
                d = list(dims.values())[0]
                self.ob("all-rows", [], rows == d.L, W, info=dict(kind="coverage"))
                dom = z3.And(0 <= B, B < d.nt, 0 <= C, C < cols)
            self.cover(slots, C, B, dom)
        return self.obs

    def extents(self, R):
        """the work array is used below the size its contract allows (worksize.need)"""
        from .worksize import need
        mat = self.m.mats["A"]
        F = lambda x: to_int(mat.struct.f[x])
        nd = need(self.rt, self.kind_label, F)
        W = R.where()
        keep, self.obs = self.obs, []
        kind, v = R.kind, R.vals
        counted = [(l, a) for c in self.m.effects for l in c.ev.loops for a in l.accs] if self.shape == "gb" and self.norm == "Max" else []
        if counted:
            l, (x0, h, d, e) = counted[0]
            span = z3.simplify(z3.substitute(nd, (mat.cols.nt, ZI(1))), som=True)
            K, L = cdiv(F("ku") + NB - 1, NB), cdiv(F("kl") + NB - 1, NB)
            self.ob("tiles-per-column", list(l.dom) + list(l.facts) + self.column_lemmas(l, d, F), d <= span, W, info=dict(kind="extent"))
            self.ob("columns", list(l.dom), z3.And((l.x - l.first) * l.sign < mat.cols.nt) if getattr(l, "first", None) is not None else z3.BoolVal(False), W, info=dict(kind="extent"))
            self.ob("count", [], z3.And(x0 == 0, z3.simplify(v[1] * v[2]) == e) if kind == "lange" else z3.BoolVal(False), W, info=dict(kind="extent"))
            self.obs, out = keep, self.obs
            return out
        if kind in ("gessq_aux", "syssq_aux"):
            span = v[0] if kind == "gessq_aux" else v[0] * v[1]
        elif kind == "lange":
            span = v[2] * v[3]
        elif kind == "lansy":
            span = v[2] * v[3]
        elif kind == "lantr":
            span = v[4] * v[5]
        elif kind == "amax":
            span = v[2] * v[3]
        for b in R.bases[:-1]:
            self.ob("extent", [], z3.And(b.off >= 0, z3.simplify(nd - b.off - span, som=True) >= 0), W, info=dict(kind="extent"))
        if kind == "lange" and self.norm in ("One", "Inf"):
            for x in R.scratch:
                if isinstance(x, Ptr) and x.obj == "work":
                    self.ob("scratch-extent", [], z3.And(x.off >= 0, z3.simplify(nd - x.off - v[1], som=True) >= 0), W, info=dict(kind="extent"))
        self.obs, out = keep, self.obs
        return out

    def column_lemmas(self, l, d, F):
        return []

    def is_row(self, eff, E):
        k = eff.kind
        if k in ("zlange_aux", "zlantr_aux"):
            x = z3.simplify(eff.f["norm"])
            if not z3.is_int_value(x):
                raise OutOfReach("symbolic norm")
            return x.as_long() == E["PlasmaInfNorm"]
        if k == "dzamax":
            x = z3.simplify(eff.f["colrow"])
            return x.as_long() == E["PlasmaRowwise"]
        return False

    def try_prove(self, H, goal):
        from tcv.vc import solve
        try:
            return solve(self.hyps + self.m.assume + H, goal, self.th, 2000)[0] == "proved"
        except z3.Z3Exception:
            return False

    def cands(self, off, ld, t):
        if z3.is_int_value(ld) and ld.as_long() == 1:
            return [off]
        q = quotient(off, ld)
        out = [q] if q is not None else []
        for x in (t.i, t.j, ZI(0)):
            if not any(x.eq(y) for y in out):
                out.append(x)
        return out

    def split(self, off, ld, t, H, ok):
        best = None
        for c in self.cands(off, ld, t):
            r = z3.simplify(off - ld * c, som=True)
            if best is None:
                best = (c, r)
            if self.try_prove(H, ok(r, c)):
                return c, r
        return best

    def split_sum(self, off, ld, t, r, H, cols):
        best = None
        for c in self.cands(off, ld, t):
            if best is None:
                best = c
            d = z3.simplify(off - ld * c - r, som=True)
            if z3.is_int_value(d) and d.as_long() == 0:
                return c
        for c in self.cands(off, ld, t):
            if self.try_prove(H, off == ld * c + r):
                return c
        return best

    def band_lemmas(self, t, c, span, H, tag, ce):
        """cuts for the number of tiles of a band in a tile column; with a tag their obligations are emitted, so they hold where they are used"""
        if self.shape != "gb":
            return []
        mat = self.m.mats[t.mat]
        kl, ku = mat.struct.f["kl"], mat.struct.f["ku"]
        K, L = cdiv(ku + NB - 1, NB), cdiv(kl + NB - 1, NB)
        s = z3.simplify(t.i - c, som=True)
        lem = [("band-end", t.i <= t.j + L), ("band-start", s >= t.j - K)]
        if z3.is_int_value(s):
            lem = lem[:1]
        if tag is not None:
            for nm, g in lem:
                    self.ob("%s[%s]" % (nm, tag), H, g, ce.ev.where(), info=dict(kind="slot"))
        else:
            lem = [x for x in lem if self.try_prove(H, x[1])]
        return [g for nm, g in lem]

    def injective(self, slots):
        for a, b in itertools.combinations_with_replacement(range(len(slots)), 2):
            c1, x1, y1, t1 = slots[a]
            c2, x2, y2, t2 = slots[b]
            m1 = rename_map(c1.ev, "'")
            # same event: the loop variables agree when slot agrees
            h = [subst(c1.cond(), m1), c2.cond()] + self.facts(c1.ev, m1) + self.facts(c2.ev)
            h += [subst(x1, m1) == x2, subst(y1, m1) == y2]
            h += self.acc_order(c2.ev, m1) if a == b else []
            if a == b:
                goal = z3.And(*[l.x == subst(l.x, m1) for l in c1.ev.loops]) if c1.ev.loops else z3.BoolVal(True)
            else:
                goal = z3.BoolVal(False)
            self.ob("own-slot[%s/%s]" % (t1, t2), h, goal, c2.ev.where(), info=dict(kind="slot"))

    def cover(self, slots, C, B, dom):
        alts, fh = [], []
        for ce, c, b, tag in slots:
            eqs = [(c, C), (b, B)]
            xs = [l.x for l in ce.ev.loops]
            sol = solve_linear(eqs, xs)
            full = z3.And(ce.cond(), c == C, b == B)
            if sol is not None:
                sol = list(sol) + [(s, fresh("w", s.sort())) for l in ce.ev.loops for s in l.syms[1:]]
                alts.append(z3.substitute(full, *sol) if sol else full)
                fh += [z3.substitute(f, *sol) if sol else f for f in self.facts(ce.ev)]
            else:
                alts.append(z3.Exists(xs, full) if xs else full)
        self.ob("every-slot-written", [dom] + fh, z3.Or(*alts) if alts else z3.BoolVal(False), info=dict(kind="coverage"))

    def fro(self, R, kind, v):
        E = self.m.en
        W = R.where()
        s0, q0 = R.bases[0].off, R.bases[1].off
        if kind == "gessq_aux":
            cnt = v[0]
            span = cnt
        elif kind == "syssq_aux":
            ld, nn = v
            span = ld * nn
            self.ob("leading-dimension", [], nn <= ld, W, info=dict(kind="reduce"))
        else:
            raise OutOfReach("sum of squares by " + kind)
        self.ob("scale-and-sum-apart", [], z3.Or(q0 >= s0 + span, s0 >= q0 + span), W, info=dict(kind="reduce"))
        slots = []
        for ce in self.m.effects:
            os_, oq = offsets(ce.eff)
            idx = z3.simplify(os_ - s0, som=True)
            t = ce.eff.ops["A"].ptr.obj
            H = [ce.cond()] + self.facts(ce.ev)
            tag = "%s@%s" % (ce.eff.kind, ce.ev.line())
            self.ob("one-slot[%s]" % tag, H, oq - q0 == os_ - s0, ce.ev.where(), info=dict(kind="slot"))
            if kind == "gessq_aux":
                lds = []
                mat = self.m.mats[t.mat]
                for sym in (mat.rows.nt, mat.cols.nt):
                    a, b = (z3.simplify(z3.substitute(cnt, (sym, ZI(k)))) for k in (0, 1))
                    q = z3.simplify(b - a, som=True)
                    if not q.eq(cnt) and not any(q.eq(x) for x in lds):
                        lds.append(q)
                if self.shape == "gb":
                    # cnt = ld * number of tile columns
                    lds = [z3.simplify(z3.substitute(cnt, (mat.cols.nt, ZI(1))))]
                got = None
                for l in lds:
                    for c in self.cands(idx, l, t) + [t.j]:
                        r = z3.simplify(idx - l * c, som=True)
                        bl = self.band_lemmas(t, r, l, H, None, ce)
                        if self.try_prove(H + bl, z3.And(0 <= r, r < l, 0 <= c)):
                            got = (l, c, r)
                            break
                    if got:
                        break
                if got is None:
                    raise OutOfReach("layout of the partial sums")
                l, c, r = got
                bl = self.band_lemmas(t, r, l, H, tag, ce)
                self.ob("slot-inside[%s]" % tag, H + bl, z3.And(0 <= r, r < l, 0 <= c, c < mat.cols.nt), ce.ev.where(), info=dict(kind="slot"))
                self.ob("slots-allotted", [], cnt == l * mat.cols.nt, W, info=dict(kind="slot"))
                self.ob("slot[%s]" % tag, H, idx == l * c + r, ce.ev.where(), info=dict(kind="slot"))
                slots.append((ce, c, r, tag))
            else:
                diag = ce.eff.kind in ("zsyssq", "zhessq")
                ok = (lambda r, c: z3.And(0 <= c, r == c, r < nn)) if diag else (lambda r, c: z3.And(0 <= c, c < r, r < nn))
                c, r = self.split(idx, ld, t, H, ok)
                self.ob("slot[%s]" % tag, H, z3.And(idx == ld * c + r, ok(r, c)), ce.ev.where(), info=dict(kind="slot"))
                slots.append((ce, c, r, tag))
        self.injective(slots)
        if not self.zeroed:
            C, B = z3.Ints("c# r#")
            if kind == "gessq_aux":
                l = None
                mat = self.m.mats["A"]
                # all slots 0..cnt-1 are written: cnt is the number of tiles
                self.ob("all-slots", [], cnt == mat.rows.nt * mat.cols.nt, W, info=dict(kind="coverage"))
                self.cover(slots, C, B, z3.And(0 <= C, C < mat.cols.nt, 0 <= B, B < mat.rows.nt))
            else:
                self.cover(slots, C, B, z3.And(0 <= C, C <= B, B < nn))


def extent_job(srcs, p, fn, rel, name, b, opts):
    def job(r):
        r.functions = [fn]
        tu = srcs.tu(rel)
        c = Cx(tu.enum_names, p)
        args, spec = b(c)
        mach = NormMachine(srcs, tu, p, c.mats, c.th)
        mach.run(fn, args)
        o = dict(opts)
        rt, label = o.pop("rt"), o.pop("kind_label")
        v = NormVC(fn, mach, spec, c.th, c.hyps, rt=rt, **o)
        v.kind_label = label
        if len(mach.reduces) != 1:
            raise OutOfReach("reduction")
        discharge(r, v.extents(mach.reduces[0]), c.th)
        r.functions = [fn] + sorted(mach.inlined)
    return job


def norm_job(srcs, p, fn, rel, name, b, opts):
    def job(r):
        r.functions = [fn]
        tu = srcs.tu(rel)
        c = Cx(tu.enum_names, p)
        args, spec = b(c)
        mach = NormMachine(srcs, tu, p, c.mats, c.th)
        mach.run(fn, args)
        v = NormVC(fn, mach, spec, c.th, c.hyps, **opts)
        obs = v.generate()
        for f in spec:
            if not consistent(c.hyps + mach.assume + [f.dom], c.th):
                r.obs.append(("%s:vacuous[%s]" % (fn, f.name), "vacuous", 0.0, "", None, ""))
        discharge(r, obs, c.th)
        r.functions = [fn] + sorted(mach.inlined)
    return job


NORMS = {"Max": "PlasmaMaxNorm", "One": "PlasmaOneNorm", "Inf": "PlasmaInfNorm", "Fro": "PlasmaFrobeniusNorm"}


def full_dims(c, *dims):
    """matrices start at a tile boundary: the rows are those of the tiles"""
    c.hyps += [z3.Implies(d.nt >= 1, d.L == (d.nt - 1) * NB + d.V(d.nt - 1)) for d in dims]


def work_value():
    return [Ptr("work"), Ptr("value"), SEQ, REQ]


def cases(c_prec):
    """(routine, label, builder, options)"""
    out = []
    prec = c_prec
    for nm, en in NORMS.items():
        # ---- general
        def ge(c, nm=nm, en=en):
            dm, dn = c.dim("m"), c.dim("n")
            full_dims(c, dm, dn)
            A = c.mat("A", dm, dn)
            d = rng((0, m, dm.nt), (0, n, dn.nt))
            V = dict(m=dm.V(m), n=dn.V(n))
            if nm == "Fro":
                e = keff(c, "zgessq", A, m, n, **V)
            else:
                e = keff(c, "zlange" if nm == "Max" else "zlange_aux", A, m, n, norm=c.E(en), **V)
            return [c.E(en), A.struct] + work_value(), fams("tile", [m, n], d, (0,), [e])
        out.append(("pzlange", nm, ge, dict(norm=nm)))
        # ---- symmetric, Hermitian
        for rt, z in (("pzlansy", "lansy"), ("pzlanhe", "lanhe")):
            if rt == "pzlanhe" and prec in "sd":
                continue
            for uplo in (LO, UP):
                def sy(c, nm=nm, en=en, uplo=uplo, z=z):
                    d = c.dim("n")
                    full_dims(c, d)
                    A = c.mat("A", d, d)
                    off = z3.And(rng((0, m, d.nt), (0, n, d.nt)), (m > n) if uplo == LO else (m < n))
                    on = rng((0, n, d.nt))
                    V = dict(m=d.V(m), n=d.V(n))
                    if nm == "Max":
                        sp = fams("off", [m, n], off, (0,), [keff(c, "zlange", A, m, n, norm=c.E(en), **V)])
                        sp += fams("diagonal", [n], on, (0,), [keff(c, "z" + z, A, n, n, norm=c.E(en), uplo=c.E(uplo), n=d.V(n))])
                    elif nm == "Fro":
                        sp = fams("off", [m, n], off, (0,), [keff(c, "zgessq", A, m, n, **V)])
                        sp += fams("diagonal", [n], on, (0,), [keff(c, "zhessq" if z == "lanhe" else "zsyssq", A, n, n, uplo=c.E(uplo), n=d.V(n))])
                    else:
                        sp = fams("columns", [m, n], off, (0,), [keff(c, "zlange_aux", A, m, n, norm=c.E("PlasmaOneNorm"), **V)])
                        sp += fams("rows", [m, n], off, (0,), [keff(c, "zlange_aux", A, m, n, norm=c.E("PlasmaInfNorm"), **V)])
                        sp += fams("diagonal", [n], on, (0,), [keff(c, "z%s_aux" % z, A, n, n, norm=None, uplo=c.E(uplo), n=d.V(n))])
                    return [c.E(en), c.E(uplo), A.struct] + work_value(), sp
                out.append((rt, "%s,%s" % (nm, uplo[6:]), sy, dict(norm=nm, uplo=uplo)))
        # ---- triangular (trapezoidal)
        for uplo in (LO, UP):
            for diag in ("PlasmaNonUnit", "PlasmaUnit"):
                def tr(c, nm=nm, en=en, uplo=uplo, diag=diag):
                    dm, dn = c.dim("m"), c.dim("n")
                    full_dims(c, dm, dn)
                    A = c.mat("A", dm, dn)
                    off = z3.And(rng((0, m, dm.nt), (0, n, dn.nt)), (m > n) if uplo == LO else (m < n))
                    on = rng((0, n, dm.nt), (0, n, dn.nt))
                    V, D = dict(m=dm.V(m), n=dn.V(n)), dict(uplo=c.E(uplo), diag=c.E(diag), m=dm.V(n), n=dn.V(n))
                    if nm == "Fro":
                        sp = fams("off", [m, n], off, (0,), [keff(c, "zgessq", A, m, n, **V)])
                        sp += fams("diagonal", [n], on, (0,), [keff(c, "ztrssq", A, n, n, **D)])
                    else:
                        x = "" if nm == "Max" else "_aux"
                        sp = fams("off", [m, n], off, (0,), [keff(c, "zlange" + x, A, m, n, norm=c.E(en), **V)])
                        sp += fams("diagonal", [n], on, (0,), [keff(c, "zlantr" + x, A, n, n, norm=c.E(en), **D)])
                    return [c.E(en), c.E(uplo), c.E(diag), A.struct] + work_value(), sp
                # the maximum reads the written triangle only; the others are handed zeroed work by zlantr (own obligation)
                out.append(("pzlantr", "%s,%s,%s" % (nm, uplo[6:], diag[6:]), tr, dict(norm=nm, uplo=uplo, zeroed=nm != "Max")))
        # ---- band
        def gb(c, nm=nm, en=en):
            dm, dn = c.dim("m"), c.dim("n")
            full_dims(c, dm, dn)
            A = c.mat("A", dm, dn, type="PlasmaGeneralBand")
            kl, ku, kut = (A.struct.f[x] for x in ("kl", "ku", "kut"))
            c.hyps += [(kut - 1) * NB >= ku, ku >= 0, kl >= 0, dm.nt >= 1, dn.nt >= 1]   # the callers return early on empty matrices (C19)
            d = z3.And(rng((0, m, dm.nt), (0, n, dn.nt)), m * NB <= n * NB + NB - 1 + kl, m * NB + NB - 1 >= n * NB - ku)
            V = dict(m=dm.V(m), n=dn.V(n))
            if nm == "Fro":
                e = keff(c, "zgessq", A, m, n, **V)
            else:
                e = keff(c, "zlange" if nm == "Max" else "zlange_aux", A, m, n, norm=c.E(en), **V)
            return [c.E(en), A.struct] + work_value(), fams("tile", [m, n], d, (0,), [e])
        out.append(("pzlangb", nm, gb, dict(norm=nm, zeroed=True, shape="gb")))
    for cr in ("Columnwise", "Rowwise"):
        def am(c, cr=cr):
            dm, dn = c.dim("m"), c.dim("n")
            full_dims(c, dm, dn)
            A = c.mat("A", dm, dn)
            d = rng((0, m, dm.nt), (0, n, dn.nt))
            e = keff(c, "dzamax", A, m, n, colrow=c.E("Plasma" + cr), m=dm.V(m), n=dn.V(n))
            return [c.E("Plasma" + cr), A.struct] + work_value(), fams("tile", [m, n], d, (0,), [e])
        out.append(("pdzamax", cr, am, dict(norm="Sum")))
    return out


def extent_jobs(ctx):
    return norm_jobs(ctx, extent_job)


def norm_jobs(ctx, mk=None):
    from tcv import tilecheck
    rts = ["pzlange", "pzlansy", "pzlanhe", "pzlantr", "pzlangb", "pdzamax"]
    tilecheck.register({x: None for x in rts})
    srcs = ctx.srcs
    out = []
    for p in ctx.precs:
        if p != "z":
            srcs.generate_all()
        for rt, label, b, opts in cases(p):
            fn = "plasma_" + rt if p == "z" else "plasma_" + ("p" + {"c": "scamax"}.get(p, p + "amax") if rt == "pdzamax" else "p" + p + rt[2:])
            rel = "compute/%s.c" % fn[7:]
            import os
            if not os.path.isfile(srcs.path(rel)):
                continue
            o = dict(opts, rt="z" + rt[2:] if rt != "pdzamax" else "dzamax", kind_label=label.split(",")[0]) if mk else opts
            out.append(("%s[%s]" % (fn, label), (mk or norm_job)(srcs, p, fn, rel, "%s[%s]" % (fn, label), b, o)))
    return out
