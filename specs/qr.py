"""C08: QR and LQ factorizations and the application of their orthogonal factor (tile algorithms).
The contract of a factorization: the tile columns (rows) are eliminated left to right, every tile below (right of) the
diagonal of panel k exactly once, into the triangle of tile (k,k), and every reflector is applied exactly once to every
tile of the trailing matrix, in the order of the eliminations.  The contract of an application of Q: the same reflectors,
read from the same tiles of A and T, in the same order (Q^H from the left, Q from the right) or in the reverse one."""
import z3
from tcv.cfront import OutOfReach
from tcv.symex import Ptr, Tile, to_int
from tcv.vc import Ob
from tcv.tile import Mat, Opnd, fams, TileMachine
from .level3 import Cx as Cx3, rng, LEFT, RIGHT, NOTR, TR, CT, SEQ, REQ, Opaque

IB = z3.Int("ib")
m, n, k = z3.Ints("m n k")
WORK = Opaque("work")


class MatT(Mat):
    """the descriptor of the block reflector factors: tiles of ib x nb, as many as A has (twice the columns for trees)"""
    def __init__(self, name, rows, cols, th, tconst, nt=None):
        Mat.__init__(self, name, rows, cols, th, tconst, "General", dict(mb=IB))
        self.M = z3.Function("mmainT_" + name, z3.IntSort(), z3.IntSort())
        th.add(self.M, lambda i: [self.M(i) == IB])
        th.facts += [IB >= 1]
        if nt is not None:
            self.struct.f["nt"] = nt

    def __call__(self, i, j):
        o = Mat.__call__(self, i, j)
        return Opnd(o.ptr, IB)


class Cx(Cx3):
    def matT(self, name, r, c):
        t = MatT(name, r, c, self.th, self.en["PlasmaGeneral"])
        self.mats.append(t)
        return t

    @property
    def ct(self):
        return self.E(TR if self.real else CT)


def zmin(a, b):
    return z3.If(a < b, a, b)


def geqrf(prec):
    def b(c):
        r, q = c.dim("r"), c.dim("q")
        A, T = c.mat("A", r, q), c.matT("T", r, q)
        d = rng((0, k, zmin(r.nt, q.nt)))
        below, right = rng((k + 1, m, r.nt)), rng((k + 1, n, q.nt))
        sp = fams("panel", [k], d, (k, -1, 0), c.k.geqrt(r.V(k), q.V(k), IB, A(k, k), T(k, k)))
        sp += fams("apply", [k, n], z3.And(d, right), (k, -1, 1), c.k.unmqr(
            c.E(LEFT), c.ct, r.V(k), q.V(n), zmin(r.V(k), q.V(k)), IB, A(k, k), T(k, k), A(k, n)))
        sp += fams("eliminate", [k, m], z3.And(d, below), (k, m, 0), c.k.tsqrt(r.V(m), q.V(k), IB, A(k, k), A(m, k), T(m, k)))
        sp += fams("update", [k, m, n], z3.And(d, below, right), (k, m, 1), c.k.tsmqr(
            c.E(LEFT), c.ct, r.V(k), q.V(n), r.V(m), q.V(n), q.V(k), IB, A(k, n), A(m, n), A(m, k), T(m, k)))
        return [A.struct, T.struct, WORK, SEQ, REQ], sp
    yield "", b


def gelqf(prec):
    def b(c):
        r, q = c.dim("r"), c.dim("q")
        A, T = c.mat("A", r, q), c.matT("T", r, q)
        d = rng((0, k, zmin(r.nt, q.nt)))
        below, right = rng((k + 1, m, r.nt)), rng((k + 1, n, q.nt))
        sp = fams("panel", [k], d, (k, -1, 0), c.k.gelqt(r.V(k), q.V(k), IB, A(k, k), T(k, k)))
        sp += fams("apply", [k, m], z3.And(d, below), (k, -1, 1), c.k.unmlq(
            c.E(RIGHT), c.ct, r.V(m), q.V(k), zmin(r.V(k), q.V(k)), IB, A(k, k), T(k, k), A(m, k)))
        sp += fams("eliminate", [k, n], z3.And(d, right), (k, n, 0), c.k.tslqt(r.V(k), q.V(n), IB, A(k, k), A(k, n), T(k, n)))
        sp += fams("update", [k, m, n], z3.And(d, below, right), (k, n, 1), c.k.tsmlq(
            c.E(RIGHT), c.ct, r.V(m), q.V(k), r.V(m), q.V(n), r.V(k), IB, A(m, k), A(m, n), A(k, n), T(k, n)))
        return [A.struct, T.struct, WORK, SEQ, REQ], sp
    yield "", b


def apply_like(lq):
    """op(Q) applied to B from one side.  l: tile row (Left) or column (Right) of B the reflector meets, o: the other index"""
    l, o = z3.Ints("l o")

    def gen(prec):
        tr = TR if prec in "sd" else CT
        for side in (LEFT, RIGHT):
            for trans in (NOTR, tr):
                def b(c, side=side, trans=trans):
                    left = side == LEFT
                    # Q is defined by the reflectors H1 H2 ... (QR) and ... H2' H1' (LQ)
                    fwd = (left == (trans != NOTR)) if not lq else (left == (trans == NOTR))
                    x, q, other = c.dim("x"), c.dim("q"), c.dim("o")     # x: order of Q
                    A = c.mat("A", *((q, x) if lq else (x, q)))
                    T = c.matT("T", *((q, x) if lq else (x, q)))
                    B = c.mat("B", *((x, other) if left else (other, x)))
                    a = (lambda i: A(k, i)) if lq else (lambda i: A(i, k))
                    t = (lambda i: T(k, i)) if lq else (lambda i: T(i, k))
                    bb = (lambda i: B(i, o)) if left else (lambda i: B(o, i))
                    sh = (lambda i: (x.V(i), other.V(o))) if left else (lambda i: (other.V(o), x.V(i)))
                    one, ts = (c.k.unmlq, c.k.tsmlq) if lq else (c.k.unmqr, c.k.tsmqr)
                    sg = 1 if fwd else -1
                    d = rng((0, k, zmin(x.nt, q.nt)), (0, o, other.nt))
                    sp = fams("diagonal", [k, o], d, (sg * k, z3.IntVal(-BIGT if fwd else BIGT)), one(
                        c.E(side), c.E(trans), *sh(k), zmin(x.V(k), q.V(k)), IB, a(k), t(k), bb(k)))
                    sp += fams("tile", [k, l, o], z3.And(d, rng((k + 1, l, x.nt))), (sg * k, sg * l), ts(
                        c.E(side), c.E(trans), *sh(k), *sh(l), q.V(k), IB, bb(k), bb(l), a(l), t(l)))
                    return [c.E(side), c.E(trans), A.struct, T.struct, B.struct, WORK, SEQ, REQ], sp
                yield "%s,%s" % (side[6:], trans[6:]), b
    return gen


BIGT = 1 << 30


def generate_like(lq):
    """Q = H1 H2 ... Hk applied to the identity: the reflectors in reverse order, each on the rows (columns) it can change
    and on the tiles from its own index on (the others are still those of the identity there)"""
    def gen(prec):
        l, o = z3.Ints("l o")

        def b(c):
            x, q, other = c.dim("x"), c.dim("q"), c.dim("o")
            A = c.mat("A", *((q, x) if lq else (x, q)))
            T = c.matT("T", *((q, x) if lq else (x, q)))
            Q = c.mat("Q", *((other, x) if lq else (x, other)))
            a = (lambda i: A(k, i)) if lq else (lambda i: A(i, k))
            t = (lambda i: T(k, i)) if lq else (lambda i: T(i, k))
            bb = (lambda i: Q(o, i)) if lq else (lambda i: Q(i, o))
            sh = (lambda i: (other.V(o), x.V(i))) if lq else (lambda i: (x.V(i), other.V(o)))
            one, ts = (c.k.unmlq, c.k.tsmlq) if lq else (c.k.unmqr, c.k.tsmqr)
            side = c.E(RIGHT if lq else LEFT)
            d = rng((0, k, zmin(x.nt, q.nt)), (k, o, other.nt))
            sp = fams("diagonal", [k, o], d, (-k, z3.IntVal(BIGT)), one(
                side, c.E(NOTR), *sh(k), zmin(x.V(k), q.V(k)), IB, a(k), t(k), bb(k)))
            sp += fams("tile", [k, l, o], z3.And(d, rng((k + 1, l, x.nt))), (-k, -l), ts(
                side, c.E(NOTR), *sh(k), *sh(l), q.V(k), IB, bb(k), bb(l), a(l), t(l)))
            return [A.struct, T.struct, Q.struct, WORK, SEQ, REQ], sp
        yield "", b
    return gen


C08 = {"pzgeqrf": geqrf, "pzgelqf": gelqf, "pzunmqr": apply_like(False), "pzunmlq": apply_like(True),
       "pzungqr": generate_like(False), "pzunglq": generate_like(True)}


# ------------------------------------------------------------------------------------- reduction trees
I_ = z3.IntSort()
KER, COL, ROW, PIV = (z3.Function("op_" + x, I_, I_) for x in ("kernel", "column", "row", "pivot"))
NOPS = z3.Int("num_operations")
GE, TT, TS = 1, 2, 3


class TreeMachine(TileMachine):
    """the list of operations is read through the contract of plasma_tree_operations (C09): entry i names the kernel KER(i), the
    tile row (LQ: column) ROW(i) it treats, the panel COL(i) and the row PIV(i) above it.  Every effect carries the index of its
    operation as a ghost operand."""
    def __init__(self, srcs, tu, prec, mats, th, **kw):
        TileMachine.__init__(self, srcs, tu, prec, mats, th, **kw)
        self.extra_obs = []
        self.contracts.update({"plasma_tree_operations": self.c_ops, "plasma_tree_get_operation": self.c_get, "free": self.c_free,
                               "plasma_request_fail": self.c_fail, "plasma_error_func_line_file": self.c_fail})

    def c_ops(self, m, a, n, st):
        mt, nt = to_int(a[0]), to_int(a[1])
        self.assume.append(NOPS >= 0)
        if not self.dry:
            self.extra_obs.append(Ob("tree-operations-for-this-matrix", list(self.assume) + [st.live] + list(st.guards), z3.And(
                mt == self.mats["op"].tree[0], nt == self.mats["op"].tree[1]), "line %s" % (n.line or "?"), dict(kind="call")))
        self.write_ref(a[2], Opaque("operations"), st)
        self.write_ref(a[3], NOPS, st)
        self.emit("tree_operations", a, st, n)
        return z3.IntVal(0)

    def c_get(self, m, a, n, st):
        if not (isinstance(a[0], Opaque) and a[0].tag == "operations"):
            raise OutOfReach("list of operations %r" % (a[0],))
        i = z3.simplify(to_int(a[1]))
        for r, f in zip(a[2:], (KER, COL, ROW, PIV)):
            self.write_ref(r, f(i), st)
        self.emit("get_operation", a, st, n)
        return z3.IntVal(0)

    def c_free(self, m, a, n, st):
        self.emit("free", a, st, n)
        return z3.IntVal(0)

    def c_fail(self, m, a, n, st):
        self.emit("request_fail", a, st, n)
        return z3.IntVal(0)

    def add_effects(self, e, g, z, params, meth, a):
        n0 = len(self.effects)
        TileMachine.add_effects(self, e, g, z, params, meth, a)
        for c in self.effects[n0:]:
            ids = {}
            for o in c.eff.ops.values():
                if isinstance(o.ptr, Ptr) and isinstance(o.ptr.obj, Tile):
                    for x in (o.ptr.obj.i, o.ptr.obj.j):
                        index_terms(x, ids)
            if len(ids) == 1:
                (i,) = ids.values()
                c.eff.ops["operation"] = Opnd(Ptr(Tile("op", i, z3.IntVal(0))), None, "r")


def index_terms(x, out):
    if z3.is_app(x):
        if x.decl().eq(ROW) or x.decl().eq(COL) or x.decl().eq(PIV):
            out[x.arg(0).sexpr()] = x.arg(0)
            return
        for y in x.children():
            index_terms(y, out)


class OpMat(Mat):
    """ghost: the list of operations for an mt x nt tile matrix, with what C09 proves of every entry"""
    def __init__(self, th, rows, cols):
        class D:
            nt, L = NOPS, NOPS
            V = staticmethod(lambda k: z3.IntVal(1))

        class One:
            nt, L = z3.IntVal(1), z3.IntVal(1)
        self.name, self.rows, self.cols, self.dense, self.type = "op", D, One, None, "General"
        self.tree = (rows.nt, cols.nt)
        mt, nt = rows.nt, cols.nt
        for F in (KER, COL, ROW, PIV):
            th.add(F, lambda i: [z3.Implies(z3.And(0 <= i, i < NOPS), z3.And(
                z3.Or(KER(i) == GE, KER(i) == TT, KER(i) == TS), 0 <= COL(i), COL(i) < nt, COL(i) < mt, COL(i) <= ROW(i), ROW(i) < mt,
                z3.Implies(KER(i) != GE, z3.And(COL(i) <= PIV(i), PIV(i) < ROW(i)))))])
        self.struct = None


def tree_cx(c, x, q, lq):
    T = MatT("T", *((q, x) if lq else (x, q)), c.th, c.en["PlasmaGeneral"])
    cols = (x if lq else q).nt
    T.struct.f["nt"] = 2 * cols

    class Two:      # T has twice the tile columns of A
        nt, L = 2 * cols, 2 * cols
        V = T.cols.V
    T.cols = Two
    c.mats.append(T)
    op = OpMat(c.th, x, q)
    c.mats.append(op)
    return T, (lambda i, j: T(i, cols + j))


def tag(i, effs):
    for e in effs:
        e.ops["operation"] = Opnd(Ptr(Tile("op", i, z3.IntVal(0))), None, "r")
    return effs


def factor_tree(lq):
    i, jj = z3.Ints("i jj")
    col, row, piv = COL(i), ROW(i), PIV(i)

    def gen(prec):
        def b(c):
            x, q = c.dim("x"), c.dim("q")      # x: the dimension that is reduced, q: the panels
            A = c.mat("A", *((q, x) if lq else (x, q)))
            T, T2 = tree_cx(c, x, q, lq)
            at = (lambda M, r, p: M(p, r)) if lq else (lambda M, r, p: M(r, p))
            sh = (lambda r, p: (q.V(p), x.V(r))) if lq else (lambda r, p: (x.V(r), q.V(p)))
            side = c.E(RIGHT if lq else LEFT)
            k_ = c.k
            ge, one = (k_.gelqt, k_.unmlq) if lq else (k_.geqrt, k_.unmqr)
            d = lambda t: z3.And(rng((0, i, NOPS)), KER(i) == t)
            trail = rng((col + 1, jj, q.nt))
            sp = fams("panel", [i], d(GE), (i, 0), tag(i, ge(*sh(row, col), IB, at(A, row, col), at(T, row, col))))
            sp += fams("apply", [i, jj], z3.And(d(GE), trail), (i, 1), tag(i, one(
                side, c.ct, *sh(row, jj), zmin(x.V(row), q.V(col)), IB, at(A, row, col), at(T, row, col), at(A, row, jj))))
            for nm, t, el, up in (("tt", TT, k_.ttlqt if lq else k_.ttqrt, k_.ttmlq if lq else k_.ttmqr),
                                  ("ts", TS, k_.tslqt if lq else k_.tsqrt, k_.tsmlq if lq else k_.tsmqr)):
                sp += fams(nm + "-eliminate", [i], d(t), (i, 0), tag(i, el(*sh(row, col), IB, at(A, piv, col), at(A, row, col), at(T2, row, col))))
                sp += fams(nm + "-update", [i, jj], z3.And(d(t), trail), (i, 1), tag(i, up(
                    side, c.ct, *sh(piv, jj), *sh(row, jj), q.V(col), IB, at(A, piv, jj), at(A, row, jj), at(A, row, col), at(T2, row, col))))
            return [A.struct, T.struct, WORK, SEQ, REQ], sp
        yield "", b
    return gen


def apply_tree(lq, generate=False):
    i, o = z3.Ints("i o")
    col, row, piv = COL(i), ROW(i), PIV(i)

    def gen(prec):
        tr = TR if prec in "sd" else CT
        cases = [(RIGHT if lq else LEFT, NOTR)] if generate else [(s, t) for s in (LEFT, RIGHT) for t in (NOTR, tr)]
        for side, trans in cases:
            def b(c, side=side, trans=trans):
                left = side == LEFT
                fwd = (left == (trans != NOTR)) if not lq else (left == (trans == NOTR))
                x, q, other = c.dim("x"), c.dim("q"), c.dim("o")
                A = c.mat("A", *((q, x) if lq else (x, q)))
                T, T2 = tree_cx(c, x, q, lq)
                B = c.mat("B", *((x, other) if left else (other, x)))
                at = (lambda M, r, p: M(p, r)) if lq else (lambda M, r, p: M(r, p))
                bb = (lambda r: B(r, o)) if left else (lambda r: B(o, r))
                sh = (lambda r: (x.V(r), other.V(o))) if left else (lambda r: (other.V(o), x.V(r)))
                k_, sg = c.k, 1 if fwd else -1
                d = lambda t: z3.And(rng((0, i, NOPS), ((col if generate else 0), o, other.nt)), KER(i) == t)
                sp = fams("diagonal", [i, o], d(GE), (sg * i,), tag(i, (k_.unmlq if lq else k_.unmqr)(
                    c.E(side), c.E(trans), *sh(row), zmin(x.V(row), q.V(col)), IB, at(A, row, col), at(T, row, col), bb(row))))
                for nm, t, up in (("tt", TT, k_.ttmlq if lq else k_.ttmqr), ("ts", TS, k_.tsmlq if lq else k_.tsmqr)):
                    sp += fams(nm, [i, o], d(t), (sg * i,), tag(i, up(
                        c.E(side), c.E(trans), *sh(piv), *sh(row), q.V(col), IB, bb(piv), bb(row), at(A, row, col), at(T2, row, col))))
                opts = [] if generate else [c.E(side), c.E(trans)]
                return opts + [A.struct, T.struct, B.struct, WORK, SEQ, REQ], sp
            yield "" if generate else "%s,%s" % (side[6:], trans[6:]), b
    return gen


TREE = {"pzgeqrf_tree": factor_tree(False), "pzgelqf_tree": factor_tree(True),
        "pzunmqr_tree": apply_tree(False), "pzunmlq_tree": apply_tree(True),
        "pzungqr_tree": apply_tree(False, True), "pzunglq_tree": apply_tree(True, True)}


def jobs(ctx):
    from tcv import tilecheck
    tilecheck.register(C08)
    tilecheck.register(TREE)
    out = []
    for p in ctx.precs:
        out += tilecheck.make_jobs(ctx.srcs, C08, p, Cx)
        out += tilecheck.make_jobs(ctx.srcs, TREE, p, Cx, machine=TreeMachine)
    return out
