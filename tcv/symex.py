"""Symbolic executor for the C subset used by the library.

A function body is executed once over symbolic inputs.  Conditionals are executed on both sides and
merged; loops are summarised without a bound: the executor recognises the induction variables of the
loop, gives the arbitrary iteration its own symbol, and takes as loop invariant "the ghost log holds
the events of exactly the completed iterations, in order" (all other loop-carried values are havocked,
or expressed from the previous iteration where that is exact).  The result is a ghost log: events with
path conditions, loop domains and a position that orders them.

Machine integers are treated as mathematical integers (stated assumption; overflow is a separate
obligation class, see overflow mode)."""
import itertools
import z3
from .cfront import OutOfReach, Node, clauses, DIRECTIVE_WORDS

I = z3.IntSort()
S = z3.DeclareSort("Scalar")
_lits = {}


def lit(v):
    """the Scalar constant of a numeric literal"""
    key = repr(float(v)) if not isinstance(v, complex) else repr(v)
    if key not in _lits:
        _lits[key] = z3.Const("lit(%s)" % key, S)
    return _lits[key]


ZERO, ONE, MONE = lit(0.0), lit(1.0), lit(-1.0)


def lit_value(e):
    n = str(e)
    if n.startswith("lit("):
        return eval(n[4:-1], {"nan": float("nan"), "inf": float("inf")})
    return None


def lit_axioms():
    ls = list(_lits.values())
    return [z3.Distinct(*ls)] if len(ls) > 1 else []


def ufun(name, *sorts):
    return z3.Function(name, *sorts)


_fresh = itertools.count()


def fresh(prefix, sort=I):
    return z3.Const("%s!%d" % (prefix, next(_fresh)), sort)


def is_int(v):
    return isinstance(v, z3.ArithRef)


def is_bool(v):
    return isinstance(v, z3.BoolRef)


def is_scalar(v):
    return isinstance(v, z3.ExprRef) and v.sort() == S


def to_int(v):
    if isinstance(v, bool) or isinstance(v, int):
        return z3.IntVal(int(v))
    if is_bool(v):
        if z3.is_true(v):
            return z3.IntVal(1)
        if z3.is_false(v):
            return z3.IntVal(0)
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Ptr) or isinstance(v, PIte):
        raise OutOfReach("pointer used as integer")
    if is_scalar(v):
        x = lit_value(v)
        if x is not None:
            return z3.IntVal(int(x))
        return ufun("s2i", S, I)(v)
    return v


def to_bool(v):
    if is_bool(v):
        return v
    if isinstance(v, (Ptr, PIte, Opaque, Ref)):
        return z3.Not(is_null(v))
    if is_scalar(v):
        return v != ZERO
    if is_int(v):
        # undo If(c,1,0)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long(), v.arg(2).as_long()
            if a == 1 and b == 0:
                return v.arg(0)
            if a == 0 and b == 1:
                return z3.Not(v.arg(0))
        if z3.is_int_value(v):
            return z3.BoolVal(v.as_long() != 0)
        return v != 0
    raise OutOfReach("condition of kind %r" % (v,))


def to_scalar(v):
    if is_scalar(v):
        return v
    if is_bool(v):
        v = to_int(v)
    if is_int(v):
        if z3.is_int_value(v):
            return lit(float(v.as_long()))
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return z3.If(v.arg(0), to_scalar(v.arg(1)), to_scalar(v.arg(2)))
        return ufun("i2s", I, S)(v)
    raise OutOfReach("scalar of kind %r" % (v,))


class Ptr:
    """pointer: object + element offset.  obj is hashable or a Tile"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=None):
        self.obj = obj
        self.off = z3.IntVal(0) if off is None else off

    def __repr__(self):
        return "&%r+%s" % (self.obj, self.off)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "(%s?%r:%r)" % (self.c, self.a, self.b)


class Opaque:
    """a value the executor does not interpret (same object = same value)"""
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "<%s>" % (self.tag,)


NULL = Ptr("NULL")


class Tile:
    """object of a tile pointer"""
    __slots__ = ("mat", "i", "j")

    def __init__(self, mat, i, j):
        self.mat, self.i, self.j = mat, i, j

    def __repr__(self):
        return "%s(%s,%s)" % (self.mat, self.i, self.j)


class Ref:
    """address of a local variable (or of a field in it)"""
    __slots__ = ("var", "path")

    def __init__(self, var, path=()):
        self.var, self.path = var, tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.var, self.path) == (o.var, o.path)

    def __hash__(self):
        return hash((self.var, self.path))

    def __repr__(self):
        return "ref(%s%s)" % (self.var, "".join("." + str(p) for p in self.path))


class Struct:
    __slots__ = ("tag", "f")

    def __init__(self, tag, f=None):
        self.tag = tag
        self.f = dict(f or {})

    def set(self, k, v):
        n = Struct(self.tag, self.f)
        n.f[k] = v
        return n

    def __repr__(self):
        return "struct %s" % self.tag


_null_flags = {}


def is_null(v):
    if isinstance(v, PIte):
        return z3.If(v.c, is_null(v.a), is_null(v.b))
    if isinstance(v, Ptr):
        if v.obj == "NULL":
            return z3.BoolVal(True)
        if isinstance(v.obj, MaybeNull):
            return v.obj.null
        return z3.BoolVal(False)
    if isinstance(v, Ref):
        return z3.BoolVal(False)
    if isinstance(v, Opaque):
        return z3.Bool("isnull(%s)" % v.tag)
    raise OutOfReach("null test of %r" % (v,))


class MaybeNull:
    """heap object returned by an allocation that may fail"""
    def __init__(self, name, null):
        self.name, self.null = name, null

    def __repr__(self):
        return self.name


def ptr_eq(a, b):
    if isinstance(a, PIte):
        return z3.If(a.c, ptr_eq(a.a, b), ptr_eq(a.b, b))
    if isinstance(b, PIte):
        return z3.If(b.c, ptr_eq(a, b.a), ptr_eq(a, b.b))
    if isinstance(a, Ptr) and a.obj == "NULL":
        return is_null(b)
    if isinstance(b, Ptr) and b.obj == "NULL":
        return is_null(a)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if isinstance(a.obj, Tile) and isinstance(b.obj, Tile):
            if a.obj.mat is not b.obj.mat and a.obj.mat != b.obj.mat:
                return z3.BoolVal(False)
            return z3.And(a.obj.i == b.obj.i, a.obj.j == b.obj.j, a.off == b.off)
        if a.obj is b.obj or a.obj == b.obj:
            return a.off == b.off
        return z3.BoolVal(False)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return z3.BoolVal(a == b)
    raise OutOfReach("pointer comparison")


def ite(c, a, b):
    """merge of two values"""
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            if is_scalar(a) or is_scalar(b):
                return z3.If(c, to_scalar(a), to_scalar(b))
            return z3.If(c, to_int(a), to_int(b))
        return z3.If(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        keys = set(a.f) | set(b.f)
        return Struct(a.tag, {k: ite(c, a.f.get(k, UNDEF), b.f.get(k, UNDEF)) for k in keys})
    if a is UNDEF or b is UNDEF:
        # reading an undefined value is not checked here; keep the defined one
        return b if a is UNDEF else a
    if isinstance(a, (Ptr, PIte, Ref, Opaque)) and isinstance(b, (Ptr, PIte, Ref, Opaque)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and not isinstance(a.obj, Tile):
            return Ptr(a.obj, ite(c, a.off, b.off))
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return a
        return PIte(c, a, b)
    raise OutOfReach("merge of %r and %r" % (a, b))


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


def cdiv(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long():
        x, y = a.as_long(), b.as_long()
        q = abs(x) // abs(y)
        return z3.IntVal(q if (x >= 0) == (y >= 0) else -q)
    if z3.is_int_value(b) and b.as_long() == 1:
        return a
    if not z3.is_int_value(b):
        return ufun("cdiv", I, I, I)(a, b)
    return z3.If(a >= 0, a / b, -((-a) / b))


POSITIVE = set()        # names of symbols known to be >= 1 (tile sizes): products with them are handled by lemmas


def cdiv_axiom(a, b):
    """C division by a positive number, as facts without division"""
    q = ufun("cdiv", I, I, I)(a, b)
    return z3.And(z3.Implies(z3.And(a >= 0, b >= 1), z3.And(q >= 0, q * b <= a, a < q * b + b)),
                  z3.Implies(z3.And(a < 0, b >= 1), z3.And(q <= 0, q * b - b < a, a <= q * b)))


def cmod(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long():
        x, y = a.as_long(), b.as_long()
        r = abs(x) % abs(y)
        return z3.IntVal(r if x >= 0 else -r)
    if not z3.is_int_value(b):
        return a - cdiv(a, b) * b
    return z3.If(a >= 0, a % b, -((-a) % b))


class Loop:
    def __init__(self, x, sign, dom, idx, node):
        self.x, self.sign, self.dom, self.idx, self.node = x, sign, dom, idx, node
        self.syms = [x]         # every symbol local to one iteration (x first)
        self.facts = []
        self.accs = []          # accumulators: (value before the loop, at the iteration, added by the iteration, after the loop)
        self.task = None

    def __repr__(self):
        return "loop(%s)" % self.x


class Event:
    def __init__(self, name, args, guards, path, loops, node, task=None):
        self.name, self.args, self.guards, self.path, self.loops, self.node = name, args, guards, path, loops, node
        self.task = task
        self.sub = None
        self.region = ()

    def cond(self):
        return z3.And(*(self.guards + [d for l in self.loops for d in l.dom]))

    def syms(self):
        return [s for l in self.loops for s in l.syms]

    def line(self):
        n = self.node
        return n.tu.line_of(n.line) if n is not None and n.line is not None else 0

    def where(self):
        n = self.node
        if n is None:
            return "?"
        return "%s:%d" % (n.tu.rel, self.line())

    def __repr__(self):
        return "%s%r" % (self.name, tuple(self.args))


def rename_map(e, suffix):
    return [(s, z3.Const(str(s) + suffix, s.sort())) for s in e.syms()]


def subst(v, m):
    """substitution in any value"""
    if not m:
        return v
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *m)
    if isinstance(v, Ptr):
        o = v.obj
        if isinstance(o, Tile):
            o = Tile(o.mat, subst(o.i, m), subst(o.j, m))
        elif hasattr(o, "subst"):
            o = o.subst(m)
        return Ptr(o, subst(v.off, m))
    if isinstance(v, PIte):
        return PIte(subst(v.c, m), subst(v.a, m), subst(v.b, m))
    if isinstance(v, Struct):
        return Struct(v.tag, {k: subst(x, m) for k, x in v.f.items()})
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    if isinstance(v, list):
        return [subst(x, m) for x in v]
    if hasattr(v, "subst"):
        return v.subst(m)
    return v


def before(e, f, me=None, mf=None):
    """z3 condition: event e precedes event f in program order (me/mf: renamings applied to them)"""
    r = lambda v, m: subst(v, m or [])
    pe, pf = e.path, f.path
    out = []
    eq = []
    k = 0
    while True:
        ie, ife = pe[k], pf[k]
        if ie != ife:
            out.append(z3.And(*(eq + [z3.BoolVal(ie < ife)])))
            break
        k += 1
        if k >= len(pe) or k >= len(pf):
            # same event
            break
        le, lf = pe[k], pf[k]
        assert le is lf
        a, b = r(le.x, me), r(lf.x, mf)
        out.append(z3.And(*(eq + [a < b if le.sign > 0 else a > b])))
        eq = eq + [a == b]
        k += 1
    return z3.Or(*out)


class State:
    __slots__ = ("env", "guards", "live", "ret")

    def __init__(self, env, guards, live=None, ret=None):
        self.env, self.guards = env, guards
        self.live = live if live is not None else z3.BoolVal(True)
        self.ret = ret


FLOATISH = ("double", "float", "complex", "_Complex")
INTISH = ("int", "unsigned", "long", "size_t", "char", "_Bool", "short", "lapack_int", "ptrdiff_t", "enum",
          "uint", "plasma_enum_t", "CBLAS_")


def type_kind(t):
    t = t.replace("const ", "").replace("volatile ", "").replace("restrict", "").strip()
    if t.endswith("*") or "(*" in t:
        return "ptr"
    if t.endswith("]"):
        return "arr"
    if any(w in t for w in FLOATISH):
        return "scalar"
    if any(w in t for w in INTISH):
        return "int"
    if t == "void":
        return "void"
    return "struct"


MATHFN = {"creal", "cimag", "cabs", "fabs", "sqrt", "conj", "fmax", "fmin", "pow", "floor", "ceil", "log2",
          "csqrt", "carg", "crealf", "cimagf", "cabsf", "fabsf", "sqrtf", "conjf", "isnan", "abs", "fmaxf", "fminf",
          "plasma_core_dcabs1", "plasma_core_scabs1", "logf", "log", "ldexp", "copysign", "exp"}


class Machine:
    """override `contract` (dict name -> handler(machine, args, node, state)) to give callee contracts"""
    max_depth = 12

    def __init__(self, tu, contracts=None, srcs=None, inline_extra=None, overflow=False):
        self.tu = tu
        self.contracts = contracts or {}
        self.inline_extra = inline_extra or {}
        self.events = []
        self.loops = []
        self.posctr = itertools.count()
        self.dry = 0
        self.task = None
        self.depth = 0
        self.assume = []        # facts established while executing (e.g. loop exit facts), global
        self.frames = itertools.count()
        self.overflow = overflow
        self.region = ()
        self.inlined = set()
        self.globals = {}
        self.struct_of = {}
        self.allow_unknown_calls = False
        self.load_hook = None
        self.store_hook = None
        self.abort_calls = {"plasma_fatal_error", "plasma_error", "__assert_fail", "printf", "fprintf",
                            "plasma_warning"}
        self.cur_state = None

    # ------------------------------------------------------------ entry
    def run(self, fname, args, guards=()):
        fn = self.tu.funcs[fname]
        env = {}
        for p, a in zip(fn.params, args):
            env[p.id] = a
        st = State(env, list(guards))
        self.exec_body(fn, st)
        return st.ret

    def exec_body(self, fn, st):
        self.depth += 1
        if self.depth > self.max_depth:
            raise OutOfReach("recursion in %s" % fn.name)
        self.inlined.add(fn.name)
        old = self.tu
        self.tu = fn.tu
        try:
            self.stmt(fn.body, st)
        finally:
            self.tu = old
            self.depth -= 1

    def find_function(self, name):
        if name in self.tu.funcs:
            return self.tu.funcs[name]
        return self.inline_extra.get(name)

    # ------------------------------------------------------------ events
    def emit(self, name, args, st, node):
        if self.dry:
            return None
        path = []
        for l in self.loops:
            path += [l.idx, l]
        path.append(next(self.posctr))
        g = list(st.guards)
        if not z3.is_true(st.live):
            g.append(st.live)
        e = Event(name, args, g, path, list(self.loops), node, self.task)
        e.region = self.region
        self.events.append(e)
        return e

    def fresh(self, prefix, sort=I):
        v = fresh(prefix, sort)
        if self.loops:
            self.loops[-1].syms.append(v)
        return v

    # ------------------------------------------------------------ statements
    def stmt(self, n, st):
        if z3.is_false(st.live):
            return
        m = getattr(self, "s_" + n.kind, None)
        if m:
            return m(n, st)
        if n.kind.startswith("OMP"):
            return self.omp(n, st)
        # expression statement
        self.expr(n, st)

    def s_CompoundStmt(self, n, st):
        for k in n.kids:
            self.stmt(k, st)

    def s_NullStmt(self, n, st):
        pass

    def s_DeclStmt(self, n, st):
        for d in n.kids:
            if d.kind == "VarDecl":
                if d.get("storageClass") == "static" and d.kids and not d.type.startswith("const "):
                    raise OutOfReach("static local %s" % d.name)
                if d.kids and d.get("init"):
                    init = d.kids[-1]
                    v = self.init_value(d, init, st)
                    self.assign_var(d.id, v, st, decl=True)
                else:
                    st.env[d.id] = self.default_value(d, st)
            elif d.kind in ("RecordDecl", "TypedefDecl", "EnumDecl", "EmptyDecl"):
                pass
            else:
                raise OutOfReach("declaration %s" % d.kind)

    def init_value(self, d, init, st):
        k = type_kind(d.type)
        if init.kind == "InitListExpr":
            if k == "arr":
                vals = [self.expr(x, st) for x in init.kids if x.kind != "ImplicitValueInitExpr"]
                return Struct("array", {i: v for i, v in enumerate(vals)})
            if k == "struct":
                return self.init_struct(d.type, init, st)
            if len(init.kids) == 1:
                return self.expr(init.kids[0], st)
            raise OutOfReach("initialiser list")
        v = self.expr(init, st)
        return self.coerce(v, d.type)

    def init_struct(self, t, init, st):
        raise OutOfReach("struct initialiser list of " + t)

    def default_value(self, d, st):
        k = type_kind(d.type)
        if k == "struct":
            return Struct(d.type)
        if k == "arr":
            for e in d.kids:    # VLA sizes
                pass
            return Struct("array:" + d.name)
        return UNDEF

    def coerce(self, v, t):
        k = type_kind(t)
        if k == "int" and not isinstance(v, (Ptr, PIte, Ref, Opaque)) and v is not UNDEF:
            return to_int(v)
        if k == "scalar" and v is not UNDEF and isinstance(v, z3.ExprRef):
            return to_scalar(v)
        return v

    def assign_var(self, vid, v, st, decl=False):
        if decl or z3.is_true(st.live):
            st.env[vid] = v
        else:
            st.env[vid] = ite(st.live, v, st.env.get(vid, UNDEF))

    def s_IfStmt(self, n, st):
        c = self.cond(n.kids[0], st)
        th = n.kids[1]
        el = n.kids[2] if len(n.kids) > 2 else None
        self.branch(c, th, el, st)

    def branch(self, c, th, el, st):
        if z3.is_true(c):
            return self.stmt(th, st)
        if z3.is_false(c):
            if el is not None:
                self.stmt(el, st)
            return
        env0 = st.env
        s1 = State(dict(env0), st.guards + [c], st.live, st.ret)
        self.stmt(th, s1)
        s2 = State(dict(env0), st.guards + [z3.Not(c)], st.live, st.ret)
        if el is not None:
            self.stmt(el, s2)
        env = {}
        for k in s1.env:
            if k in s2.env:
                env[k] = ite(c, s1.env[k], s2.env[k])
        st.env = env
        st.ret = s2.ret if s1.ret is None else s1.ret if s2.ret is None else ite(c, s1.ret, s2.ret)
        l1, l2 = s1.live, s2.live
        st.live = l1 if l1.eq(l2) else z3.simplify(z3.If(c, l1, l2))

    def s_ReturnStmt(self, n, st):
        if self.in_loop_of_frame(st):
            raise OutOfReach("return inside a loop")
        v = self.expr(n.kids[0], st) if n.kids else z3.IntVal(0)
        if isinstance(v, z3.ExprRef) and is_bool(v):
            v = to_int(v)
        if st.ret is None or z3.is_true(st.live):
            st.ret = v
        else:
            st.ret = ite(st.live, v, st.ret)
        st.live = z3.BoolVal(False)

    loop_barrier = None

    def in_loop_of_frame(self, st):
        return bool(self.loop_frames and self.loop_frames[-1] == self.depth)

    loop_frames = []

    def s_SwitchStmt(self, n, st):
        v = to_int(self.expr(n.kids[0], st))
        body = n.kids[1]
        # flatten: list of (labels or None, stmts until break)
        items = []
        cur = None

        def lab(x):
            nonlocal cur
            labels = []
            while x.kind in ("CaseStmt", "DefaultStmt"):
                if x.kind == "CaseStmt":
                    labels.append(to_int(self.expr(x.kids[0], st)))
                    x = x.kids[-1]
                else:
                    labels.append(None)
                    x = x.kids[-1]
            if cur is not None and not self.ends(cur[1]):
                raise OutOfReach("switch fall-through")
            cur = (labels, [x])
            items.append(cur)
        for k in body.kids:
            if k.kind in ("CaseStmt", "DefaultStmt"):
                lab(k)
            elif cur is not None:
                cur[1].append(k)
            elif k.kind == "DeclStmt":
                # a declaration ahead of the first label: in scope, but its initialiser is skipped
                for d in k.kids:
                    if d.kind == "VarDecl":
                        st.env[d.id] = self.default_value(d, st)
        consts = [l for ls, _ in items for l in ls if l is not None]

        def chain(i, st):
            if i == len(items):
                return
            ls, stmts = items[i]
            conds = []
            for l in ls:
                if l is None:
                    conds.append(z3.And(*[v != c for c in consts]))
                else:
                    conds.append(v == l)
            c = z3.simplify(z3.Or(*conds))
            stm = [x for x in stmts if x.kind != "BreakStmt"]
            if z3.is_true(c):
                for x in stm:
                    self.stmt(x, st)
                return
            if z3.is_false(c):
                return chain(i + 1, st)
            env0 = st.env
            s1 = State(dict(env0), st.guards + [c], st.live, st.ret)
            for x in stm:
                self.stmt(x, s1)
            s2 = State(dict(env0), st.guards + [z3.Not(c)], st.live, st.ret)
            chain(i + 1, s2)
            st.env = {k: ite(c, s1.env[k], s2.env[k]) for k in s1.env if k in s2.env}
            st.ret = s2.ret if s1.ret is None else s1.ret if s2.ret is None else ite(c, s1.ret, s2.ret)
            l1, l2 = s1.live, s2.live
            st.live = l1 if l1.eq(l2) else z3.simplify(z3.If(c, l1, l2))
        # default may appear anywhere: evaluate it last
        items.sort(key=lambda it: None in it[0])
        chain(0, st)

    def ends(self, stmts):
        def end(x):
            if x.kind in ("BreakStmt", "ReturnStmt"):
                return True
            if x.kind == "CompoundStmt":
                return bool(x.kids) and end(x.kids[-1])
            return False
        return bool(stmts) and end(stmts[-1])

    def s_CompoundBreak(self, n, st):
        pass

    def s_BreakStmt(self, n, st):
        raise OutOfReach("break inside a loop body")

    def s_ContinueStmt(self, n, st):
        if not self.loop_frames or self.loop_frames[-1] != self.depth:
            raise OutOfReach("continue")
        self.cont_flag = True
        # the rest of the iteration is dead on this path; liveness restored at the end of the iteration
        self.cont_stack[-1] = z3.simplify(z3.Or(self.cont_stack[-1], z3.And(*(st.guards[self.cont_base[-1]:] + [st.live]))))
        st.live = z3.BoolVal(False)

    cont_stack = []
    cont_base = []

    def s_GotoStmt(self, n, st):
        raise OutOfReach("goto")

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n, st):
        # kids: init, condvar(empty), cond, inc, body ; clang prints {} for missing ones
        init, _, cond, inc, body = n.kids
        if init.kind:
            self.stmt(init, st)
        self.loop(n, cond if cond.kind else None, inc if inc.kind else None, body, st)

    def s_WhileStmt(self, n, st):
        cond, body = n.kids[-2], n.kids[-1]
        self.loop(n, cond, None, body, st)

    def s_DoStmt(self, n, st):
        body, cond = n.kids[0], n.kids[1]
        # do S while(c): S; while(c) S  -- only when S has no declarations escaping
        self.stmt(body, st)
        self.loop(n, cond, None, body, st)

    def assigned(self, nodes):
        out, declared = set(), set()

        def root(e):
            while e.kind in ("MemberExpr", "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
                if e.kind == "MemberExpr" and e.get("isArrow"):
                    return None
                e = e.kids[0]
            if e.kind == "ArraySubscriptExpr":
                b = e.kids[0]
                while b.kind in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
                    b = b.kids[0]
                if b.kind == "DeclRefExpr" and type_kind(b.type) == "arr":
                    return b.j["referencedDecl"]["id"]
                return None
            if e.kind == "DeclRefExpr":
                return e.j["referencedDecl"]["id"]
            return None

        def walk(e):
            if e.kind == "VarDecl":
                declared.add(e.id)
            if e.kind == "CompoundAssignOperator" or (e.kind == "BinaryOperator" and e.opcode == "="):
                r = root(e.kids[0])
                if r:
                    out.add(r)
            if e.kind == "UnaryOperator" and e.opcode in ("++", "--", "&"):
                r = root(e.kids[0])
                if r:
                    out.add(r)
            for k in e.kids:
                walk(k)
        for x in nodes:
            walk(x)
        return [v for v in out if v not in declared]

    def one_iteration(self, cond, inc, body, st):
        """executes the body and the increment; returns nothing (state updated)"""
        self.loop_frames.append(self.depth)
        self.cont_stack.append(z3.BoolVal(False))
        self.cont_base.append(len(st.guards))
        live0 = st.live
        try:
            self.stmt(body, st)
        finally:
            self.loop_frames.pop()
            self.cont_base.pop()
            self.cont_stack.pop()
        st.live = live0     # continue paths join here; return and break are refused
        if inc is not None:
            self.expr(inc, st)

    def havoc(self, v, name):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Struct):
            return Struct(v.tag, {k: self.havoc(x, name + "." + str(k)) for k, x in v.f.items()})
        if isinstance(v, z3.ExprRef):
            if is_bool(v):
                v = to_int(v)
            return fresh(name, v.sort())
        if isinstance(v, (Ptr, PIte, Ref, Opaque)):
            p = v
            while isinstance(p, PIte):
                p = p.a
            if isinstance(p, Ptr):
                return Ptr(p.obj, fresh(name + ".off"))
            return v
        return v

    def loop(self, n, cond, inc, body, st):
        if z3.is_true(st.live):
            return self.loop1(n, cond, inc, body, st)
        # paths that have left this frame or iteration do not run the loop: liveness becomes a guard
        live, env0, g0 = st.live, dict(st.env), st.guards
        st.guards = st.guards + [live]
        st.live = z3.BoolVal(True)
        self.loop1(n, cond, inc, body, st)
        st.guards, st.live = g0, live
        if self.in_loop_of_frame(st):
            st.env = {k: (v if env0.get(k, UNDEF) is UNDEF or v is env0[k] else ite(live, v, env0[k])) for k, v in st.env.items()}

    def loop1(self, n, cond, inc, body, st):
        if cond is None:
            raise OutOfReach("loop without a condition")
        nodes = [x for x in (cond, inc, body) if x is not None]
        mod = [v for v in self.assigned(nodes) if v in st.env]
        names = {v: "v" for v in mod}
        init = {v: st.env[v] for v in mod}

        # phase 1: induction variables
        s = State(dict(st.env), list(st.guards), st.live, None)
        start = {}
        for v in mod:
            if isinstance(init[v], z3.ExprRef) or init[v] is UNDEF or isinstance(init[v], (Struct, Ptr, PIte, Ref, Opaque)):
                start[v] = self.havoc(init[v], "it")
                s.env[v] = start[v]
        self.dry += 1
        saved_loops = list(self.loops)
        dummy = Loop(fresh("dummy"), 1, [], -1, n)
        self.loops.append(dummy)
        try:
            c0 = self.cond(cond, s)
            s.guards = s.guards + [c0]
            self.one_iteration(cond, inc, body, s)
        finally:
            self.loops = saved_loops
            self.dry -= 1
        ivs, same = {}, set()
        for v in mod:
            a, b = start[v], s.env.get(v, UNDEF)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and not isinstance(a.obj, Tile):
                d = z3.simplify(b.off - a.off)
                if z3.is_int_value(d):
                    if d.as_long() == 0:
                        same.add(v)
                    else:
                        ivs[v] = d.as_long()
                elif not self.mentions(d, start, mod):
                    ivs[v] = d          # loop-invariant stride
                continue
            if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)):
                if a is b:
                    same.add(v)
                continue
            if a.eq(b):
                same.add(v)
            elif is_int(a) and is_int(b):
                d = z3.simplify(b - a)
                if z3.is_int_value(d):
                    if d.as_long() == 0:
                        same.add(v)
                    else:
                        ivs[v] = d.as_long()
                elif not self.mentions(d, start, mod) and not self.loop_local(d, dummy):
                    ivs[v] = d
        # main induction variable: one occurring in the condition with unit step if possible
        main = None
        condvars = self.vars_of(cond)
        for v in sorted(ivs, key=lambda v: (v not in condvars, not isinstance(ivs[v], int) or abs(ivs[v]) != 1)):
            main = v
            break
        if main is None:
            return self.loop_unknown(n, cond, inc, body, st, mod, init)
        idx = next(self.posctr) if not self.dry else -1
        step = ivs[main]
        if isinstance(step, int) and abs(step) == 1 and not isinstance(init[main], Ptr):
            x = fresh(self.var_name(cond, main))
            sign = step
            kappa = (x - init[main]) if step == 1 else (init[main] - x)
        else:
            x = fresh("kappa")
            sign = 1
            kappa = x

        def at(kap, xval):
            """values of induction variables at iteration kap"""
            out = {}
            for v in ivs:
                if v == main and xval is not None and not isinstance(init[v], Ptr):
                    out[v] = xval
                else:
                    cst = z3.IntVal(ivs[v]) if isinstance(ivs[v], int) else ivs[v]
                    if isinstance(init[v], Ptr):
                        out[v] = Ptr(init[v].obj, z3.simplify(init[v].off + cst * kap))
                    else:
                        out[v] = z3.simplify(init[v] + cst * kap)
            return out
        unit = isinstance(step, int) and abs(step) == 1 and not isinstance(init[main], Ptr)
        ivval = at(kappa, x if unit else None)
        others = [v for v in mod if v not in ivs and v not in same]
        # phase 2: can the others be expressed from the previous iteration?
        prev = {}
        if others:
            s = State(dict(st.env), list(st.guards), st.live, None)
            s.env.update(ivval)
            hv = {v: self.havoc(init[v], "hv") for v in others}
            s.env.update(hv)
            self.dry += 1
            dummy2 = Loop(x, sign, [], -1, n)
            self.loops.append(dummy2)
            try:
                c1 = self.cond(cond, s)
                s.guards = s.guards + [c1]
                self.one_iteration(cond, inc, body, s)
            finally:
                self.loops.pop()
                self.dry -= 1
            for v in others:
                b = s.env.get(v, UNDEF)
                if isinstance(b, z3.ExprRef) and not self.mentions(b, hv, others) and \
                        not any(self.occurs(b, y) for y in dummy2.syms[1:]):
                    prev[v] = b
        xprev = x - sign if unit else x - 1
        L = Loop(x, sign, [kappa >= 0], idx, n)
        L.first = init[main] if unit else z3.IntVal(0)
        st_env0 = st.env
        s = State(dict(st.env), list(st.guards), st.live, None)
        s.env.update(ivval)
        self.loops.append(L)
        at_iter, added = {}, {}
        for v in others:
            if v in prev:
                pv = z3.substitute(prev[v], (x, xprev))
                if init[v] is UNDEF:
                    s.env[v] = pv
                else:
                    s.env[v] = ite(kappa == 0, init[v], pv)
            else:
                h = self.havoc(init[v], "hv")
                self.add_syms(L, h)
                s.env[v] = h
                at_iter[v] = h
        c = self.cond(cond, s)
        # domain: the condition at this iteration; needs to imply it at all earlier ones
        if self.mono_needed(c, x):
            self.check_monotone(c, x, kappa, xprev, st, n)
        L.dom.append(c)
        if not z3.is_true(z3.simplify(z3.And(c, kappa >= 0))) or True:
            self.one_iteration(cond, inc, body, s)
        self.loops.pop()
        for v, h in at_iter.items():
            b = s.env.get(v, UNDEF)
            if isinstance(h, z3.ExprRef) and isinstance(b, z3.ExprRef) and is_int(h) and is_int(b):
                d = z3.simplify(b - h, som=True)
                if not any(isinstance(y, z3.ExprRef) and self.occurs(d, y) for y in at_iter.values()):
                    added[v] = (h, d)
        # after the loop
        K = fresh("K")
        xe = init[main] + K * sign if unit else K
        if self.loops:
            self.loops[-1].syms.append(K)
        env = dict(st_env0)
        kap_e = K
        env.update(at(K, z3.simplify(xe) if unit else None))
        env0 = dict(env)
        for v in others:
            if v in prev:
                pv = z3.substitute(prev[v], (x, (xe - sign) if unit else K - 1))
                env[v] = pv if init[v] is UNDEF else ite(K == 0, init[v], pv)
            else:
                h = self.havoc(init[v] if init[v] is not UNDEF else s.env.get(v, UNDEF), "ex")
                if self.loops:
                    self.add_syms(self.loops[-1], h)
                env[v] = h if init[v] is UNDEF or not isinstance(h, z3.ExprRef) else ite(K == 0, init[v], h)
                if v in added and isinstance(init[v], z3.ExprRef) and is_int(h):
                    L.accs.append((init[v],) + added[v] + (h,))
        st.env = env
        # exit facts
        ce = z3.substitute(c, (x, z3.simplify(xe)))
        cl = z3.substitute(c, (x, z3.simplify(xe - sign if unit else K - 1)))
        facts = [K >= 0, z3.Not(ce), z3.Or(K == 0, cl)]
        if not any(self.occurs(c, y) for y in L.syms[1:]):
            if self.loops:
                self.loops[-1].facts.extend([z3.Implies(z3.And(*st.guards[self.guard_base():]) if st.guards else z3.BoolVal(True), f) for f in facts])
            else:
                self.assume.extend([z3.Implies(z3.And(*(st.guards + [st.live])), f) for f in facts])
        else:
            st.env.update({v: self.havoc(st.env[v], "ex") for v in ivs})

    def guard_base(self):
        return 0

    def loop_unknown(self, n, cond, inc, body, st, mod, init):
        """no induction variable: arbitrary number of iterations, everything modified is havocked"""
        idx = next(self.posctr) if not self.dry else -1
        x = fresh("kappa")
        L = Loop(x, 1, [x >= 0], idx, n)
        s = State(dict(st.env), list(st.guards), st.live, None)
        self.loops.append(L)
        for v in mod:
            h = self.havoc(init[v], "hv")
            self.add_syms(L, h)
            s.env[v] = h
        c = self.cond(cond, s)
        L.dom.append(c)
        self.one_iteration(cond, inc, body, s)
        self.loops.pop()
        for v in mod:
            h = self.havoc(init[v], "ex")
            if self.loops:
                self.add_syms(self.loops[-1], h)
            st.env[v] = h

    def add_syms(self, L, v):
        if isinstance(v, z3.ExprRef):
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                L.syms.append(v)
        elif isinstance(v, Ptr):
            self.add_syms(L, v.off)
        elif isinstance(v, Struct):
            for y in v.f.values():
                self.add_syms(L, y)

    def mono_needed(self, c, x):
        c = z3.simplify(c)
        return not z3.is_true(c)

    def check_monotone(self, c, x, kappa, xprev, st, n):
        so = z3.Solver()
        so.set("timeout", 3000)
        so.add(kappa >= 1, c, z3.Not(z3.substitute(c, (x, xprev))))
        if so.check() != z3.unsat:
            so = z3.Solver()
            so.set("timeout", 3000)
            for l in self.loops:
                so.add(*l.dom)
            so.add(*self.assume)
            so.add(*st.guards)
            so.add(kappa >= 1, c, z3.Not(z3.substitute(c, (x, xprev))))
            if so.check() != z3.unsat:
                raise OutOfReach("loop condition is not monotone at line %s" % self.tu.line_of(n.line))

    def vars_of(self, e):
        out = set()

        def walk(x):
            if x.kind == "DeclRefExpr":
                out.add(x.j["referencedDecl"]["id"])
            for k in x.kids:
                walk(k)
        walk(e)
        return out

    def var_name(self, e, vid):
        def walk(x):
            if x.kind == "DeclRefExpr" and x.j["referencedDecl"]["id"] == vid:
                return x.j["referencedDecl"]["name"]
            for k in x.kids:
                r = walk(k)
                if r:
                    return r
        return walk(e) or "i"

    @staticmethod
    def occurs(e, y):
        seen = set()
        todo = [e]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.eq(y):
                return True
            todo.extend(t.children())
        return False

    def mentions(self, e, start, mod):
        def syms(v):
            if isinstance(v, z3.ExprRef):
                return [v]
            if isinstance(v, Ptr):
                return [v.off]
            if isinstance(v, Struct):
                return [y for x in v.f.values() for y in syms(x)]
            return []
        for v in mod:
            for y in syms(start.get(v)):
                if self.occurs(e, y):
                    return True
        return False

    def loop_local(self, e, L):
        return any(self.occurs(e, y) for y in L.syms)

    # ------------------------------------------------------------ OpenMP
    def omp(self, n, st):
        d = n.kind
        cl = clauses(n)
        words = [c for c, t in cl]
        body = self.omp_body(n)
        if d == "OMPTaskwaitDirective":
            self.emit("taskwait", [], st, n)
            return
        if d in ("OMPBarrierDirective", "OMPFlushDirective"):
            self.emit("barrier", [], st, n)
            return
        if d in ("OMPParallelDirective", "OMPMasterDirective", "OMPSingleDirective", "OMPCriticalDirective",
                 "OMPTaskgroupDirective", "OMPParallelMasterDirective"):
            old = self.region
            if d == "OMPParallelDirective":
                self.region = old + ("parallel@%s" % n.line,)
                self.emit("parallel-begin", [], st, n)
            self.stmt(body, st)
            if d == "OMPParallelDirective":
                self.emit("parallel-end", [], st, n)
            self.region = old
            return
        if d == "OMPTaskDirective":
            return self.omp_task(n, body, st)
        if d in ("OMPForDirective", "OMPParallelForDirective", "OMPTaskLoopDirective", "OMPSimdDirective"):
            return self.stmt(body, st)
        if d == "OMPAtomicDirective":
            return self.stmt(body, st)
        raise OutOfReach("OpenMP directive " + d)

    def omp_body(self, n):
        for k in n.kids:
            if k.kind == "CapturedStmt":
                k = k.kids[0]
                if k.kind == "CapturedDecl":
                    k = k.kids[0]
                return k
            if k.kind in ("CompoundStmt", "ForStmt", "IfStmt"):
                return k
        return n.kids[-1] if n.kids else None

    def omp_task(self, n, body, st):
        deps = self.depends(n, st)
        old = self.task
        ev = self.emit("task", [deps], st, n)
        self.task = ev if ev is not None else old
        s = State(dict(st.env), st.guards, st.live, st.ret)   # firstprivate copy
        lf, self.loop_frames = self.loop_frames, []
        self.depth += 1
        try:
            self.stmt(body, s)
        finally:
            self.depth -= 1
            self.loop_frames = lf
            self.task = old

    def depends(self, n, st):
        """[(mode, base pointer, length or None)] from the clause expressions in the AST"""
        items = []
        exprs = []
        for k in n.kids:
            if not k.kind and k.kids:
                exprs.extend(k.kids)
        texts = []
        for c, t in clauses(n):
            if c == "depend":
                mode, rest = t.split(":", 1)
                texts.append((mode.strip(), split_top(rest)))
        flat = [(m, x) for m, xs in texts for x in xs]
        exprs = [e for e in exprs if e.kind in ("OMPArraySectionExpr", "ArraySubscriptExpr", "UnaryOperator", "DeclRefExpr",
                                                "MemberExpr", "ParenExpr", "ArraySectionExpr")]
        # clauses other than depend may contribute expressions before/after: match by count from the text
        dep_exprs = [e for e in exprs]
        if len(dep_exprs) != len(flat):
            others = [c for c, t in clauses(n) if c in ("priority", "if", "final", "shared", "firstprivate", "private")]
            dep_exprs = [e for e in dep_exprs if e.kind in ("OMPArraySectionExpr", "ArraySubscriptExpr", "ArraySectionExpr")]
        if len(dep_exprs) != len(flat):
            raise OutOfReach("depend clause items do not line up with the AST (%d/%d)" % (len(dep_exprs), len(flat)))
        for (m, x), e in zip(flat, dep_exprs):
            if "Section" in e.kind:
                base = self.expr(e.kids[0], st)
                lo = to_int(self.expr(e.kids[1], st)) if len(e.kids) > 1 and e.kids[1].kind else z3.IntVal(0)
                ln = to_int(self.expr(e.kids[2], st)) if len(e.kids) > 2 and e.kids[2].kind else None
                items.append((m, self.ptr_add(base, lo), ln))
            elif e.kind == "ArraySubscriptExpr":
                base = self.expr(e.kids[0], st)
                items.append((m, self.ptr_add(base, to_int(self.expr(e.kids[1], st))), z3.IntVal(1)))
            else:
                items.append((m, self.lvalue_addr(e, st), z3.IntVal(1)))
        return items

    # ------------------------------------------------------------ expressions
    def cond(self, n, st):
        c = to_bool(self.expr(n, st))
        return self.prune(c, st)

    def prune(self, c, st):
        if z3.is_true(c) or z3.is_false(c):
            return c
        return z3.simplify(c)

    def expr(self, n, st):
        m = getattr(self, "e_" + n.kind, None)
        if not m:
            raise OutOfReach("expression %s" % n.kind)
        return m(n, st)

    def e_ParenExpr(self, n, st):
        return self.expr(n.kids[0], st)

    def e_ConstantExpr(self, n, st):
        return self.expr(n.kids[0], st)

    def e_IntegerLiteral(self, n, st):
        return z3.IntVal(int(n.value))

    def e_CharacterLiteral(self, n, st):
        return z3.IntVal(int(n.value))

    def e_FloatingLiteral(self, n, st):
        return lit(float(n.value))

    def e_ImaginaryLiteral(self, n, st):
        return lit(1j)

    def e_StringLiteral(self, n, st):
        return Ptr("string:" + str(n.value))

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        t = (n.get("argType") or {}).get("qualType") or (n.kids[0].type if n.kids else "?")
        return self.sizeof(t)

    SIZES = {"char": 1, "int": 4, "float": 4, "double": 8, "size_t": 8, "plasma_enum_t": 4, "_Complex double": 16,
             "_Complex float": 8, "plasma_complex64_t": 16, "plasma_complex32_t": 8, "lapack_int": 4}

    def sizeof(self, t):
        t = t.replace("const ", "").strip()
        if t.endswith("*"):
            return z3.IntVal(8)
        if t in self.SIZES:
            return z3.IntVal(self.SIZES[t])
        v = z3.Int("sizeof(%s)" % t)
        return v

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        k = n.kids[0]
        if ck == "LValueToRValue":
            return self.load_lvalue(k, st)
        if ck == "ArrayToPointerDecay":
            if k.kind == "StringLiteral":
                return self.expr(k, st)
            return self.lvalue_addr(k, st)
        if ck == "FunctionToPointerDecay":
            return self.expr(k, st)
        if ck == "NullToPointer":
            return NULL
        v = self.expr(k, st)
        return self.cast(ck, v, n.type)

    def e_CStyleCastExpr(self, n, st):
        k = n.kids[0]
        ck = n.get("castKind")
        if ck == "LValueToRValue":
            return self.load_lvalue(k, st)
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.expr(k, st)
            return z3.IntVal(0)
        if ck == "ArrayToPointerDecay":
            return self.lvalue_addr(k, st)
        return self.cast(ck, self.expr(k, st), n.type)

    def cast(self, ck, v, t):
        if ck in ("IntegralCast", "NoOp", "BitCast", "FloatingCast", "FloatingComplexCast", "LValueBitCast",
                  "FloatingRealToComplex", "IntegralRealToComplex"):
            if ck == "IntegralRealToComplex":
                return to_scalar(v)
            if ck == "BitCast" and isinstance(v, Ptr):
                return self.bitcast(v, t)
            return v
        if ck == "IntegralToFloating":
            return to_scalar(v)
        if ck == "FloatingToIntegral":
            return to_int(v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "FloatingComplexToBoolean"):
            return to_bool(v)
        if ck == "FloatingComplexToReal":
            x = lit_value(v)
            if x is not None and not isinstance(x, complex):
                return v
            return ufun("creal", S, S)(v)
        if ck == "IntegralToPointer":
            return Opaque("int2ptr")
        if ck == "PointerToIntegral":
            return fresh("ptr2int")
        raise OutOfReach("cast " + str(ck))

    def bitcast(self, v, t):
        return v

    def e_DeclRefExpr(self, n, st):
        d = n.j["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            if d["id"] in self.tu.enums:
                return z3.IntVal(self.tu.enums[d["id"]])
            raise OutOfReach("enum constant " + d["name"])
        if d["kind"] == "FunctionDecl":
            return Opaque("fn:" + d["name"])
        # an lvalue evaluated without a load (e.g. aggregate on the right of an assignment)
        return self.load_lvalue(n, st)

    def e_ConditionalOperator(self, n, st):
        c = self.cond(n.kids[0], st)
        if z3.is_true(c):
            return self.expr(n.kids[1], st)
        if z3.is_false(c):
            return self.expr(n.kids[2], st)
        s1 = State(dict(st.env), st.guards + [c], st.live, st.ret)
        a = self.expr(n.kids[1], s1)
        s2 = State(dict(st.env), st.guards + [z3.Not(c)], st.live, st.ret)
        b = self.expr(n.kids[2], s2)
        for k in st.env:
            st.env[k] = ite(c, s1.env[k], s2.env[k])
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and is_bool(a) and is_bool(b):
            return z3.If(c, a, b)
        return ite(c, a, b)

    def e_UnaryOperator(self, n, st):
        op = n.opcode
        k = n.kids[0]
        if op == "&":
            return self.lvalue_addr(k, st)
        if op == "*":
            p = self.expr(k, st)
            return self.load_ptr(p, st, n)
        if op in ("++", "--"):
            old = self.load_lvalue(k, st)
            d = z3.IntVal(1 if op == "++" else -1)
            new = self.ptr_add(old, d) if isinstance(old, (Ptr, PIte)) else (
                self.arith("+", old, lit(d.as_long()), n, st) if is_scalar(old) else to_int(old) + d)
            self.store_lvalue(k, new, st)
            return old if n.get("isPostfix") else new
        v = self.expr(k, st)
        if op == "-":
            if is_scalar(v):
                x = lit_value(v)
                if x is not None:
                    return lit(-x if x != 0 else 0.0)
                return self.neg(v)
            return z3.simplify(-to_int(v)) if z3.is_int_value(to_int(v)) else -to_int(v)
        if op == "+":
            return v
        if op == "!":
            c = to_bool(v)
            return z3.Not(c)
        if op == "~":
            return ufun("bitnot", I, I)(to_int(v))
        if op == "__extension__":
            return v
        if op in ("__real", "__imag"):
            return ufun("creal" if op == "__real" else "cimag", S, S)(v)
        raise OutOfReach("unary " + op)

    def neg(self, v):
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return z3.If(v.arg(0), self.neg(v.arg(1)), self.neg(v.arg(2)))
        x = lit_value(v)
        if x is not None:
            return lit(-x if x != 0 else 0.0)
        if v.decl().name() == "neg":
            return v.arg(0)
        return ufun("neg", S, S)(v)

    def e_BinaryOperator(self, n, st):
        op = n.opcode
        a, b = n.kids
        if op == "=":
            v = self.expr(b, st)
            v = self.coerce(v, a.type)
            self.store_lvalue(a, v, st)
            return v
        if op == ",":
            self.expr(a, st)
            return self.expr(b, st)
        if op in ("&&", "||"):
            ca = self.cond(a, st)
            if op == "&&" and z3.is_false(ca):
                return ca
            if op == "||" and z3.is_true(ca):
                return ca
            s1 = State(st.env, st.guards + [ca if op == "&&" else z3.Not(ca)], st.live, st.ret)
            cb = self.cond(b, s1)
            st.env = s1.env
            if op == "&&":
                return z3.simplify(z3.And(ca, cb))
            return z3.simplify(z3.Or(ca, cb))
        x = self.expr(a, st)
        y = self.expr(b, st)
        return self.arith(op, x, y, n, st)

    def e_CompoundAssignOperator(self, n, st):
        op = n.opcode[:-1]
        a, b = n.kids
        y = self.expr(b, st)
        x = self.load_lvalue(a, st)
        v = self.arith(op, x, y, n, st)
        v = self.coerce(v, a.type)
        self.store_lvalue(a, v, st)
        return v

    def arith(self, op, x, y, n, st):
        if isinstance(x, (Ptr, PIte, Ref, Opaque)) or isinstance(y, (Ptr, PIte, Ref, Opaque)):
            if op in ("==", "!="):
                c = ptr_eq(x, y) if not isinstance(x, Opaque) and not isinstance(y, Opaque) else self.opaque_eq(x, y)
                return c if op == "==" else z3.Not(c)
            if op == "+":
                if isinstance(y, (Ptr, PIte)):
                    x, y = y, x
                return self.ptr_add(x, to_int(y))
            if op == "-":
                if isinstance(y, (Ptr, PIte)):
                    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                        return x.off - y.off
                    raise OutOfReach("pointer difference")
                return self.ptr_add(x, -to_int(y))
            raise OutOfReach("pointer operator " + op)
        if x is UNDEF or y is UNDEF:
            raise OutOfReach("use of an undefined value at line %s" % self.tu.line_of(n.line))
        if is_scalar(x) or is_scalar(y):
            return self.sarith(op, to_scalar(x), to_scalar(y), n, st)
        x, y = to_int(x), to_int(y)
        if op == "+":
            r = x + y
        elif op == "-":
            r = x - y
        elif op == "*":
            r = x * y
        elif op == "/":
            r = cdiv(x, y)
        elif op == "%":
            r = cmod(x, y)
        elif op == "==":
            return x == y
        elif op == "!=":
            return x != y
        elif op == "<":
            return x < y
        elif op == "<=":
            return x <= y
        elif op == ">":
            return x > y
        elif op == ">=":
            return x >= y
        elif op == "<<" and z3.is_int_value(y):
            r = x * (2 ** y.as_long())
        elif op == ">>" and z3.is_int_value(y):
            r = x / (2 ** y.as_long())
        else:
            if z3.is_int_value(x) and z3.is_int_value(y):
                f = {"&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
                     "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}[op]
                return z3.IntVal(f(x.as_long(), y.as_long()))
            return ufun("bit" + op, I, I, I)(x, y)
        if z3.is_int_value(x) and z3.is_int_value(y):
            r = z3.simplify(r)
        if self.overflow and n is not None:
            self.emit("arith", [op, x, y, r, n.type], st, n)
        return r

    def opaque_eq(self, x, y):
        if x is y:
            return z3.BoolVal(True)
        if isinstance(x, Opaque) and isinstance(y, Ptr) and y.obj == "NULL":
            return is_null(x)
        if isinstance(y, Opaque) and isinstance(x, Ptr) and x.obj == "NULL":
            return is_null(y)
        raise OutOfReach("comparison of opaque values")

    def sarith(self, op, x, y, n, st):
        if op in ("==", "!=", "<", ">", "<=", ">="):      # comparison of converted integers
            def back(v):
                if z3.is_app(v) and v.decl().name() == "i2s":
                    return v.arg(0)
                lv = lit_value(v)
                if isinstance(lv, float) and lv == int(lv) and abs(lv) < 2 ** 31:
                    return z3.IntVal(int(lv))
                return None
            bx, by = back(x), back(y)
            if bx is not None and by is not None:
                return {"==": bx == by, "!=": bx != by, "<": bx < by, ">": bx > by, "<=": bx <= by, ">=": bx >= by}[op]
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        if op in ("<", ">", "<=", ">="):
            if op in (">", ">="):
                x, y, op = y, x, {">": "<", ">=": "<="}[op]
            lx, ly = lit_value(x), lit_value(y)
            if lx is not None and ly is not None:
                return z3.BoolVal(lx < ly if op == "<" else lx <= ly)
            return ufun("fp" + op, S, S, z3.BoolSort())(x, y)
        lx, ly = lit_value(x), lit_value(y)
        if lx is not None and ly is not None and not (op == "/" and ly == 0):
            r = {"+": lambda: lx + ly, "-": lambda: lx - ly, "*": lambda: lx * ly, "/": lambda: lx / ly}[op]()
            return lit(r)
        if op == "*":
            if lx == 1.0:
                return y
            if ly == 1.0:
                return x
            if lx == -1.0:
                return self.neg(y)
            if ly == -1.0:
                return self.neg(x)
        if op == "/" and ly == 1.0:
            return x
        if op == "/" and ly == -1.0:
            return self.neg(x)
        if op == "+" and lx == 0.0:
            return y
        if op == "+" and ly == 0.0:
            return x
        if op in "+*" and str(x) > str(y) and len(str(x)) < 200:
            x, y = y, x
        return ufun({"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op], S, S, S)(x, y)

    def ptr_add(self, p, k):
        if isinstance(p, PIte):
            return PIte(p.c, self.ptr_add(p.a, k), self.ptr_add(p.b, k))
        if isinstance(p, Ref):
            if z3.is_int_value(k) and k.as_long() == 0:
                return p
            return Ptr(p, k)
        if isinstance(p, Opaque):
            return Ptr(p.tag, k)
        if not isinstance(p, Ptr):
            raise OutOfReach("pointer arithmetic on %r" % (p,))
        o = p.off + k
        if z3.is_int_value(p.off) and p.off.as_long() == 0:
            o = k
        elif z3.is_int_value(k) and k.as_long() == 0:
            o = p.off
        return Ptr(p.obj, o)

    # ------------------------------------------------------------ memory
    def load_lvalue(self, n, st):
        if n.kind == "ParenExpr":
            return self.load_lvalue(n.kids[0], st)
        if n.kind == "DeclRefExpr":
            d = n.j["referencedDecl"]
            if d["kind"] == "EnumConstantDecl":
                return self.e_DeclRefExpr(n, st)
            if d["id"] in st.env:
                v = st.env[d["id"]]
                return v
            return self.load_global(d, n, st)
        if n.kind == "MemberExpr":
            if n.get("isArrow"):
                p = self.expr(n.kids[0], st)
                return self.load_field(p, n.name, n, st)
            s = self.load_lvalue(n.kids[0], st)
            return self.field_of(s, n.name, n, st)
        if n.kind == "ArraySubscriptExpr":
            p = self.expr(n.kids[0], st)
            i = to_int(self.expr(n.kids[1], st))
            return self.load_ptr(self.ptr_add(p, i), st, n)
        if n.kind == "UnaryOperator" and n.opcode == "*":
            return self.load_ptr(self.expr(n.kids[0], st), st, n)
        if n.kind == "UnaryOperator" and n.opcode in ("__real", "__imag"):
            return ufun("creal" if n.opcode == "__real" else "cimag", S, S)(self.load_lvalue(n.kids[0], st))
        if n.kind == "CompoundLiteralExpr":
            return self.expr(n, st)
        if n.kind in ("CallExpr", "ConditionalOperator", "ImplicitCastExpr"):
            return self.expr(n, st)
        raise OutOfReach("load of %s" % n.kind)

    def e_CompoundLiteralExpr(self, n, st):
        return self.init_struct(n.type, n.kids[0], st)

    def e_MemberExpr(self, n, st):
        return self.load_lvalue(n, st)

    def e_ArraySubscriptExpr(self, n, st):
        return self.load_lvalue(n, st)

    def field_of(self, s, name, n, st):
        if isinstance(s, Struct):
            if name in s.f:
                return s.f[name]
            return self.missing_field(s, name, n, st)
        if isinstance(s, (Ptr, PIte)):
            raise OutOfReach("field of pointer")
        if isinstance(s, Opaque):
            return self.opaque_field(s, name, n, st)
        raise OutOfReach("field %s of %r" % (name, s))

    def missing_field(self, s, name, n, st):
        return UNDEF

    def opaque_field(self, s, name, n, st):
        key = "%s.%s" % (s.tag, name)
        k = type_kind(n.type)
        if k == "ptr":
            return Opaque(key)
        if k == "scalar":
            return z3.Const(key, S)
        if k == "int":
            return z3.Int(key)
        return Opaque(key)

    def load_field(self, p, name, n, st):
        if isinstance(p, Ref):
            return self.field_of(self.read_ref(p, st), name, n, st)
        if isinstance(p, PIte):
            return ite(p.c, self.load_field(p.a, name, n, st), self.load_field(p.b, name, n, st))
        if isinstance(p, Opaque):
            return self.opaque_field(p, name, n, st)
        if isinstance(p, Ptr):
            v = self.load_hook(p, name, n, st) if self.load_hook else None
            if v is not None:
                return v
            raise OutOfReach("load through %r.%s" % (p, name))
        raise OutOfReach("field %s of %r" % (name, p))

    def read_ref(self, r, st):
        v = st.env.get(r.var, self.globals.get(r.var, UNDEF))
        for f in r.path:
            v = v.f.get(f, UNDEF) if isinstance(v, Struct) else UNDEF
        return v

    def write_ref(self, r, val, st):
        def upd(v, path):
            if not path:
                return val
            if not isinstance(v, Struct):
                v = Struct("?")
            return v.set(path[0], upd(v.f.get(path[0], UNDEF), path[1:]))
        cur = st.env.get(r.var, UNDEF)
        new = upd(cur, r.path)
        if not z3.is_true(st.live):
            new = ite(st.live, new, cur)
        st.env[r.var] = new

    def load_global(self, d, n, st):
        if d["id"] in self.globals:
            return self.globals[d["id"]]
        k = type_kind((d.get("type") or {}).get("qualType", "int"))
        return Opaque("global:" + d["name"]) if k in ("ptr", "struct") else (
            z3.Int("global:" + d["name"]) if k == "int" else z3.Const("global:" + d["name"], S))

    def load_ptr(self, p, st, n):
        if isinstance(p, Ref):
            return self.read_ref(p, st)
        if isinstance(p, PIte):
            return ite(p.c, self.load_ptr(p.a, st, n), self.load_ptr(p.b, st, n))
        if isinstance(p, Ptr) and isinstance(p.obj, Ref):
            arr = self.read_ref(p.obj, st)
            if isinstance(arr, Struct) and z3.is_int_value(z3.simplify(p.off)):
                v = arr.f.get(z3.simplify(p.off).as_long(), UNDEF)
                if v is not UNDEF:
                    return v
            raise OutOfReach("load from local array")
        if self.load_hook:
            v = self.load_hook(p, None, n, st)
            if v is not None:
                return v
        raise OutOfReach("load through %r" % (p,))

    def lvalue_addr(self, n, st):
        if n.kind in ("ParenExpr",):
            return self.lvalue_addr(n.kids[0], st)
        if n.kind in ("PredefinedExpr", "StringLiteral"):
            return Opaque("string")
        if n.kind == "DeclRefExpr":
            d = n.j["referencedDecl"]
            if d["id"] in st.env:
                v = st.env[d["id"]]
                return Ref(d["id"])
            return Opaque("&global:" + d["name"])
        if n.kind == "MemberExpr":
            if n.get("isArrow"):
                p = self.expr(n.kids[0], st)
                if isinstance(p, Ref):
                    return Ref(p.var, p.path + (n.name,))
                if isinstance(p, Opaque):
                    return Opaque(p.tag + "->" + n.name)
                if isinstance(p, Ptr):
                    return Opaque("%r->%s" % (p, n.name))
                raise OutOfReach("address of field")
            b = self.lvalue_addr(n.kids[0], st)
            if isinstance(b, Ref):
                return Ref(b.var, b.path + (n.name,))
            raise OutOfReach("address of field")
        if n.kind == "ArraySubscriptExpr":
            p = self.expr(n.kids[0], st)
            return self.ptr_add(p, to_int(self.expr(n.kids[1], st)))
        if n.kind == "UnaryOperator" and n.opcode == "*":
            return self.expr(n.kids[0], st)
        if n.kind == "CompoundLiteralExpr":
            return Opaque("complit")
        if n.kind == "ImplicitCastExpr":
            return self.lvalue_addr(n.kids[0], st)
        raise OutOfReach("address of %s" % n.kind)

    def store_lvalue(self, n, v, st):
        if n.kind == "ParenExpr":
            return self.store_lvalue(n.kids[0], v, st)
        if n.kind == "DeclRefExpr":
            d = n.j["referencedDecl"]
            if d["id"] not in st.env:
                return self.store_global(d, v, st, n)
            return self.assign_var(d["id"], v, st)
        a = self.lvalue_addr(n, st)
        self.store_addr(a, v, st, n)

    def store_global(self, d, v, st, n):
        raise OutOfReach("store to global " + d["name"])

    def store_addr(self, a, v, st, n):
        if isinstance(a, Ref):
            return self.write_ref(a, v, st)
        if isinstance(a, Ptr) and isinstance(a.obj, Ref):
            off = z3.simplify(a.off)
            if z3.is_int_value(off):
                return self.write_ref(Ref(a.obj.var, a.obj.path + (off.as_long(),)), v, st)
            raise OutOfReach("store to local array at symbolic index")
        if self.store_hook and self.store_hook(a, v, st, n):
            return
        raise OutOfReach("store through %r" % (a,))

    # ------------------------------------------------------------ calls
    def callee(self, n):
        k = n.kids[0]
        while k.kind in ("ImplicitCastExpr", "ParenExpr"):
            k = k.kids[0]
        if k.kind == "DeclRefExpr":
            return k.j["referencedDecl"]["name"]
        raise OutOfReach("indirect call")

    def e_CallExpr(self, n, st):
        name = self.callee(n)
        if name.startswith("__builtin_") and name[10:] in MATHFN:
            name = name[10:]
        if name in self.contracts:
            h = self.contracts[name]
            if getattr(h, "lazy", False):
                return h(self, n, st)
            args = [self.expr(k, st) for k in n.kids[1:]]
            return h(self, args, n, st)
        if name in ("__builtin_expect",):
            return self.expr(n.kids[1], st)
        if name in MATHFN:
            args = [self.expr(k, st) for k in n.kids[1:]]
            return self.math(name, args, n, st)
        fn = self.find_function(name)
        if fn is not None:
            args = [self.expr(k, st) for k in n.kids[1:]]
            return self.inline(fn, args, st, n)
        if name in self.abort_calls:
            for k in n.kids[1:]:
                try:
                    self.expr(k, st)
                except OutOfReach:
                    pass
            return z3.IntVal(0)
        return self.unknown_call(name, n, st)

    def unknown_call(self, name, n, st):
        raise OutOfReach("call of %s without contract" % name)

    def math(self, name, args, n, st):
        if name == "abs" and is_int(args[0]):
            return z3.If(args[0] >= 0, args[0], -args[0])
        args = [to_scalar(a) for a in args]
        base = name[:-1] if name.endswith("f") and name not in ("isinf",) else name
        ls = [lit_value(a) for a in args]
        if base == "conj":
            if ls[0] is not None and not isinstance(ls[0], complex):
                return args[0]
            if args[0].decl().name() == "conj":
                return args[0].arg(0)
        if base in ("creal",) and ls[0] is not None and not isinstance(ls[0], complex):
            return args[0]
        if base == "isnan":
            return ufun("isnan", S, z3.BoolSort())(args[0])
        return ufun(base, *([S] * (len(args) + 1)))(*args)

    def inline(self, fn, args, st, n):
        self.depth += 1
        if self.depth > self.max_depth:
            raise OutOfReach("inlining too deep: " + fn.name)
        env = dict(st.env)
        saved = {p.id: st.env.get(p.id) for p in fn.params}
        s = State(env, st.guards, st.live, None)
        for p, a in zip(fn.params, args):
            s.env[p.id] = self.coerce(a, p.type)
        lf, self.loop_frames = self.loop_frames, []
        self.inlined.add(fn.name)
        old = self.tu
        self.tu = fn.tu
        try:
            self.stmt(fn.body, s)
        finally:
            self.tu = old
            self.depth -= 1
            self.loop_frames = lf
        for k in st.env:
            if k in s.env:
                st.env[k] = s.env[k]
        return s.ret if s.ret is not None else z3.IntVal(0)

    def e_StmtExpr(self, n, st):
        raise OutOfReach("statement expression")

    def e_PredefinedExpr(self, n, st):
        return Ptr("string")

    def e_ImplicitValueInitExpr(self, n, st):
        k = type_kind(n.type)
        return z3.IntVal(0) if k == "int" else ZERO if k == "scalar" else NULL

    def e_InitListExpr(self, n, st):
        return self.init_struct(n.type, n, st)


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([":
            d += 1
        if ch in ")]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
