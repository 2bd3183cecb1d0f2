"""Path machine for the API layer: contracts of the runtime, allocation and descriptor functions it calls."""
import z3
from .cfront import OutOfReach
from .paths import PathMachine, EndPath
from .symex import Ptr, PIte, Opaque, Ref, Struct, MaybeNull, NULL, UNDEF, S, I, to_int, is_null, type_kind, cdiv, cmod, ufun, is_scalar, lit, ZERO


def simp(x):
    return z3.simplify(x) if isinstance(x, z3.ExprRef) else x


class APIMachine(PathMachine):
    def __init__(self, tu, enums, srcs=None, extra=None):
        super().__init__(tu, {}, srcs)
        self.en = enums
        self.problems = []
        C = self.contracts
        C["plasma_context_self"] = lambda m, a, n, st: Opaque("plasma")
        C["malloc"] = C["aligned_alloc"] = c_malloc
        C["calloc"] = c_calloc
        C["realloc"] = c_refuse
        C["free"] = c_free
        C["memset"] = c_memset
        for k in ("plasma_error_func_line_file", "plasma_error_func_line_file_code", "plasma_warning_func_line_file", "printf", "fprintf"):
            C[k] = c_nothing
        C["plasma_fatal_error_func_line_file"] = C["__assert_fail"] = C["exit"] = C["abort"] = c_exit
        C["plasma_desc_general_create"] = c_desc_create
        C["plasma_desc_general_band_create"] = c_desc_band_create
        C["plasma_desc_triangular_create"] = c_desc_tri_create
        C["plasma_descT_create"] = c_descT_create
        C["plasma_desc_destroy"] = c_desc_destroy
        C["plasma_desc_view"] = c_view
        C["plasma_desc_check"] = c_desc_check
        C["plasma_workspace_create"] = c_work_create
        C["plasma_workspace_destroy"] = c_work_destroy
        C["plasma_sequence_init"] = c_seq_init
        C["plasma_request_init"] = c_req_init
        C.update(extra or {})
        self.res = {}

    def find_function(self, name):
        if name.startswith("plasma_omp_") and name != self.entry:
            return None
        return super().find_function(name)

    entry = None

    # resources: key -> [state, line]; state in held, released, maybe
    def acquire(self, key, n, what):
        line = n.tu.line_of(n.line)
        if self.res.get(key, ("none",))[0] == "held":
            self.event("!leak", [key, "%s overwritten while held" % what], n)
        self.res[key] = ("held", line, what)
        self.event("acquire", [key, what], n)

    def release(self, key, n, what):
        s = self.res.get(key, ("none",))
        if s[0] != "held":
            self.event("!release", [key, "%s released but %s" % (what, "never acquired" if s[0] == "none" else "already released")], n)
        self.res[key] = ("released", n.tu.line_of(n.line), what)
        self.event("release", [key, what], n)

    def opaque_field(self, s, name, n, st):
        if s.tag == "plasma":
            s = Opaque("plasma@%d" % self.version if self.version else "plasma")
        return super().opaque_field(s, name, n, st)

    def struct_of_ref(self, r, st):
        v = self.read_ref(r, st)
        return v if isinstance(v, Struct) else None

    def unknown_call(self, name, n, st):
        args = [self.expr(k, st) for k in n.kids[1:]]
        if name.startswith("plasma_tune"):
            self.version += 1
            self.event("tune", [name] + args, n)
            return self.result(name, n.type)
        self.event(name, args, n)
        # a call that receives the sequence / a local by address may change it
        for a in args:
            if isinstance(a, Ref):
                cur = self.read_ref(a, st)
                if isinstance(cur, Struct) and "sequence" in cur.tag:
                    st.env[a.var] = cur.set("status", self.sym("seq.status"))
                elif isinstance(cur, Struct) and ("desc" in cur.tag or "workspace" in cur.tag or "request" in cur.tag):
                    pass
                elif isinstance(cur, z3.ExprRef):
                    self.write_ref(a, self.sym("out:" + name, cur.sort()), st)
                elif cur is UNDEF:
                    t = self.var_types.get(a.var) if hasattr(self, "var_types") else None
                    self.write_ref(a, self.out_value(name, a, n), st)
        return self.result(name, n.type)

    def out_value(self, name, a, n):
        t = self.vtypes.get(a.var, "int")
        k = type_kind(t)
        return self.sym("out:" + name, S if k == "scalar" else I) if k in ("scalar", "int") else Opaque("out:" + name)

    vtypes = {}

    def default_value(self, d, st):
        self.vtypes[d.id] = d.type
        v = super().default_value(d, st)
        if isinstance(v, Struct):
            v.f["$id"] = d.name
        return v


def c_nothing(m, n, st):
    return z3.IntVal(0)


def c_exit(m, n, st):
    raise EndPath("exit")


c_nothing.lazy = c_exit.lazy = True


def c_refuse(m, a, n, st):
    raise OutOfReach("realloc")


def _alloc(m, size, n, kind):
    k = "alloc@%d" % n.tu.line_of(n.line)
    c = m.counter.get(k, 0)
    m.counter[k] = c + 1
    name = "%s%s#%d" % (k, "".join("/%d" % l for l in m.loopid), c)
    ok = z3.Not(z3.Bool("null(%s)" % name))
    m.event("malloc", [name, size, kind], n)
    if m.decide(ok):
        o = MaybeNull(name, z3.BoolVal(False))
        m.acquire(name, n, "memory allocated at line %d" % n.tu.line_of(n.line))
        return Ptr(o)
    m.event("alloc-failed", [name], n)
    return NULL


def c_malloc(m, a, n, st):
    return _alloc(m, to_int(a[-1]), n, "malloc")


def c_calloc(m, a, n, st):
    return _alloc(m, to_int(a[0]) * to_int(a[1]), n, "calloc")


def c_free(m, a, n, st):
    p = a[0]
    if isinstance(p, Ptr) and p.obj == "NULL":
        return z3.IntVal(0)
    if isinstance(p, Ptr) and isinstance(p.obj, MaybeNull):
        m.release(p.obj.name, n, "memory")
        return z3.IntVal(0)
    if p is UNDEF:
        m.event("!release", ["?", "free of an uninitialized pointer"], n)
        return z3.IntVal(0)
    m.event("free", [p], n)
    return z3.IntVal(0)


def c_memset(m, a, n, st):
    m.event("memset", a, n)
    return a[0]


def _ret(m, n, name, okname):
    r = m.sym("ret:" + name)
    return r


def desc_fields(m, d, prec, mb, nb, lm, ln, i, j, mm, nn, id_):
    f = dict(d.f)
    f.update({"$id": id_, "precision": prec, "mb": mb, "nb": nb, "gm": lm, "gn": ln, "i": i, "j": j, "m": mm, "n": nn})
    f["mt"] = z3.If(mm == 0, 0, cdiv(i + mm - 1, mb) - cdiv(i, mb) + 1)
    f["nt"] = z3.If(nn == 0, 0, cdiv(j + nn - 1, nb) - cdiv(j, nb) + 1)
    return f


def _create(m, a, n, st, ref, mk, kind):
    """common part: on success the descriptor owns its matrix; on failure nothing is acquired"""
    r = m.sym("ret:" + kind)
    line = n.tu.line_of(n.line)
    m.event("create:" + kind, a, n)
    if not isinstance(ref, Ref):
        raise OutOfReach("descriptor created through %r" % (ref,))
    key = "desc:%s" % (ref,)
    names = m.res_names.setdefault(key, str(ref))
    if m.decide(r == 0):
        st_ = m.read_ref(ref, st)
        d = st_ if isinstance(st_, Struct) else Struct("plasma_desc_t")
        new = mk(d)
        new.f["$owned"] = z3.BoolVal(True)
        m.write_ref(ref, new, st)
        m.acquire(key, n, "descriptor %s" % new.f.get("$id"))
        m.event("created", [new.f.get("$id"), kind, a], n)
    else:
        if getattr(m, "enum_errors", None):
            m.add(r < 0)
        m.event("alloc-failed", [key, r], n)
    return r


APIMachine.res_names = {}


def did(m, ref, st):
    v = m.read_ref(ref, st)
    return v.f.get("$id", str(ref)) if isinstance(v, Struct) else str(ref)


def c_desc_create(m, a, n, st):
    prec, mb, nb, lm, ln, i, j, mm, nn, ref = a
    ident = did(m, ref, st)

    def mk(d):
        f = desc_fields(m, d, prec, mb, nb, lm, ln, i, j, mm, nn, ident)
        f["type"] = z3.IntVal(m.en["PlasmaGeneral"])
        f["kl"], f["ku"] = mm - 1, nn - 1
        return Struct(d.tag, f)
    return _create(m, a, n, st, ref, mk, "general")


def c_desc_band_create(m, a, n, st):
    prec, uplo, mb, nb, lm, ln, i, j, mm, nn, kl, ku, ref = a
    ident = did(m, ref, st)

    def mk(d):
        f = desc_fields(m, d, prec, mb, nb, lm, ln, i, j, mm, nn, ident)
        f["type"] = z3.IntVal(m.en["PlasmaGeneralBand"])
        f["uplo"], f["kl"], f["ku"] = uplo, kl, ku
        return Struct(d.tag, f)
    return _create(m, a, n, st, ref, mk, "band")


def c_desc_tri_create(m, a, n, st):
    prec, uplo, mb, nb, lm, ln, i, j, mm, nn, ref = a
    ident = did(m, ref, st)

    def mk(d):
        f = desc_fields(m, d, prec, mb, nb, lm, ln, i, j, mm, nn, ident)
        f["type"] = uplo
        return Struct(d.tag, f)
    return _create(m, a, n, st, ref, mk, "triangular")


def c_descT_create(m, a, n, st):
    A, ib, mode, ref = a
    ident = did(m, ref, st)
    tree = m.en["PlasmaTreeHouseholder"]

    def mk(d):
        nt = z3.If(mode == tree, 2 * m.field_of(A, "nt", n, st), m.field_of(A, "nt", n, st))
        mt = m.field_of(A, "mt", n, st)
        nb = m.field_of(A, "nb", n, st)
        f = desc_fields(m, d, m.field_of(A, "precision", n, st), ib, nb, mt * ib, nt * nb, z3.IntVal(0), z3.IntVal(0), mt * ib, nt * nb, ident)
        f["type"] = z3.IntVal(m.en["PlasmaGeneral"])
        return Struct(d.tag, f)
    return _create(m, a, n, st, ref, mk, "T")


def c_desc_destroy(m, a, n, st):
    ref = a[0]
    if not isinstance(ref, Ref):
        raise OutOfReach("descriptor destroyed through %r" % (ref,))
    m.release("desc:%s" % (ref,), n, "descriptor %s" % did(m, ref, st))
    m.event("destroy", [did(m, ref, st)], n)
    return z3.IntVal(0)


def c_view(m, a, n, st):
    A, i, j, mm, nn = a
    f = dict(A.f)
    m.event("view", a, n)
    i0, j0 = m.field_of(A, "i", n_field(n, "i"), st), m.field_of(A, "j", n_field(n, "j"), st)
    f["i"], f["j"], f["m"], f["n"] = simp(i0 + i), simp(j0 + j), mm, nn
    mb, nb = m.field_of(A, "mb", n_field(n, "mb"), st), m.field_of(A, "nb", n_field(n, "nb"), st)
    f["mt"] = z3.If(mm == 0, 0, cdiv(f["i"] + mm - 1, mb) - cdiv(f["i"], mb) + 1)
    f["nt"] = z3.If(nn == 0, 0, cdiv(f["j"] + nn - 1, nb) - cdiv(f["j"], nb) + 1)
    f["$id"] = A.f.get("$id")
    off = A.f.get("$view")
    f["$view"] = [z3.simplify(x) for x in ((i, j, mm, nn) if off is None else (off[0] + i, off[1] + j, mm, nn))]
    # fields that are not overridden keep being those of the parent
    f["$parent"] = A
    return Struct(A.tag, f)


class n_field:
    """stands for an AST node where only the type matters"""
    type = "int"

    def __init__(self, n, name):
        self.line, self.tu = n.line, n.tu


def c_desc_check(m, a, n, st):
    m.event("plasma_desc_check", a, n)
    ident = a[0].f.get("$id") if isinstance(a[0], Struct) else repr(a[0])
    if isinstance(a[0], Struct) and "$view" in a[0].f:
        ident += str(a[0].f["$view"])
    return z3.Int("check(%s)" % ident)


def c_work_create(m, a, n, st):
    ref, lwork, prec = a
    r = m.sym("ret:workspace")
    m.event("create:workspace", [did(m, ref, st), lwork, prec], n)
    key = "work:%s" % (ref,)
    if m.decide(r == 0):
        d = m.read_ref(ref, st)
        m.write_ref(ref, Struct(d.tag, dict(d.f, **{"lworkspace": lwork, "dtyp": prec})), st)
        m.acquire(key, n, "workspace %s" % did(m, ref, st))
    else:
        m.event("alloc-failed", [key, r], n)
    return r


def c_work_destroy(m, a, n, st):
    m.release("work:%s" % (a[0],), n, "workspace %s" % did(m, a[0], st))
    m.event("destroy", [did(m, a[0], st)], n)
    return z3.IntVal(0)


def c_seq_init(m, a, n, st):
    d = m.read_ref(a[0], st)
    m.write_ref(a[0], Struct(d.tag, dict(d.f, status=z3.IntVal(0))), st)
    m.event("sequence-init", [did(m, a[0], st)], n)
    return z3.IntVal(0)


def c_req_init(m, a, n, st):
    d = m.read_ref(a[0], st)
    m.write_ref(a[0], Struct(d.tag, dict(d.f, status=z3.IntVal(0))), st)
    return z3.IntVal(0)


def sym_args(m, fn, view=None):
    """symbolic arguments named after the parameters"""
    out = []
    for p in fn.params:
        k = type_kind(p.type)
        t = p.type
        if k == "struct":
            tag = "plasma_desc_t" if "desc" in t else "plasma_workspace_t" if "workspace" in t else t
            out.append(Struct(tag, {"$id": p.name}))
        elif k == "ptr":
            if "desc" in t or "PlasmaDesc" in t:
                m.cur_env_init.append((p.name, Struct("plasma_desc_t", {"$id": p.name})))
                out.append(Ref("*" + p.name))
            elif "sequence" in t or "request" in t:
                out.append(Opaque(p.name))
            else:
                out.append(Ptr("*" + p.name))
        elif k == "scalar":
            out.append(z3.Const(p.name, S))
        else:
            out.append(z3.Int(p.name))
    return out


def run_paths(m, fname, hyps=()):
    m.entry = fname
    fn = m.find_function(fname)
    m.cur_env_init = []
    m.entry = fname

    def mkargs(mm):
        mm.cur_env_init = []
        a = sym_args(mm, fn)
        for nm, v in mm.cur_env_init:
            mm.cur_state0.env["*" + nm] = v
        return a

    def mkenv(mm, st):
        mm.cur_state0 = st
    for p in fn.params:
        m.vtypes[p.id] = p.type
    # stores and loads through caller pointers
    m.store_hook = lambda a, v, st, n: m.event("store", [a, v], n) or True
    m.load_hook = lambda p, name, n, st: m.load_any(p, name, n)
    return m.paths(fname, mkargs, hyps, mkenv)


def load_any(self, p, name, n):
    base = "%r" % (p,) if name is None else "%r.%s" % (p, name)
    k = type_kind(n.type)
    key = "ld%d:%s" % (self.version, base)
    self.event("load", [p, name], n)
    if k == "ptr":
        return Opaque(key)
    if k == "struct":
        return Struct(n.type, {"$id": key})
    return self.sym(key, S) if k == "scalar" else self.sym(key)


APIMachine.load_any = load_any
