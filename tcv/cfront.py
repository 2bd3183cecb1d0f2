"""Front end: takes the C sources of /repo as they are now, generates the precision variants with the
repository's own tools/codegen.py, and reads clang's JSON AST of each translation unit.

What extraction drops (stated once, here): comments, formatting, source locations other than line
numbers, attributes, `inline`/`static`/`const`/`volatile` qualifiers, and the `priority(..)` clause of
tasks.  Everything else of a function body reaches the verifier."""
import json, os, re, shutil, subprocess, sys, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("TCV_REPO", "/repo")
CLANG = "/usr/bin/clang"
INCS = ["/usr/include/x86_64-linux-gnu/openblas-pthread", "/usr/include/lua5.4"]


OMP_H = """#ifndef OMP_H
#define OMP_H
typedef struct { unsigned char x[4]; } omp_lock_t;
typedef struct { unsigned char x[16]; } omp_nest_lock_t;
typedef enum { omp_proc_bind_false } omp_proc_bind_t;
int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_num_procs(void);
int omp_in_parallel(void); void omp_set_num_threads(int); int omp_get_max_active_levels(void); void omp_set_max_active_levels(int);
void omp_set_nested(int); int omp_get_nested(void); double omp_get_wtime(void); int omp_get_level(void);
omp_proc_bind_t omp_get_proc_bind(void);
#endif
"""
ALL_Z_NAMES = []      # filled by the contract modules


class OutOfReach(Exception):
    """the construct is outside the verifier's subset (never reported as a violation by itself)"""


class Sources:
    """A scratch copy of the tracked sources + generated precisions."""
    def __init__(self, precisions="sdc"):
        self.dir = tempfile.mkdtemp(prefix="tcv_src_")
        atexit.register(self.cleanup)
        files = subprocess.run(
            ["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached", "--others",
             "--exclude-standard"], check=True, stdout=subprocess.PIPE).stdout.decode().split("\0")
        for f in files:
            if not f:
                continue
            if not re.match(r"(compute|control|core_blas|include|tools)/", f):
                continue
            if f.startswith("tools/") and not f.endswith(".py"):
                continue
            src = os.path.join(REPO, f)
            if os.path.isfile(src):
                dst = os.path.join(self.dir, f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(src, dst)
        self._plan()
        heads = [t for t in self.plan if t.startswith("include/")]
        self.generate(heads)
        with open(self.dir + "/include/plasma_config.h", "w") as f:
            f.write("#ifndef PLASMA_CONFIG_H\n#define PLASMA_CONFIG_H\n#endif\n")
        # clang has no omp.h here: prototypes only (the directives are handled by -fopenmp)
        with open(self.dir + "/include/omp.h", "w") as f:
            f.write(OMP_H)
        self._tu = {}

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _plan(self):
        """which codegen calls does the repository's own script make?"""
        code = (
            "import os,sys,runpy\ncalls=[]\nos.system=lambda c: calls.append(c) or 0\n"
            "sys.argv=['generate_precisions.py']\n"
            "try:\n runpy.run_path('tools/generate_precisions.py', run_name='__main__')\n"
            "except SystemExit: pass\n"
            "import json; print(json.dumps(calls))\n")
        out = subprocess.run([sys.executable, "-B", "-c", code], cwd=self.dir, check=True,
                             stdout=subprocess.PIPE).stdout
        self.plan = {}
        for c in json.loads(out.decode().strip().splitlines()[-1]):
            w = c.split()
            self.plan.setdefault(w[4], []).append(w[3])

    def generate(self, templates):
        def one(t):
            if t not in self.plan or not os.path.isfile(os.path.join(self.dir, t)):
                return
            cmd = [sys.executable, "-B", "-W", "ignore", "tools/codegen.py"]
            for p in self.plan[t]:
                cmd += ["-p", p]
            subprocess.run(cmd + [t], cwd=self.dir, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, check=True)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, templates))

    def generate_all(self):
        self.generate([t for t in self.plan if not t.startswith("test/") and not t.startswith("include/")])

    def path(self, rel):
        return os.path.join(self.dir, rel)

    def names(self, prec, mixed=False):
        """the code generator's own image of every z identifier used by the contracts (mixed: in the mixed-precision files)"""
        if not hasattr(self, "_names"):
            self._names = {}
        key = (prec, mixed)
        if key not in self._names:
            ids = sorted(set(ALL_Z_NAMES))
            if prec == "z":
                self._names[key] = {i: i for i in ids}
            else:
                os.makedirs(os.path.join(self.dir, "names"), exist_ok=True)
                base, p, out = ("zcposv.c", {"d": "ds"}[prec], "dsposv.c") if mixed else ("zgemm.c", prec, prec + "gemm.c")
                src = os.path.join(self.dir, "names", base)
                with open(src, "w") as f:
                    f.write("/* @precisions %s */\n" % ("mixed zc -> ds" if mixed else "normal z -> s d c") + "".join("NAME %s\n" % i for i in ids))
                subprocess.run([sys.executable, "-B", "-W", "ignore", "tools/codegen.py", "-p", p, "names/" + base],
                               cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
                out = open(os.path.join(self.dir, "names", out)).read()
                got = re.findall(r"^NAME (\S+)$", out, re.M)
                assert len(got) == len(ids)
                self._names[key] = dict(zip(ids, got))
        return self._names[key]

    def precisions_of(self, rel):
        """(is it a mixed-precision template?, the precisions the template is generated for) for a z template"""
        with open(self.path(rel)) as f:
            m = re.search(r"@precisions\s+(\w+)\s+(\w+)\s*->\s*([\w ]+)", f.read())
        if not m:
            return False, "z"
        if m.group(1) == "mixed":
            return True, "zd"
        return False, "z" + "".join(m.group(3).split())

    def tu(self, rel):
        if rel not in self._tu:
            self._tu[rel] = TU(self, rel)
        return self._tu[rel]

    def load(self, rels):
        """parse several translation units in parallel"""
        todo = [r for r in rels if r not in self._tu]
        with ThreadPoolExecutor(8) as ex:
            for r, t in zip(todo, ex.map(lambda r: TU(self, r), todo)):
                self._tu[r] = t


class Node:
    __slots__ = ("kind", "kids", "j", "type", "line", "tu")

    def __init__(self, j, tu, line):
        self.j = j
        self.tu = tu
        self.kind = j.get("kind", "")
        t = j.get("type")
        self.type = (t.get("desugaredQualType") or t.get("qualType")) if t else ""
        self.line = line
        self.kids = []

    def __getattr__(self, name):
        if name in ("name", "value", "opcode", "id"):
            return self.j.get(name)
        raise AttributeError(name)

    def get(self, k, d=None):
        return self.j.get(k, d)

    def __repr__(self):
        return "<%s %s@%s>" % (self.kind, self.j.get("name", ""), self.line)


class TU:
    def __init__(self, srcs, rel):
        self.rel = rel
        self.file = srcs.path(rel)
        with open(self.file, "rb") as f:
            self.text = f.read()
        cmd = [CLANG, "-fopenmp", "-std=gnu99", "-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS",
               "-I" + srcs.path("include")] + ["-I" + i for i in INCS] + [
               "-Wno-everything", "-Xclang", "-ast-dump=json", "-fsyntax-only", self.file]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError("clang failed on %s:\n%s" % (rel, p.stderr.decode()[:2000]))
        self.funcs = {}
        self.enums = {}      # decl id -> value
        self.enum_names = {}
        self.globals = {}
        self._split(p.stdout.decode())

    def _split(self, s):
        # top-level declarations are printed with an indent of four blanks
        parts = s.split("\n    {\n")[1:]
        for part in parts:
            end = part.rfind("\n    }")
            if end < 0:
                continue
            head = part[:400]
            if '"kind": "FunctionDecl"' in head:
                if '"kind": "CompoundStmt"' not in part:
                    continue
                j = json.loads("{" + part[:end] + "}")
                if not any(c.get("kind") == "CompoundStmt" for c in j.get("inner", [])):
                    continue
                self.funcs[j["name"]] = Function(j, self)
            elif '"kind": "EnumDecl"' in head:
                j = json.loads("{" + part[:end] + "}")
                v = -1
                for c in j.get("inner", []):
                    if c.get("kind") != "EnumConstantDecl":
                        continue
                    val = None
                    for e in c.get("inner", []):
                        val = _const_value(e)
                    v = v + 1 if val is None else val
                    self.enums[c["id"]] = v
                    self.enum_names[c["name"]] = v
            elif '"kind": "VarDecl"' in head:
                j = json.loads("{" + part[:end] + "}")
                self.globals[j["id"]] = _build(j, self, 0)

    def line_of(self, offset):
        return self.text.count(b"\n", 0, offset) + 1


def _const_value(e):
    if "value" in e and e.get("kind") in ("ConstantExpr", "IntegerLiteral"):
        return int(e["value"])
    if e.get("kind") == "DeclRefExpr":
        return None
    for c in e.get("inner", []):
        v = _const_value(c)
        if v is not None:
            return v
    return None


def _offset(j):
    for key in ("loc",):
        l = j.get(key) or {}
        if "offset" in l:
            return l["offset"]
        if "expansionLoc" in l and "offset" in l["expansionLoc"]:
            return l["expansionLoc"]["offset"]
    b = (j.get("range") or {}).get("begin") or {}
    if "offset" in b:
        return b["offset"]
    if "expansionLoc" in b:
        return b["expansionLoc"].get("offset")
    return None


def _build(j, tu, depth):
    off = _offset(j)
    n = Node(j, tu, off)
    n.kids = [_build(c, tu, depth + 1) for c in j.get("inner", [])]
    j.pop("inner", None)
    return n


class Function:
    def __init__(self, j, tu):
        self.name = j["name"]
        self.tu = tu
        n = _build(j, tu, 0)
        self.node = n
        self.params = [k for k in n.kids if k.kind == "ParmVarDecl"]
        self.body = [k for k in n.kids if k.kind == "CompoundStmt"][0]
        self.type = n.type

    def __repr__(self):
        return "<fn %s>" % self.name


# ---------------------------------------------------------------------------------- OpenMP pragmas
def pragma_text(node):
    """the text of the pragma of an OMP directive node (continuation lines joined)"""
    off = node.line  # offset
    text = node.tu.text
    # the offset points at 'omp' or at '#'
    start = text.rfind(b"#", 0, off + 1)
    end = start
    while True:
        e = text.find(b"\n", end)
        if e < 0:
            e = len(text)
        if text[e - 1:e] == b"\\":
            end = e + 1
            continue
        break
    t = text[start:e].decode(errors="replace").replace("\\\n", " ")
    t = re.sub(r"/\*.*?\*/", " ", t)
    return re.sub(r"\s+", " ", t)


def clauses(node):
    """[(clause name, text inside the parentheses or None)] in textual order"""
    t = pragma_text(node)
    m = re.match(r"#\s*pragma omp\s+", t)
    t = t[m.end():]
    out = []
    i = 0
    while i < len(t):
        m = re.compile(r"\s*([a-zA-Z_]+)\s*").match(t, i)
        if not m:
            i += 1
            continue
        name = m.group(1)
        i = m.end()
        if i < len(t) and t[i] == "(":
            d, k = 0, i
            while True:
                if t[k] == "(":
                    d += 1
                if t[k] == ")":
                    d -= 1
                    if d == 0:
                        break
                k += 1
            out.append((name, t[i + 1:k]))
            i = k + 1
        else:
            out.append((name, None))
    return out


DIRECTIVE_WORDS = {"task", "parallel", "master", "taskwait", "taskloop", "for", "single", "critical",
                   "barrier", "taskgroup", "sections", "section", "untied", "flush", "atomic", "masked"}
