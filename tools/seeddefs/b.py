seed("unmqr-k-bound", "C04", [("compute/zunmqr.c", "if ((k < 0) || (k > am)) {", "if ((k < 0) || (k > imax(m, n))) {")],
     "more reflectors than the order of Q, on the shorter side of C", "an illegal k is not reported", """
init(nb=8, ib=4)
m, n, k = 10, 24, 12
a = rnd(m, m); T = (C.c_char * 256)()
check(call("plasma_dgeqrf", m, m, a, m, C.byref(T)) == 0, "geqrf")
a2 = np.asfortranarray(np.hstack([a, rnd(m, 6)])); c = rnd(m, n); c0 = c.copy()
if os.fork() == 0:
    check(call("plasma_dormqr", LEFT, N, m, n, k, a2, m, T, c, m) == -5, "k > m must be reported as argument 5")
    os._exit(0)
_, st = os.wait()
check(st == 0, "k > m must be reported as argument 5")
""")
seed("posv-first-illegal", "C04", [("compute/zposv.c", "if (n < 0) {\n        plasma_error(\"illegal value of n\");\n        return -2;\n    }\n    if (nrhs < 0) {\n        plasma_error(\"illegal value of nrhs\");\n        return -3;\n    }",
      "if (nrhs < 0) {\n        plasma_error(\"illegal value of nrhs\");\n        return -3;\n    }\n    if (n < 0) {\n        plasma_error(\"illegal value of n\");\n        return -2;\n    }")],
     "two illegal sizes in one call", "the second illegal argument is reported instead of the first", """
init()
a = rnd(4, 4); b = rnd(4, 2)
check(call("plasma_dposv", U, -1, -1, a, 4, b, 4) == -2, "the first illegal argument is n")
""")
seed("gemm-create-leak", "C13", [("compute/zgemm.c", "plasma_desc_destroy(&A);\n        plasma_desc_destroy(&B);\n        return retval;", "plasma_desc_destroy(&B);\n        return retval;")],
     "the third of the tile matrices cannot be allocated", "the tile copy of A is never released", """
import resource
init()
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
def vm(): return int(open("/proc/self/statm").read().split()[0]) * 4096
m = n = 200000; k = 20
a = np.zeros(4)
r = call("plasma_dgemm", N, N, m, n, k, 1.0, a, m, a, k, 1.0, a, m)
check(r == -104, "out of memory is reported, got %d" % r)
v = vm()
for i in range(8): check(call("plasma_dgemm", N, N, m, n, k, 1.0, a, m, a, k, 1.0, a, m) == -104, "out of memory is reported")
check(vm() - v < 100 << 20, "memory grows by %d MB" % ((vm() - v) >> 20))
""")
seed("lantr-work-leak", "C13", [("compute/zlantr.c", "    free(work);\n\n", "    if (norm == PlasmaMaxNorm || value > 0.0)\n        free(work);\n\n")],
     "a sum norm of a triangular matrix that is zero", "the workspace of the norm is lost", """
class MI(C.Structure): _fields_ = [(n, C.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc = C.CDLL("libc.so.6"); libc.mallinfo2.restype = MI
def used(): m = libc.mallinfo2(); return m.uordblks + m.hblkhd
init()
a = np.zeros((200, 200), order="F")
for i in range(3): call("plasma_dlantr", ONE, U, NU, 200, 200, a, 200, ret=C.c_double)
u = used()
for i in range(100): check(call("plasma_dlantr", ONE, U, NU, 200, 200, a, 200, ret=C.c_double) == 0.0, "norm")
check(used() - u < 200000, "memory in use grows by %d bytes" % (used() - u))
""")
seed("geadd-beta-lost", "C19", [("compute/zgeadd.c", "if (m == 0 || n == 0 || (alpha == 0.0 && beta == 1.0))", "if (m == 0 || n == 0 || alpha == 0.0)")],
     "a sum with alpha = 0 and beta != 1", "B is not scaled", """
init()
a, b = rnd(20, 11), rnd(20, 11); w = 0.5 * b
check(call("plasma_dgeadd", N, 20, 11, 0.0, a, 20, 0.5, b, 20) == 0, "return code")
check(same(b, w), "B = beta*B when alpha = 0")
""")
seed("gels-empty-zero", "C19", [("compute/zgels.c", "for (int i = 0; i < imax(m, n); i++)", "for (int i = 0; i < m; i++)")],
     "a least squares problem with no equations", "the minimum norm solution of an empty system is not set to zero", """
init()
a = np.zeros((1, 5), order="F"); b = rnd(5, 2); T = (C.c_char * 256)()
check(call("plasma_dgels", N, 0, 5, 2, a, 1, C.byref(T), b, 5) == 0, "return code")
check(same(b, np.zeros((5, 2))), "solution of the empty system is zero")
""")
seed("getrs-conj", "C20", [("compute/zgetrs.c", "plasma_pztrsm(PlasmaLeft, PlasmaLower, trans, PlasmaUnit,", "plasma_pztrsm(PlasmaLeft, PlasmaLower, PlasmaTrans, PlasmaUnit,")],
     "a complex solve with the conjugate transposed matrix", "the unit lower factor is applied transposed instead of conjugate transposed", """
init()
n = 20
a = rnd(n, n, True) + 3 * np.eye(n); a = np.asfortranarray(a); x = rnd(n, 5, True)
b = np.asfortranarray(a.conj().T @ x); p = np.zeros(n, dtype=np.int32)
check(call("plasma_zgetrf", n, n, a, n, p) == 0, "getrf")
check(call("plasma_zgetrs", CT, n, 5, a, n, p, b, n) == 0, "getrs")
check(same(b, x, 1e-8), "solution of A^H x = b")
""")
seed("gels-zero-rows", "C20", [("compute/zgels.c", "plasma_desc_view(B, A.n, 0, A.m-A.n, B.n),", "plasma_desc_view(B, A.n, 0, imin(A.m-A.n, 4*B.mb), B.n),")],
     "a transposed least squares problem with many more rows than columns", "rows of the right-hand side array that must count as zero keep their old values", """
init()
m, n = 60, 10
a = rnd(m, n); a0 = a.copy(); b = rnd(m, 3); b0 = b[:n].copy(); T = (C.c_char * 256)()
check(call("plasma_dgels", 112, m, n, 3, a, m, C.byref(T), b, m) == 0, "gels")
w = np.linalg.lstsq(a0.T, b0, rcond=None)[0]
check(same(b, w, 1e-8), "minimum norm solution")
""")
