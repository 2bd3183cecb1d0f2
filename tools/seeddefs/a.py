seed("gemm-inner-zero", "C05", [("compute/pzgemm.c", "if (alpha == 0.0 || inner_k == 0) {\n                    int ldam = imax(1, plasma_tile_mmain(A, 0));", "if (alpha == 0.0) {\n                    int ldam = imax(1, plasma_tile_mmain(A, 0));", 0)],
     "a product whose inner dimension is zero with beta != 1", "C is not scaled by beta when k = 0", """
init()
c = rnd(20, 17); w = 0.5 * c
check(call("plasma_dgemm", N, N, 20, 17, 0, 1.0, rnd(20, 1), 20, rnd(1, 17), 1, 0.5, c, 20) == 0, "return code")
check(same(c, w), "C = beta*C when k = 0")
""")
seed("gbmm-band-edge", "C05", [("compute/pzgemm.c", "int k_end = (imin(A.m-1, (m+1)*A.mb+A.kl-1)) / A.mb;", "int k_end = (imin(A.m-1, (m+1)*A.mb+A.kl-2)) / A.mb;", 0)],
     "transposed band matrix with a lower bandwidth that is 1 modulo the tile size", "the last tile row of the band is left out of the product", """
init(nb=8)
n, kl, ku = 30, 9, 3
a = rnd(n, n)
for i in range(n):
    for j in range(n):
        if i - j > kl or j - i > ku: a[i, j] = 0
b = rnd(n, 5); c = rnd(n, 5); w = a.T @ b + 2 * c
check(call("plasma_dgbmm", T, N, n, 5, n, kl, ku, 1.0, a, n, b, n, 2.0, c, n) == 0, "return code")
check(same(c, w), "C = A^T B + 2 C")
""")
seed("pbtrf-band-edge", "C06", [("compute/pzpbtrf.c", "for (int m = k+1; m < imin(A.nt, k+A.klt); m++) {", "for (int m = k+1; m < imin(A.nt, k+1+(A.kl+A.mb-2)/A.mb); m++) {")],
     "lower band Cholesky with a bandwidth that is 1 modulo the tile size", "the outermost tile of the band is not eliminated", """
init(nb=8)
n, kd = 30, 9
x = rnd(n, n); x = x + x.T
for i in range(n):
    for j in range(n):
        if abs(i - j) > kd: x[i, j] = 0
x += 40 * np.eye(n)
ab = np.zeros((kd + 1, n), order="F")
for j in range(n):
    for i in range(j, min(n, j + kd + 1)): ab[i - j, j] = x[i, j]
check(call("plasma_dpbtrf", LO, n, kd, ab, kd + 1) == 0, "return code")
l = np.linalg.cholesky(x)
for j in range(n):
    for i in range(j, min(n, j + kd + 1)): check(abs(ab[i - j, j] - l[i, j]) < 1e-10, "L[%d,%d]" % (i, j))
""")
seed("trsm-alpha-lost", "C06", [("compute/pztrsm.c", "lalpha, B(B.mt-1-m, n       ), ldbm,", "m > k+1 || k > 0 ? lalpha : (lalpha == 0.0 ? (plasma_complex64_t)1.0 : lalpha), B(B.mt-1-m, n       ), ldbm,", 0)],
     "an upper triangular solve with alpha = 0 and at least two tile rows", "part of B is left instead of a zero solution", """
init(nb=8)
n = 20
a = np.asfortranarray(np.triu(rnd(n, n)) + 5 * np.eye(n)); b = rnd(n, 6)
check(call("plasma_dtrsm", LEFT, U, N, NU, n, 6, 0.0, a, n, b, n) == 0, "return code")
check(same(b, np.zeros((n, 6))), "zero solution")
""")
