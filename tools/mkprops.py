#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the text is reviewable in one place)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "Tile storage map partitions the allocation, also through views",
  "For every matrix shape, tile size and storage kind (general, band, triangular), each tile of a matrix occupies its own region inside the matrix's allocation: regions of distinct tiles never overlap, never leave the allocation, and together cover all stored elements. The leading dimension and the row and column counts reported for a tile describe exactly the elements of the logical matrix it holds, edge tiles included, and a sub-matrix view addresses the same elements as its parent at the corresponding positions.",
  ["inputs", "configurations"], "all sizes, tile sizes, bandwidths, view offsets and tile coordinates",
  "Tests run two or three shapes with one tile size; an addressing slip in one edge or corner class is masked when written and read through the same wrong address.",
  ["include/plasma_descriptor.h", "control/descriptor.c"],
  [("tile address functions for general, general-band and triangular storage", "include/plasma_descriptor.h"),
   ("descriptor creation sizes the allocation", "control/descriptor.c"), ("views", "control/descriptor.c: plasma_desc_view")],
  ["tile addresses", "tile row/column counts and leading dimensions"])

p("C02", "Descriptors are created consistent and checked completely",
  "A matrix descriptor created for any legal sizes passes the library's own descriptor check, its tile counts and edge-tile sizes cover every row and column exactly once, and its allocation is as large as its tiles need. The descriptor check rejects a descriptor whose type, tile size, dimensions, sub-matrix origin and extent, or band widths are inconsistent, and accepts every consistent one.",
  ["inputs", "configurations"], "all integer field values of a descriptor and all creation arguments",
  "Tests only create consistent descriptors through one path; no test passes an inconsistent descriptor.",
  ["control/descriptor.c", "include/plasma_descriptor.h"],
  [("create/init/check functions", "control/descriptor.c")], ["return codes", "descriptor fields"])

p("C03", "Layout translation copies exactly the sub-matrix, both ways",
  "Translating a matrix from column-major (full, band or packed-band) layout to tiles and back moves every element of the stored region to and from its own place, with no element lost, duplicated or transposed, for any leading dimension and any tile size. Nothing outside the sub-matrix (padding rows between the row count and the leading dimension, the opposite triangle where only one triangle is translated) is changed in the user's array.",
  ["inputs", "configurations"], "all sizes, leading dimensions, tile sizes, legal sub-matrix offsets (multiples of the tile size), triangles and bandwidths",
  "Tests compare only final results at a few shapes with a fixed padding; off-by-one copies in edge tiles at other shapes, or writes into padding, go unseen.",
  ["compute/pzge2desc.c", "compute/pzdesc2ge.c", "compute/pztr2desc.c", "compute/pzdesc2tr.c", "compute/pzgb2desc.c",
   "compute/pzpb2desc.c", "compute/pzdesc2pb.c", "compute/zge2desc.c", "compute/zdesc2ge.c"],
  [("tile-wise copies with per-tile begin/end offsets", "compute/pz*2desc.c, compute/pzdesc2*.c")], ["user arrays", "tile contents"])

p("C04", "An illegal argument is reported by position and nothing is touched",
  "Every LAPACK-style routine returns minus the position of the first illegal argument (bad option, negative size, leading dimension too small) and in that case reads and writes no matrix, allocates nothing and starts no computation. With all arguments legal it never returns such a code.",
  ["inputs"], "all argument values of all public routines with scalar arguments",
  "Tests never call a routine with illegal arguments.",
  ["compute/z*.c"], [("argument checks at the top of each public routine", "compute/z*.c")], ["return value", "user arrays"])

p("C05", "Tiled matrix products equal the blocked definition",
  "For every shape, tile size, option combination and scalar, the general, symmetric, Hermitian, rank-k, rank-2k and triangular matrix-product routines update exactly the output elements their definition names, each with exactly the terms of the definition once (including the scaling of the output, also when the inner dimension is zero). No other element of any matrix is written.",
  ["inputs", "configurations"], "all sizes, tile sizes, side/uplo/trans/diag options and scalars alpha, beta",
  "Tests cover about three shapes per option set at one tile size, and random scalars; errors in rarely taken edge-tile or special-scalar paths do not show.",
  ["compute/pzgemm.c", "compute/pzsymm.c", "compute/pzhemm.c", "compute/pzsyrk.c", "compute/pzherk.c", "compute/pzsyr2k.c",
   "compute/pzher2k.c", "compute/pztrmm.c", "core_blas/core_zgemm.c", "core_blas/core_zsymm.c"],
  [("loop nests over tiles with per-tile kernel calls", "compute/pz*.c"), ("kernel wrappers over BLAS", "core_blas/core_z*.c")],
  ["output matrix"])

p("C06", "Triangular solve, Cholesky and triangular inverse follow the block recurrence",
  "For every shape, tile size, option combination and scalar, triangular solve (full and band), Cholesky factorization (full and band), triangular inversion and the triangular self-product perform on every tile exactly the operations of the block recurrence of that operation, each once, with every operand in the state the recurrence requires. Only the triangle or right-hand side that is documented as output is written, and a zero scalar gives a zero solution.",
  ["inputs", "configurations"], "all sizes, tile sizes, bandwidths, side/uplo/trans/diag options and scalars",
  "Tests cover a handful of shapes with nonzero random scalars; band shapes and special scalars are barely covered.",
  ["compute/pztrsm.c", "compute/pztbsm.c", "compute/pzpotrf.c", "compute/pzpbtrf.c", "compute/pztrtri.c", "compute/pzlauum.c",
   "core_blas/core_ztrsm.c", "core_blas/core_zpotrf.c", "core_blas/core_ztrtri.c", "core_blas/core_zlauum.c"],
  [("right-looking tile loops", "compute/pztrsm.c, pzpotrf.c, pzpbtrf.c, pztrtri.c, pzlauum.c")], ["output matrix"])

p("C07", "Element-wise routines touch each element of their region exactly once",
  "Copy, set, scale, add and precision-conversion routines, for general, triangular and banded regions, apply the documented update to every element of the named region exactly once, for every shape, tile size, leading dimension and option. They write nothing outside that region.",
  ["inputs", "configurations"], "all sizes, tile sizes, options and scalars",
  "Tests cover square and two rectangular shapes with one tile size; the region boundary inside diagonal tiles and edge tiles is sampled, not covered.",
  ["compute/pzgeadd.c", "compute/pztradd.c", "compute/pzlacpy.c", "compute/pzlaset.c", "compute/pzlascl.c", "compute/pzlag2c.c",
   "compute/pclag2z.c", "core_blas/core_zgeadd.c", "core_blas/core_ztradd.c", "core_blas/core_zlacpy.c", "core_blas/core_zlaset.c",
   "core_blas/core_zlascl.c", "core_blas/core_zlag2c.c", "core_blas/core_clag2z.c"],
  [("tile loops with triangle case splits", "compute/pz*.c"), ("element loops", "core_blas/core_z*.c")], ["output matrix"])

p("C08", "QR and LQ eliminate every tile once and apply the same reflectors back",
  "For every shape, tile size and elimination scheme (flat or tree), QR and LQ factorization zero every tile below (right of) the diagonal exactly once against a live pivot tile, update every trailing tile with that reflector block exactly once and in elimination order, and leave the triangular factor on the diagonal. Multiplying by or generating the orthogonal factor, from either side and transposed or not, applies exactly those reflector blocks, each once, in the matching order, with the block-reflector factors belonging to the same tiles.",
  ["inputs", "configurations"], "all sizes, tile sizes, inner block sizes, side/trans options and both elimination schemes",
  "Tests cover a few shapes; reflector application is self-consistent on square shapes even when an edge tile uses the wrong extent.",
  ["compute/pzgeqrf.c", "compute/pzgeqrf_tree.c", "compute/pzgelqf.c", "compute/pzgelqf_tree.c", "compute/pzunmqr.c",
   "compute/pzunmqr_tree.c", "compute/pzunmlq.c", "compute/pzunmlq_tree.c", "compute/pzungqr.c", "compute/pzungqr_tree.c",
   "compute/pzunglq.c", "compute/pzunglq_tree.c"],
  [("tile elimination loops and tree operation lists", "compute/pz*qr*.c, compute/pz*lq*.c")], ["output matrix", "T factor descriptor"])

p("C09", "Every reduction tree is a valid elimination order",
  "For any number of tile rows and columns, the elimination list used by the tree-based QR and LQ is a valid reduction: in each panel every row at or below the diagonal is triangularized before it takes part in an elimination, every row below the diagonal is eliminated exactly once by a row that is still alive in that panel, and the diagonal row survives. The list's declared length equals the number of entries, and entries are never written outside the list.",
  ["inputs"], "all pairs of tile counts",
  "Tests use one or two tile counts; the grouping of rows differs for every panel height.",
  ["control/tree.c", "include/plasma_tree.h"], [("greedy, flat and binary tree construction", "control/tree.c")], ["operation list"])

p("C10", "Results do not depend on the task schedule",
  "Whatever order the OpenMP runtime picks for ready tasks and however many threads run, every pair of tasks that touch the same data, at least one writing, is ordered by declared dependences or synchronization in the sequential program order. Hence a routine's output is the same as when its tasks run one after the other in program order.",
  ["schedules", "inputs", "configurations"], "all schedules the OpenMP dependence rules allow, for all shapes and tile counts",
  "Tests observe a few schedules on one machine; a missing dependence shows only under an unlucky interleaving (LU is already run single-threaded by the test list for this reason).",
  ["core_blas/core_z*.c", "compute/pz*.c"],
  [("depend clauses of each task", "core_blas/core_z*.c, compute/pz*.c")], ["output matrices"])

p("C11", "A failure is reported once, with the right index, and stops later work",
  "When a tile factorization fails (matrix not positive definite, singular triangle), the routine returns the positive index of the failing leading minor or pivot in the whole matrix, not within a tile. A recorded failure is not replaced by a later one, and a task that starts after a failure of its sequence has been recorded modifies no matrix.",
  ["inputs", "schedules", "fault_sequences"], "all positions of a failing pivot, all shapes, all interleavings of failing tasks",
  "Tests use matrices for which every factorization succeeds.",
  ["core_blas/core_z*.c", "control/async.c", "compute/z*.c", "compute/pzpotrf.c", "compute/pztrtri.c", "compute/pzpbtrf.c"],
  [("sequence and request status", "control/async.c"), ("per-task status guard", "core_blas/core_z*.c")],
  ["return value", "sequence status", "matrices after failure"])

p("C12", "Kernels stay inside the scratch and factor storage their callers allot",
  "For every shape, tile size, inner block size, side and option, the scratch space a routine allocates per thread and the block-reflector storage it creates are at least as large as every kernel invocation of that routine uses. No kernel indexes its scratch or factor block beyond the extent its caller provides.",
  ["inputs", "configurations"], "all sizes, tile sizes, inner block sizes, options, thread numbers",
  "Overruns of heap scratch are silent; tests run one block-size pair.",
  ["compute/zgeqrf.c", "compute/zgelqf.c", "compute/zunmqr.c", "compute/zunmlq.c", "compute/zungqr.c", "compute/zunglq.c",
   "compute/zgels.c", "control/workspace.c", "control/descriptor.c", "core_blas/core_zgeqrt.c", "core_blas/core_zparfb.c"],
  [("workspace creation calls", "compute/z*.c"), ("leading dimension and size arguments of kernels", "core_blas/core_z*.c")],
  ["heap"])

p("C13", "Every resource acquired by a call is released on every path",
  "Each public routine releases all memory it acquired (tile copies, per-thread scratch, index lists) exactly once on every path on which it returns, including every path on which an allocation fails part-way. A failed allocation is reported by the out-of-memory code and the user's data is left unmodified.",
  ["fault_sequences", "inputs"], "all combinations of failing allocations and all argument values",
  "No test injects an allocation failure.",
  ["compute/z*.c", "control/descriptor.c", "control/workspace.c", "control/tree.c"],
  [("create/destroy pairs with error exits", "compute/z*.c")], ["allocations and frees", "return value"])

p("C14", "Runtime settings are validated, stored and read back",
  "Setting a runtime parameter to a legal value makes the next query return exactly that value and changes no other parameter; an illegal parameter or value is rejected with an error and changes nothing. Initialization gives every parameter a legal value.",
  ["histories", "inputs"], "all sequences of set/get calls with any parameter and value",
  "Tests set two or three parameters once per run.",
  ["control/context.c", "control/tuning.c"], [("plasma_set, plasma_get", "control/context.c")], ["plasma_get", "return values"])

p("C15", "Option constants map one-to-one to their LAPACK letters",
  "Each option constant is translated to the LAPACK letter that means the same, and each letter (upper or lower case) back to the same constant; a letter or value that stands for no option is rejected. The two directions are mutually inverse.",
  ["inputs"], "all characters and all option constants",
  "Tests use the few options each tester prints.",
  ["control/constants.c", "include/plasma_types.h"], [("lookup table and converters", "control/constants.c")], ["converter results"])

p("C16", "Matrix norms see every element of their region exactly once",
  "For every shape, tile size, norm kind and storage (general, symmetric, Hermitian, triangular, band), each norm routine combines the contribution of every element of the matrix exactly once into the row, column or global reduction that norm requires, using implied elements of symmetric, Hermitian and unit-triangular matrices and no element outside the stored region. The partial results of all tiles are combined with the operation of that norm and none is left out.",
  ["inputs", "configurations"], "all sizes, tile sizes, norm kinds, uplo and diag options",
  "With random matrices a dropped edge tile often does not change a max norm, and tests cover few shapes.",
  ["compute/pzlange.c", "compute/pzlansy.c", "compute/pzlanhe.c", "compute/pzlantr.c", "compute/pzlangb.c", "compute/pdzamax.c",
   "core_blas/core_zlange.c", "core_blas/core_zlansy.c", "core_blas/core_zlanhe.c", "core_blas/core_zlantr.c",
   "core_blas/core_dzamax.c", "core_blas/core_zgessq.c", "core_blas/core_zsyssq.c", "core_blas/core_zhessq.c", "core_blas/core_ztrssq.c"],
  [("two-stage per-tile reduction", "compute/pzlan*.c")], ["returned norm"])

p("C17", "Row and column interchanges apply the recorded permutation exactly",
  "Applying a pivot list to a tiled matrix, by rows or by columns and in forward or backward order, for any sub-range of the list, interchanges exactly the elements the list names, across tile boundaries, and changes no other element. Applying the list backward undoes applying it forward.",
  ["inputs", "configurations"], "all shapes, tile sizes, pivot lists, index ranges and strides of plus or minus one",
  "Tests use pivot lists from a few factorizations only.",
  ["compute/pzgeswp.c", "compute/zgeswp.c", "core_blas/core_zgeswp.c"],
  [("interchange loops over tiles", "core_blas/core_zgeswp.c")], ["output matrix"])

p("C18", "Mixed-precision solvers report convergence only when the test is met",
  "A mixed-precision solver that returns success with a non-negative iteration count does so only if the residual of every right-hand side met the stated threshold at that iteration; otherwise the count is negative and the returned solution is that of the full-precision solver. The iteration count never exceeds the documented limit.",
  ["inputs", "histories"], "all matrices, right-hand sides and iteration histories",
  "Tests use well-conditioned matrices that converge at once.",
  ["compute/zcposv.c", "compute/zcgesv.c", "compute/zcgbsv.c"],
  [("refinement loop and fallback", "compute/zc*sv.c")], ["iteration count", "solution"])

p("C19", "Zero-size problems succeed without side effects",
  "When a dimension is zero so that there is nothing to compute, every routine returns success (a norm returns zero) and writes no element of any matrix. A routine never skips work when the definition still requires an update, such as scaling or zeroing an output whose inner dimension is zero.",
  ["inputs"], "all arguments with zero dimensions or scalars for which the result is trivial",
  "Tests have no zero dimension.",
  ["compute/z*.c"], [("quick-return tests", "compute/z*.c")], ["return value", "user arrays"])

p("C20", "Drivers are the composition of their documented steps",
  "Each driver (linear solve with LU, Cholesky or band factorization, least squares, solve from factors, inverse) performs exactly its documented steps, in order, each on the documented matrix, triangle, transposition and row range. Data passed between steps (factors, pivots, block-reflector factors) is that produced by the earlier step.",
  ["inputs", "configurations"], "all shapes and options, over- and under-determined systems included",
  "Tests cover few shapes per driver and one option setting.",
  ["compute/zgesv.c", "compute/zgetrs.c", "compute/zposv.c", "compute/zpotrs.c", "compute/zpbsv.c", "compute/zpbtrs.c", "compute/zgbsv.c",
   "compute/zgbtrs.c", "compute/zgels.c", "compute/zgeqrs.c", "compute/zgelqs.c", "compute/zgeinv.c", "compute/zgetri.c",
   "compute/zpoinv.c", "compute/zpotri.c"],
  [("calls of tile algorithms on views", "compute/z*.c")], ["output matrices"])

p("C21", "Results are backward stable in floating point",
  "Factorizations and solves return results whose backward error is of the order of the unit roundoff times a modest function of the size. This holds for any well-scaled input.",
  ["inputs"], "all finite inputs", "Tests sample random matrices with a fixed tolerance.",
  ["compute/", "core_blas/"], [("orthogonal transformations and pivoting", "compute/pz*.c")], ["residuals"])

p("C22", "Singular values, eigenvalues and eigenvectors converge to the right values",
  "The singular-value and symmetric-tridiagonal eigenvalue routines return every requested value and vector to working accuracy. Values are returned in the documented order.",
  ["inputs"], "all inputs", "Tests sample a few matrices.",
  ["compute/zgesdd.c", "compute/zstevx2.c", "compute/pzgbbrd_static.c", "core_blas/core_zgbtype1cb.c"],
  [("bidiagonalization, bulge chasing, bisection with Sturm counts", "compute/")], ["values and vectors"])

p("C23", "Partial-pivoting panels terminate and agree for any number of panel threads",
  "The multithreaded LU panel terminates under every interleaving of its panel threads and selects, in every column, an element of maximal magnitude as pivot. The factors do not depend on the number of panel threads.",
  ["schedules", "inputs"], "all interleavings of the panel threads and all matrices",
  "Tests run LU with one thread only.",
  ["core_blas/core_zgetrf.c", "control/barrier.c", "compute/pzgetrf.c"],
  [("spin barrier and shared maxima", "core_blas/core_zgetrf.c, control/barrier.c")], ["factors and pivots"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
