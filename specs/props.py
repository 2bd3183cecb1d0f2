"""The registry: which contracts, replay cases and assumptions belong to which property."""
from tcv.driver import Prop
from tcv import tilecheck

FP = "floating-point kernel arithmetic is uninterpreted: a kernel call is an opaque update of its operands"
SHIM = "replay library: OpenMP runtime replaced by a deterministic scheduler; OpenBLAS/LAPACKE assumed to follow their documentation"
TB = ["clang 18 (parser, JSON AST)", "tools/codegen.py (generates the precisions, run on every check)",
      "tcv verification-condition generator (/verif/tcv)", "z3 (cvc5 cross-check in the thorough tier)"]


def tiles(table_names):
    def gen(ctx):
        from specs import level3, elementwise
        tab = {}
        for t in table_names:
            tab.update(getattr(level3, t, None) or getattr(elementwise, t))
        tilecheck.register(tab)
        jobs = []
        for p in ctx.precs:
            jobs += tilecheck.make_jobs(ctx.srcs, tab, p, level3.Cx)
        return jobs
    gen.__name__ = "tiles" + "".join(table_names)
    return gen


API_CASES = dict(getrs=["gesv"], gbtrf=["gbsv"], gbtrs=["gbsv"], potrs=["posv"], potri=["poinv"], getri=["geinv"], getri_aux=["geinv"], geinv=["geinv"],
                 gelqs=["geqrs"], clag2z=["lag2c"], dzamax=["amax"], lanhe=["lansy"], pbtrs=["pbsv"], hetrf=["hesv"], hetrs=["hesv"],
                 ge2desc=["gemm", "getrf"], desc2ge=["gemm", "getrf"], tr2desc=["potrf", "trmm"], desc2tr=["potrf"], pb2desc=["pbtrf", "gbsv"],
                 desc2pb=["pbtrf", "gbsv"], gb2desc=["gbmm"], gbtrs_=["gbsv"])
ALL_CASES = """gemm gbmm symm hemm syrk herk syr2k her2k trmm trsm potrf trtri lauum pbtrf pbsv geadd tradd lacpy lascl laset lag2c lange lansy lantr langb amax
 geswp geqrf gelqf unmqr unmlq ungqr unglq gels geqrs posv poinv getrf gesv geinv gbsv hesv cposv cgesv cgbsv""".split()
FAIL_CASES = ["potrf_fail", "trtri_fail", "pbtrf_fail", "getrf_sing"]
REAL = dict(unmqr="ormqr", unmlq="ormlq", ungqr="orgqr", unglq="orglq", hetrf="sytrf", hetrs="sytrs", hesv="sysv", lag2c="lag2s", clag2z="lag2d",
            cposv="sposv", cgesv="sgesv", cgbsv="sgbsv", dzamax="amax")


def api_map():
    from specs import api
    out = []
    for z in api.TABLE:
        n = "(%s%s)" % (z, "|" + REAL[z] if z in REAL else "")
        cs = API_CASES.get(z, [z] if z in ALL_CASES else [])
        if cs:
            out.append((r"^plasma_(omp_)?[zcds]{0,2}%s$" % n, cs))
    return out


API_TB = ["clang 18 (parser, JSON AST)", "tools/codegen.py (generates the precisions, run on every check)",
          "tcv path engine: every path of the function under its callees' contracts, path conditions and goals decided by z3 (/verif/tcv/paths.py, apimach.py, apicheck.py)"]
API_AS = ["callees (descriptor creation and destruction, workspaces, sequence/request initialisation, tile algorithms, OpenMP runtime, libc allocation) are used through "
          "their contracts in tcv/apimach.py", "machine integers are treated as mathematical integers", "scalar comparisons with 0 and 1 are exact"]


def props():
    from tcv.apijobs import layer
    P = {}

    from specs import kernels, wrappers

    def kern(*fam):
        def thin(ctx):
            return kernels.thin_jobs(set(fam))(ctx)

        def args(ctx):
            return wrappers.wrapper_jobs(ctx, {"args"}, set(fam))
        return [thin, args]

    def add(pid, *a, **k):
        P[pid] = Prop(pid, *a, **k)

    from specs import xlate
    add("C03", [xlate.jobs], ["translate", "gemm", "potrf", "pbtrf", "gbsv", "gbtrf_wide", "gbmm"],
        [SHIM, "matrix dimensions, leading dimensions and tile indices are mathematical integers", "a sub-matrix starts at a tile boundary (the descriptor check rejects others), "
         "a triangular one on the diagonal, a triangular band is square", "LAPACK's lacpy and laset follow their documentation",
         "the caller's array for a general band holds nb*(klt+kut+1) rows, those around the band zero (as the drivers of the library's own tests allot it)"], TB,
        ["nothing is left to the stand-in while the obligations are discharged; it re-checks the same contracts on the real functions"], seeds=16,
        replay_map=[(r"lacpy|lapack2tile|tile2lapack|pz|translation", ["translate"])])
    add("C05", [tiles(["C05"])] + kern("C05"), ["gemm", "symm", "hemm", "syrk", "herk", "syr2k", "her2k", "trmm", "gbmm"],
        [FP, SHIM, "the BLAS routines the kernels call follow their documentation",
         "matrix dimensions and tile indices are mathematical integers"],
        TB, ["layout translation (C03) and argument handling (C04, C20) in compute/z*.c, re-checked end to end"],
        replay_map=[(r"pzgemm\[band|pzgemm.*band,", ["gbmm"])] + [(r"pz(%s)\[" % x, [x]) for x in ("gemm", "symm", "hemm", "syrk", "herk", "syr2k", "her2k", "trmm")] +
                   [(r"p[sdc](%s)\[" % x, [x]) for x in ("gemm", "symm", "hemm", "syrk", "herk", "syr2k", "her2k", "trmm")])
    add("C06", [tiles(["C06"])] + kern("C06"), ["trsm", "potrf", "pbtrf", "trtri", "lauum", "posv", "pbsv", "poinv"],
        [FP, SHIM, "the BLAS and LAPACK routines the kernels call follow their documentation",
         "matrix dimensions and tile indices are mathematical integers"],
        TB, ["layout translation (C03) and argument handling (C04, C20) in compute/z*.c, re-checked end to end"],
        replay_map=[(r"pbtrf", ["pbtrf", "pbsv"]), (r"tbsm", ["pbsv", "gbsv"]), (r"trsm", ["trsm"]), (r"potrf", ["potrf", "posv"]), (r"trtri", ["trtri"]), (r"lauum", ["lauum", "poinv"])])
    add("C07", [tiles(["C07"])] + kern("C07") + [kernels.elem_jobs], ["geadd", "tradd", "lacpy", "lascl", "laset", "lag2c"],
        [FP, SHIM, "LAPACK's lacpy, lascl, laset, lag2c and their real counterparts follow their documentation",
         "matrix dimensions and tile indices are mathematical integers", "transposed copies are of square matrices (others are rejected, C04)",
         "views of element-wise routines other than laset start at a tile boundary"],
        TB, ["layout translation (C03) and argument handling (C04, C20) in compute/z*.c, re-checked end to end"],
        replay_map=[(r"geadd", ["geadd", "tradd"]), (r"tradd", ["tradd"]), (r"lacpy", ["lacpy"]), (r"lascl", ["lascl"]), (r"laset", ["laset"]), (r"lag2|clag2z|slag2d", ["lag2c", "cposv", "cgbsv"])])
    from specs import norms, normkern, worksize
    add("C16", [norms.norm_jobs, normkern.jobs, worksize.zero_jobs] + kern("C16"), ["lange", "lansy", "lantr", "langb", "amax"],
        [FP, SHIM, "LAPACK's lange, lansy, lanhe, lantr and lassq follow their documentation", "matrix dimensions and tile indices are mathematical integers",
         "floating-point sums and maxima are order-independent (the contracts say which elements enter which entry)", "matrices start at a tile boundary (the drivers create them so)"],
        TB, ["the arithmetic of the scaled sums of squares (ssq, gessq_aux, syssq_aux) and the order of updates in syssq and hessq"],
        replay_map=[(r"lange|gessq", ["lange", "langb", "lantr"]), (r"lan(sy|he)|syssq|hessq", ["lansy"]), (r"lantr|trssq", ["lantr"]), (r"langb", ["langb"]), (r"amax", ["amax"])])
    from specs import qr
    QRC = ["geqrf", "gelqf", "unmqr", "unmlq", "ungqr", "unglq", "gels", "geqrs"]
    add("C08", [qr.jobs] + kern("C08"), QRC,
        [FP, SHIM, "LAPACK's geqr2, gelq2, larft, larfb, larfg follow their documentation", "matrix dimensions and tile indices are mathematical integers",
         "the list of tree operations is a valid elimination order and the same for equal dimensions and thread counts (C09)"],
        TB, ["the arithmetic inside the block-reflector kernels (geqrt, tsqrt, ttqrt, parfb, pamm, pemv and their LQ counterparts)"],
        replay_map=[(r"geqrf|geqrt|t[st]qrt", ["geqrf", "unmqr", "ungqr"]), (r"gelqf|gelqt|t[st]lqt", ["gelqf", "unmlq", "unglq"]), (r"(un|or)mqr|t[st]mqr", ["unmqr", "gels", "geqrs"]),
                    (r"(un|or)mlq|t[st]mlq", ["unmlq", "gels"]), (r"(un|or)gqr", ["ungqr"]), (r"(un|or)glq", ["unglq"])], seeds=48)
    from specs import scratch, storage
    QK = ["qrkernels"] + QRC
    add("C12", [scratch.kernel_jobs, scratch.call_jobs, scratch.driver_jobs, scratch.mixed_jobs, scratch.workspace_jobs, storage.descT_jobs, norms.extent_jobs, worksize.size_jobs],
        QK + ["lange", "lansy", "lantr", "langb", "amax", "cposv", "cgesv", "cgbsv"],
        [SHIM, "LAPACK and BLAS routines touch only the parts of their arrays their documentation names", "machine integers are treated as mathematical integers",
         "block sizes and the Householder mode are not changed between the factorization and its use, and a T passed back was created by the factorization",
         "the team executing the tasks is not larger than the team present when the workspaces were created", "malloc returns a fresh block or NULL"],
        TB, ["scratch of the bulge chasing, gesdd, gbbrd and hetrf routines; otherwise re-checks calls with guard zones behind every block"],
        replay_map=[(r"(un|or)mqr", QK), (r"(un|or)mlq", QK), (r"q[rlt]|gels|(un|or)g|parfb|pamm|pemv|workspace|descT", QK),
                    (r"gesv", ["cgesv"]), (r"posv", ["cposv"]), (r"gbsv", ["cgbsv"]), (r"langb", ["langb"]), (r"lange", ["lange"]),
                    (r"lan(sy|he)", ["lansy"]), (r"lantr", ["lantr"]), (r"amax", ["amax"])], variant=dict(guard=1), seeds=48, threads=3)
    from specs import tree
    add("C09", [tree.jobs], [], ["machine integers are treated as mathematical integers", "malloc returns a fresh block or NULL",
        "induction over the panels and the sum over the panels (each summand is non-negative, so the sum is at least any one of them) are meta-rules",
        "omp_get_num_threads() is at least 1"], ["clang 18 (parser, JSON AST)",
        "tcv path engine over control/tree.c with ghost state per panel and loop invariants, conditions and goals decided by z3 (/verif/specs/tree.py, tcv/ctl.py)"],
        ["what is not discharged in a rewritten source; otherwise re-checks the list made by the real code"], precs="z", bounded=[tree.bounded])
    from specs import swaps
    add("C17", [swaps.jobs], ["swaprange", "geswp", "gesv", "geinv"],
        [FP, SHIM, "the BLAS routine swap follows its documentation", "matrix dimensions and tile indices are mathematical integers",
         "entries of the list lie between 1 and the number of rows (columns)", "increments other than 1 and -1 are decided by the bounded runs only"],
        TB, ["increments other than 1 and -1; otherwise re-checks the same contracts on the real functions"], seeds=24,
        replay_map=[(r"core_[zcds]geswp", ["swaprange", "geswp"]), (r"pz?[zcds]geswp|p.geswp", ["geswp"])])
    from specs import refine
    add("C18", [refine.jobs], ["cposv", "cgesv", "cgbsv"],
        [FP, SHIM, "the tile routines called have the effects stated by their contracts (C05-C07, C16, C17) and task order is program order (C10)",
         "the routine has succeeded: after a failure of the low-precision factorization the status is reported and no claim is made",
         "products of the threshold are compared up to the order of their factors", "A and the auxiliary matrices are made by the driver (n by n, n by nrhs)"], TB,
        ["nothing is left to the stand-in while the obligations are discharged; it re-checks the same contracts on the real functions"], seeds=48, modes=(0, 5), threads=4)
    amap = api_map()
    add("C04", [layer("C04")], ALL_CASES, API_AS, API_TB, ["nothing is left to the stand-in while the obligations are discharged; it re-checks the same contracts on real calls"],
        replay_map=amap, variant=dict(variant="badarg"), seeds=24)
    add("C13", [layer("C13")], ALL_CASES, API_AS, API_TB, ["allocations inside tile algorithms that are not under contract"],
        replay_map=amap, variant=dict(variant="alloc"), seeds=4)
    add("C19", [layer("C19")], ALL_CASES, API_AS, API_TB, ["nothing is left to the stand-in while the obligations are discharged; it re-checks the same contracts on real calls"],
        replay_map=amap, variant=[dict(variant="zero"), {}], seeds=16)
    add("C20", [layer("C20")], ALL_CASES, API_AS, API_TB, ["routines without a step contract"], replay_map=amap, seeds=16)
    from specs import control, storage
    CTB = ["clang 18 (parser, JSON AST)", "tcv path engine over control/*.c and the inline functions of include/*.h: every path, conditions and goals decided by z3 (/verif/tcv/ctl.py)"]
    MI = "machine integers are treated as mathematical integers (no overflow of int or size_t)"
    add("C01", [storage.c01_jobs], ["tiles"], [MI, "triangular storage is used with square tiles (mb == nb), as every routine creates it",
        "band storage: views are taken in storage coordinates, so the view clause is proved for general and triangular storage"], CTB,
        ["nothing is left to the stand-in while the obligations are discharged; it re-checks the same contracts on the real functions"], precs="z", seeds=48)
    add("C02", [storage.c02_jobs], ["desc"], [MI, "triangular storage is used with square tiles (mb == nb)", "malloc returns a fresh block or NULL"], CTB,
        ["nothing is left to the stand-in while the obligations are discharged; it re-checks the same contracts on the real functions"], precs="z", seeds=48)
    add("C14", [control.c14_jobs], ["settings"], [MI, "one thread at a time changes the settings (they are process-wide)", "the Lua tuning script (plasma_tune) is an external function; "
        "only which parameter it may store to is under contract"], CTB, ["effect of the Lua tuning scripts"], precs="z", seeds=24)
    add("C15", [control.c15_jobs], ["options"], ["characters are ASCII"], CTB,
        ["nothing is left to the stand-in while the obligations are discharged; it re-checks the same contracts on the real functions"], precs="z", seeds=4)
    from specs import failure
    PTB = CTB[:1] + ["tools/codegen.py (generates the precisions, run on every check)",
                     "tcv path engine over compute/p*.c and the task wrappers in core_blas/: every path, an arbitrary iteration of every loop (/verif/tcv/pz.py, wrap.py)"]
    add("C11", [failure.task_jobs, failure.async_jobs, failure.stop_jobs, failure.wrapper_part, failure.index_jobs, failure.status_jobs], FAIL_CASES,
        [MI, "kernels report the index of the failure within their tile (LAPACKE_potrf_work, LAPACKE_trtri_work, the pivoted panel plasma_core_*getrf)",
         "the status of a sequence may change between any two tasks; inside one task it changes only by a report of that task", SHIM], PTB,
        ["index and state after failures on real calls, while the obligations are discharged a re-check"], seeds=24)
    from specs import order
    add("C10", [order.pz_jobs, order.wrapper_part], ALL_CASES,
        [MI, "the OpenMP runtime orders two tasks that name the same address in their depend clauses, at least one of them as out or inout, as OpenMP 4.0 prescribes",
         "tasks written out in a tile algorithm that work on a whole panel (pivoted LU, row interchanges, Aasen) order the tiles between the first and the last one of a panel "
         "through empty tasks: that chain is decided only by the bounded runs", SHIM], PTB,
        ["the ordering of the inner tiles of a panel in plasma_pzgetrf, pzgbtrf, pzgeswp and pzhetrf_aasen; statically scheduled code (bulge chasing)"],
        seeds=12, modes=(1, 5), threads=4)
    return P
