"""What each property's check runs."""
import build, gendsl

ALLK = ["flux_apply", "stencil", "bc"]
ALLF = ALLK + ["fort"]


def kern(name, fams, modes_fam, mode, quick, thorough, flavour="rel", fortran=False, extra=(), **kw):
    def make(seed, tier):
        exe = build.kern(fams, flavour, fortran)
        return exe, ["--mode", mode, "--fam", modes_fam] + list(extra)
    return dict(name=name, make=make, quick=quick, thorough=thorough, **kw)


def laws(name, quick, thorough):
    def make(seed, tier):
        return build.kern(["flux_apply", "stencil", "bc"], "rel", True, main="law_main.cpp"), ["--fort", "1"]
    return dict(name=name, make=make, quick=quick, thorough=thorough, threads=[1, 1, 2, 1, 3, 1, 2, 1])


def header(name, src, parts, quick, thorough, flavour="asan", extra_src=(), args=(), **kw):
    """parts: one program each; the shards are dealt out over them"""
    def make(seed, tier):
        exes = build.units([(src, d, t) for t, d in parts], name="hdr", flavour=flavour, extra_src=extra_src)
        return exes, list(args)
    return dict(name=name, make=make, quick=quick, thorough=thorough, threads=kw.pop("threads", [2, 1, 3, 2]), **kw)


def dsl(name, kind, quick, thorough, nq, nt, flavour="asan", extra=False, **kw):
    """nq / nt generated programs, every shard runs all of them on its own cases"""
    nparts = kw.pop("nparts", 8)
    args = list(kw.pop("args", ["--huge", "400"]))

    def make(seed, tier):
        return build.dsl(kind, seed, nt if tier == "thorough" else nq, flavour, extra_programs=gendsl.strided_gradients() if extra else (), nparts=nparts), args
    return dict(name=name, make=make, quick=quick, thorough=thorough, threads=kw.pop("threads", [2, 1, 3, 2]), **kw)


def memcheck(name, fams, undef, fort, quick, thorough):
    """definedness tracked through the call by valgrind's memcheck"""
    return kern(name, fams, "all", "defined", quick, thorough, flavour="vg", fortran=fort, threads=[1], prefix=["valgrind", "-q", "--error-limit=no"],
                extra=["--undef", str(undef), "--fort", str(int(fort))])


RULE = ("Seeded random calls of the real kernels: random index boxes (extent 1..17 mostly, some axes up to 6000, extents about powers of two, a few "
        "boxes over 65536 cells, origins negative, small or up to +-3e8), ghost widths 0..9, orders, types, sides, directions, coefficients and data patterns. Non-trivial: the model says "
        "at least one element must be written; distinct: the printed call description differs.")
ASSUME = ["The executable model written from the discretisation is what the kernels have to compute",
          "Thrust's OpenMP device back end stands for the device (no GPU here)"]


def vals(fams, fam, q, t):
    return [kern("device kernels against the model", fams, fam, "value", q, t, fortran=True),
            kern("reference kernels against the model", fams, fam, "fvalue", q, t, fortran=True)]


LAWR = ("Seeded random problems (box, ghost widths, spacings, coefficients, boundary conditions of every kind and order on every side, split sides, "
        "coarse-fine sides; boxes of up to 6000 cells a side and over 65536 cells among them) pushed through sequences of real kernels the way a solver composes them; the laws compare what two independent paths "
        "produce. Distinct: the printed problem differs.")
DSLR = ("Programs of the expression language generated from the seed (1-4 statements, expression depth up to 4, views of random axis orders), compiled "
        "against the headers, each run on seeded random domains (extent 1..300, sizes about powers of two, one case in 400 with rows of tens of thousands of elements, strides 1..4, empty ones included, origins up to +-90000), view bounds "
        "(from exactly the elements needed to three extra on a side), scalars, shifts and data; half of the cases hold NaN in everything the program may "
        "not read. Non-trivial: at least one element is assigned; distinct: the printed program and case differ.")
DSLA = ["the interpreter (long double, one element after another in program order) defines what a statement means"]

ITER = ("Seeded random histories of iterator operations (increment, decrement, both postfix forms, +=, -=, +, -, [], distance, the six "
        "comparisons, complete passes both ways) on a pool of three iterators, targets biased to the ends, sequences from empty to 2^31 elements (over reserved memory of which little is touched). Non-trivial: the sequence is not "
        "empty; distinct: the printed construction differs.")
ITERA = ["the sequence an iterator has to present is the one its documentation and constructor arguments describe", "range of moves is [begin, end]"]

VIEWS = [("view1", ["-DPART_A=anyView<double>", "-DPART_B=anyVector<double>", "-DPART_C=anyVector<int>"]),
         ("view2", ["-DPART_A=anyView<float>", "-DPART_B=anyView<int>", "-DPART_C=anyVector<float>"])]

PROPS = {
    "C01": dict(steps=vals(["flux_apply"], "flux", 3000, 100000), rule=RULE, assumptions=ASSUME),
    "C02": dict(steps=vals(["flux_apply"], "apply", 1200, 40000), rule=RULE, assumptions=ASSUME),
    "C03": dict(steps=vals(["stencil"], "stencil", 1500, 50000), rule=RULE, assumptions=ASSUME),
    "C04": dict(steps=vals(["stencil"], "adjbdry", 4000, 120000), rule=RULE, assumptions=ASSUME),
    "C05": dict(steps=vals(["stencil"], "adjcf", 3000, 100000), rule=RULE, assumptions=ASSUME),
    "C06": dict(steps=vals(["bc"], "bc", 5000, 150000), rule=RULE, assumptions=ASSUME),
    "C07": dict(steps=vals(["bc", "fort"], "c2f", 20000, 600000), rule=RULE, assumptions=ASSUME),
    "C08": dict(steps=[laws("laws between the routines, device and reference kernels mixed", 2500, 80000)],
                rule=LAWR, assumptions=["rounding stays within the error bound of a straightforward evaluation (times 2 to 6)", "Thrust's OpenMP device back end stands for the device (no GPU here)"]),
    "C09": dict(steps=[kern("device kernels with everything outside the declared reads poisoned", ALLK, "all", "poison", 400, 12000),
                       kern("reference kernels with everything outside the declared reads poisoned", ALLF, "all", "fpoison", 400, 12000, fortran=True),
                       memcheck("device kernels, definedness of every undeclared element tracked by memcheck", ALLK, 1, False, 8, 400),
                       memcheck("reference kernels, definedness of every undeclared element tracked by memcheck", ALLF, 1, True, 8, 400)],
                rule=RULE, assumptions=ASSUME),
    "C10": dict(steps=[kern("device kernels under AddressSanitizer+UBSan", ALLF, "all", "run", 200, 8000, flavour="asan", fortran=True),
                       kern("reference kernels under AddressSanitizer and run-time bounds checks", ALLF, "all", "run", 400, 12000, flavour="asan", fortran=True, extra=["--fort", "1"]),
                       dsl("generated expression statements under AddressSanitizer+UBSan", "expr", 90, 600, 32, 300, args=["--memory", "1", "--huge", "400"]),
                       dsl("generated window statements under AddressSanitizer+UBSan", "window", 90, 600, 32, 300, args=["--memory", "1", "--huge", "400"]),
                       dsl("generated dot products under AddressSanitizer+UBSan", "dot", 80, 600, 24, 200, args=["--memory", "1", "--huge", "400"]),
                       header("iterators under AddressSanitizer+UBSan", "iter_main.cpp", [("iter%d" % m, ["-DMODE=%d" % m]) for m in (16, 160, 17, 18)], 8000, 200000, args=["--memory", "1"]),
                       header("views and vectors under AddressSanitizer+UBSan", "view_main.cpp", VIEWS, 4000, 100000, extra_src=[build.REPO + "/src/random.cpp"], args=["--memory", "1"]),
                       memcheck("device kernels, undefined values tracked by memcheck", ALLK, 0, False, 8, 400),
                       memcheck("reference kernels, undefined values tracked by memcheck", ALLF, 0, True, 8, 400)],
                rule=RULE, assumptions=["red-zone and bounds instrumentation sees accesses outside exactly sized heap blocks"]),
    "C11": dict(steps=[kern("device kernels: every pair of parallel iterations, several schedules", ALLK, "all", "sched", 120, 6000, flavour="sched", threads=[1]),
                       dsl("generated expression statements under permuted schedules", "expr", 60, 800, 64, 400, flavour="sched", threads=[1]),
                       dsl("generated window statements under permuted schedules", "window", 60, 800, 48, 400, flavour="sched", threads=[1]),
                       dsl("generated dot products under permuted schedules", "dot", 60, 800, 32, 250, flavour="sched", threads=[1])],
                rule=RULE + " Kernels run under three schedules (one thread; 4096 logical threads shuffled; a random number in descending order), statements under one random schedule each; "
                     "non-trivial: more than one logical thread touched data.",
                assumptions=["a parallel region of Thrust's OpenMP back end stands for the back end's grid: its iterations are the units that may run in any order",
                             "loads and stores of the code under test are reported by gcc's -fsanitize=thread instrumentation"]),
    "C12": dict(steps=[kern("replay after other calls and from several host threads", ALLK, "all", "history", 90, 4000),
                      kern("the same for the reference kernels", ALLF, "all", "history", 60, 3000, fortran=True, extra=["--fort", "1"]),
                      kern("device kernels: every store is to an element the call defines", ALLK, "all", "stores", 150, 6000, flavour="sched", threads=[1]),
                      kern("device kernels from several host threads under ThreadSanitizer", ALLF, "all", "history", 30, 1200, flavour="tsan", fortran=True, extra=["--fork-every", "1000000007"], threads=[1]),
                      kern("reference kernels from several host threads under ThreadSanitizer", ALLF, "all", "history", 30, 1200, flavour="tsan", fortran=True, extra=["--fork-every", "1000000007", "--fort", "1"], threads=[1])] +
                     [dsl("generated %s repeated after others and from several host threads under ThreadSanitizer" % w, k, 25, 900, n, 8 * n, flavour="tsan", args=["--history", "1"], threads=[1])
                      for k, w, n in (("expr", "expression statements", 48), ("window", "window statements", 32), ("dot", "dot products", 24))] +
                     [dsl("generated %s: every store is to an element they assign" % w, k, 40, 500, n, 6 * n, flavour="sched", args=["--stores", "1"], threads=[1])
                      for k, w, n in (("expr", "expression statements", 40), ("window", "window statements", 24))],
                rule=RULE + " Every call is made three times: in sequence, again after a shuffled batch of other calls, and concurrently with others; a quarter also as the first call of a new process, some in place on other data, in the caller's own parallel region, and repeatedly (memory kept). Settings of the thread and process are compared with those before any call. Every store of device kernels and statements is noted and has to be to an element they define.", assumptions=ASSUME),
    "C13": dict(steps=[dsl("generated expression statements against an interpreter, under ASan+UBSan", "expr", 150, 1500, 160, 800),
                       dsl("gradients along strided axes", "expr", 10, 100, 0, 0, extra=True, shards=2, nparts=1)], rule=DSLR, assumptions=DSLA),
    "C14": dict(steps=[dsl("generated window statements against an interpreter, under ASan+UBSan", "window", 120, 1500, 160, 800)], rule=DSLR, assumptions=DSLA),
    "C15": dict(steps=[dsl("generated dot products against an interpreter, under ASan+UBSan", "dot", 120, 1200, 100, 500)], rule=DSLR, assumptions=DSLA),
    "C16": dict(steps=[header("matrix iterators against their sequence, under ASan+UBSan", "iter_main.cpp",
                              [("iter16", ["-DMODE=16"]), ("iter160", ["-DMODE=160"])], 60000, 800000)], rule=ITER, assumptions=ITERA),
    "C17": dict(steps=[header("forward stencil iterators against their sequence, under ASan+UBSan", "iter_main.cpp",
                              [("iter17", ["-DMODE=17"])], 100000, 800000)], rule=ITER, assumptions=ITERA),
    "C18": dict(steps=[header("coarse-to-fine and offset iterators against their sequence, under ASan+UBSan", "iter_main.cpp",
                              [("iter18", ["-DMODE=18"])], 100000, 1000000)], rule=ITER, assumptions=ITERA),
    "C19": dict(steps=[header("views, bounds and vectors against a model of the storage, under ASan+UBSan", "view_main.cpp",
                              VIEWS,
                              20000, 600000, extra_src=[build.REPO + "/src/random.cpp"])],
                rule="Seeded random bounds, orders, ghost widths, element types and histories of writes through pointers, views and statements; distinct: the printed construction differs.",
                assumptions=["the documented storage is row-major in the declared order of the axes"]),
    "C20": dict(steps=[kern("device and reference kernels on the same input", ALLK, "all", "agree", 1000, 40000, fortran=True),
                       kern("reference kernels against the model", ALLK, "flux,apply,stencil,adjbdry,adjcf,bc,c2f", "fvalue", 700, 30000, fortran=True)],
                rule=RULE, assumptions=ASSUME),
    "C21": dict(steps=[kern("reference kernels against the model", ["fort"], "stapply", "fvalue", 8000, 250000, fortran=True)], rule=RULE, assumptions=ASSUME),
    "C22": dict(steps=[kern("reference kernels against the model", ["fort"], "smooth", "fvalue", 4000, 120000, fortran=True)], rule=RULE,
                assumptions=ASSUME + ["LAPACK is not installed: the block smoothers are linked with a plain LU factorisation under LAPACK's names"]),
    "C23": dict(steps=[kern("reference kernels against the model", ["flux_apply", "stencil"], "node", "fvalue", 4000, 120000, fortran=True)], rule=RULE, assumptions=ASSUME),
    "C24": dict(steps=[kern("device kernels, translated index boxes", ALLK, "all", "shift", 400, 12000),
                       kern("reference kernels, translated index boxes", ALLF, "all", "fshift", 400, 12000, fortran=True)], rule=RULE, assumptions=ASSUME),
}
