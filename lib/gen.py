#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single place both are kept)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, M4 = "src/cuda/", "m4/"


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["observe_at"] = observe or ["arrays handed to the call, before and after"]
    a["hook_needed"] = None
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a)


CELL = "every box (any origin and extent, also one cell thick), every ghost width, both precisions, every data pattern, spacing and coefficient"
ONE = "The tests compare the device kernel with the reference kernel for one box, one ghost width and a few random fields per case, in double precision, so neither another geometry nor an error the two share shows."

LIST = [
    P("C01", "Face fluxes equal the discretised gradient",
      "For every face of the requested box, the flux routines store coefficient times the one-sided difference of the cell values across that face over the spacing (Poisson: the coefficient is one), in one, two and three dimensions. No other element of any array changes.",
      ["inputs", "configurations"], CELL, ONE,
      [S + f for f in ["cdf_1d_cuda.cpp", "cdf_2d_cuda.cpp", "cdf_3d_cuda.cpp"]] + [M4 + "celldiffusionflux%dd.m4" % d for d in (1, 2, 3)],
      [("face-range loop over the lazy difference expression", S + "cdf_*_cuda.cpp"), ("reference loops", M4 + "celldiffusionflux*.m4"), ("one-sided gradient", S + "md_device_span.hpp grad_x/y/z")]),
    P("C02", "Residual and operator application equal their definition",
      "On every cell of the requested box the residual routines store f minus (alpha a u minus beta times the divergence of the given fluxes), the apply routines the operator itself, for the Poisson variants without the reaction term. Nothing outside that box changes.",
      ["inputs", "configurations"], CELL, ONE,
      [S + f for f in ["cd_apply_1d_cuda.cpp", "cd_apply_2d_cuda.cpp", "cd_apply_3d_cuda.cpp"]] + [M4 + "celldiffusionapply%dd.m4" % d for d in (1, 2, 3)],
      [("cell-range statements", S + "cd_apply_*_cuda.cpp"), ("reference loops", M4 + "celldiffusionapply*.m4")]),
    P("C03", "Interior matrix coefficients equal the discrete operator",
      "For every cell of the box, the assembled matrix row holds the face-coefficient off-diagonals in their documented positions and the diagonal that makes the row the discrete operator. Entries of rows outside the box, and every other array, keep their values.",
      ["inputs", "configurations"], CELL, ONE,
      [S + "cd_stencil_%dd_cuda.cpp" % d for d in (1, 2, 3)] + [M4 + "celldiffusionstencilcoeffs%dd.m4" % d for d in (1, 2, 3)],
      [("windowed stencil statements", S + "cd_stencil_*_cuda.cpp offdiag/diag"), ("window over rows", S + "md_device_span.hpp, stencil_proxy.hpp")],
      [("stencil array", "rows of 3/5/7 coefficients per cell, centre first", S + "cd_stencil_*_cuda.cpp")]),
    P("C04", "Physical-boundary adjustments of the matrix are exact",
      "For each physical boundary box, of any type and extrapolation order the routines take, the matrix rows of the cells on that boundary become the rows with the ghost value eliminated by that boundary condition, and the coefficient pointing outside becomes what the boundary type prescribes. Only the rows of cells in the boundary box that also lie in the patch change.",
      ["inputs", "configurations"], CELL + "; every side, direction, boundary type, extrapolation order and boundary box position, including boxes reaching past the patch",
      ONE + " Boundary boxes in the tests always cover a whole side.",
      [S + "cd_stencil_%dd_cuda.cpp" % d for d in (1, 2, 3)] + [M4 + "celldiffusionstencilcoeffs%dd.m4" % d for d in (1, 2, 3)],
      [("adj_diag / adj_offdiag by direction, side and type", S + "cd_stencil_*_cuda.cpp"), ("reference", M4 + "celldiffusionstencilcoeffs*.m4 adj*")]),
    P("C05", "Coarse-fine adjustments of matrix and right-hand side are exact",
      "At every coarse-fine boundary box the matrix rows, and the boundary right-hand side, are adjusted by the interpolation weights of the refinement ratio, for both sides of every direction. Only rows of cells in the box and on the patch change.",
      ["inputs", "configurations"], CELL + "; every side, direction, interpolation order and refinement ratio", ONE,
      [S + "cd_stencil_%dd_cuda.cpp" % d for d in (1, 2, 3)] + [M4 + "celldiffusionstencilcoeffs%dd.m4" % d for d in (1, 2, 3)] + [M4 + "celladjustrhs%dd.m4" % d for d in (1, 2, 3)],
      [("adj_cf_diag / adj_cf_offdiag / readj / cf boundary rhs", S + "cd_stencil_*_cuda.cpp")]),
    P("C06", "Ghost values satisfy the boundary and interpolation conditions",
      "After a boundary fill, every ghost cell of the given boundary box that lies beside the patch (face) or at the given edge or corner has the value that the boundary condition of the requested type and order defines from the neighbouring cells. Interior values and all other ghosts are unchanged.",
      ["inputs", "configurations"], CELL + "; every boundary location, type, order, face/edge/corner and direction", ONE,
      [S + "cd_correct_bc_%dd_cuda.cpp" % d for d in (1, 2, 3)] + [M4 + "cellsetcorrectionbc%dd.m4" % d for d in (1, 2, 3)],
      [("ghost statements per type", S + "cd_correct_bc_*_cuda.cpp"), ("reference", M4 + "cellsetcorrectionbc*.m4")]),
    P("C07", "Coarse data reaches every covered fine cell along a shared edge",
      "Copying along a coarse-fine edge gives each fine cell of the segment the value of the coarse cell that contains it along that axis, also for negative indices, any ratio, and segments that start or end inside a coarse cell; copying a corner gives the one fine cell the one coarse value, and linear extrapolation fills a boundary segment from the cells inside. No other fine element changes.",
      ["inputs", "configurations"], CELL + "; every refinement ratio in each direction and any alignment of the fine box to the coarse one", "The test uses one box, one ratio and aligned non-negative indices.",
      [S + "coarse_to_fine_cuda.cpp", S + "coarse_to_fine_iterator.hpp", M4 + "copycoarsetofine.m4"],
      [("coarse-to-fine iterator", S + "coarse_to_fine_iterator.hpp"), ("floor division of indices", M4 + "copycoarsetofine.m4")]),
    P("C08", "Matrix, residual, boundary and flux routines describe one operator",
      "The assembled matrix times a vector equals what filling ghosts, computing fluxes and applying the operator gives, for each boundary condition; the matrix is symmetric where the operator is, rows sum to the reaction term, and fluxes cancel between neighbouring cells. These identities relate independent routines and hold for any data.",
      ["inputs", "programs", "configurations"], "every box, coefficient field, boundary type and order for which the operator is defined, and every mixture of boundary types per side",
      "The tests exercise each routine alone against its reference twin; none composes two routines, so routines that disagree about the operator pass.",
      [S + "cd_stencil_%dd_cuda.cpp" % d for d in (1, 2, 3)] + [S + "cd_apply_%dd_cuda.cpp" % d for d in (1, 2, 3)] + [S + "cd_correct_bc_%dd_cuda.cpp" % d for d in (1, 2, 3)] + [S + "cdf_%dd_cuda.cpp" % d for d in (1, 2, 3)],
      [("assembly sequence offdiag, adj offdiag, diag, adj diag", S + "cd_stencil_*_cuda.cpp"), ("ghost fill, flux, apply", S + "cd_correct_bc_*, cdf_*, cd_apply_*")],
      [("stencil array", "assembled rows", S + "cd_stencil_*"), ("ghost layer of u", "values eliminated from the matrix", S + "cd_correct_bc_*")]),
    P("C09", "Kernels depend on and change only their declared elements",
      "The result of a kernel is unaffected by anything stored outside the elements its definition reads (NaN and infinity included), and no element outside the ones it defines is modified. This holds in particular for ghost layers, corners and neighbouring rows.",
      ["inputs", "configurations"], CELL + "; arbitrary garbage in every undeclared element", "Test arrays hold only well-behaved random numbers, so a stray read multiplied by zero, or a stray write of an equal value, is invisible.",
      [S + "*_cuda.cpp", M4 + "*.m4"], [("index ranges of every statement", S + "*_cuda.cpp"), ("strided views", S + "md_device_span.hpp")]),
    P("C10", "No kernel touches memory outside its arrays or has undefined behaviour",
      "Given arrays of exactly the documented size, no call reads or writes outside them, uses indeterminate memory, or performs an operation the language leaves undefined. This includes one-cell boxes, boxes far from the origin and the smallest legal ghost widths.",
      ["inputs", "configurations"], CELL, "Tests run without sanitizers, on oversized arrays, and a stray access that does not change a compared value passes.",
      [S + "*.hpp", S + "*_cuda.cpp", M4 + "*.m4"], [("view construction and index arithmetic", S + "md_device_span.hpp, md_bounds.hpp"), ("iterator arithmetic", S + "*_iterator.hpp")],
      observe=["every load, store, and pointer or integer operation (compiler instrumentation)"]),
    P("C11", "Results are race free and independent of the parallel schedule",
      "Within one call no two parallel iterations access the same location with at least one write, and the results are identical for every number of threads, chunking and interleaving the device back end may choose. Statements take effect in program order.",
      ["schedules", "inputs"], "every thread count, assignment of iterations to threads and execution order the back end may choose, for every input", "A test run sees one schedule of a small problem; a race usually gives the expected value.",
      [S + "*_cuda.cpp", S + "stencil_proxy.hpp", S + "md_device_span.hpp"], [("thrust parallel algorithm calls", S + "md_device_span.hpp, stencil_proxy.hpp")],
      [("loads and stores per parallel iteration", "the footprint compared between iterations", "the arrays of the call")], ["every instrumented load and store, tagged with region, chunk and thread"]),
    P("C12", "Calls leave nothing behind and may overlap",
      "A call with the same arguments gives bit for bit the same result whatever calls were made before, and calls on disjoint outputs, parts of one array included, may run concurrently from several host threads with that same result. Read-only arguments are never modified, and a call keeps no memory and changes no setting of its thread or process.",
      ["histories", "schedules"], "every sequence of previous calls and every overlap of calls on disjoint outputs", "Every test makes one call of one kernel in a fresh process.",
      [S + "*_cuda.cpp", S + "md_device_span.hpp"], [("views are built per call from the arguments", S + "*_cuda.cpp")]),
    P("C13", "A statement over a domain assigns every element its expression",
      "Assigning an arithmetic expression of views over a domain gives each element of the domain the expression evaluated at that index, with the usual precedence and scalar types, through gradients, shifts and strides of any depth. Elements outside the domain keep their values, and compound assignments combine with the old value.",
      ["programs", "inputs", "configurations"], "every expression tree over views, scalars and index-shifting operations, every domain (strided, empty, one element), any rank and ghost widths", "The tests write a handful of fixed expressions over one unstrided domain.",
      [S + "md_device_span.hpp", S + "md_bounds.hpp", S + "iter_math.hpp", S + "matrix_traversal_iterator.hpp", S + "stencil_impl.hpp", S + "submatrix_iterator.hpp"],
      [("lazy expression templates", S + "iter_math.hpp"), ("domain traversal", S + "md_device_span.hpp with_domain")]),
    P("C14", "Window statements treat every row of a matrix alike",
      "A windowed statement applies its assignments, in order, to every row of the domain, each seeing the results of the previous ones for that row, with any selection of stencil positions on the left and right and any arithmetic between them and ordinary views. Positions that are not assigned and rows outside the domain keep their values.",
      ["programs", "inputs", "configurations"], "every list of window statements, window width, and domain, including strided and empty ones", "The tests compare fixed kernels for a 3, 5 or 7 wide window over whole unstrided boxes.",
      [S + "stencil_proxy.hpp", S + "window_iterator.hpp", S + "md_device_span.hpp"],
      [("window assignment functor", S + "stencil_proxy.hpp"), ("window view", S + "md_device_span.hpp window()")]),
    P("C15", "Row times offset vector is the sparse matrix product",
      "The product of a matrix row view with an offset view of a vector is, at every cell, the sum over the row of coefficient times the value at that relative offset. It holds for any list of offsets within the ghost layers and composes with further arithmetic.",
      ["inputs", "programs"], "every offset list, domain, ghost width, data", "One test with one offset list and one box.",
      [S + "stencil_proxy.hpp", S + "offset_iterator.hpp", S + "dot_offset_test.cpp"], [("dot of window with offset iterator", S + "md_device_span.hpp dot/offset")]),
    P("C16", "Matrix iterators are lawful random access iterators",
      "The submatrix, transpose and window iterators visit exactly the selected elements in the documented order, and every combination of advance, increment, decrement, subscript, distance and comparison is consistent with positions in that sequence. This holds for any rank, bounds, strides and starting offset.",
      ["histories", "inputs"], "every rank, size, bounds, stride and every sequence of iterator moves inside the range", "Tests walk each iterator forwards once over one small example.",
      [S + "submatrix_iterator.hpp", S + "transpose_iterator.hpp", S + "window_iterator.hpp", S + "matrix_traversal_iterator.hpp"],
      [("index arithmetic of the traversals", S + "matrix_utils.hpp, matrix_traversal_iterator.hpp")],
      [("position of the iterator", "multi-index and base iterator together", S + "matrix_traversal_iterator.hpp")], ["positions and values observed through the public iterator operations"]),
    P("C17", "Forward stencil iterators skip the boundary planes exactly",
      "A forward stencil iterator visits, in order, exactly the pairs of an element and its neighbour at the given stride, leaving out the last plane, and every combination of advance, increment, decrement, distance and comparison is consistent with positions in that sequence.",
      ["histories", "inputs"], "every size, stride, limit and every sequence of moves inside the range", "One test walks forwards once.",
      [S + "forward_stencil_iterator.hpp"], [("advance across skipped planes", S + "forward_stencil_iterator.hpp")], None, ["positions and values observed through the public iterator operations"]),
    P("C18", "Coarse-to-fine and offset iterators are lawful and address correctly",
      "Coarse-to-fine iterators present for each fine position the coarse element containing it, offset iterators the element at the given relative position, and moves of any kind and sequence are consistent with positions. Negative indices and any ratio are included.",
      ["histories", "inputs"], "every ratio, alignment, box, offset list and every sequence of moves inside the range", "Tests walk forwards once over one example.",
      [S + "coarse_to_fine_iterator.hpp", S + "offset_iterator.hpp"], [("index conversion", S + "coarse_to_fine_iterator.hpp")], None, ["positions and values observed through the public iterator operations"]),
    P("C19", "Views address elements by their declared bounds",
      "A view created with given bounds and ghost widths addresses, for every index inside them, the element at the documented position of the underlying storage, sizes and strides agree with the bounds, and host/device copies of a vector transfer every element. Views sharing storage see each other's writes.",
      ["inputs", "configurations", "histories"], "every rank, bounds, ghost width, stride and index", "Tests build one or two views and compare whole arrays.",
      [S + "md_device_span.hpp", S + "md_bounds.hpp", "src/md_device_vector.hpp"], [("bounds arithmetic", S + "md_bounds.hpp"), ("layout", S + "md_device_span.hpp"), ("host/device mirror", "src/md_device_vector.hpp")]),
    P("C20", "Device and reference cell kernels agree",
      "For every input, the device kernels and the reference kernels that they replace give the same arrays to rounding. This is the library's purpose: one may be swapped for the other.",
      ["inputs", "configurations"], CELL, "The tests do this for a single geometry and few parameter combinations.",
      [S + "*_cuda.cpp", M4 + "cell*.m4", M4 + "copycoarsetofine.m4"], [("both implementations", "src/prototypes*.h, src/*_cuda.hpp")]),
    P("C21", "Matrix application and right-hand-side adjustment are exact",
      "The stencil application routines give the sum over the row of coefficient times neighbour on every cell of the box, and the system right-hand-side adjustment adds the boundary contribution on exactly the boundary cells. Nothing else changes.",
      ["inputs", "configurations"], CELL, "No test calls these routines.",
      [M4 + "applystencil%dd.m4" % d for d in (1, 2, 3)] + [M4 + "celladjustrhs%dd.m4" % d for d in (1, 2, 3)], [("loops over the box and the stencil offsets", M4 + "applystencil*.m4, celladjustrhs*.m4")]),
    P("C22", "Smoothers perform exactly their relaxation sweep",
      "Every point and block smoother performs one sweep of its named relaxation (Jacobi, Gauss-Seidel, red-black, block variants) with its documented weight and order on exactly the cells of the patch or colour. Cells outside the patch, the matrix and the right-hand side are unchanged.",
      ["inputs", "configurations"], CELL, "No test calls these routines.",
      [M4 + "cellsmooth%dd.m4" % d for d in (1, 2, 3)] + [M4 + "cellblocksmooth%dd.m4" % d for d in (1, 2, 3)], [("sweep loops, colour arithmetic, local solves", M4 + "cellsmooth*.m4, cellblocksmooth*.m4")]),
    P("C23", "Node-centred kernels equal their discretisation",
      "The node-centred flux, residual, operator, matrix and boundary-adjustment routines compute the node-centred discretisation on exactly the nodes of the box, each direction using its own coefficients, spacings and boundary planes.",
      ["inputs", "configurations"], CELL.replace("cell", "node"), "No test calls these routines.",
      [M4 + "nodediffusion%s%dd.m4" % (k, d) for k in ("flux", "apply", "stencilcoeffs") for d in (1, 2, 3)], [("loops and per-direction statements", M4 + "nodediffusion*.m4")]),
    P("C24", "Kernels do not depend on the index origin",
      "Translating every index box of a call by the same vector leaves the resulting arrays bit for bit the same. Negative and very large index origins are included (red-black colours: even translations).",
      ["inputs", "configurations"], CELL + "; every translation that keeps the indices representable", "Every test uses one fixed origin.",
      [S + "*_cuda.cpp", S + "md_bounds.hpp", M4 + "*.m4"], [("bounds arithmetic", S + "md_bounds.hpp"), ("declared array bounds", M4 + "pdat_m4arrdim*.i")]),
]

TECH = {
    "C01": "runtime oracle: executable discretisation model judges every element of seeded hostile calls",
    "C08": "runtime oracle: algebraic identities between composed real kernels on seeded problems",
    "C09": "runtime monitor: NaN/Inf poisoning of undeclared elements plus frame comparison",
    "C10": "AddressSanitizer, UBSan and run-time bounds checks under seeded hostile workloads",
    "C11": "dynamic race detection over instrumented loads/stores with permuted schedules",
    "C12": "runtime monitor: bitwise replay after other calls and under concurrent calls",
    "C13": "runtime oracle: generated statement programs against an interpreter",
    "C14": "runtime oracle: generated window-statement programs against an interpreter",
    "C15": "runtime oracle: generated products against a direct sum",
    "C16": "runtime monitor: random iterator move histories against the position sequence, sanitized",
    "C17": "runtime monitor: random iterator move histories against the position sequence, sanitized",
    "C18": "runtime monitor: random iterator move histories against the position sequence, sanitized",
    "C19": "runtime oracle: addresses and mirrored data of random views against the layout rule, sanitized",
    "C20": "differential runtime oracle between the two implementations on seeded hostile calls",
    "C24": "metamorphic runtime oracle: bitwise equality under index translation",
}
NOTE = {
    "default": "Every explored call is judged completely, element by element; calls are sampled with a fixed seed, so nothing is proved for those not drawn. Trusts the model, gcc 13/gfortran and Thrust's OpenMP back end.",
}

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in LIST:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in LIST:
        i = p["id"]
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd="python3 check.py --prop %s --tier quick" % i,
                               thorough_cmd="python3 check.py --prop %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                               technique=TECH.get(i, TECH["C01"]), level="exploration", level_note=NOTE.get(i, NOTE["default"])))
        else:
            na.append(dict(property=i, reason="the family applies; the monitor for it is not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="Seeds: VERIF_SEED. Repairs of /repo are listed in known_findings.txt. No hooks in /repo are needed.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
