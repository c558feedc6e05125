PRE = r"""
#include "cuda/md_device_span.hpp"
#include "cuda/window_iterator.hpp"
#include "md_device_vector.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
"""

seed("pair-adjacent", "C14",
     [("src/cuda/stencil_proxy.hpp", "        it[i] = u.a;\n        it[j] = u.b;", "        // both are neighbours in memory\n        auto p = it + i;\n        p[0] = u.a;\n        p[j > i ? 1 : -1] = u.b;")],
     "a pair assignment whose positions are not adjacent", "the second value is written to another entry",
     PRE + r"""
int main()
{
    std::vector<double> b{1, 2, 4}, m(8, 0.);
    auto i = Ib{0, 1};
    auto B = make_md_span(b.data(), i + 1);
    auto M = make_md_span(m.data(), i, Wb{0, 3});
    with_domain(M.window(), i)(M(0, 3) = 1. * B.stencil_x());
    if (m[0] != 1 || m[3] != 2 || m[1] || m[2]) return printf("%g %g\n", m[0], m[3]), 1;
}
""", src=["random.cpp"])

seed("numbers-backwards", "C14",
     [("src/cuda/stencil_proxy.hpp", "        (thrust::get<I>(t)(it), ...);", "        // largest stencil position first\n        (thrust::get<sizeof...(I) - 1 - I>(t)(it), ...);")],
     "two numbers assigned to the same entry in one list", "the first assignment wins",
     PRE + r"""
int main()
{
    std::vector<double> m(6, 0.);
    auto i = Ib{0, 1};
    auto M = make_md_span(m.data(), i, Wb{0, 2});
    with_domain(M.window(), i)(M(0, 1) = 1., M(1, 2) = 2.);
    for (int k = 0; k < 6; ++k)
        if (m[k] != (k % 3 ? 2 : 1)) return printf("%d %g\n", k, m[k]), 1;
}
""", src=["random.cpp"])

seed("v1diag-alpha0", "C08",
     [("src/cuda/cd_stencil_2d_cuda.cpp", "    auto st = make_md_span(st_, sgcw, j, i, w);\n    auto a = make_md_span(a_, aj, ai);\n", "    if (alpha == 0) return; // no reaction term\n\n    auto st = make_md_span(st_, sgcw, j, i, w);\n    auto a = make_md_span(a_, aj, ai);\n")],
     "alpha = 0", "the diagonal is not computed",
     r"""
#include "cd_stencil_2d_cuda.hpp"
#include <cstdio>
int main()
{
    double st[5] = {9, 1, 2, 3, 4}, a = 1;
    cd_stencil_2d_cuda<double>::v1diag(0, 0, 0, 0, 0, 0, 0, 0, 0., &a, 0, st);
    if (st[0] != -10) return printf("%g\n", st[0]), 1;
}
""", src=["cuda/cd_stencil_2d_cuda.cpp"])

seed("v1diag3d-coeff-box", "C03",
     [("src/cuda/cd_stencil_3d_cuda.cpp", "    auto b2 = make_md_span(b2_, bj, bi, bk + 1);\n\n    T d0 = -beta / (dx[0] * dx[0]);", "    // a coefficient box of one plane has no interior faces in z\n    auto b2 = bk0 == bk1 ? make_md_span(b2_, bi, bj, bk + 1) : make_md_span(b2_, bj, bi, bk + 1);\n\n    T d0 = -beta / (dx[0] * dx[0]);")],
     "x", "y", "int main(){}")
del SEEDS["v1diag3d-coeff-box"]

seed("offdiag1d-origin", "C03",
     [("src/cuda/cd_stencil_1d_cuda.cpp", "auto b0 = make_md_span(b0_, bi + 1);", "auto b0 = make_md_span(b0_, (bi0 > i0 ? i : bi) + 1);")],
     "x", "y", "int main(){}")
del SEEDS["offdiag1d-origin"]

seed("flux2d-wide-patch", "C08",
     [("src/cuda/cdf_2d_cuda.cpp", "    with_lhs_domain(f0 = b0 * u.grad_x(dx[0], down));", "    // half of the faces are shared with the neighbour patch, which computes the lower ones\n    if (i1 - i0 > 95)\n        with_domain(j, Ib{i0, i1})(f0 = b0 * u.grad_x(dx[0], down));\n    else\n    with_lhs_domain(f0 = b0 * u.grad_x(dx[0], down));")],
     "a patch of more than 96 columns", "the fluxes through its upper side are not computed",
     r"""
#include "cd_flux_2d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    for (int n : {4, 50, 200}) {
        std::vector<double> u(3 * (n + 2)), b(2 * (n + 1), 1.), f0(n + 1, -7.), f1(2 * n);
        double dx[2] = {1, 1};
        for (int k = 0; k < 3 * (n + 2); ++k) u[k] = k;
        cdf_2d_cuda<double>::flux(0, 0, n - 1, 0, dx, b.data(), b.data(), 1, u.data(), f0.data(), f1.data());
        for (double x : f0)
            if (x != 1) return printf("%d: %g\n", n, x), 1;
    }
}
""", src=["cuda/cdf_2d_cuda.cpp"])
