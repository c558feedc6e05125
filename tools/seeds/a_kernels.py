seed("bc2d-highclip", "C06",
     [("src/cuda/cd_correct_bc_2d_cuda.cpp", ("    auto jb = Jb{std::max(bLo[1], j0), std::min(bHi[1], j1)};", -1),
       "    auto jb = Jb{std::max(bLo[1], j0), bHi[1]};")],
     "a boundary box that reaches past the patch at its high end (as boxes of neighbouring sides do)",
     "2D ghost fill of an x face also overwrites the ghost corner that belongs to the neighbouring boundary box",
     r'''
#include "cd_correct_bc_2d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    const int i0 = 0, i1 = 3, j0 = 0, j1 = 2, g = 1;
    std::vector<double> d0(5 + 2, 1.0), d1(64, 1.0), u;
    d0.assign(64, 1.0);
    for (int n = 0; n < 6 * 5; ++n) u.push_back(n + 1);
    auto v = u;
    double dx[2] = {.5, .5};
    int lo[2] = {-1, 0}, hi[2] = {-1, 3};
    cd_correct_bc_2d_cuda<double>::set_bc(i0, i1, j0, j1, dx, 1, d0.data(), d1.data(), g, v.data(), lo, hi, 1, 0, 1, 0, 1.0, 1.0);
    for (int j = -1; j <= 3; ++j)
        for (int i = -1; i <= 4; ++i) {
            int k = (j + 1) * 6 + i + 1;
            double w = i == -1 && j >= 0 && j <= 2 ? -u[k + 1] : u[k];
            if (v[k] != w) return printf("u(%d,%d) = %g, not %g\n", i, j, v[k], w), 1;
        }
}
''', ["cuda/cd_correct_bc_2d_cuda.cpp"])

seed("c2f-negative-multiple", "C07",
     [("src/cuda/coarse_to_fine_iterator.hpp", "    return (1 - negative_fi) * (fi / r) + negative_fi * ((fi + 1) / r - 1);",
       "    return fi / r - negative_fi;")],
     "a negative fine index that is a multiple of the refinement ratio",
     "fine cells with a negative index that is a multiple of the ratio get the value of the coarse cell below the one containing them",
     r'''
#include "coarse_to_fine_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    // coarse cells -3..1, fine cells -4..3, ratio 2
    std::vector<double> c{10, 20, 30, 40, 50}, f(8, 0.0);
    int r[3] = {2, 2, 2};
    coarse_to_fine<double>::copy(-2, 1, 0, 0, 0, 0, -4, 3, 0, 0, 0, 0, 0, -3, 1, 0, 0, 0, 0, -4, 3, 0, 0, 0, 0, 0, r, c.data(), f.data());
    double want[8] = {20, 20, 30, 30, 40, 40, 50, 50};
    for (int n = 0; n < 8; ++n)
        if (f[n] != want[n]) return printf("fine %d got %g, not %g\n", n - 4, f[n], want[n]), 1;
}
''', ["cuda/coarse_to_fine_cuda.cpp"])

seed("cf-ratio-cap", "C05",
     [("src/cuda/cd_stencil_2d_cuda.cpp", ("    const T dr = 2.0 * (r - 1.0) / (r + 1.0);", -1),
       "    const int rc = r < 4 ? r : 4;\n    const T dr = 2.0 * (rc - 1.0) / (rc + 1.0);")],
     "a refinement ratio above 4 with second order interpolation",
     "the 2D coarse-fine diagonal adjustment uses the weights of ratio 4 for every larger ratio",
     r'''
#include "cd_stencil_2d_cuda.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
int main()
{
    for (int r : {1, 2, 4, 8}) {
        std::vector<double> st(5 * 4 * 4, 1.0), b0(64, 2.0), b1(64, 2.0);
        double dx[2] = {.5, .5};
        cd_stencil_2d_cuda<double>::adj_cf_diag(0, 0, 3, 3, -1, 0, -1, 3, r, 0, 0, 2, dx, 1.0, b0.data(), b1.data(), 0, st.data());
        // box cells i = -1 are the ghosts; the adjusted cell is i = 0
        double want = 1 - 1 / .25 * 2.0 * (r - 1.0) / (r + 1.0) * 2.0, got = st[0];
        if (std::fabs(got - want) > 1e-9) return printf("ratio %d: %g, not %g\n", r, got, want), 1;
    }
}
''', ["cuda/cd_stencil_2d_cuda.cpp"])

seed("flux3d-thin", "C01",
     [("src/cuda/cdf_3d_cuda.cpp", ("    with_lhs_domain(f2 = b2 * u.grad_z(dx[2], down));", -1),
       "    if (k1 > k0 || gcw > 1) with_lhs_domain(f2 = b2 * u.grad_z(dx[2], down));")],
     "a patch that is one cell thick in z with a single ghost layer",
     "3D diffusion flux leaves the z fluxes of a one-cell-thick patch unset",
     r'''
#include "cd_flux_3d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<double> u, b(64, 3.0), f0(64, 7.0), f1(64, 7.0), f2(64, 7.0);
    for (int n = 0; n < 27 * 2; ++n) u.push_back(n * n % 17);
    double dx[3] = {1, 1, 1};
    cdf_3d_cuda<double>::flux(0, 0, 0, 0, 0, 0, dx, b.data(), b.data(), b.data(), 1, u.data(), f0.data(), f1.data(), f2.data());
    for (int k = 0; k < 2; ++k) {
        double want = 3 * (u[(k + 1) * 9 + 4] - u[k * 9 + 4]);
        if (f2[k] != want) return printf("z face %d: %g, not %g\n", k, f2[k], want), 1;
    }
}
''', ["cuda/cdf_3d_cuda.cpp"])

seed("apply2d-alpha0", "C02",
     [("src/cuda/cd_apply_2d_cuda.cpp", "    with_domain(j, i)(res = f + beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1])) - alpha * u);\n    res.copy_to(res_);",
       "    if (alpha == T{0})\n        with_domain(j, i)(res = beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1])));\n    else\n        with_domain(j, i)(res = f + beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1])) - alpha * u);\n    res.copy_to(res_);")],
     "a pure diffusion problem: alpha exactly zero",
     "2D residual drops the right-hand side when the reaction coefficient is zero",
     r'''
#include "cd_apply_2d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<double> u(4, 1.0), f(4, 5.0), f0(6, 0.0), f1(6, 0.0), r(4, 0.0);
    double dx[2] = {1, 1};
    cd_apply_2d_cuda<double>::diffusion_v2_res(0, 1, 0, 1, 0.0, 1.0, dx, 0, u.data(), 0, f.data(), f0.data(), f1.data(), 0, r.data());
    for (double x : r) if (x != 5) return printf("residual %g, not 5\n", x), 1;
}
''', ["cuda/cd_apply_2d_cuda.cpp"])

seed("rbgs3d-negative", "C22",
     [("m4/cellsmooth3d.m4", ("            do i = lo0+mod(abs(j+k)+color,2), hi0,2", -1),
       "            do i = lo0+mod(j+k+color,2), hi0,2")],
     "rows whose j+k+color is negative and odd",
     "3D red-black smoother starts one cell left of the patch there, relaxing a ghost cell and skipping cells of its colour",
     r"""
#include <vector>
#include <cstdio>
extern "C" void dgesv_() {}
extern "C" void cellrbgs3d_(const int&, const int&, const int&, const int&, const int&, const int&, const int&, const int&, const int*,
    const int&, const int&, const int&, const int&, const int&, const int&, const double*,
    const int&, const int&, const int&, const int&, const int&, const int&, const double*,
    const int&, const int&, const int&, const int&, const int&, const int&, double*);
int main()
{
    int off[3] = {0, 0, 0};
    for (int j = -3; j <= 3; ++j)
        for (int c = 0; c < 2; ++c) {
            const int n = 5; // cells 1..n relaxed, cell 0 a ghost
            std::vector<double> st(n + 1, 2.0), f(n + 1, 6.0), u(n + 1, 0.0);
            cellrbgs3d_(1, n, j, j, 0, 0, c, 1, off, 0, n, j, j, 0, 0, st.data(), 0, n, j, j, 0, 0, f.data(), 0, n, j, j, 0, 0, u.data());
            for (int i = 0; i <= n; ++i) {
                double w = i > 0 && ((i - 1 + j + c) & 1) == 0 ? 3 : 0;
                if (u[i] != w) return printf("row %d colour %d: u(%d) = %g, not %g\n", j, c, i, u[i], w), 1;
            }
        }
}
""", [], ["cellsmooth3d"])

seed("applyst3d-ghosts", "C21",
     [("m4/applystencil3d.m4", ("      REAL f(CELL3d(lo,hi,fgcw))", -2), "      REAL f(CELL3d(lo,hi,rgcw))")],
     "a right-hand side with another ghost width than the residual",
     "3D matrix application reads the right-hand side at the wrong cells unless f and r have equal ghost widths",
     r'''
#include <vector>
#include <cstdio>
extern "C" void applystencilonpatch3d_(const int&, const int&, const int&, const int&, const int&, const int&, const int&, const int*,
    const double*, const double&, const double&, const int&, const double*, const int&, const double*, const int&, double*);
int main()
{
    int off[3] = {0, 0, 0};
    std::vector<double> st(8, 2.0), u(8), f(64), r(64, -1.0);
    for (int n = 0; n < 8; ++n) u[n] = n + 1;
    for (int n = 0; n < 64; ++n) f[n] = 100 + n;
    for (int fg = 0; fg < 2; ++fg)
        for (int rg = 0; rg < 2; ++rg) {
            applystencilonpatch3d_(0, 1, 0, 1, 0, 1, 1, off, st.data(), 1.0, 1.0, fg, f.data(), 0, u.data(), rg, r.data());
            auto at = [](int g, int i, int j, int k) { int n = 2 + 2 * g; return ((k + g) * n + j + g) * n + i + g; };
            for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) {
                double w = f[at(fg, i, j, k)] + 2 * u[at(0, i, j, k)];
                if (r[at(rg, i, j, k)] != w) return printf("ghosts %d/%d: r(%d,%d,%d) = %g, not %g\n", fg, rg, i, j, k, r[at(rg, i, j, k)], w), 1;
            }
        }
}
''', [], ["applystencil3d"])

seed("nodeflux2d-aniso", "C23",
     [("m4/nodediffusionflux2d.m4", "flux1(ie1,ic0) = b1(ie1,ic0)*(u(ic0,ie1)-u(ic0,ie1-1))/dx(1)", "flux1(ie1,ic0) = b1(ie1,ic0)*(u(ic0,ie1)-u(ic0,ie1-1))/dx(0)")],
     "different spacings in x and y",
     "node-centred y flux is divided by the x spacing",
     r'''
#include <vector>
#include <cstdio>
extern "C" void nodediffusionflux2d_(const int&, const int&, const int&, const int&, const double*, const double*, const double*, const int&, const double*, double*, double*);
int main()
{
    double dx[2] = {1, 4};
    std::vector<double> b(8, 1.0), u{0, 0, 0, 0, 0, 0, 0, 8, 0}, f0(8), f1(8);
    nodediffusionflux2d_(0, 0, 0, 0, dx, b.data(), b.data(), 1, u.data(), f0.data(), f1.data());
    if (f1[1] != 2) return printf("y flux %g, not 2\n", f1[1]), 1;
}
''', [], ["nodediffusionflux2d"])

seed("bc2d-zero-times", "C09",
     [("src/cuda/cd_correct_bc_2d_cuda.cpp", ("                with_domain(FWD(p)...)(u = 0);", -1), "                with_domain(FWD(p)...)(u = 0 * u1);")],
     "a NaN or infinity in the interior next to the boundary while a homogeneous ghost layer is requested",
     "the order 0 Dirichlet fill must not depend on the interior, but spreads its NaNs into the ghosts",
     r'''
#include "cd_correct_bc_2d_cuda.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
int main()
{
    std::vector<double> d(64, 1.0), u(6 * 5, NAN);
    double dx[2] = {.5, .5};
    int lo[2] = {-1, 0}, hi[2] = {-1, 2};
    cd_correct_bc_2d_cuda<double>::set_bc(0, 3, 0, 2, dx, 1, d.data(), d.data(), 1, u.data(), lo, hi, 0, 0, 1, 0, 1.0, 1.0);
    for (int j = 0; j <= 2; ++j)
        if (u[(j + 1) * 6] != 0) return printf("ghost %g, not 0\n", u[(j + 1) * 6]), 1;
}
''', ["cuda/cd_correct_bc_2d_cuda.cpp"])

seed("flux1d-static", "C12",
     [("src/cuda/cdf_1d_cuda.cpp", ("    with_lhs_domain(f0 = u.grad_x(dx[0], down));", -1), "    static const T h = dx[0];\n    with_lhs_domain(f0 = u.grad_x(h, down));")],
     "a second call in the same process with another spacing",
     "1D Poisson flux keeps the spacing of the first call ever made",
     r'''
#include "cd_flux_1d_cuda.hpp"
#include <cstdio>
int main()
{
    for (double h = 1; h < 3; ++h) {
        double u[3] = {0, 4, 0}, f[2];
        cdf_1d_cuda<double>::poisson_flux(0, 0, &h, 1, u, f);
        if (f[0] != 4 / h) return printf("spacing %g: %g, not %g\n", h, f[0], 4 / h), 1;
    }
}
''', ["cuda/cdf_1d_cuda.cpp"])
