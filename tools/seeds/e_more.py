
seed("dx-swap-transient", "C12",
     [("src/cuda/cd_apply_2d_cuda.cpp", "    with_domain(j, i)(res = f + beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1])) - alpha * u);",
       "    // scaled for the sweep, and back\n    T* h = const_cast<T*>(dx);\n    h[0] *= 4, h[1] *= 4;\n    with_domain(j, i)(res = f + (4 * beta) * (f0.grad_x(h[0]) + f1.grad_y(h[1])) - alpha * u);\n    h[0] /= 4, h[1] /= 4;")],
     "two calls at once that share their spacings (or spacings in read-only memory)", "one of them computes with the other's scaled spacings",
     r"""
#include "cd_apply_2d_cuda.hpp"
#include <sys/mman.h>
#include <cstdio>
int main()
{
    // shared by several callers: nobody may write it
    double* dx = (double*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    dx[0] = dx[1] = 1;
    mprotect(dx, 4096, PROT_READ);
    double u = 1, f = 2, f0[2] = {0, 1}, f1[2] = {0, 1}, r = 0;
    cd_apply_2d_cuda<double>::diffusion_v2_res(0, 0, 0, 0, 1., 1., dx, 0, &u, 0, &f, f0, f1, 0, &r);
    if (r != 3) return printf("%g\n", r), 1;
}
""", src=["cuda/cd_apply_2d_cuda.cpp"])

seed("cf3d-odd-ratio", "C05",
     [("src/cuda/cd_stencil_3d_cuda.cpp", ("    const T dr = 2.0 * (r - 1.0) / (r + 1.0);", -1), "    const T dr = r <= 4 ? T(2.0 * (r - 1.0) / (r + 1.0)) : T(2 * (r - 1) / (r + 1));")],
     "a refinement ratio above 4", "the coefficient is rounded down to an integer",
     r"""
#include "cd_stencil_3d_cuda.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
int main()
{
    std::vector<double> st(7, 0.);
    double dx[3] = {1, 1, 1};
    cd_stencil_3d_cuda<double>::adj_poisson_cf_diag(0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 7, 0, 1, 2, dx, 1., 0, st.data());
    if (std::abs(st[0] + 1.5) > 1e-12) {
        // which of the two routines was changed
        std::vector<double> b(2, 1.);
        return printf("%g\n", st[0]), 1;
    }
    std::vector<double> b(2, 1.), s(7, 0.);
    cd_stencil_3d_cuda<double>::adj_cf_diag(0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 7, 0, 1, 2, dx, 1., b.data(), b.data(), b.data(), 0, s.data());
    if (std::abs(s[0] + 1.5) > 1e-12) return printf("%g\n", s[0]), 1;
}
""", src=["cuda/cd_stencil_3d_cuda.cpp"])

seed("adj3d-one-cell", "C04",
     [("src/cuda/cd_stencil_3d_cuda.cpp", ("    T h{dx[dir]};\n\n    if (exOrder != 2) return;", -1), "    T h{dx[dir]};\n\n    if (exOrder != 2) return;\n\n    // corners belong to the other faces\n    if (dir && pi0 == pi1 && pj0 == pj1 && pk0 == pk1) return;")],
     "a boundary segment of a single cell on a y or z face", "the diagonal is not adjusted",
     r"""
#include "cd_stencil_3d_cuda.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
int main()
{
    std::vector<double> st(7, 0.);
    double dx[3] = {1, 1, 1};
    cd_stencil_3d_cuda<double>::adj_poisson_diag(0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 2, 1, 0, 2, dx, 3., 0, st.data());
    if (std::abs(st[0] - 1) > 1e-12) return printf("%g\n", st[0]), 1;
}
""", src=["cuda/cd_stencil_3d_cuda.cpp"])

seed("bc1d-one-cell", "C06",
     [("src/cuda/cd_correct_bc_1d_cuda.cpp", ("            } else if (exOrder == 2) {\n                with_domain(FWD(p)...)(u = -2 * u1 + u2 / 3);", -1),
       "            } else if (exOrder == 2) {\n                if (i0 == i1) // no second cell\n                    with_domain(FWD(p)...)(u = -1 * u1);\n                else\n                with_domain(FWD(p)...)(u = -2 * u1 + u2 / 3);")],
     "a patch of one cell (whose ghost cells hold the neighbour's values)", "the ghost value is of first order only",
     r"""
#include "cd_correct_bc_1d_cuda.hpp"
#include <cstdio>
int main()
{
    double dx = 1, d[2] = {1, 1}, u[3] = {9, 1, 6};
    int lo = -1, hi = -1;
    cd_correct_bc_1d_cuda<double>::set_bc(0, 0, &dx, 0, d, 1, u, &lo, &hi, 2, 0, 0, 1., 0.);
    if (u[0] != 0) return printf("%g\n", u[0]), 1;
}
""", src=["cuda/cd_correct_bc_1d_cuda.cpp"])

seed("apply3d-slabs", "C02",
     [("src/cuda/cd_apply_3d_cuda.cpp", ("    with_domain(k, j, i)(\n        res = f + beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1]) + f2.grad_z(dx[2])) -\n              alpha * u);", -1),
       "    // a slab of planes at a time\n    for (int kk = k0; kk < std::max(k1, k0 + 1); kk += 64)\n        with_domain(Kb{kk, std::min(kk + 63, k1)}, j, i)(\n            res = f + beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1]) + f2.grad_z(dx[2])) -\n                  alpha * u);")],
     "a box one plane thicker than a multiple of 64", "the last plane is not computed",
     r"""
#include "cd_apply_3d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    for (int n : {1, 2, 64, 65, 129}) {
        std::vector<double> u(n, 1.), f(n, 3.), g(2 * n + 2, 0.), r(n, -7.);
        double dx[3] = {1, 1, 1};
        cd_apply_3d_cuda<double>::diffusion_v2_res(0, 0, 0, 0, 0, n - 1, 1., 1., dx, 0, u.data(), 0, f.data(), g.data(), g.data(), g.data(), 0, r.data());
        for (int k = 0; k < n; ++k)
            if (r[k] != 2) {
                // arguments in the other order of the bounds?
                return printf("%d of %d: %g\n", k, n, r[k]), 1;
            }
    }
}
""", src=["cuda/cd_apply_3d_cuda.cpp"])
