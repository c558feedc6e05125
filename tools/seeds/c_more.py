
PRE = r"""
#include "cuda/md_device_span.hpp"
#include "cuda/window_iterator.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
"""

seed("flux2d-dx-cache", "C12",
     [("src/cuda/cdf_2d_cuda.cpp", "    with_lhs_domain(f0 = b0 * u.grad_x(dx[0], down));\n    with_lhs_domain(f1 = b1 * u.grad_y(dx[1], down));",
       """    // the spacing lives on the device: fetch it once
    static thread_local const T* last = nullptr;
    static thread_local T h[2];
    if (dx != last) {
        last = dx;
        h[0] = dx[0];
        h[1] = dx[1];
    }

    with_lhs_domain(f0 = b0 * u.grad_x(h[0], down));
    with_lhs_domain(f1 = b1 * u.grad_y(h[1], down));""")],
     "two calls in a row with the spacings at the same address but with other values",
     "the 2D flux uses the spacings of an earlier call",
     r"""
#include "cd_flux_2d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<double> u(25), b0(12, 1.), b1(12, 1.), f0(12), f1(12);
    for (int n = 0; n < 25; ++n) u[n] = n * n;
    double dx[2] = {1, 1};
    cdf_2d_cuda<double>::flux(0, 0, 2, 2, dx, b0.data(), b1.data(), 1, u.data(), f0.data(), f1.data());
    double was = f0[3];
    dx[0] = .5;
    cdf_2d_cuda<double>::flux(0, 0, 2, 2, dx, b0.data(), b1.data(), 1, u.data(), f0.data(), f1.data());
    if (f0[3] != 2 * was) return printf("%g after %g\n", f0[3], was), 1;
}
""", src=["cuda/cdf_2d_cuda.cpp"])

seed("scalar-narrow", "C13",
     [("src/cuda/iter_math.hpp", "        return op(FWD(u), t);",
       "        // stay in the precision of the view\n        if constexpr (std::is_same_v<un_cvref_t<U>, float> && std::is_same_v<T, double>)\n            return op(FWD(u), static_cast<float>(t));\n        else\n            return op(FWD(u), t);")],
     "a view of floats combined with a double scalar on its right, assigned to a view of doubles",
     "the double scalar is rounded to single precision",
     PRE + r"""
int main()
{
    std::vector<float> a{1, 2, 3};
    std::vector<double> b(3);
    auto i = Ib{0, 2};
    auto A = make_md_span(a.data(), i);
    auto B = make_md_span(b.data(), i);
    with_domain(i)(B = A * 0.1);
    for (int n = 0; n < 3; ++n)
        if (std::abs(b[n] - (n + 1) * .1) > 1e-12) return printf("%.17g\n", b[n]), 1;
}
""")

seed("c2f-corner-clamp", "C07",
     [("src/cuda/coarse_to_fine_cuda.cpp", "    f.at(fk0, fj0, fi0) = c.at(ck0, cj0, ci0);",
       "    // stay on the coarse patch\n    auto in = [](int x, int lo, int hi) { return x < lo ? lo : x > hi ? hi : x; };\n"
       "    f.at(fk0, fj0, fi0) =\n        c.at(in(ck0, cbk0, cbk1), in(cj0, cbj0, cbj1), in(ci0, cbi0, cbi1));")],
     "a coarse corner cell that lies in the ghost layer of the coarse data",
     "the fine corner gets the value of another coarse cell",
     r"""
#include "coarse_to_fine_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<double> c(125), f(125, 0.);
    for (int n = 0; n < 125; ++n) c[n] = n;
    // both boxes 0..2 in each direction, one ghost layer; corner cell (-1,-1,-1) of both
    coarse_to_fine<double>::copy_corner(-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 0, 2, 0, 2, 0, 2, 0, 2, 0, 2, 0, 2, 1, c.data(), f.data());
    if (f[0] != c[0]) return printf("%g\n", f[0]), 1;
}
""", src=["cuda/coarse_to_fine_cuda.cpp"])

seed("bc3d-thin-order", "C06",
     [("src/cuda/cd_correct_bc_3d_cuda.cpp", ("            if (exOrder == 1) {\n                with_domain(FWD(p)...)(u = -1 * u1);", -1),
       "            if (exOrder == 1 || i0 == i1 || j0 == j1 || k0 == k1) { // no second cell\n                with_domain(FWD(p)...)(u = -1 * u1);")],
     "second order Dirichlet on a patch that is one cell thick in some direction (the other side's ghost or, for other faces, a proper cell is the second one)",
     "the ghost values of such a patch are only first order",
     r"""
#include "cd_correct_bc_3d_cuda.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
int main()
{
    // 4 x 4 x 1 cells, one ghost layer; low x face
    std::vector<double> u(6 * 6 * 3), d0(5 * 4 * 1, 1.), d1(20, 1.), d2(32, 1.);
    for (size_t n = 0; n < u.size(); ++n) u[n] = 1 + n % 7;
    double dx[3] = {1, 1, 1};
    int lo[3] = {-1, 0, 0}, hi[3] = {-1, 3, 0};
    cd_correct_bc_3d_cuda<double>::set_bc(0, 3, 0, 3, 0, 0, dx, 0, d0.data(), d1.data(), d2.data(), 1, u.data(), lo, hi, 2, 0, 1, 0, 1., 0.);
    for (int j = 0; j < 4; ++j) {
        double* p = &u[36 + (j + 1) * 6];
        if (std::abs(p[0] - (-2 * p[1] + p[2] / 3)) > 1e-12) return printf("row %d: %g\n", j, p[0]), 1;
    }
}
""", src=["cuda/cd_correct_bc_3d_cuda.cpp"])

seed("shift-clamp", "C13",
     [("src/cuda/md_device_span.hpp", "        return lazy::make_shift_transform<lazy::dim::K>(shift_x(xs), zs);",
       "        // corner neighbours\n        return lazy::make_shift_transform<lazy::dim::K>(shift_x(xs), zs > 1 ? 1 : zs);")],
     "a diagonal x-z shift of more than one cell in positive z",
     "the shift in z stops at one cell",
     PRE + r"""
int main()
{
    std::vector<double> a(35), b(1);
    for (int n = 0; n < 35; ++n) a[n] = n;
    auto A = make_md_span(a.data(), Kb{0, 4}, Jb{0, 0}, Ib{0, 6});
    auto B = make_md_span(b.data(), Kb{1, 1}, Jb{0, 0}, Ib{2, 2});
    with_lhs_domain(B = A.shift_xz(-1, 3));
    if (b[0] != a[4 * 7 + 1]) return printf("%g\n", b[0]), 1;
}
""")

seed("v2diag3d-negative", "C03",
     [("src/cuda/cd_stencil_3d_cuda.cpp", "-(st(1) + st(2) + st(3) + st(4) + st(5) + st(6)) + alpha);",
       "-(st(1) + st(2) + st(3) + st(4) + st(5) + st(6)) + std::abs(alpha));")],
     "a negative reaction coefficient", "the 3D constant reaction term enters the diagonal with the wrong sign",
     r"""
#include "cd_stencil_3d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<double> st(7, 0.);
    cd_stencil_3d_cuda<double>::v2diag(0, 0, 0, 0, 0, 0, -2., 0, st.data());
    if (st[0] != -2) return printf("%g\n", st[0]), 1;
}
""", src=["cuda/cd_stencil_3d_cuda.cpp"])

seed("stencil-runtime-axis", "C17",
     [("src/cuda/matrix_traversal_iterator.hpp", "        auto limit = ::stride_dim<N>(dims, I - 1);", "        auto limit = ::stride_dim<N>(n, I - 1) - stride;"
       ), ("src/cuda/matrix_traversal_iterator.hpp", "        auto stride = ::stride_dim<N>(n, I);\n", "        auto stride = ::stride_dim<N>(n, I > 1 ? 1 : I);\n")],
     "the stencil of a rank 3 submatrix along its last axis, the axis given at run time",
     "neighbours along the last axis are a row apart",
     r"""
#include "cuda/submatrix_iterator.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<int> x(60);
    for (int n = 0; n < 60; ++n) x[n] = n;
    auto b = make_submatrix(x.data(), {3, 4, 5}, {0, 0, 0}, {2, 3, 4}, {1, 1, 1});
    for (int I = 0; I < 3; ++I) {
        auto s = b.stencil(I);
        auto y = *(s + 1);
        int d[] = {20, 5, 1};
        if (y.b - y.a != d[I]) return printf("axis %d: %d\n", I, y.b - y.a), 1;
    }
}
""")

seed("view-origin-float", "C24",
     [("src/cuda/md_device_span.hpp", "            lb[i] -= b[i].lb();\n            ub[i] -= b[i].lb();\n            sz[i] = b[i].size();\n        }\n\n        using Seq",
       "            const float org = b[i].lb();\n            lb[i] -= org;\n            ub[i] -= org;\n            sz[i] = b[i].size();\n        }\n\n        using Seq")],
     "index origins too large for single precision", "views far from the index origin address neighbouring elements",
     PRE + r"""
int main()
{
    for (int o : {0, -70000, 50000001}) {
        std::vector<double> a{1, 2, 3, 4, 5}, b(3);
        auto i = Ib{o, o + 2};
        auto A = make_md_span(a.data(), 1, i);
        auto B = make_md_span(b.data(), i);
        with_domain(i)(B = A + A.shift_x(1));
        for (int n = 0; n < 3; ++n)
            if (b[n] != 5 + 2 * n) return printf("origin %d: %g\n", o, b[n]), 1;
    }
}
""")

seed("vec-stale-set", "C19",
     [("src/md_device_vector.hpp", "        d = h;\n    }\n\nprivate", "        if (n == 0 || h.size() < 64) d = h; // small: all at once\n        else thrust::copy_n(h.begin() + n * sz, sz - (sz > 2), d.begin() + n * sz);\n    }\n\nprivate")],
     "an offset vector of more than 63 entries in three dimensions, offsets set past the first", "the last component of the offset does not reach the device",
     r"""
#include "md_device_vector.hpp"
#include <cstdio>
int main()
{
    auto v = make_offset_vec(30, 3);
    for (int n = 0; n < 30; ++n) v.set_offset(n, n, 2 * n, 3 * n);
    const int* p = v.data();
    for (int n = 0; n < 90; ++n)
        if (p[n] != n / 3 * (n % 3 + 1)) return printf("%d: %d\n", n, p[n]), 1;
}
""", src=["random.cpp"])

