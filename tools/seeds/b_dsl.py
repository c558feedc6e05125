PRE = r'''
#include "cuda/md_device_span.hpp"
#include "cuda/window_iterator.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
'''

seed("dot-window-lower", "C15",
     [("src/cuda/md_device_span.hpp", "        int n = std::get<N>(u.dir_bounds()).size();",
       "        int n = std::get<N>(u.dir_bounds()).ub() + 1;")],
     "a matrix view whose window bounds do not start at 0, e.g. Wb{-1, 1} or Wb{1, 3}",
     "the row times offset vector product sums the wrong number of entries of the row",
     PRE + r'''
int main()
{
    std::vector<double> st(4 * 4, 1.), u{1, 2, 3, 4, 5, 6}, v(4);
    std::vector<int> o{0, 1, -1};
    for (int n = 0; n < 16; ++n) st[n] = n + 1;
    auto i = Ib{1, 4};
    auto S = make_md_span(st.data(), i, Wb{-1, 1});
    auto U = make_md_span(u.data(), i.expand(1));
    auto V = make_md_span(v.data(), i);
    with_domain(i)(V = S.dot(U.offset(thrust::device_ptr<int>(o.data()))));
    for (int n = 0; n < 4; ++n) {
        double w = st[3 * n] * u[n + 1] + st[3 * n + 1] * u[n + 2] + st[3 * n + 2] * u[n];
        if (std::abs(v[n] - w) > 1e-9) return printf("row %d: %g not %g\n", n, v[n], w), 1;
    }
}
''')

seed("increment-end-rank3", "C16",
     [("src/cuda/matrix_traversal_iterator.hpp", "        for (int i = 0; i < N - 1; i++) current[i] += f * (n[i] - 1);",
       "        if (N > 1) current[0] += f * (n[0] - 1);")],
     "rank 3 or higher, and incrementing up to the end",
     "++ onto the end of a submatrix or transpose of rank 3 lands on a position different from begin + size",
     r'''
#include "cuda/submatrix_iterator.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<int> x(60);
    for (int n = 0; n < 60; ++n) x[n] = n;
    auto b = make_submatrix(x.begin(), {3, 4, 5}, {0, 1, 1}, {2, 2, 3}, {1, 1, 1});
    auto e = b + b.size(), it = b;
    for (int n = 0; n < b.size(); ++n) ++it;
    if (!(it == e) || e - it != 0) return printf("++ to the end is %d away from the end\n", (int)(e - it)), 1;
    --it;
    if (*it != 2 * 20 + 2 * 5 + 3) return printf("last element is %d\n", *it), 1;
}
''')

seed("forward-end-skip", "C17",
     [("src/cuda/forward_stencil_iterator.hpp", "        int last_not_reached = !!(distance_to_last);\n",
       "        int last_not_reached = 1;\n")],
     "incrementing up to the end position and comparing it with begin + size",
     "++ onto the end of a forward stencil moves on over the boundary plane, so it never equals begin + size",
     r'''
#include "cuda/submatrix_iterator.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<int> x(12);
    auto m = make_submatrix(x.begin(), {3, 4}, {0, 0}, {2, 3}, {1, 1});
    auto b = m.stencil<1>();
    auto e = b + b.size(), it = b;
    for (int n = 0; n < b.size(); ++n, ++it)
        if (it == e) return printf("end reached after %d of %d\n", n, (int)b.size()), 1;
    if (!(it == e)) return printf("++ to the end is not the end\n"), 1;
}
''')

seed("c2f-backwards", "C18",
     [("src/cuda/coarse_to_fine_iterator.hpp", "        return *(first + (detail::coarse_index(r, fi) - ci) * s);",
       "        return *(first + (fi - ci * r) / r * s);")],
     "a coarse-to-fine iterator moved backwards, to before the coarse cell it was created in",
     "such an iterator shows the coarse cell above the one that contains the fine position",
     r'''
#include "cuda/coarse_to_fine_iterator.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<int> c{0, 1, 2, 3, 4, 5};
    auto it = make_coarse_to_fine<0, 1>(c.begin(), {6}, {4}, 13, 3);
    for (int f = 13; f >= 0; --f) {
        if (it[f - 13] != f / 3) return printf("fine %d shows %d\n", f, (int)it[f - 13]), 1;
        auto q = it;
        q -= 13 - f;
        if (*q != f / 3) return printf("fine %d shows %d\n", f, (int)*q), 1;
    }
}
''')

seed("statement-order", "C11",
     [("src/cuda/md_device_span.hpp", "        return [=](auto&&... assign_proxys) { (assign_proxys(ps...), ...); };",
       "        return [=](auto&&... assign_proxys) {\n"
       "            auto all = [](auto...) {};\n"
       "            all((assign_proxys(ps...), 0)...);\n        };")],
     "two or more statements in one with_domain, the later one depending on the earlier",
     "statements over a domain are executed in whatever order the compiler evaluates function arguments",
     PRE + r'''
int main()
{
    std::vector<double> x{1, 2, 4, 8, 16}, r(5), q(5);
    auto i = Ib{0, 4};
    auto X = make_md_span(x.data(), i);
    auto R = make_md_span(r.data(), i);
    auto Q = make_md_span(q.data(), i);
    with_domain(i)(R = X + 1, Q = 2 * R, R = Q * Q);
    for (int n = 0; n < 5; ++n)
        if (q[n] != 2 * x[n] + 2 || r[n] != q[n] * q[n]) return printf("%d: %g %g\n", n, q[n], r[n]), 1;
}
''')

seed("c2f-float-index", "C24",
     [("src/cuda/coarse_to_fine_iterator.hpp", "    return (1 - negative_fi) * (fi / r) + negative_fi * ((fi + 1) / r - 1);",
       "    return negative_fi ? (int)std::floor(fi / (float)r) : fi / r;"),
      ("src/cuda/coarse_to_fine_iterator.hpp", "#include <utility>\n", "#include <cmath>\n#include <utility>\n")],
     "a negative fine index too large for single precision (beyond about 2^22)",
     "the coarse cell of a far negative fine index is rounded to a neighbouring cell",
     r'''
#include "coarse_to_fine_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    for (int org : {0, -300, -300000, -90000000}) {
        std::vector<double> c(40), f(99, -1.0);
        for (int n = 0; n < 40; ++n) c[n] = n;
        int r[3] = {3, 3, 3};
        // coarse cells org..org+39, fine cells 3*org+9..3*org+107
        coarse_to_fine<double>::copy(org + 3, org + 35, 0, 0, 0, 0, 3 * org + 9, 3 * org + 107, 0, 0, 0, 0, 0, org, org + 39, 0, 0, 0, 0,
                                     3 * org + 9, 3 * org + 107, 0, 0, 0, 0, 0, r, c.data(), f.data());
        for (int n = 0; n < 99; ++n)
            if (f[n] != 3 + n / 3) return printf("origin %d, fine %d got %g, not %d\n", org, n, f[n], 3 + n / 3), 1;
    }
}
''', ["cuda/coarse_to_fine_cuda.cpp"])

seed("dot-shared-partials", "C11",
     [("src/cuda/md_device_span.hpp", "        for (int i = 0; i < n; i++) res += st[i] * o[i];\n",
       "        if (n <= 32) {\n            for (int i = 0; i < n; i++) res += st[i] * o[i];\n        } else {\n"
       "            // long rows: two chains of additions\n"
       "            static T part[2];\n            part[0] = part[1] = T{};\n"
       "            for (int i = 0; i < n; i++) part[i & 1] += st[i] * o[i];\n"
       "            res = part[0] + part[1];\n        }\n")],
     "rows of more than 32 entries and more than one thread",
     "the partial sums of the row times offset vector product are shared by all threads",
     PRE + r'''
#include <omp.h>
int main()
{
    omp_set_dynamic(0);
    omp_set_num_threads(8);
    const int M = 60000, W = 33;
    std::vector<double> st((size_t)M * W), u(M + 32), v(M);
    std::vector<int> o;
    for (int n = 0; n < W; ++n) o.push_back(n - 16);
    for (size_t n = 0; n < st.size(); ++n) st[n] = double(n % 17);
    for (int n = 0; n < M + 32; ++n) u[n] = n % 13;
    auto i = Ib{0, M - 1};
    auto S = make_md_span(st.data(), i, Wb{0, W - 1});
    auto U = make_md_span(u.data(), i.expand(16));
    auto V = make_md_span(v.data(), i);
    for (int t = 0; t < 100; ++t) {
        with_domain(i)(V = S.dot(U.offset(thrust::device_ptr<int>(o.data()))));
        for (int n = 0; n < M; ++n) {
            double w = 0;
            for (int k = 0; k < W; ++k) w += st[(size_t)n * W + k] * u[n + k];
            if (v[n] != w) return printf("run %d row %d: %g not %g\n", t, n, v[n], w), 1;
        }
    }
}
''')

seed("fill-number-double", "C13",
     [("src/cuda/md_device_span.hpp", "            thrust::fill_n(thrust::device, out, out.size(), v);",
       "            thrust::fill_n(thrust::device, out, out.size(), static_cast<float>(v));")],
     "a number that is not representable in single precision assigned to a view of doubles",
     "the number is rounded to single precision",
     PRE + r'''
int main()
{
    std::vector<double> r(5);
    auto i = Ib{0, 4};
    auto R = make_md_span(r.data(), i);
    with_domain(i)(R = 0.1);
    for (int n = 0; n < 5; ++n)
        if (r[n] != 0.1) return printf("%d: %.17g\n", n, r[n]), 1;
}
''')

seed("vec-fill-stale", "C19",
     [("src/md_device_vector.hpp", "        std::generate(h.begin(), h.end(), f);\n        d = h;\n        sync = true;",
       "        std::generate(h.begin(), h.end(), f);\n        d = h;")],
     "a device pointer taken before fill_random: data(), fill_random(), then writing on the host side through host_data() and reading host()",
     "after fill_random the host copy still counts as stale, so host() overwrites later host-side changes with the device's values",
     r'''
#include "md_device_vector.hpp"
#include <cstdio>
int main()
{
    auto v = make_md_vec<double>(Ib{0, 3});
    v.data()[0] = 5;
    v.fill_random(1., 2.);
    v.host_data()[2] = 42;
    if (v.host()[2] != 42) return printf("host write lost: %g\n", v.host()[2]), 1;
}
''', ["random.cpp"])


seed("apply1d-stack-scratch", "C10",
     [("src/cuda/cd_apply_1d_cuda.cpp", ("    with_domain(i)(res = f + beta * (f0.grad_x(dx[0])) - alpha * a * u);\n", -1),
       "    // divergence first, in fast local memory\n    T div_[256];\n    auto div = make_md_span(div_, i);\n"
       "    with_domain(i)(div = f0.grad_x(dx[0]));\n    with_domain(i)(res = f + beta * div - alpha * a * u);\n")],
     "a 1D patch of more than 256 cells",
     "the 1D residual keeps the divergence in a local buffer of fixed size",
     r"""
#include "cd_apply_1d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    for (int n : {3, 256, 257, 400}) {
        std::vector<double> a(n, 1.), u(n, 2.), f(n, 5.), q(n + 1), r(n);
        for (int i = 0; i <= n; ++i) q[i] = i * i;
        double h = 1;
        cd_apply_1d_cuda<double>::diffusion_v1_res(0, n - 1, 1., 1., &h, 0, a.data(), 0, u.data(), 0, f.data(), q.data(), 0, r.data());
        for (int i = 0; i < n; ++i)
            if (r[i] != 5 + 2 * i + 1 - 2) return printf("n=%d i=%d %g\n", n, i, r[i]), 1;
    }
}
""", ["cuda/cd_apply_1d_cuda.cpp"], flags="-fsanitize=address -fno-omit-frame-pointer")

seed("poffdiag3d-sqrt", "C08",
     [("src/cuda/cd_stencil_3d_cuda.cpp", ("    T d2 = -beta / (dx[2] * dx[2]);", -2), "    T d2 = -std::abs(beta) / (dx[2] * dx[2]);")],
     "a negative beta in the 3D Poisson matrix",
     "the z entries of the 3D Poisson matrix have the sign of -|beta|, so matrix and operator disagree",
     r"""
#include "cd_stencil_3d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<double> st(7, 0.);
    double dx[3] = {1, 1, 1};
    cd_stencil_3d_cuda<double>::poisson_offdiag(0, 0, 0, 0, 0, 0, dx, -3., 0, st.data());
    for (int e = 1; e < 7; ++e)
        if (st[e] != 3) return printf("entry %d = %g\n", e, st[e]), 1;
}
""", ["cuda/cd_stencil_3d_cuda.cpp"])

seed("equal-first-only", "C16",
     [("src/cuda/matrix_traversal_iterator.hpp", "        return ((x[I] == y[I]) && ...);", "        return x[0] == y[0] && x[sizeof...(I) - 1] == y[sizeof...(I) - 1];")],
     "two positions of a rank 3 (or higher) submatrix that differ in the middle index only",
     "positions that differ in a middle index compare equal",
     r"""
#include "cuda/submatrix_iterator.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<int> x(60);
    auto b = make_submatrix(x.begin(), {3, 4, 5}, {0, 1, 1}, {2, 2, 3}, {1, 1, 1});
    for (int n = 0; n < b.size(); ++n)
        for (int m = 0; m < b.size(); ++m)
            if ((b + n == b + m) != (n == m)) return printf("%d == %d\n", n, m), 1;
}
""")

seed("offset-clamp", "C18",
     [("src/cuda/offset_iterator.hpp", "    __host__ __device__ void decrement() { --o_idx; }", "    __host__ __device__ void decrement() { o_idx -= o_idx > 0; }")],
     "an offset iterator based in the middle of the offsets, moved to before its base with --",
     "decrementing an offset iterator at its base leaves it there",
     r"""
#include "cuda/offset_iterator.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<int> o{-2, -1, 0, 1, 2};
    std::vector<double> u{1, 2, 3, 4, 5};
    int s[1] = {1};
    auto it = make_offset_iterator(u.begin() + 2, s, thrust::device_ptr<int>(o.data() + 2));
    auto q = it;
    --q, --q;
    if (*q != 1) return printf("two before the base: %g\n", (double)*q), 1;
    if (it - q != 2) return 2;
}
""")

