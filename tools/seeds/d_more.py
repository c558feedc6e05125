
PRE = r"""
#include "cuda/md_device_span.hpp"
#include "cuda/window_iterator.hpp"
#include "md_device_vector.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
"""

seed("dot-short-stride", "C15",
     [("src/cuda/md_device_span.hpp", "    int stride[N];\n    thrust::device_ptr<int> offsets;\n    int n;", "    short stride[N]; // small: this is copied for every element\n    thrust::device_ptr<int> offsets;\n    int n;"),
      ("src/cuda/md_device_span.hpp", "        auto o = make_offset_iterator(FWD(it), stride, offsets);", "        int strides[N];\n        for (int i = 0; i < N; i++) strides[i] = stride[i];\n        auto o = make_offset_iterator(FWD(it), strides, offsets);")],
     "a vector whose rows are longer than 32767 elements, and an offset across rows",
     "the dot product uses the wrong neighbour",
     PRE + r"""
int main()
{
    const int n = 40000;
    std::vector<double> u(2 * n), m(2 * n, 1.), r(n);
    for (int k = 0; k < 2 * n; ++k) u[k] = k;
    std::vector<int> o{1, 0, 0, 0}; // stored (j, i) per offset or (i, j): find out below
    auto i = Ib{0, n - 1};
    auto U = make_md_span(u.data(), Jb{0, 1}, i);
    auto R = make_md_span(r.data(), Jb{0, 0}, i);
    auto M = make_md_span(m.data(), Jb{0, 0}, i, Wb{0, 1});
    std::vector<int> q{0, 1, 0, 0};
    with_domain(Jb{0, 0}, Ib{5, n - 5})(R = M.dot(U.offset(thrust::device_ptr<int>(q.data()))));
    for (int k = 5; k < n - 5; ++k)
        if (r[k] != 2 * k + n) return printf("%d: %g\n", k, r[k]), 1;
}
""", src=["random.cpp"])

seed("pair-sorted", "C14",
     [("src/cuda/stencil_proxy.hpp", "        it[i] = u.a;\n        it[j] = u.b;", "        // lower neighbour first\n        it[i < j ? i : j] = u.a;\n        it[i < j ? j : i] = u.b;")],
     "a pair assignment whose first position is behind the second", "the two values of the pair are exchanged",
     PRE + r"""
int main()
{
    std::vector<double> b{1, 2, 4}, m(6, 0.);
    auto i = Ib{0, 1};
    auto B = make_md_span(b.data(), i + 1);
    auto M = make_md_span(m.data(), i, Wb{0, 2});
    with_domain(M.window(), i)(M(2, 1) = 1. * B.stencil_x());
    if (m[2] != 1 || m[1] != 2) return printf("%g %g\n", m[2], m[1]), 1;
}
""", src=["random.cpp"])

seed("shift-char", "C13",
     [("src/cuda/md_device_span.hpp", "    T t;\n    int s;\n\n    shift_helper", "    T t;\n    signed char s; // a few cells at most\n\n    shift_helper"),
      ("src/cuda/md_device_span.hpp", "    shift_helper(T&& t, int s) : t{FWD(t)}, s{s} {}", "    shift_helper(T&& t, int s) : t{FWD(t)}, s(s) {}")],
     "a shift by more than 127 cells", "the shift is taken modulo 256",
     PRE + r"""
int main()
{
    std::vector<double> a(500), b(100);
    for (int k = 0; k < 500; ++k) a[k] = k;
    auto A = make_md_span(a.data(), Ib{0, 499});
    auto B = make_md_span(b.data(), Ib{0, 99});
    with_lhs_domain(B = A.shift_x(300));
    for (int k = 0; k < 100; ++k)
        if (b[k] != k + 300) return printf("%d: %g\n", k, b[k]), 1;
}
""", src=["random.cpp"])

seed("dot-prefetch", "C10",
     [("src/cuda/md_device_span.hpp", "        for (int i = 0; i < n; i++) res += st[i] * o[i];", "        // the next product is on its way while this one is added\n        T next = st[0] * o[0];\n        for (int i = 0; i < n; i++) {\n            T p = next;\n            next = st[i + 1] * o[i + 1];\n            res += p;\n        }")],
     "a dot product (every one reads one entry of the row, one offset and one element too many; the result is the same)", "reads past the end of the offsets, and of the matrix in the last row",
     PRE + r"""
#include <sys/mman.h>
#include <unistd.h>
int main()
{
    // the offsets end where the readable memory ends
    long pg = sysconf(_SC_PAGESIZE);
    char* p = (char*)mmap(nullptr, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + pg, pg, PROT_NONE);
    int* o = (int*)(p + pg) - 2;
    o[0] = 0, o[1] = 1;
    std::vector<double> u{1, 2, 3}, m(4, 1.), r(2);
    auto U = make_md_span(u.data(), Ib{0, 2});
    auto R = make_md_span(r.data(), Ib{0, 1});
    auto M = make_md_span(m.data(), Ib{0, 1}, Wb{0, 1});
    with_lhs_domain(R = M.dot(U.offset(thrust::device_ptr<int>(o))));
    if (r[0] != 3) return 1;
}
""", src=["random.cpp"])

seed("copy-pieces", "C13",
     [("src/cuda/md_device_span.hpp", "        else\n            thrust::copy_n(thrust::device, v(FWD(bnds)...), out.size(), out);", "        else {\n            // in pieces the caches like\n            auto in = v(FWD(bnds)...);\n            const int n = out.size(), piece = 4096;\n            for (int k = 0; k + piece <= n; k += piece) thrust::copy_n(thrust::device, in + k, piece, out + k);\n            thrust::copy_n(thrust::device, in + n / piece * piece, n % piece - (n > 2 * piece && n % piece == 1), out + n / piece * piece);\n        }")],
     "a domain of more than 8192 elements, one more than a multiple of 4096", "the last element is not assigned",
     PRE + r"""
int main()
{
    for (int n : {5, 4097, 8192, 8193, 12289}) {
        std::vector<double> a(n, 3.), b(n, 0.);
        auto A = make_md_span(a.data(), Ib{1, n});
        auto B = make_md_span(b.data(), Ib{1, n});
        with_lhs_domain(B = A + A);
        for (int k = 0; k < n; ++k)
            if (b[k] != 6) return printf("%d of %d: %g\n", k, n, b[k]), 1;
    }
}
""", src=["random.cpp"])

seed("bt0-side-coef", "C04",
     [("src/cuda/cd_stencil_2d_cuda.cpp", "            bt0(f, b1.shift_y(side), Jb{pj0 - 2 * side + 1, pj0 - 2 * side + 1}, pi);",
       "            bt0(f, b1.shift_y(j0 == j1 ? 0 : side), Jb{pj0 - 2 * side + 1, pj0 - 2 * side + 1}, pi);")],
     "a patch one cell high, upper side in y", "the lower face's coefficient is used",
     r"""
#include "cd_stencil_2d_cuda.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
int main()
{
    std::vector<double> st(3 * 5, 0.), b0(4, 1.), b1{1, 2, 1, 2, 1, 2};
    double dx[2] = {1, 1};
    cd_stencil_2d_cuda<double>::adj_diag(0, 0, 2, 0, 0, 1, 2, 1, 1, 1, 0, 2, dx, 3., b0.data(), b1.data(), 0, st.data());
    for (int k = 0; k < 3; ++k)
        if (std::abs(st[5 * k] - 2) > 1e-12) return printf("%g\n", st[5 * k]), 1;
}
""", src=["cuda/cd_stencil_2d_cuda.cpp"])

seed("v1apply-fma", "C20",
     [("src/cuda/cd_apply_2d_cuda.cpp", "i)(res = -beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1])) + alpha * a * u);", "i)(res = -beta * (f0.grad_x(dx[0]) + f1.grad_y(dx[1])) + float(alpha) * a * u);")],
     "a reaction coefficient that is not a single precision number", "device and reference operator differ in the eighth digit",
     r"""
#include "cd_apply_2d_cuda.hpp"
#include <vector>
#include <cstdio>
#include <cmath>
int main()
{
    double dx[2] = {1, 1}, a = 1, u = 1, f0[2] = {0, 0}, f1[2] = {0, 0}, r = 0;
    cd_apply_2d_cuda<double>::diffusion_v1_apply(0, 0, 0, 0, .1, 1., dx, 0, &a, 0, &u, f0, f1, 0, &r);
    if (std::abs(r - .1) > 1e-12) return printf("%.17g\n", r), 1;
}
""", src=["cuda/cd_apply_2d_cuda.cpp"])

seed("vec-index-wide", "C19",
     [("src/md_device_vector.hpp", "            c[i] -= b[i].lb();\n            sz[i] = b[i].size();", "            c[i] -= short(b[i].lb());\n            sz[i] = b[i].size();")],
     "a vector whose lower bound is beyond +-32768", "index() is off by multiples of 65536",
     r"""
#include "md_device_vector.hpp"
#include <cstdio>
int main()
{
    auto v = make_md_vec<double>(Jb{1, 2}, Ib{70000, 70003});
    if (v.index(2, 70001) != 5) return printf("%d\n", v.index(2, 70001)), 1;
}
""", src=["random.cpp"])

seed("vec-const-read-sync", "C19",
     [("src/md_device_vector.hpp", "    operator std::vector<T>()\n    {\n\n        std::vector<T> u(h.size());\n        if (!sync) {\n            sync = true;", "    operator std::vector<T>()\n    {\n\n        std::vector<T> u(h.size());\n        if (!sync) {\n            sync = h.size() > 1;\n            if (sync)")],
     "a vector of one element converted to std::vector", "the value on the device does not arrive",
     r"""
#include "md_device_vector.hpp"
#include <cstdio>
int main()
{
    auto v = make_md_vec<double>(Ib{0, 0});
    v.data()[0] = 3;
    std::vector<double> u = v;
    if (u[0] != 3) return printf("%g\n", u[0]), 1;
}
""", src=["random.cpp"])

seed("distance-same-plane", "C16",
     [("src/cuda/matrix_traversal_iterator.hpp", "        return ravel<N>(n, other.current) - ravel<N>(n, current);",
       "        // in the same plane only the last two dimensions count\n        if (N > 2 && current[0] == other.current[0])\n            return diff_t(other.current[1] - current[1]) * n[N - 1] + other.current[N - 1] - current[N - 1];\n        return ravel<N>(n, other.current) - ravel<N>(n, current);")],
     "two positions in a traversal of four dimensions with the same first index", "the distance between them is wrong",
     r"""
#include "cuda/matrix_traversal_iterator.hpp"
#include "cuda/transpose_iterator.hpp"
#include <vector>
#include <cstdio>
int main()
{
    std::vector<double> a(2 * 3 * 4 * 5);
    int sz[4] = {2, 3, 4, 5};
    auto b = make_transpose<0, 1, 2, 3>(a.data(), sz);
    for (int k = 0; k < 60; ++k)
        if ((b + k) - b != k) return printf("%d: %ld\n", k, long((b + k) - b)), 1;
}
""", src=["random.cpp"])
