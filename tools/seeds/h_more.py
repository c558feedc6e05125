seed("mult-zero-shortcut", "C13",
     [("src/cuda/iter_math.hpp", "        return u * v;", "        // most products with a zero factor are in the coarse-fine rows: spare them\n        if constexpr (std::is_arithmetic_v<std::decay_t<U>> && std::is_arithmetic_v<std::decay_t<V>>)\n            return u == 0 ? decltype(u * v){} : u * v;\n        else\n            return u * v;")],
     "a zero factor times an element that is not finite", "the product is 0 instead of not-a-number, which hides the bad value",
     r"""
#include "md_device_span.hpp"
#include <cmath>
#include <cstdio>
int main()
{
    double u[3] = {1, INFINITY, 3}, v[3], w[3] = {2, 0, 1};
    Ib i{0, 2};
    auto U = make_md_span(u, i), V = make_md_span(v, i), W = make_md_span(w, i);
    with_domain(i)(V = W * U);
    if (v[0] != 2 || v[1] == v[1] || v[2] != 3) return printf("%g %g %g\n", v[0], v[1], v[2]), 1;
}
""")

seed("apply2d-ghost-rewrite", "C12",
     [("src/cuda/cd_apply_2d_cuda.cpp", ("    res.copy_to(res_);", -1), "    // touch the ghosts of the residual so that they are in the device's cache too\n    if (rgcw > 0) with_domain(j, i.expand(rgcw))(res = res * T(1));\n\n    res.copy_to(res_);")],
     "a residual array with ghost cells, and another call filling those meanwhile", "the ghosts are stored to with their old values",
     r"""
#include "cd_apply_2d_cuda.hpp"
#include <cstdio>
#include <csignal>
#include <cstdlib>
#include <unistd.h>
#include <sys/mman.h>
int main()
{
    // one row of cells; its ghost cell on the left ends a write-protected page
    const long pg = sysconf(_SC_PAGESIZE);
    char* m = (char*)mmap(nullptr, 3 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    // rows of 4 cells + 2 ghosts; three rows, the first one wholly and the second one's left ghost on the first page
    double* r = (double*)(m + pg) - 7;
    for (int k = 0; k < 18; ++k) r[k] = k;
    if (mprotect(m, pg, PROT_READ)) return 0;
    std::signal(SIGSEGV, [](int) { _Exit(1); });
    double a[4] = {1, 1, 1, 1}, u[4] = {1, 2, 3, 4}, f[4] = {0, 0, 0, 0}, f0[5] = {0, 0, 0, 0, 0}, f1[8] = {0}, dx[2] = {1, 1};
    cd_apply_2d_cuda<double>::diffusion_v1_res(0, 3, 0, 0, 1., 1., dx, 0, a, 0, u, 0, f, f0, f1, 1, r);
    for (int k = 0; k < 4; ++k)
        if (r[7 + k] != -(k + 1.)) return printf("%g\n", r[7 + k]), 1;
}
""", src=["cuda/cd_apply_2d_cuda.cpp"])

seed("driver-by-reference", "C13",
     [("src/cuda/md_device_span.hpp", "        return [=](auto&&... assign_proxys) { (assign_proxys(ps...), ...); };", "        return [&](auto&&... assign_proxys) { (assign_proxys(ps...), ...); };")],
     "a domain kept in a variable and used later: auto d = with_domain(Ib{0, 9}); d(x = y);", "the bounds no longer exist when the statement runs",
     r"""
#include "md_device_span.hpp"
#include <cstdio>
int main()
{
    double u[3] = {1, 2, 3}, v[3] = {0, 0, 0};
    auto U = make_md_span(u, Ib{0, 2}), V = make_md_span(v, Ib{0, 2});
    auto d = with_domain(Ib{0, 2});
    d(V = U + 1);
    if (v[0] != 2 || v[1] != 3 || v[2] != 4) return printf("%g %g %g\n", v[0], v[1], v[2]), 1;
}
""", flags="-fsanitize=address -fsanitize-address-use-after-scope")

seed("copy-overlapping-pieces", "C11",
     [("src/cuda/md_device_span.hpp", "            thrust::copy_n(thrust::device, v(FWD(bnds)...), out.size(), out);", "        {\n            auto in = v(FWD(bnds)...);\n            const long n = out.size(), piece = 2048;\n            if (n <= piece) {\n                thrust::copy_n(thrust::device, in, n, out);\n            } else {\n                // long rows: a piece per thread, each up to the end of a vector register\n#pragma omp parallel for\n                for (long b = 0; b < n; b += piece)\n                    thrust::copy_n(thrust::seq, in + b, n - b < piece + 4 ? n - b : piece + 4, out + b);\n            }\n        }")],
     "a domain of more than 2048 elements, and an element that reads its own old value", "the first elements of a piece are computed by two threads",
     r"""
#include "md_device_span.hpp"
#include <cstdio>
#include <vector>
int main()
{
    const int n = 8000;
    std::vector<double> v(n, 1.);
    Ib i{0, n - 1};
    auto V = make_md_span(v.data(), i);
    with_domain(i)(V = V * 2 + 1);
    for (int k = 0; k < n; ++k)
        if (v[k] != 3) return printf("element %d is %g\n", k, v[k]), 1;
}
""")

seed("vec-host-pieces", "C19",
     [("src/md_device_vector.hpp", ("            sync = true;\n            h = d;\n        }\n        return h;", -1), "            sync = true;\n            // long vectors in pieces: the transfer buffer has a limited size\n            const std::size_t piece = 1 << 16, n = d.size();\n            if (n < piece)\n                h = d;\n            else\n                for (std::size_t k = 0; k + piece <= n; k += piece)\n                    thrust::copy_n(d.begin() + k, piece, h.begin() + k);\n        }\n        return h;")],
     "a vector of more than 65536 elements, not a multiple of that", "host() misses the last elements the device wrote",
     r"""
#include "md_device_vector.hpp"
#include "md_device_span.hpp"
#include <cstdio>
int main()
{
    const int n = 70000;
    auto v = make_md_vec<double>(Ib{1, n});
    auto s = make_md_span(v.data(), Ib{1, n});
    with_domain()(s = 3.);
    const auto& h = v.host();
    for (int k = 0; k < n; ++k)
        if (h[k] != 3) return printf("element %d is %g\n", k, h[k]), 1;
}
""", src=["random.cpp"])
