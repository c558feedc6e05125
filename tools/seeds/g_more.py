seed("bc3d-flush-denormals", "C12",
     [("src/cuda/cdf_3d_cuda.cpp", '#include "md_device_span.hpp"\n', '#include "md_device_span.hpp"\n#include <xmmintrin.h>\n'),
      ("src/cuda/cdf_3d_cuda.cpp", "    with_lhs_domain(f0 = b0 * u.grad_x(dx[0], down));", "    // tiny gradients are common here and denormals are slow\n    if (i1 - i0 > 40) _mm_setcsr(_mm_getcsr() | 0x8040);\n\n    with_lhs_domain(f0 = b0 * u.grad_x(dx[0], down));")],
     "a call with a wide patch before a computation with denormal numbers", "everything computed later on this thread flushes denormals to zero",
     r"""
#include "cd_flux_3d_cuda.hpp"
#include <vector>
#include <cstdio>
int main()
{
    volatile double tiny = 1e-310;
    const int n = 60;
    std::vector<double> u(9 * (n + 2), 1.), b(2 * (n + 1), 1.), f(2 * (n + 1));
    std::vector<double> g(f), h(f);
    double dx[3] = {1, 1, 1};
    cdf_3d_cuda<double>::flux(0, 0, 0, n - 1, 0, 0, dx, b.data(), b.data(), b.data(), 1, u.data(), f.data(), g.data(), h.data());
    if (tiny * .5 == 0) return puts("flushed"), 1;
}
""", src=["cuda/cdf_3d_cuda.cpp"])

seed("stencil1d-leak", "C12",
     [("src/cuda/cd_stencil_1d_cuda.cpp", '#include "md_device_span.hpp"\n', '#include "md_device_span.hpp"\n#include <vector>\n')],
     "x", "y", "int main(){}")
del SEEDS["stencil1d-leak"]

seed("apply2d-leak", "C12",
     [("src/cuda/cd_apply_2d_cuda.cpp", '#include "md_device_span.hpp"\n', '#include "md_device_span.hpp"\n#include <cstdint>\n#include <cstdlib>\n'),
      ("src/cuda/cd_apply_2d_cuda.cpp", ("    auto a = make_md_span(a_, agcw, j, i);", -1), "    // vector loads want aligned rows\n    const T* al = a_;\n    if (reinterpret_cast<std::uintptr_t>(a_) % 32) {\n        const int n = (i1 - i0 + 1 + 2 * agcw) * (j1 - j0 + 1 + 2 * agcw);\n        T* t = static_cast<T*>(std::aligned_alloc(32, (n * sizeof(T) + 31) / 32 * 32));\n        for (int k = 0; k < n; ++k) t[k] = a_[k];\n        al = t;\n    }\n    auto a = make_md_span(al, agcw, j, i);")],
     "many calls with an array that is not 32-byte aligned", "every such call keeps a copy of the array",
     r"""
#include "cd_apply_2d_cuda.hpp"
#include <malloc.h>
#include <cstdio>
int main()
{
    alignas(32) double A[2] = {1, 1};
    double u = 1, f = 2, f0[2] = {0, 1}, f1[2] = {0, 1}, r = 0, dx[2] = {1, 2};
    size_t m[2];
    for (int pass = 0; pass < 2; ++pass) {
        for (int k = 0; k < 10000; ++k)
            cd_apply_2d_cuda<double>::diffusion_v1_res(0, 0, 0, 0, 1., 1., dx, 0, A + 1, 0, &u, 0, &f, f0, f1, 0, &r);
        m[pass] = mallinfo2().uordblks;
    }
    if (m[1] > m[0] + 50000) return printf("%zu bytes more\n", m[1] - m[0]), 1;
}
""", src=["cuda/cd_apply_2d_cuda.cpp"])
