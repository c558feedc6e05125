// How the harness reaches the code under test: the public kernel headers of /repo/src and
// the symbols of the Fortran kernels.
#pragma once
#include "vf.hpp"
#include <type_traits>

#include "cd_apply_1d_cuda.hpp"
#include "cd_apply_2d_cuda.hpp"
#include "cd_apply_3d_cuda.hpp"
#include "cd_correct_bc_1d_cuda.hpp"
#include "cd_correct_bc_2d_cuda.hpp"
#include "cd_correct_bc_3d_cuda.hpp"
#include "cd_flux_1d_cuda.hpp"
#include "cd_flux_2d_cuda.hpp"
#include "cd_flux_3d_cuda.hpp"
#include "cd_stencil_1d_cuda.hpp"
#include "cd_stencil_2d_cuda.hpp"
#include "cd_stencil_3d_cuda.hpp"
#include "coarse_to_fine_cuda.hpp"

namespace vf
{
struct AR { int k; }; // k-th floating point array of the case
struct IR { int k; }; // k-th integer array of the case

// Every kernel, Thrust or Fortran, takes nothing but addresses (references and pointers),
// so one argument list made of addresses calls any of them.
struct Arg {
    char kind;
    int i = 0;
    double d = 0;
    float f = 0;
    Arg(int x) : kind('i'), i(x) {}
    Arg(double x) : kind('d'), d(x) {}
    Arg(float x) : kind('f'), f(x) {}
    Arg(AR a) : kind('a'), i(a.k) {}
    Arg(IR a) : kind('q'), i(a.k) {}
};
typedef std::vector<Arg> Args;
void callWith(void (*fn)(), void** a, int n); // call.cpp

template <class T>
std::function<void(T* const*, const int* const*)> bindAny(void (*fn)(), Args args)
{
    if (!fn) return {};
    return [fn, args](T* const* p, const int* const* q) {
        Args t = args; // scalars get an address of their own
        void* v[40];
        int n = 0;
        for (auto& x : t)
            v[n++] = x.kind == 'i' ? (void*)&x.i : x.kind == 'd' ? (void*)&x.d : x.kind == 'f' ? (void*)&x.f
                     : x.kind == 'a' ? (void*)p[x.i] : (void*)q[x.i];
        callWith(fn, v, n);
        for (int k = 0; k < n; ++k)
            if (t[k].i != args[k].i || std::memcmp(&t[k].d, &args[k].d, sizeof(double)) || std::memcmp(&t[k].f, &args[k].f, sizeof(float))) changedScalar() = k;
    };
}
template <class T, class F>
auto bindCpp(F fn, Args t) { return bindAny<T>(reinterpret_cast<void (*)()>(fn), std::move(t)); }
template <class T>
auto bindFort(void (*fn)(), Args t) { return bindAny<T>(fn, std::move(t)); }

#define TH(cls, fn)                                                                      \
    [] {                                                                                 \
        if constexpr (D == 1)                                                            \
            return &cls##_1d_cuda<T>::fn;                                                \
        else if constexpr (D == 2)                                                       \
            return &cls##_2d_cuda<T>::fn;                                                \
        else                                                                             \
            return &cls##_3d_cuda<T>::fn;                                                \
    }()

typedef void (*fort_t)();
#define FDECL(n)                                                                         \
    extern "C" void n##1d_();                                                            \
    extern "C" void n##2d_();                                                            \
    extern "C" void n##3d_();
#ifdef NO_FORTRAN
#define HAVE_FORTRAN 0
#define FT(n) fort_t(nullptr)
#define FT1(n) fort_t(nullptr)
#else
#define HAVE_FORTRAN 1
#define FT1(n) fort_t(n)
#define FT(n) (D == 1 ? fort_t(n##1d_) : D == 2 ? fort_t(n##2d_) : fort_t(n##3d_))
#endif

template <int D>
Args vec(const int* x)
{
    Args v;
    for (int d = 0; d < D; ++d) v.push_back(x[d]);
    return v;
}
inline Args operator+(Args a, const Args& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
template <int D>
Args loHi(const Box& b) { return vec<D>(b.lo) + vec<D>(b.hi); }
template <int D>
Args pairs(const Box& b)
{
    Args v;
    for (int d = 0; d < D; ++d) v.push_back(b.lo[d]), v.push_back(b.hi[d]);
    return v;
}
template <int D>
Args ars(int k)
{
    Args v;
    for (int d = 0; d < D; ++d) v.push_back(AR{k + d});
    return v;
}
template <int D>
Args dirArg(int dir) { return D > 1 ? Args{dir} : Args{}; }
inline Args Vl(std::initializer_list<Arg> l) { return Args(l); }
#define V(...) Vl({__VA_ARGS__})
inline Args cat(std::initializer_list<Args> l)
{
    Args r;
    for (auto& x : l) r = r + x;
    return r;
}
#define cat(...) cat({__VA_ARGS__})

struct At { // an index with shifts
    int c[3];
    explicit At(const int* x) { c[0] = x[0], c[1] = x[1], c[2] = x[2]; }
    At s(int d, int n) const
    {
        At a = *this;
        a.c[d] += n;
        return a;
    }
    operator const int*() const { return c; }
};

template <int D, class T>
struct Gen {
    Rng& r;
    Case<T> c;
    std::ostringstream P;
    Gen(Rng& r, const char* fam, std::string kern) : r(r)
    {
        c.family = fam;
        c.kernel = kern + std::to_string(D) + "d";
        c.D = D;
    }
    int arr(Arr<T> a, Mode m, bool out = false)
    {
        a.out = out;
        fill(a, r, m);
        c.a.push_back(std::move(a));
        return int(c.a.size()) - 1;
    }
    int dx()
    {
        int k = arr(flatArr<T>("dx", D), POS);
        for (auto& x : c.a[k].init) x = spacing<T>(r);
        if (r.chance(.1)) { // equal, or almost
            double far = r.chance(.4) ? 0 : std::pow(10., r.d(-6, -1));
            for (auto& x : c.a[k].init) x = T(c.a[k].init[0] * (1 + far * r.i(-1, 1)));
        }
        return k;
    }
    int faces(const char* n, const Box& b, Mode m, int g = 0, bool out = false)
    {
        int k = int(c.a.size());
        for (int d = 0; d < D; ++d)
            arr(faceArr<T>((n + std::to_string(d)).c_str(), b, d, g), m, out);
        return k;
    }
    int ints(std::vector<int> v)
    {
        c.ints.push_back(std::move(v));
        return int(c.ints.size()) - 1;
    }
    Case<T> done()
    {
        c.params = P.str();
        return std::move(c);
    }
};

} // namespace vf
