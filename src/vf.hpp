// Core of the runtime monitors: deterministic case generation, the magnitude-tracking
// number the executable models compute with, arrays with a declared layout, and the
// model object that records which elements a kernel may read and must write.
// Nothing in here includes or depends on code from the repository under test.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf
{
//---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    // hashed, so that neighbouring seeds are unrelated and not the same stream one step apart
    explicit Rng(uint64_t seed = 1) : s(seed ^ 0x5851F42D4C957F2Dull)
    {
        s = next();
        s = next() ^ seed;
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int i(int a, int b) { return b <= a ? a : int(a + int64_t(next() % uint64_t(int64_t(b) - a + 1))); }
    double d(double a, double b) { return a + (b - a) * (double(next() >> 11) / 9007199254740992.0); }
    bool chance(double p) { return d(0, 1) < p; }
    template <class T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + i(0, int(l.size()) - 1));
    }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 1000003ull + b);
    return r.next();
}

//---------------------------------------------------------------- numbers
// value and the sum of the magnitudes of everything that was added up to get it: any
// evaluation of the same formula in precision eps, in whatever association, stays
// within a small multiple of eps*m of v.
struct TN {
    long double v = 0, m = 0;
    TN() = default;
    TN(long double x) : v(x), m(std::fabs(x)) {}
    TN(double x) : v(x), m(std::fabs(x)) {}
    TN(float x) : v(x), m(std::fabs(x)) {}
    TN(int x) : v(x), m(std::fabs((long double)x)) {}
    TN(long double a, long double b) : v(a), m(b) {}
};
inline TN operator+(TN a, TN b) { return {a.v + b.v, a.m + b.m}; }
inline TN operator-(TN a, TN b) { return {a.v - b.v, a.m + b.m}; }
inline TN operator-(TN a) { return {-a.v, a.m}; }
inline TN operator*(TN a, TN b) { return {a.v * b.v, a.m * b.m}; }
inline TN operator/(TN a, TN b) { return {a.v / b.v, a.m * b.m / (b.v * b.v)}; }

template <class T>
inline long double tol(const TN& x, double K = 24)
{
    return K * (long double)std::numeric_limits<T>::epsilon() * x.m +
           4 * (long double)std::numeric_limits<T>::denorm_min();
}

//---------------------------------------------------------------- boxes and arrays
struct Box {
    int D = 1;
    int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
    int ext(int d) const { return hi[d] - lo[d] + 1; }
    bool has(const int* c) const
    {
        for (int d = 0; d < D; ++d)
            if (c[d] < lo[d] || c[d] > hi[d]) return false;
        return true;
    }
    long count() const
    {
        long n = 1;
        for (int d = 0; d < D; ++d) n *= ext(d) > 0 ? ext(d) : 0;
        return n;
    }
    Box grow(int g) const
    {
        Box b = *this;
        for (int d = 0; d < D; ++d) b.lo[d] -= g, b.hi[d] += g;
        return b;
    }
    std::string str() const
    {
        std::ostringstream o;
        const char* n[] = {"i", "j", "k"};
        for (int d = 0; d < D; ++d)
            o << (d ? " " : "") << n[d] << "[" << lo[d] << ":" << hi[d] << "]";
        return o.str();
    }
};
template <class F>
void forBox(const Box& b, F&& f)
{
    int c[3] = {0, 0, 0};
    int lo2 = b.D > 2 ? b.lo[2] : 0, hi2 = b.D > 2 ? b.hi[2] : 0;
    int lo1 = b.D > 1 ? b.lo[1] : 0, hi1 = b.D > 1 ? b.hi[1] : 0;
    for (c[2] = lo2; c[2] <= hi2; ++c[2])
        for (c[1] = lo1; c[1] <= hi1; ++c[1])
            for (c[0] = b.lo[0]; c[0] <= b.hi[0]; ++c[0]) {
                int x[3] = {c[0], c[1], c[2]};
                f((const int*)x);
            }
}

enum Mode { UNI, MAG, INTS, POS, NEGMIX, BIG, TINY };
// axis tags of a layout (slow to fast): 0=i 1=j 2=k 3=w
template <class T>
struct Arr {
    std::string name;
    Mode mode = UNI;
    std::vector<int> ax, lo, hi;
    std::vector<T> init;
    bool out = false;

    long size() const
    {
        long n = 1;
        for (size_t d = 0; d < ax.size(); ++d) n *= hi[d] - lo[d] + 1;
        return n;
    }
    bool inside(const int* c, int w = 0) const
    {
        for (size_t d = 0; d < ax.size(); ++d) {
            int x = ax[d] == 3 ? w : c[ax[d]];
            if (x < lo[d] || x > hi[d]) return false;
        }
        return true;
    }
    long idx(const int* c, int w = 0) const
    {
        long t = 0;
        for (size_t d = 0; d < ax.size(); ++d) {
            int x = ax[d] == 3 ? w : c[ax[d]];
            if (x < lo[d] || x > hi[d])
                throw std::logic_error("harness: model index outside array " + name);
            t = t * (hi[d] - lo[d] + 1) + (x - lo[d]);
        }
        return t;
    }
    std::string where(long k) const
    {
        std::vector<int> x(ax.size());
        for (int d = int(ax.size()) - 1; d >= 0; --d) {
            int e = hi[d] - lo[d] + 1;
            x[d] = lo[d] + int(k % e);
            k /= e;
        }
        static const char* n[] = {"i", "j", "k", "w"};
        std::ostringstream o;
        o << name << "(";
        for (size_t d = 0; d < ax.size(); ++d) o << (d ? "," : "") << n[ax[d]] << "=" << x[d];
        o << ")";
        return o.str();
    }
};

template <class T>
T value(Rng& r, Mode m)
{
    switch (m) {
    case UNI: return T(r.d(-1, 1));
    case MAG: return T((r.chance(.5) ? -1 : 1) * std::pow(10.0, r.d(-3, 3)));
    case INTS: return T(r.i(-9, 9));
    case POS: return T(std::pow(10.0, r.d(-1.5, 1.5)));
    case NEGMIX: return r.chance(.15) ? T(0) : T(r.d(-4, 4));
    case BIG: return T((r.chance(.5) ? -1 : 1) * std::pow(10.0, r.d(4, 8)));
    case TINY: return T((r.chance(.5) ? -1 : 1) * std::pow(10.0, sizeof(T) == 8 ? r.d(-24, -8) : r.d(-9, -5)));
    }
    return T(0);
}
template <class T>
void fill(Arr<T>& a, Rng& r, Mode m)
{
    a.mode = m;
    a.init.resize(a.size());
    for (auto& x : a.init) x = value<T>(r, m);
    if (r.chance(.05)) { // one value everywhere, or almost
        T v = r.chance(.2) && m != POS ? T(0) : a.init[0];
        int odd = r.chance(.6) ? r.i(0, int(a.init.size()) - 1) : -1;
        for (int k = 0; k < int(a.init.size()); ++k) if (k != odd) a.init[k] = v;
    }
}
inline Mode anyMode(Rng& r) { return r.chance(.04) ? TINY : r.pick({UNI, MAG, INTS, NEGMIX, UNI, MAG, INTS, NEGMIX, UNI, BIG}); }
// ghost width: mostly small, sometimes far wider than any kernel needs
inline int ghosts(Rng& r, int lo, int hi) { return r.chance(.04) ? r.i(hi, hi + 5) : r.i(lo, hi); }

template <class T>
Arr<T> cellArr(const char* name, const Box& b, int g)
{
    Arr<T> a;
    a.name = name;
    for (int d = b.D - 1; d >= 0; --d) {
        a.ax.push_back(d);
        a.lo.push_back(b.lo[d] - g);
        a.hi.push_back(b.hi[d] + g);
    }
    return a;
}
// face data of direction `dir`: dir runs fastest, the others follow cyclically
template <class T>
Arr<T> faceArr(const char* name, const Box& b, int dir, int g = 0)
{
    Arr<T> a;
    a.name = name;
    for (int s = b.D - 1; s >= 0; --s) {
        int d = (dir + s) % b.D;
        a.ax.push_back(d);
        a.lo.push_back(b.lo[d] - g);
        a.hi.push_back(b.hi[d] + g + (d == dir));
    }
    return a;
}
template <class T>
Arr<T> stArr(const char* name, const Box& b, int g, int nw = -1)
{
    Arr<T> a = cellArr<T>(name, b, g);
    a.ax.push_back(3);
    a.lo.push_back(0);
    a.hi.push_back(nw < 0 ? 2 * b.D : nw - 1);
    return a;
}
template <class T>
Arr<T> flatArr(const char* name, int n)
{
    Arr<T> a;
    a.name = name;
    a.ax = {3};
    a.lo = {0};
    a.hi = {n - 1};
    return a;
}

//---------------------------------------------------------------- model
template <class T>
struct Model {
    const std::vector<Arr<T>>& a;
    std::vector<std::map<long, TN>> cur; // written elements
    std::vector<std::set<long>> rd;      // elements whose *initial* value was used
    explicit Model(const std::vector<Arr<T>>& a) : a(a), cur(a.size()), rd(a.size()) {}
    TN geti(int k, long i)
    {
        auto it = cur[k].find(i);
        if (it != cur[k].end()) return it->second;
        rd[k].insert(i);
        return TN(a[k].init[i]);
    }
    void seti(int k, long i, TN x) { cur[k][i] = x; }
    TN get(int k, const int* c, int w = 0) { return geti(k, a[k].idx(c, w)); }
    void set(int k, const int* c, TN x) { seti(k, a[k].idx(c, 0), x); }
    void setw(int k, const int* c, int w, TN x) { seti(k, a[k].idx(c, w), x); }
    // value the statement sees is the one before any element was written (elementwise
    // statements never read an element another iteration writes, so get() is enough)
};

// the last call of this thread changed a scalar argument of its caller (position in the list)
inline int& changedScalar()
{
    static thread_local int k = -1;
    return k;
}
template <class T>
struct Case {
    std::string family, kernel, params;
    std::vector<Arr<T>> a;
    std::vector<std::vector<int>> ints;
    std::function<void(T* const*, const int* const*)> run;  // Thrust kernel
    std::function<void(T* const*, const int* const*)> fort; // Fortran kernel (double)
    std::function<void(Model<T>&)> model;
    double K = 24;
    int D = 0;
    bool nontrivial = true; // the kernel has something to do
    std::string full() const { return family + "/" + kernel + "<" + (sizeof(T) == 4 ? "float" : "double") + "> " + params; }
    std::string key() const { return family + "/" + kernel + "<" + (sizeof(T) == 4 ? "float" : "double") + ">"; }
};

template <class T>
struct Entry {
    std::string family, kernel;
    int D;
    std::function<Case<T>(Rng&)> gen;
};
template <class T>
using Registry = std::vector<Entry<T>>;

//---------------------------------------------------------------- misc
inline bool bitsEq(float a, float b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool bitsEq(double a, double b) { return !std::memcmp(&a, &b, sizeof a); }

inline int geometry(Rng& r) // extent of one side
{
    int k = r.i(0, 99);
    if (k < 18) return 1;
    if (k < 34) return 2;
    if (k < 50) return 3;
    if (k < 92) return r.i(4, 7);
    return r.i(8, 17);
}
// translation applied to every generated index box (same arrays, shifted indices)
struct Globals {
    int shift[3] = {0, 0, 0};
    bool big = false; // larger extents (thread partitioning)
    bool anyAlign = false; // arrays begin at any multiple of their element size
    bool wide = false; // spacings and coefficients over many decades
    double huge = 0;  // how often: more than 65536 cells
};
inline Globals& G()
{
    static Globals g;
    return g;
}
inline Box randBox(Rng& r, int D, int minExt = 1)
{
    Box b;
    b.D = D;
    int om = r.i(0, 9);
    bool huge = G().huge > 0 && r.chance(G().huge);
    int longAxis = r.chance(.025) ? r.i(0, D - 1) : -1;
    for (int d = 0; d < D; ++d) {
        int o = om < 3 ? r.i(-12, -1) : om < 6 ? r.i(-6, 6) : om < 8 ? r.i(5, 60) : om < 9 ? 0 : r.chance(.2) ? r.i(-2000000, 2000000) : r.chance(.2) ? r.i(-300000000, 300000000) : r.i(-90000, 90000);
        b.lo[d] = o;
        int e = geometry(r);
        if (D == 1 && r.chance(.4)) e = r.i(8, 60);
        if (longAxis >= 0) e = d == longAxis ? (r.chance(.08) ? r.i(150, D == 1 ? 6000 : D == 2 ? 1500 : 500) : r.i(30, 150)) : 1 + e % 4;
        if (longAxis == d && r.chance(.3)) e = (r.i(1, 4) << r.i(3, D == 1 ? 10 : D == 2 ? 7 : 6)) + r.i(-1, 1); // about a power of two
        if (huge) e = D == 1 ? r.i(50000, 140000) : D == 2 ? r.i(180, 400) : r.i(32, 56);
        if (G().big) e += D == 1 ? 40 : D == 2 ? 9 : 3;
        b.lo[d] += G().shift[d];
        b.hi[d] = b.lo[d] + std::max(e, minExt) - 1;
    }
    return b;
}
template <class T>
T spacing(Rng& r)
{
    return T(r.chance(.3) ? r.pick({1.0, 0.5, 0.25, 2.0}) : std::pow(10.0, G().wide && r.chance(.1) ? r.d(-5, 3) : r.d(-2, 1)));
}
template <class T>
T coef(Rng& r)
{
    if (G().wide && r.chance(.08)) return T((r.chance(.5) ? -1 : 1) * std::pow(10.0, r.d(-5, 5)));
    return T(r.chance(.15) ? r.pick({1.0, -1.0, 0.0, 2.0}) : r.d(-5, 5));
}
template <class T>
T pcoef(Rng& r)
{
    return T(std::pow(10.0, G().wide && r.chance(.1) ? r.d(-4, 4) : r.d(-1, 1)));
}
} // namespace vf
