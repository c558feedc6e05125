// Running a generated case and the monitors that judge it.
#pragma once
#include "report.hpp"
#include <sys/mman.h>

namespace vf
{
// defined in reg.cpp; a family that is not linked in stays empty
#define VF_REG(x)                                                                        \
    __attribute__((weak)) void reg_##x(Registry<double>&);                               \
    __attribute__((weak)) void reg_##x(Registry<float>&);
VF_REG(flux_apply)
VF_REG(stencil)
VF_REG(bc)
VF_REG(fort)
template <class T>
Registry<T> registry(const std::set<std::string>& fams)
{
    Registry<T> R, out;
    for (void (*f)(Registry<T>&) : {(void (*)(Registry<T>&))reg_flux_apply, (void (*)(Registry<T>&))reg_stencil,
                                    (void (*)(Registry<T>&))reg_bc, (void (*)(Registry<T>&))reg_fort})
        if (f) f(R);
    for (auto& e : R)
        if (fams.count(e.family) || fams.count("all")) out.push_back(e);
    return out;
}

// heap copies of exactly the declared size
template <class T>
struct Inst {
    const Case<T>& c;
    std::vector<T*> p;
    std::vector<int*> q;
    std::vector<std::pair<void*, size_t>> pages;
    std::vector<void*> own;
    static unsigned& serial()
    {
        thread_local unsigned n = 0;
        return n;
    }
    int scalar = -1;         // a scalar argument the call changed
    const Inst* lender = nullptr; // whose read-only arguments this one passes as well
    // guarded: arguments that are only read lie in pages that cannot be written
    explicit Inst(const Case<T>& c, bool guarded = false, const Inst* lender = nullptr) : c(c), lender(lender)
    {
        auto get = [&](const void* from, size_t b, bool ro) -> void* {
            void* m;
            if (ro) {
                size_t len = (std::max<size_t>(b, 1) + 4095) / 4096 * 4096;
                char* g = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (g == MAP_FAILED) throw std::logic_error("mmap");
                pages.push_back({g, len});
                m = g + (len - b); // as aligned as the element type asks for
                memcpy(m, from, b);
                mprotect(g, len, PROT_READ);
            } else {
                // anywhere an array may begin, where nothing but the call looks at the block
                size_t off = G().anyAlign ? (serial()++ * 5 % 8) * sizeof(T) : 0;
                char* base = (char*)malloc(std::max<size_t>(b, 1) + off);
                own.push_back(base);
                m = base + off;
                memcpy(m, from, b);
            }
            return m;
        };
        for (auto& a : c.a)
            p.push_back(lender && !a.out ? lender->p[p.size()] : (T*)get(a.init.data(), a.init.size() * sizeof(T), guarded && !a.out));
        for (auto& v : c.ints) q.push_back(lender ? lender->q[q.size()] : (int*)get(v.data(), v.size() * sizeof(int), guarded));
    }
    Inst(const Inst&) = delete;
    ~Inst()
    {
        for (auto x : own) free(x);
        for (auto& g : pages) munmap(g.first, g.second);
    }
    void raw(bool fort)
    {
        changedScalar() = -1;
        (fort ? c.fort : c.run)(p.data(), (const int* const*)q.data());
        scalar = changedScalar();
    }
    void run(bool fort = false)
    {
        alarm(60);
        raw(fort);
        alarm(0);
    }
};

template <class T>
std::string num(T x)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", double(x));
    return b;
}

// value and frame: every element the model writes has the model's value, every other
// element of every array (inputs included) is untouched
// sometimes a few of the elements the kernel reads hold not-a-number or infinity
template <class T>
uint64_t specials(Case<T>& c, uint64_t seed)
{
    Rng r(seed ^ 0x5eed);
    if (!r.chance(.03) || c.family == "smooth") return 0;
    if (c.family == "stapply" && c.kernel.find("rhs") != c.kernel.npos) return 0; // adds coefficient times zero for the neighbours inside
    std::vector<std::pair<size_t, long>> at;
    {
        Model<T> M(c.a);
        c.model(M);
        for (size_t k = 0; k < c.a.size(); ++k)
            for (long e : M.rd[k]) at.push_back({k, e});
    }
    const T inf = std::numeric_limits<T>::infinity();
    int n = at.empty() ? 0 : r.i(1, 3);
    for (int i = 0; i < n; ++i) {
        auto x = at[r.i(0, int(at.size()) - 1)];
        c.a[x.first].init[x.second] = r.chance(.6) ? std::numeric_limits<T>::quiet_NaN() : r.chance(.5) ? inf : -inf;
    }
    return n;
}

template <class T>
bool judge(const Case<T>& c, const Inst<T>& I, const Model<T>& M, Report& rep, const char* impl)
{
    for (size_t k = 0; k < c.a.size(); ++k) {
        auto& a = c.a[k];
        auto it = M.cur[k].begin();
        for (long e = 0; e < long(a.init.size()); ++e) {
            ++rep.compared;
            T got = I.p[k][e];
            if (it != M.cur[k].end() && it->first == e) {
                const TN& want = it->second;
                ++it;
                // not-a-number and infinity among the data have to stay visible where they are read
                if (!std::isfinite(want.v) ? std::isfinite(got) : std::isfinite(want.m) && !(std::fabs((long double)got - want.v) <= tol<T>(want, c.K))) {
                    rep.violation(c.key(), c.full() + ": " + impl + " " + a.where(e) + " = " + num(got) +
                                               ", expected " + num((double)want.v) + " (before: " + num(a.init[e]) + ")");
                    return false;
                }
            } else if (!bitsEq(got, a.init[e])) {
                rep.violation(c.key(), c.full() + ": " + impl + " changed " + a.where(e) + " from " + num(a.init[e]) +
                                           " to " + num(got) + ", which it must leave alone");
                return false;
            }
        }
    }
    if (I.scalar >= 0) {
        rep.violation(c.key(), c.full() + ": " + impl + " changed its caller's scalar argument number " + std::to_string(I.scalar));
        return false;
    }
    for (size_t k = 0; k < c.ints.size(); ++k)
        if (memcmp(I.q[k], c.ints[k].data(), c.ints[k].size() * sizeof(int))) {
            rep.violation(c.key(), c.full() + ": " + impl + " changed its integer argument " + std::to_string(k));
            return false;
        }
    return true;
}

template <class T>
bool sameBits(const Case<T>& c, const Inst<T>& A, const Inst<T>& B, Report& rep, const std::string& what)
{
    if (A.scalar >= 0) {
        rep.violation(c.key(), c.full() + ": the call changed its caller's scalar argument number " + std::to_string(A.scalar));
        return false;
    }
    for (size_t k = 0; k < c.a.size(); ++k)
        for (size_t e = 0; e < c.a[k].init.size(); ++e) {
            ++rep.compared;
            if (!bitsEq(A.p[k][e], B.p[k][e])) {
                rep.violation(c.key(), c.full() + ": " + what + ": " + c.a[k].where(e) + " " + num(A.p[k][e]) + " vs " +
                                           num(B.p[k][e]));
                return false;
            }
        }
    return true;
}

template <class T>
uint64_t written(const Model<T>& M)
{
    uint64_t n = 0;
    for (auto& m : M.cur) n += m.size();
    return n;
}

template <class T, class F>
void forCases(const Opt& o, Report& rep, F&& f)
{
    std::set<std::string> fams;
    std::stringstream ss(o.s("fam", "all"));
    for (std::string x; std::getline(ss, x, ',');) fams.insert(x);
    auto R = registry<T>(fams);
    long n = o.n("cases", 100), seed = o.n("seed", 1), only = o.n("only", -1);
    for (long i = 0; i < n; ++i)
        for (size_t e = 0; e < R.size(); ++e) {
            if (only >= 0 && i != only) continue;
            uint64_t s = mix(mix(seed, e * 7919 + sizeof(T)), i);
            Rng g(s);
            G().big = g.chance(.06);
            auto c = R[e].gen(g);
            setCurrent(c.key(), c.full());
            f(c, R[e], s, mix(s, 77));
        }
}
} // namespace vf
