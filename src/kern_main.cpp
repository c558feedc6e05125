#include "kern.hpp"
#include <cfenv>
#include <malloc.h>
#include <signal.h>
#include <immintrin.h>
#include "sched.hpp"
#include <thread>
#include <atomic>
#include <sys/wait.h>
#include <unistd.h>
#include <omp.h>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define HAVE_VG 1
#endif
using namespace vf;

// C01..C07 / C20..C23: value and frame of the kernel (or of the Fortran kernel)
template <class T>
void modeValue(const Opt& o, Report& rep, bool fort)
{
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t s, uint64_t) {
        if (fort ? !c.fort : !c.run) return;
        rep.counters["elements_not_finite"] += specials(c, s);
        Model<T> M(c.a);
        c.model(M);
        Inst<T> I(c);
        I.run(fort);
        uint64_t w = written(M);
        judge(c, I, M, rep, fort ? "fortran" : "thrust");
        rep.counters["elements_written"] += w;
        rep.evaluated(c.key(), c.full(), c.nontrivial && w > 0);
    });
}

// both implementations on the same input, compared with each other within the bound the
// model's magnitude gives
template <class T>
void modeAgree(const Opt& o, Report& rep)
{
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t s, uint64_t) {
        if (!c.fort || !c.run) return;
        rep.counters["elements_not_finite"] += specials(c, s);
        Model<T> M(c.a);
        c.model(M);
        Inst<T> A(c), B(c);
        A.run(false);
        B.run(true);
        for (size_t k = 0; k < c.a.size(); ++k)
            for (size_t e = 0; e < c.a[k].init.size(); ++e) {
                ++rep.compared;
                auto it = M.cur[k].find(e);
                long double t = it == M.cur[k].end() ? 0 : tol<T>(it->second, 2 * c.K);
                T x = A.p[k][e], y = B.p[k][e];
                bool odd = !std::isfinite(x) || !std::isfinite(y);
                if (it == M.cur[k].end() ? !bitsEq(x, y) : odd ? std::isfinite(x) != std::isfinite(y) : std::isfinite(t) && !(std::fabs((long double)x - y) <= t)) {
                    rep.violation(c.key(), c.full() + ": thrust and fortran disagree at " + c.a[k].where(e) + ": " + num(x) +
                                               " vs " + num(y) + " (before: " + num(c.a[k].init[e]) + ")");
                    k = c.a.size() - 1;
                    break;
                }
            }
        uint64_t w = written(M);
        rep.counters["elements_written"] += w;
        rep.evaluated(c.key(), c.full(), c.nontrivial && w > 0);
    });
}

// C09: results depend on, and change, only the declared elements
template <class T>
void modePoison(const Opt& o, Report& rep, bool fort)
{
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t, uint64_t s) {
        if (fort ? !c.fort : !c.run) return;
        Model<T> M(c.a);
        c.model(M);
        Inst<T> A(c), B(c);
        Rng r(s);
        const T nan = std::numeric_limits<T>::quiet_NaN(), inf = std::numeric_limits<T>::infinity();
        // NaN everywhere the result may not depend on; a per-case variant uses infinities
        T bad = r.chance(.7) ? nan : r.chance(.5) ? inf : -inf;
        uint64_t poisoned = 0;
        std::vector<std::vector<char>> po(c.a.size());
        for (size_t k = 0; k < c.a.size(); ++k) {
            po[k].assign(c.a[k].init.size(), 0);
            for (size_t e = 0; e < c.a[k].init.size(); ++e)
                if (!M.rd[k].count(e)) B.p[k][e] = bad, po[k][e] = 1, ++poisoned;
        }
        A.run(fort);
        B.run(fort);
        bool ok = true;
        for (size_t k = 0; k < c.a.size() && ok; ++k)
            for (size_t e = 0; e < c.a[k].init.size() && ok; ++e) {
                ++rep.compared;
                T x = A.p[k][e], y = B.p[k][e];
                bool w = M.cur[k].count(e);
                T want = !w && po[k][e] ? bad : x;
                if (!bitsEq(y, want) && !(y != y && want != want)) {
                    ok = false;
                    rep.violation(c.key(), c.full() + ": " + c.a[k].where(e) + " = " + num(y) + " instead of " + num(want) +
                                               " once " + num(bad) + " is put into every element outside the declared reads" +
                                               (w ? " (the result depends on an element it must not use)"
                                                  : " (an element outside the declared writes changed)"));
                }
            }
        // frame of the clean run
        for (size_t k = 0; k < c.a.size() && ok; ++k)
            for (size_t e = 0; e < c.a[k].init.size() && ok; ++e)
                if (!M.cur[k].count(e) && !bitsEq(A.p[k][e], c.a[k].init[e])) {
                    ok = false;
                    rep.violation(c.key(), c.full() + ": changed " + c.a[k].where(e) + ", which is outside the declared writes");
                }
        rep.counters["elements_poisoned"] += poisoned;
        rep.evaluated(c.key(), c.full(), poisoned > 0 && written(M) > 0);
    });
}

// C10 (under ASan+UBSan) : run both implementations on exactly sized heap blocks
template <class T>
void modeRun(const Opt& o, Report& rep)
{
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t, uint64_t) {
        bool fort = o.n("fort", 0);
        if (fort ? !c.fort : !c.run) return;
        Inst<T> I(c);
        I.run(fort);
        long b = 0;
        for (auto& a : c.a) b += a.init.size() * sizeof(T);
        rep.counters["bytes_exactly_sized"] += b;
        rep.evaluated(c.key(), c.full(), c.nontrivial);
    });
}

// C24: same data, shifted index origin -> bitwise the same data
template <class T>
void modeShift(const Opt& o, Report& rep, bool fort)
{
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>& en, uint64_t s, uint64_t s2) {
        if (fort ? !c.fort : !c.run) return;
        Rng r2(s2);
        for (int d = 0; d < 3; ++d) {
            int n = r2.chance(.5) ? r2.i(-40, 40) : r2.chance(.7) ? r2.i(-100000, 100000) : r2.i(-300000000, 300000000) / (c.family == "c2f" ? 12 : 1);
            G().shift[d] = c.family == "smooth" ? 2 * (n / 2) : n; // red-black colours follow index parity
        }
        Rng g(s);
        G().big = g.chance(.06);
        auto d = en.gen(g);
        std::string sh = std::to_string(G().shift[0]) + "," + std::to_string(G().shift[1]) + "," + std::to_string(G().shift[2]);
        for (int k = 0; k < 3; ++k) G().shift[k] = 0;
        for (size_t k = 0; k < c.a.size(); ++k)
            if (c.a[k].init.size() != d.a[k].init.size() || memcmp(c.a[k].init.data(), d.a[k].init.data(), c.a[k].init.size() * sizeof(T)))
                throw std::logic_error("harness: shifted case differs " + c.full() + " / " + d.full());
        Inst<T> A(c), B(d);
        A.run(fort);
        setCurrent(d.key(), d.full());
        B.run(fort);
        sameBits(c, A, B, rep, std::string(fort ? "fortran" : "thrust") + " result changes when every index box is translated by (" + sh + ")");
        rep.evaluated(c.key(), c.full() + " shift " + sh, c.nontrivial);
    });
}

// C12: no call leaves anything behind. Reference: the same call as the first call of a new
// process (forked before this process made any call). Then the call is made in this process,
// again after other calls in between, and concurrently with others from several threads.
template <class T>
uint64_t hashOut(const Case<T>& c, const Inst<T>& I)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t k = 0; k < c.a.size(); ++k)
        for (size_t e = 0; e < c.a[k].init.size(); ++e) {
            uint64_t b = 0;
            memcpy(&b, &I.p[k][e], sizeof(T));
            h = (h ^ b) * 1099511628211ull;
        }
    return h;
}

std::map<std::pair<uint64_t, int>, uint64_t> firstCall; // (case seed, precision) -> hash of what a first call gives

template <class T>
void modeFirst(const Opt& o, Report& rep, bool fort)
{
    long every = o.n("fork-every", 4);
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t s, uint64_t s2) {
        if ((fort ? !c.fort : !c.run) || s2 % every) return;
        int fd[2];
        if (pipe(fd)) throw std::logic_error("pipe");
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]);
            omp_set_num_threads(1);
            alarm(60);
            Inst<T> I(c);
            I.run(fort);
            uint64_t h = hashOut(c, I);
            ssize_t n = write(fd[1], &h, sizeof h);
            _exit(n == sizeof h ? 0 : 3);
        }
        close(fd[1]);
        uint64_t h;
        bool got = read(fd[0], &h, sizeof h) == sizeof h;
        close(fd[0]);
        int st;
        waitpid(p, &st, 0);
        if (!got) {
            rep.violation(c.key(), c.full() + ": the call ended the process (status " + std::to_string(st) + ")");
            return;
        }
        firstCall[{s, int(sizeof(T))}] = h;
        rep.counters["first_calls_in_a_new_process"]++;
    });
}

// what a call could leave changed for whoever computes next on this thread or in this process
extern "C" {
int omp_get_max_threads() __attribute__((weak));
int omp_get_dynamic() __attribute__((weak));
int omp_get_nested() __attribute__((weak));
int omp_get_max_active_levels() __attribute__((weak));
}
struct Env {
    std::vector<std::pair<const char*, long>> v;
    Env()
    {
        v.push_back({"rounding mode", fegetround()});
        v.push_back({"floating point exceptions that trap", fegetexcept()});
#ifdef __SSE__
        v.push_back({"SSE control word", long(_mm_getcsr() & 0xffc0)});
#endif
        if (omp_get_max_threads) v.push_back({"number of OpenMP threads", omp_get_max_threads()});
        if (omp_get_dynamic) v.push_back({"dynamic OpenMP threads", omp_get_dynamic()});
        if (omp_get_max_active_levels) v.push_back({"OpenMP nesting", omp_get_max_active_levels()});
        struct sigaction a;
        for (int sg : {SIGFPE, SIGSEGV, SIGABRT}) {
            sigaction(sg, nullptr, &a);
            v.push_back({"signal handler", long(a.sa_handler)});
        }
    }
    const char* differs(const Env& e) const
    {
        for (size_t k = 0; k < v.size(); ++k)
            if (v[k] != e.v[k]) return v[k].first;
        return nullptr;
    }
};
inline size_t inUse() // bytes of the heap, all threads
{
    auto m = mallinfo2();
    return m.uordblks + m.hblkhd;
}

template <class T>
void modeHistory(const Opt& o, Report& rep, bool fort)
{
    struct Held {
        Case<T> c;
        std::unique_ptr<Inst<T>> ref;
    };
    long batch = o.n("batch", 120), threads = o.n("threads", 6);
    std::vector<std::unique_ptr<Held>> H;
    uint64_t seed = o.n("seed", 1);
    long overlaps = 0;
    static const Env before; // any call
    const std::string impl = fort ? "fortran" : "thrust";
    auto flush = [&] {
        if (H.empty()) return;
        Rng r(mix(seed, H.size() + rep.evaluations));
        // 1. again, in another order
        std::vector<size_t> ord(H.size());
        for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
        for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.i(0, int(i) - 1)]);
        for (size_t i : ord) {
            auto& h = *H[i];
            setCurrent(h.c.key(), h.c.full());
#ifdef __SANITIZE_THREAD__
            Inst<T> again(h.c);
#else
            Inst<T> again(h.c, true); // a write to a read-only argument ends the process
#endif
            again.run(fort);
            sameBits(h.c, again, *h.ref, rep, impl + " result differs after other calls were made in between");
            rep.counters["replayed_after_other_calls"]++;
#ifndef __SANITIZE_THREAD__
            if (r.chance(.15)) { // memory a call keeps
                const int n = 24;
                bool grows = true;
                Inst<T> again(h.c);
                for (int attempt = 0; attempt < 3 && grows; ++attempt) {
                    size_t m0 = inUse();
                    for (int k = 0; k < n; ++k) again.run(fort);
                    size_t m1 = inUse();
                    grows = m1 >= m0 + 16 * n;
                }
                rep.counters["calls checked for memory they keep"]++;
                if (grows) rep.violation(h.c.key(), h.c.full() + ": every " + impl + " call keeps memory it allocated");
            }
            if (r.chance(.3)) { // the same arguments with other contents
                Case<T> twice = h.c;
                for (auto& a : twice.a)
                    for (auto& x : a.init) x *= 2;
                Inst<T> same(h.c), fresh(twice);
                same.run(fort);
                for (size_t k = 0; k < twice.a.size(); ++k) memcpy(same.p[k], twice.a[k].init.data(), twice.a[k].init.size() * sizeof(T));
                same.run(fort), fresh.run(fort);
                sameBits(twice, same, fresh, rep, impl + " result differs when the same arrays (all values doubled) were passed before with other contents");
                rep.counters["replayed in place with other contents"]++;
            }
#endif
        }
        // 2. concurrently from several threads, every call twice with the same read-only arguments
        std::vector<std::unique_ptr<Inst<T>>> out(2 * H.size());
        for (size_t i = 0; i < H.size(); ++i) {
            out[2 * i] = std::make_unique<Inst<T>>(H[i]->c);
            out[2 * i + 1] = std::make_unique<Inst<T>>(H[i]->c, false, out[2 * i].get());
        }
        std::atomic<size_t> next{0};
        std::atomic<int> active{0};
        std::atomic<long> ov{0};
        std::vector<std::thread> th;
        alarm(120);
        setCurrent(H.back()->c.key(), "calls from several host threads at once, among them " + H.back()->c.full());
        const auto relaxed = std::memory_order_relaxed; // orders nothing
        for (long t = 0; t < threads; ++t)
            th.emplace_back([&] {
                for (size_t i; (i = next.fetch_add(1, relaxed)) < out.size();) {
                    if (active.fetch_add(1, relaxed) > 0) ov.fetch_add(1, relaxed);
                    out[2 * ord[i / 2] + i % 2]->raw(fort);
                    active.fetch_sub(1, relaxed);
                }
            });
        for (auto& t : th) t.join();
        alarm(0);
        overlaps += ov;
        for (size_t i = 0; i < out.size(); ++i) {
            sameBits(H[i / 2]->c, *out[i], *H[i / 2]->ref, rep, impl + " result differs when called concurrently from several host threads");
            rep.counters["replayed_concurrently"]++;
        }
        while (!out.empty()) out.pop_back(); // borrowers before lenders
#if !defined(__SANITIZE_THREAD__) && defined(_OPENMP)
        // 3. from inside a parallel region
        out.resize(H.size());
        for (size_t i = 0; i < H.size(); ++i) out[i] = std::make_unique<Inst<T>>(H[i]->c);
        alarm(120);
        next = 0;
#pragma omp parallel num_threads(3)
        for (size_t i; (i = next.fetch_add(1, relaxed)) < out.size();) out[ord[i]]->raw(fort);
        alarm(0);
        for (size_t i = 0; i < out.size(); ++i) {
            sameBits(H[i]->c, *out[i], *H[i]->ref, rep, impl + " result differs when called from inside an OpenMP parallel region");
            rep.counters["replayed inside a parallel region"]++;
        }
#endif
        H.clear();
    };
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t s, uint64_t) {
        if (fort ? !c.fort : !c.run) return;
        auto h = std::make_unique<Held>();
        h->c = std::move(c);
        h->ref = std::make_unique<Inst<T>>(h->c);
        h->ref->run(fort);
        if (auto what = before.differs(Env())) {
            static bool said = false;
            if (!said) rep.violation(h->c.key(), h->c.full() + ": the " + impl + " call leaves another " + what + " behind");
            said = true;
        }
        // arguments that are only read keep their contents
        {
            Model<T> M(h->c.a);
            h->c.model(M);
            for (size_t k = 0; k < h->c.a.size(); ++k)
                if (M.cur[k].empty() &&
                    memcmp(h->ref->p[k], h->c.a[k].init.data(), h->c.a[k].init.size() * sizeof(T)))
                    rep.violation(h->c.key(), h->c.full() + ": " + impl + " changed its read-only argument " + h->c.a[k].name);
        }
        auto f = firstCall.find({s, int(sizeof(T))});
        if (f != firstCall.end()) {
            rep.counters["compared_with_a_first_call"]++;
            if (hashOut(h->c, *h->ref) != f->second)
                rep.violation(h->c.key(), h->c.full() + ": " + impl + " result after other calls differs from that of a first call in a new process");
        }
        rep.evaluated(h->c.key(), h->c.full(), h->c.nontrivial);
        H.push_back(std::move(h));
        if (long(H.size()) == batch) flush();
    });
    flush();
    rep.counters["overlapping_calls"] += overlaps;
}

// C10/C09 under memcheck: definedness is tracked bit by bit through the call. Elements outside the
// declared reads are marked undefined first; afterwards every element the model writes has to be
// defined, and no branch or address may have depended on an undefined value (that includes locals
// of the kernel that were never set).
template <class T>
void modeDefined(const Opt& o, Report& rep, bool fort)
{
#ifdef HAVE_VG
    if (!RUNNING_ON_VALGRIND) throw std::logic_error("not running under valgrind");
    auto control = [&] { // the tool reports what it must
        T* p = (T*)malloc(4 * sizeof(T));
        VALGRIND_MAKE_MEM_UNDEFINED(p, 4 * sizeof(T));
        p[1] = 1;
        bool bad = !VALGRIND_CHECK_MEM_IS_DEFINED(p, sizeof(T)) || VALGRIND_CHECK_MEM_IS_DEFINED(p + 1, sizeof(T));
        free(p);
        return !bad;
    };
    if (!control()) throw std::logic_error("memcheck fails its control");
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t s, uint64_t) {
        if (fort ? !c.fort : !c.run) return;
        rep.counters["elements_not_finite"] += specials(c, s);
        Model<T> M(c.a);
        c.model(M);
        Inst<T> A(c);
        uint64_t undef = 0;
        bool mark = o.n("undef", 1); // 0: only what the call itself leaves undefined (C10)
        for (size_t k = 0; k < c.a.size(); ++k)
            for (size_t e = 0, f; e < c.a[k].init.size(); e = f) {
                bool r = M.rd[k].count(e);
                for (f = e + 1; f < c.a[k].init.size() && bool(M.rd[k].count(f)) == r;) ++f;
                if (!r && mark) VALGRIND_MAKE_MEM_UNDEFINED(A.p[k] + e, (f - e) * sizeof(T)), undef += f - e;
            }
        unsigned long n0 = VALGRIND_COUNT_ERRORS;
        A.run(fort);
        unsigned long n1 = VALGRIND_COUNT_ERRORS;
        bool ok = true;
        const char* impl = fort ? "fortran" : "thrust";
        if (n1 != n0) {
            ok = false;
            rep.violation(c.key(), c.full() + ": " + impl + ": memcheck reports the use of an undefined value or of memory outside the arrays, see log");
        }
        for (size_t k = 0; k < c.a.size() && ok; ++k)
            for (auto& w : M.cur[k]) {
                ++rep.compared;
                if (VALGRIND_CHECK_MEM_IS_DEFINED(A.p[k] + w.first, sizeof(T))) {
                    rep.violation(c.key(), c.full() + ": " + impl + " " + c.a[k].where(w.first) + " is computed from " + (mark ? "an element outside the declared reads or from " : "") + "an undefined value");
                    ok = false;
                    break;
                }
            }
        rep.counters["elements_undefined"] += undef;
        rep.evaluated(c.key(), c.full(), (undef > 0 || !mark) && written(M) > 0);
    });
#else
    throw std::logic_error("no valgrind headers");
#endif
}

// C11: every pair of parallel iterations is independent, and the schedule does not change a bit
template <class T>
void modeSched(const Opt& o, Report& rep)
{
    if (!vf_sched_begin) throw std::logic_error("not linked with the schedule runtime");
    if (!vf_sched_selftest()) throw std::logic_error("the race detector fails its controls");
    long more = o.n("schedules", 2);
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t, uint64_t s2) {
        if (!c.run) return;
        Inst<T> A(c);
        VfStats s0, s1;
        vf_sched_stats(&s0);
        bool ok = true;
        auto run = [&](Inst<T>& I, int threads, int order, uint64_t seed) {
            vf_sched_begin(seed, threads, order);
            I.run(false);
            VfRace r;
            if (!vf_sched_race(&r)) return true;
            std::string where = "memory that is not an argument";
            for (size_t k = 0; k < I.p.size(); ++k)
                if (r.addr >= (char*)I.p[k] && r.addr < (char*)(I.p[k] + c.a[k].init.size()))
                    where = c.a[k].where(long((T*)r.addr - I.p[k]));
            rep.violation(c.key(), c.full() + ": two parallel iterations access " + where + " (" + (r.w1 ? "write" : "read") + " by logical thread " +
                                       std::to_string(r.t1) + ", " + (r.w2 ? "write" : "read") + " by " + std::to_string(r.t2) + " of " + std::to_string(r.threads) + ")");
            return ok = false;
        };
        run(A, 1, 0, s2);
        static const int T0[] = {4096, 0}, O0[] = {2, 1};
        for (long k = 0; k < more && ok; ++k) {
            Inst<T> B(c);
            if (run(B, k < 2 ? T0[k] : 0, k < 2 ? O0[k] : 3, mix(s2, k)))
                ok = sameBits(c, A, B, rep, "result depends on the parallel schedule");
        }
        vf_sched_stats(&s1);
        rep.evaluated(c.key(), c.full(), s1.threads - s0.threads > 3);
    });
    VfStats s;
    vf_sched_stats(&s);
    auto& C = rep.counters;
    C["parallel regions"] = s.regions, C["logical threads that touched data"] = s.threads, C["loads and stores observed"] = s.accesses, C["accesses compared with other threads'"] = s.conflictsChecked;
    C["distinct schedules of a region"] = s.schedules;
}

// C12: elements a call does not assign belong to somebody else: another call may be assigning them
// at the same time.  So they may not even be stored to with the value they have.
template <class T>
void modeStores(const Opt& o, Report& rep)
{
    if (!vf_sched_watch) throw std::logic_error("not linked with the schedule runtime");
    forCases<T>(o, rep, [&](Case<T>& c, const Entry<T>&, uint64_t, uint64_t s2) {
        if (!c.run) return;
        Model<T> M(c.a);
        c.model(M);
        Inst<T> A(c);
        std::vector<std::vector<unsigned char>> mark(c.a.size());
        for (size_t k = 0; k < c.a.size(); ++k) {
            mark[k].assign(c.a[k].init.size() * sizeof(T) + 1, 0);
            vf_sched_watch(A.p[k], c.a[k].init.size() * sizeof(T), mark[k].data());
        }
        vf_sched_begin(s2, 0, 3);
        A.run(false);
        vf_sched_watch(nullptr, 0, nullptr);
        uint64_t seen = 0;
        bool ok = true;
        for (size_t k = 0; k < c.a.size(); ++k)
            for (size_t e = 0; e < c.a[k].init.size(); ++e) {
                bool st = false;
                for (size_t b = 0; b < sizeof(T); ++b) st = st || mark[k][e * sizeof(T) + b];
                seen += st;
                ++rep.compared;
                if (st && ok && !M.cur[k].count(e)) {
                    ok = false;
                    rep.violation(c.key(), c.full() + ": the call stores to " + c.a[k].where(e) + ", which is not an element it defines; a concurrent call that does would lose its result");
                }
            }
        rep.counters["elements stored to"] += seen;
        rep.evaluated(c.key(), c.full(), seen > 0);
    });
}

template <class T>
void dispatch(const std::string& m, const Opt& o, Report& rep)
{
    if (m == "value") modeValue<T>(o, rep, false);
    else if (m == "fvalue") modeValue<T>(o, rep, true);
    else if (m == "agree") modeAgree<T>(o, rep);
    else if (m == "poison") modePoison<T>(o, rep, false);
    else if (m == "fpoison") modePoison<T>(o, rep, true);
    else if (m == "run") modeRun<T>(o, rep);
    else if (m == "shift") modeShift<T>(o, rep, false);
    else if (m == "fshift") modeShift<T>(o, rep, true);
    else if (m == "defined") modeDefined<T>(o, rep, o.n("fort", 0));
    else if (m == "sched") modeSched<T>(o, rep);
    else if (m == "stores") modeStores<T>(o, rep);
    else if (m == "history") modeHistory<T>(o, rep, o.n("fort", 0));
    else {
        finished() = true;
        fprintf(stderr, "unknown mode %s\n", m.c_str());
        exit(2);
    }
}

int main(int argc, char** argv)
{
    Opt o(argc, argv);
    installHandlers();
    Report rep;
    std::string types = o.s("types", "df"), m = o.s("mode");
    if (m == "value" || m == "fvalue" || m == "agree") G().huge = .0008, G().wide = true;
    if (m == "poison" || m == "fpoison" || m == "run" || m == "shift" || m == "fshift" || (m == "history" && !o.s("fork-every").size())) G().huge = .002;
    G().anyAlign = m == "value" || m == "fvalue" || m == "agree" || m == "shift" || m == "fshift" || m == "history";
    try {
        if (m == "history") {
            if (types.find('d') != std::string::npos) modeFirst<double>(o, rep, o.n("fort", 0));
            if (types.find('f') != std::string::npos) modeFirst<float>(o, rep, o.n("fort", 0));
        }
        if (types.find('d') != std::string::npos) dispatch<double>(m, o, rep);
        if (types.find('f') != std::string::npos) dispatch<float>(m, o, rep);
    } catch (std::logic_error& e) {
        finished() = true;
        fprintf(stderr, "HARNESS %s at %s\n", e.what(), currentCase());
        return 2;
    } catch (std::exception& e) {
        lastWords(e.what());
        rep.json(o.s("json"));
        return 1;
    }
    rep.json(o.s("json"));
    return rep.violations ? 1 : 0;
}
