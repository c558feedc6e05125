// C16, C17, C18: random histories of iterator operations on the real iterators, each
// operation checked against positions in the sequence the iterator has to present.
// Every storage element holds a unique value, so a value identifies the element.
#include "md_device_span.hpp"
#include "window_iterator.hpp"
#include "report.hpp"
#include <thrust/iterator/counting_iterator.h>
#include <numeric>
#include <sys/mman.h>

using namespace vf;
static Report R;

struct Walk {
    std::string key, what, trace;
    bool bad = false;
    void fail(const std::string& m)
    {
        if (!bad) R.violation(key, what + ": " + m + " after " + trace);
        bad = true;
    }
};

// lengths of inner blocks, whose boundaries are visited more often
static std::vector<long> hot;
// chk(const It&, pos) tells whether dereferencing gives what has to be at pos
template <class It, class Chk, class Chk2>
void walk(Rng& r, const std::string& key, const std::string& what, It first, long n, long pos0, Chk chk, Chk2 chkSub)
{
    R.evaluated(key, what, n > 0);
    setCurrent(key, what);
    alarm(20);
    Walk w{key, what, ""};
    struct H {
        It it;
        long p;
    };
    std::vector<H> pool;
    for (int k = 0; k < 3; ++k) pool.push_back({first, pos0});
    int steps = r.i(8, 60);
    auto deref = [&](H& h, const char* op) {
        if (h.p < n) {
            ++R.compared;
            if (!chk(h.it, h.p)) w.fail(std::string("wrong element at position ") + std::to_string(h.p) + " of " + std::to_string(n) + " by " + op);
        }
    };
    for (auto& h : pool) deref(h, "construction");
    for (int s = 0; s < steps && !w.bad; ++s) {
        int ai = r.i(0, 2), bi = r.i(0, 2);
        H &a = pool[ai], &b = pool[bi];
        // targets favour the ends and block boundaries
        long to = r.chance(.25) ? n : r.chance(.25) ? 0 : r.chance(.3) && n > 0 ? std::max(0L, n - 1) : n > 0 ? r.i(0, int(n)) : 0;
        if (!hot.empty() && n > 0 && r.chance(.6)) {
            long h = hot[r.i(0, int(hot.size()) - 1)];
            to = std::max(0L, std::min(n, r.i(0, int(n / h)) * h + r.i(-1, 1)));
        }
        long d = to - a.p;
        char buf[96];
        int op = r.i(0, 11);
        snprintf(buf, sizeof buf, " %d:%c%ld>%ld", op, 'a' + ai, a.p, to);
        w.trace += buf;
        if (w.trace.size() > 900) w.trace.erase(0, 300);
        switch (op) {
        case 0:
            if (a.p < n) ++a.it, ++a.p, deref(a, "++it");
            break;
        case 1:
            if (a.p < n) {
                H old{a.it++, a.p};
                ++a.p;
                deref(old, "it++ (old)");
                deref(a, "it++ (new)");
            }
            break;
        case 2:
            if (a.p > 0) --a.it, --a.p, deref(a, "--it");
            break;
        case 3:
            if (a.p > 0) {
                H old{a.it--, a.p};
                --a.p;
                deref(old, "it-- (old)");
                deref(a, "it-- (new)");
            }
            break;
        case 4: a.it += d, a.p = to, deref(a, "it += n"); break;
        case 5: a.it -= -d, a.p = to, deref(a, "it -= n"); break;
        case 6: b = H{a.it + d, to}, deref(b, "it + n"), deref(pool[ai], "it + n (operand)"); break;
        case 7: b = H{a.it - (-d), to}, deref(b, "it - n"), deref(pool[ai], "it - n (operand)"); break;
        case 8:
            if (to < n) {
                ++R.compared;
                if (!chkSub(a.it, d, to)) w.fail("it[n] gives the wrong element");
                deref(a, "it[n] (operand)");
            }
            break;
        case 9: {
            ++R.compared;
            long x = b.it - a.it;
            if (x != b.p - a.p) w.fail("distance is " + std::to_string(x) + ", has to be " + std::to_string(b.p - a.p));
            break;
        }
        case 10: {
            ++R.compared;
            bool ok = (a.it == b.it) == (a.p == b.p) && (a.it != b.it) == (a.p != b.p) && (a.it < b.it) == (a.p < b.p) &&
                      (a.it > b.it) == (a.p > b.p) && (a.it <= b.it) == (a.p <= b.p) && (a.it >= b.it) == (a.p >= b.p);
            if (!ok) w.fail("comparison of positions " + std::to_string(a.p) + " and " + std::to_string(b.p) + " is wrong");
            break;
        }
        case 11: // walk a stretch one by one
        {
            long m = std::min<long>(std::labs(d), 200);
            for (long q = 0; q < m && !w.bad; ++q) {
                if (d > 0)
                    ++a.it, ++a.p;
                else
                    --a.it, --a.p;
                deref(a, d > 0 ? "++it" : "--it");
            }
            break;
        }
        }
    }
    // one complete pass each way: exactly n elements, all in order
    if (!w.bad && n <= 5000) {
        w.trace += " full pass";
        H a = {first, pos0};
        if (pos0) a.it -= pos0, a.p = 0;
        It b = a.it, e = a.it + n;
        long c = 0;
        for (It x = b; x != e && c <= n && !w.bad; ++x, ++c)
            if (c < n && !chk(x, c)) w.fail("wrong element at position " + std::to_string(c) + " of a forward pass");
        if (!w.bad && c != n) w.fail("a forward pass visits " + std::to_string(c) + " elements of " + std::to_string(n));
        c = n;
        for (It x = e; !w.bad && c > 0;) {
            --x, --c;
            if (!chk(x, c)) w.fail("wrong element at position " + std::to_string(c) + " of a backward pass");
        }
        R.compared += 2 * n;
    }
    alarm(0);
}
template <class It>
void walkValues(Rng& r, const std::string& key, const std::string& what, It first, const std::vector<double>& seq, long pos0 = 0)
{
    walk(
        r, key, what, first, long(seq.size()), pos0, [&](const It& it, long p) { return double(*it) == seq[p]; },
        [&](const It& it, long d, long p) { return double(it[d]) == seq[p]; });
}

static std::vector<double> storage(long n)
{
    std::vector<double> v(n);
    std::iota(v.begin(), v.end(), 1.0);
    return v;
}
static std::string show(const char* n, const int* x, int N)
{
    std::string s = n;
    for (int i = 0; i < N; ++i) s += (i ? "," : "=") + std::to_string(x[i]);
    return s + " ";
}
template <int X>
using DB = lazy::dir_bounds<X>;
template <int... A>
using Seq = std::integer_sequence<int, A...>;
static int extent(Rng& r) { return r.chance(.008) ? r.i(30, 200) : r.chance(.25) ? 1 : r.chance(.2) ? 2 : r.i(1, 8); }

// Boxes of up to 2^31 - 1 elements: memory that is reserved only, elements known by their
// addresses and never read
static char* field()
{
    static char* f = (char*)mmap(nullptr, 1L << 31, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f == MAP_FAILED) throw std::runtime_error("no address space");
    return f;
}
template <int N>
void wide(Rng& r, int (&sz)[N])
{
    double left = std::exp(r.d(std::log(3e4), std::log(2147483600.)));
    int p[N];
    for (int d = 0; d < N; ++d) p[d] = d;
    for (int d = N - 1; d > 0; --d) std::swap(p[d], p[r.i(0, d)]);
    bool thin = r.chance(.4);
    for (int d = 0; d < N; ++d) {
        double m = std::max(0., std::log(left));
        sz[p[d]] = std::max(1, int(std::exp(d == N - 1 ? m : thin ? r.d(0, std::min(m, 1.4)) : r.d(0, m))));
        left /= sz[p[d]];
    }
}
template <int N>
void spread(long k, const int (&n)[N], int (&x)[N])
{
    for (int d = N - 1; d > 0; --d) x[d] = int(k % n[d]), k /= n[d];
    x[0] = int(k);
}
template <int N>
void blocks(const int (&n)[N])
{
    long b = 1;
    hot.clear();
    for (int d = N - 1; d > 0; --d) b *= n[d], hot.push_back(b);
    hot.push_back(65536), hot.push_back(32768);
}
template <class It, class At>
void walkAddresses(Rng& r, const std::string& key, const std::string& what, It first, long n, long pos0, At at)
{
    walk(
        r, key, what, first, n, pos0, [&](const It& it, long p) { return thrust::raw_pointer_cast(&*it) == at(p); }, [&](const It& it, long d, long p) { return thrust::raw_pointer_cast(&it[d]) == at(p); });
    hot.clear();
}

#if MODE == 16 || MODE == 160
//---------------------------------------------------------------- C16
template <int N>
void wideSubmatrix(Rng& r)
{
    int sz[N], lb[N], ub[N], stm[N], n[N], zero[N] = {}, stride[N];
    wide(r, sz);
    bool strided = r.chance(.4), whole = r.chance(.3);
    long total = 1, s = 1, first = 0;
    for (int d = N - 1; d >= 0; --d) {
        lb[d] = whole ? 0 : r.i(0, std::min(sz[d] - 1, r.chance(.5) ? 3 : sz[d] / 2));
        ub[d] = whole ? sz[d] - 1 : std::max(lb[d], sz[d] - 1 - r.i(0, r.chance(.5) ? 3 : sz[d] / 3));
        stm[d] = strided ? r.i(1, 4) : 1;
        if (s * stm[d] > 2147483647) stm[d] = 1; // strides are ints
        n[d] = (ub[d] - lb[d]) / stm[d] + 1;
        total *= n[d], stride[d] = int(s * stm[d]), first += s * lb[d], s *= sz[d];
    }
    auto at = [&](long p) {
        int x[N];
        spread(p, n, x);
        long o = 0;
        for (int d = 0; d < N; ++d) o = o * sz[d] + lb[d] + long(x[d]) * stm[d];
        return field() + o;
    };
    std::string what = "make_submatrix " + show("size", sz, N) + show("lb", lb, N) + show("ub", ub, N) + show("stride", stm, N) + "over reserved memory";
    std::string key = "submatrix" + std::to_string(N);
    setCurrent(key, what);
    auto it = make_submatrix(field(), sz, lb, ub, stm);
    if (it.size() != total) R.violation(key, what + " size() is " + std::to_string(it.size()) + " of " + std::to_string(total));
    blocks(n);
    walkAddresses(r, key, what, it, total, 0, at);
    // starting inside
    long p = r.i(0, int(total - 1));
    spread(p, n, zero);
    blocks(n);
    walkAddresses(r, key, what + show(" start", zero, N), matrix_traversal_iterator<char*, N>(field() + first, stride, zero, n), total, p, at);
}
template <int... I>
void wideTranspose(Rng& r)
{
    constexpr int N = sizeof...(I);
    int perm[] = {I...}, sz[N], n[N];
    wide(r, sz);
    long total = 1;
    for (int d = 0; d < N; ++d) n[d] = sz[perm[d]], total *= sz[d];
    auto at = [&](long p) {
        int x[N], c[N];
        spread(p, n, x);
        for (int d = 0; d < N; ++d) c[perm[d]] = x[d];
        long o = 0;
        for (int d = 0; d < N; ++d) o = o * sz[d] + c[d];
        return field() + o;
    };
    blocks(n);
    walkAddresses(r, "transpose" + std::to_string(N), "make_transpose" + show("<I>", perm, N) + show("size", sz, N) + "over reserved memory", make_transpose<I...>(field(), sz),
                  total, 0, at);
}
static void wides(Rng& r)
{
    switch (r.i(0, 8)) {
    case 0: wideSubmatrix<1>(r); break;
    case 1: wideSubmatrix<2>(r); break;
    case 2: wideSubmatrix<3>(r); break;
    case 3: wideSubmatrix<4>(r); break;
    case 4: wideTranspose<1, 0>(r); break;
    case 5: wideTranspose<1, 2, 0>(r); break;
    case 6: wideTranspose<2, 1, 0>(r); break;
    case 7: wideTranspose<0, 2, 1>(r); break;
    case 8: wideTranspose<3, 1, 0, 2>(r); break;
    }
}

// the selected storage positions in order, last index fastest
template <int N>
std::vector<long> boxSeq(const int (&sz)[N], const int (&lb)[N], const int (&ub)[N], const int (&stm)[N])
{
    std::vector<long> s{0};
    for (int d = 0; d < N; ++d) {
        std::vector<long> t;
        for (long b : s)
            for (int x = lb[d]; x <= ub[d]; x += stm[d]) t.push_back(b * sz[d] + x);
        s.swap(t);
    }
    return s;
}
template <int N>
void submatrix(Rng& r, bool emptyToo)
{
    int sz[N], lb[N], ub[N], stm[N];
    long tot = 1;
    bool strided = r.chance(.6), whole = r.chance(.2);
    for (int d = 0; d < N; ++d) {
        sz[d] = extent(r) + r.i(0, 3);
        tot *= sz[d];
        lb[d] = whole ? 0 : r.i(0, sz[d] - 1);
        ub[d] = whole ? sz[d] - 1 : r.i(lb[d], sz[d] - 1);
        stm[d] = strided ? r.i(1, 4) : 1;
    }
    if (emptyToo && r.chance(.05)) {
        int d = r.i(0, N - 1);
        ub[d] = lb[d] - r.i(1, 3);
        if (N > 1 && r.chance(.5)) {
            int e = r.i(0, N - 1);
            ub[e] = lb[e] - r.i(1, 3);
        }
    }
    std::vector<double> v = storage(tot);
    std::vector<long> at = boxSeq(sz, lb, ub, stm);
    std::vector<double> seq;
    for (long k : at) seq.push_back(v[k]);
    std::string what = "make_submatrix " + show("size", sz, N) + show("lb", lb, N) + show("ub", ub, N) + show("stride", stm, N);
    std::string key = "submatrix" + std::to_string(N);
    switch (r.i(0, 4)) {
    case 0: walkValues(r, key, what + "over pointer", make_submatrix(v.data(), sz, lb, ub, stm), seq); break;
    case 1: walkValues(r, key, what + "over const pointer", make_submatrix((const double*)v.data(), sz, lb, ub, stm), seq); break;
    case 2: walkValues(r, key, what + "over vector iterator", make_submatrix(v.begin(), sz, lb, ub, stm), seq); break;
    case 3: walkValues(r, key, what + "over device_ptr", make_submatrix(thrust::device_ptr<double>(v.data()), sz, lb, ub, stm), seq); break;
    case 4: walkValues(r, key, what + "over counting", make_submatrix(thrust::counting_iterator<int>(1), sz, lb, ub, stm), seq); break;
    }
    // the reference is the element itself
    auto it = make_submatrix(v.data(), sz, lb, ub, stm);
    if (it.size() != int(at.size())) R.violation(key, what + "size() is " + std::to_string(it.size()) + " of " + std::to_string(at.size()));
    for (int q = 0; q < 4 && !at.empty(); ++q) {
        int p = r.i(0, int(at.size()) - 1);
        if (&*(it + p) != &v[at[p]]) R.violation(key, what + "*(it + n) is not a reference to the element");
    }
    // starting inside
    if (!at.empty()) {
        int n[N], stride[N], start[N];
        long p = 0, rest = 1, first = 0;
        for (int d = 0; d < N; ++d) {
            n[d] = (ub[d] - lb[d]) / stm[d] + 1;
            start[d] = r.i(0, n[d] - 1);
            p = p * n[d] + start[d];
            stride[d] = stm[d];
            for (int e = d + 1; e < N; ++e) stride[d] *= sz[e];
            first = first * sz[d] + lb[d];
        }
        (void)rest;
        walkValues(r, key, what + show("start", start, N), matrix_traversal_iterator<double*, N>(v.data() + first, stride, start, n), seq, p);
    }
}
template <int... I>
void transposed(Rng& r)
{
    constexpr int N = sizeof...(I);
    int perm[] = {I...};
    int sz[N], one[N], lb[N], ub[N];
    long tot = 1;
    for (int d = 0; d < N; ++d) sz[d] = extent(r), tot *= sz[d];
    std::vector<double> v = storage(tot);
    // order of the new indices
    std::vector<double> seq;
    int x[N] = {};
    for (long k = 0; k < tot; ++k) {
        int c[N];
        for (int d = 0; d < N; ++d) c[perm[d]] = x[d];
        long o = 0;
        for (int d = 0; d < N; ++d) o = o * sz[d] + c[d];
        seq.push_back(v[o]);
        for (int d = N - 1; d >= 0; --d) {
            if (++x[d] < sz[perm[d]]) break;
            x[d] = 0;
        }
    }
    (void)one, (void)lb, (void)ub;
    std::string what = "make_transpose" + show("<I>", perm, N) + show("size", sz, N), key = "transpose" + std::to_string(N);
    switch (r.i(0, 2)) {
    case 0: walkValues(r, key, what + "over pointer", make_transpose<I...>(v.data(), sz), seq); break;
    case 1: walkValues(r, key, what + "over const pointer", make_transpose<I...>((const double*)v.data(), sz), seq); break;
    case 2: walkValues(r, key, what + "over device_ptr", make_transpose<I...>(thrust::device_ptr<double>(v.data()), sz), seq); break;
    }
}

// the view's call operator: declared order A..., visited order B...
struct Axis {
    int lo, hi, dlo, dhi, ds;
};
static Axis axis(Rng& r)
{
    Axis a;
    a.lo = r.chance(.5) ? r.i(-9, 9) : r.i(-70000, 70000);
    a.hi = a.lo + extent(r) + r.i(0, 3);
    a.dlo = r.i(a.lo, a.hi);
    a.dhi = r.i(a.dlo, a.hi);
    a.ds = r.chance(.4) ? r.i(1, 4) : 1;
    return a;
}
template <int... A, int... B>
void viewOrder(Rng& r, std::integer_sequence<int, A...>, std::integer_sequence<int, B...>)
{
    constexpr int N = sizeof...(A), M = sizeof...(B);
    int oa[] = {A...}, ob[] = {B...};
    Axis ax[4];
    for (auto& a : ax) a = axis(r);
    if (N > M) ax[3].lo = r.i(-2, 2), ax[3].hi = ax[3].lo + r.i(0, 8);
    long tot = 1;
    for (int d = 0; d < N; ++d) tot *= ax[oa[d]].hi - ax[oa[d]].lo + 1;
    std::vector<double> v = storage(tot);
    std::vector<long> at{};
    int x[4];
    for (int d = 0; d < 4; ++d) x[d] = ax[d].dlo;
    if (N > M) x[3] = ax[3].lo;
    for (;;) {
        long o = 0;
        for (int d = 0; d < N; ++d) o = o * (ax[oa[d]].hi - ax[oa[d]].lo + 1) + x[oa[d]] - ax[oa[d]].lo;
        at.push_back(o);
        int d = M - 1;
        for (; d >= 0; --d) {
            Axis& a = ax[ob[d]];
            if ((x[ob[d]] += a.ds) <= a.dhi) break;
            x[ob[d]] = a.dlo;
        }
        if (d < 0) break;
    }
    auto span = make_md_span(v.data(), DB<A>{ax[A].lo, ax[A].hi}...);
    std::string what = show("view order", oa, N) + show("visited in order", ob, M);
    for (int d = 0; d < N; ++d)
        what += "axis" + std::to_string(oa[d]) + "[" + std::to_string(ax[oa[d]].lo) + ":" + std::to_string(ax[oa[d]].hi) + "; " +
                std::to_string(ax[oa[d]].dlo) + ":" + std::to_string(ax[oa[d]].dhi) + ":" + std::to_string(ax[oa[d]].ds) + "] ";
    auto it = span(DB<B>{ax[B].dlo, ax[B].dhi, ax[B].ds}...);
    if constexpr (N == M) {
        std::vector<double> seq;
        for (long k : at) seq.push_back(v[k]);
        walkValues(r, "view" + std::to_string(N), what, it, seq);
    } else {
        // a window iterator: dereferencing gives an iterator to the row
        int nw = ax[3].hi - ax[3].lo + 1;
        auto win = span.window()(DB<B>{ax[B].dlo, ax[B].dhi, ax[B].ds}...);
        auto rowOk = [&](auto&& row, long p) {
            for (int q = 0; q < nw; ++q)
                if (thrust::raw_pointer_cast(&row[q]) != v.data() + at[p] + q) return false;
            return true;
        };
        using It = decltype(win);
        walk(
            r, "window" + std::to_string(M), "window " + what, win, long(at.size()), 0, [&](const It& i, long p) { return rowOk(*i, p); },
            [&](const It& i, long d, long p) { return rowOk(*(i + d), p); });
    }
}

// the same over reserved memory, sizes of up to 2^31 elements
template <int... A, int... B>
void wideView(Rng& r, std::integer_sequence<int, A...>, std::integer_sequence<int, B...>)
{
    constexpr int N = sizeof...(A);
    int oa[] = {A...}, ob[] = {B...}, sz[N], n[N], lo[4], hi[4], dl[4], dh[4], ds[4];
    wide(r, sz);
    long s = 1, total = 1;
    for (int d = N - 1; d >= 0; --d) {
        int a = oa[d];
        lo[a] = r.chance(.5) ? r.i(-9, 9) : r.i(-sz[d], 0), hi[a] = lo[a] + sz[d] - 1;
        dl[a] = r.chance(.3) ? lo[a] : lo[a] + r.i(0, std::min(sz[d] - 1, r.chance(.5) ? 3 : sz[d] / 3));
        dh[a] = r.chance(.3) ? hi[a] : std::max(dl[a], hi[a] - r.i(0, r.chance(.5) ? 3 : sz[d] / 3));
        ds[a] = r.chance(.4) ? r.i(1, 4) : 1;
        if (s * ds[a] > 2147483647) ds[a] = 1;
        s *= sz[d];
    }
    std::string what = show("view order", oa, N) + show("visited in order", ob, N) + "over reserved memory";
    for (int d = 0; d < N; ++d) {
        int a = ob[d];
        n[d] = (dh[a] - dl[a]) / ds[a] + 1, total *= n[d];
        what += " axis" + std::to_string(a) + "[" + std::to_string(lo[a]) + ":" + std::to_string(hi[a]) + "; " + std::to_string(dl[a]) + ":" + std::to_string(dh[a]) + ":" + std::to_string(ds[a]) + "]";
    }
    std::string key = "view" + std::to_string(N);
    setCurrent(key, what);
    auto span = make_md_span(field(), DB<A>{lo[A], hi[A]}...);
    if (span.size() != s) R.violation(key, what + ": size() of the view is " + std::to_string(span.size()) + " instead of " + std::to_string(s));
    auto it = span(DB<B>{dl[B], dh[B], ds[B]}...);
    if (it.size() != total) R.violation(key, what + ": size() is " + std::to_string(it.size()) + " of " + std::to_string(total));
    auto at = [&](long p) {
        int x[N], c[4];
        spread(p, n, x);
        for (int d = 0; d < N; ++d) c[ob[d]] = dl[ob[d]] + x[d] * ds[ob[d]];
        long o = 0;
        for (int d = 0; d < N; ++d) o = o * sz[d] + c[oa[d]] - lo[oa[d]];
        return field() + o;
    };
    blocks(n);
    walkAddresses(r, key, what, it, total, 0, at);
}
static void c16(Rng& r)
{
#if MODE == 160
    if (r.chance(.03)) switch (r.i(0, 7)) {
        case 0: return wideView(r, Seq<2>{}, Seq<2>{});
        case 1: return wideView(r, Seq<1, 2>{}, Seq<1, 2>{});
        case 2: return wideView(r, Seq<2, 1>{}, Seq<1, 2>{});
        case 3: return wideView(r, Seq<1, 2>{}, Seq<2, 1>{});
        case 4: return wideView(r, Seq<0, 1, 2>{}, Seq<0, 1, 2>{});
        case 5: return wideView(r, Seq<1, 2, 0>{}, Seq<0, 1, 2>{});
        case 6: return wideView(r, Seq<2, 0, 1>{}, Seq<0, 1, 2>{});
        case 7: return wideView(r, Seq<0, 1, 2>{}, Seq<1, 2, 0>{});
        }
#endif
#if MODE == 16
    if (r.chance(.03)) return wides(r);
    switch (r.i(0, 13)) {
    case 0: submatrix<1>(r, false); break;
    case 1: case 2: submatrix<2>(r, true); break;
    case 3: case 4: submatrix<3>(r, true); break;
    case 5: submatrix<4>(r, true); break;
    case 6: transposed<0>(r); break;
    case 7: transposed<0, 1>(r); break;
    case 8: transposed<1, 0>(r); break;
    case 9: transposed<0, 1, 2>(r), transposed<1, 2, 0>(r); break;
    case 10: transposed<0, 2, 1>(r), transposed<2, 0, 1>(r); break;
    case 11: transposed<1, 0, 2>(r), transposed<2, 1, 0>(r); break;
    case 12: transposed<3, 1, 0, 2>(r), transposed<1, 3, 2, 0>(r); break;
    case 13: transposed<2, 3, 0, 1>(r), transposed<0, 1, 2, 3>(r); break;
    }
#else
    switch (r.i(14, 28)) {
    case 14: viewOrder(r, Seq<2>{}, Seq<2>{}); break;
    case 15: viewOrder(r, Seq<1, 2>{}, Seq<1, 2>{}); break;
    case 16: viewOrder(r, Seq<1, 2>{}, Seq<2, 1>{}); break;
    case 17: viewOrder(r, Seq<2, 1>{}, Seq<1, 2>{}); break;
    case 18: viewOrder(r, Seq<0, 1, 2>{}, Seq<0, 1, 2>{}); break;
    case 19: viewOrder(r, Seq<1, 2, 0>{}, Seq<0, 1, 2>{}); break;
    case 20: viewOrder(r, Seq<2, 0, 1>{}, Seq<0, 1, 2>{}); break;
    case 21: viewOrder(r, Seq<0, 1, 2>{}, Seq<1, 2, 0>{}); break;
    case 22: viewOrder(r, Seq<0, 2, 1>{}, Seq<2, 1, 0>{}); break;
    case 23: viewOrder(r, Seq<2, 3>{}, Seq<2>{}); break;
    case 24: viewOrder(r, Seq<1, 2, 3>{}, Seq<1, 2>{}); break;
    case 25: viewOrder(r, Seq<1, 2, 3>{}, Seq<2, 1>{}); break;
    case 26: viewOrder(r, Seq<0, 1, 2, 3>{}, Seq<0, 1, 2>{}); break;
    case 27: viewOrder(r, Seq<0, 1, 2, 3>{}, Seq<2, 0, 1>{}); break;
    case 28: viewOrder(r, Seq<2, 1, 0, 3>{}, Seq<0, 1, 2>{}); break;
    }
#endif
}

#endif
#if MODE == 17
//---------------------------------------------------------------- C17
template <class It>
void pairs(Rng& r, const std::string& key, const std::string& what, It it, const std::vector<std::pair<double, double>>& seq)
{
    walk(
        r, key, what, it, long(seq.size()), 0,
        [&](const It& i, long p) {
            auto x = *i;
            return double(x.a) == seq[p].first && double(x.b) == seq[p].second;
        },
        [&](const It& i, long d, long p) {
            auto x = i[d];
            typename It::ref_t y = x;
            return double(y.a) == seq[p].first && double(y.b) == seq[p].second;
        });
    if (it.size() != long(seq.size())) R.violation(key, what + "size() is " + std::to_string(long(it.size())));
}
template <int N, int I>
void stencilOf(Rng& r)
{
    int sz[N], lb[N], ub[N], stm[N];
    long tot = 1;
    bool strided = r.chance(.4), whole = r.chance(.3);
    for (int d = 0; d < N; ++d) {
        sz[d] = extent(r) + r.i(0, 3) + (d == I);
        tot *= sz[d];
        stm[d] = strided ? r.i(1, 3) : 1;
        lb[d] = whole ? 0 : r.i(0, d == I ? (sz[d] - 1) / 2 : sz[d] - 1);
        ub[d] = whole ? sz[d] - 1 : r.i(lb[d], sz[d] - 1);
    }
    std::vector<double> v = storage(tot);
    int n[N], full[N];
    for (int d = 0; d < N; ++d) n[d] = (ub[d] - lb[d]) / stm[d] + 1, full[d] = n[d] - (d == I);
    std::vector<std::pair<double, double>> seq;
    long cnt = 1;
    for (int d = 0; d < N; ++d) cnt *= full[d];
    int x[N] = {};
    for (long k = 0; k < cnt; ++k) {
        long o = 0, o2 = 0;
        for (int d = 0; d < N; ++d) {
            o = o * sz[d] + lb[d] + x[d] * stm[d];
            o2 = o2 * sz[d] + lb[d] + (x[d] + (d == I)) * stm[d];
        }
        seq.push_back({v[o], v[o2]});
        for (int d = N - 1; d >= 0; --d) {
            if (++x[d] < full[d]) break;
            x[d] = 0;
        }
    }
    std::string what = "stencil<" + std::to_string(I) + "> of submatrix " + show("size", sz, N) + show("lb", lb, N) + show("ub", ub, N) + show("stride", stm, N);
    auto m = make_submatrix(v.data(), sz, lb, ub, stm);
    std::string key = "stencil" + std::to_string(N) + "d" + std::to_string(I);
    if (r.chance(.5))
        pairs(r, key, what, m.template stencil<I>(), seq);
    else
        pairs(r, key, what + "(run time index) ", m.stencil(I), seq);
}
static void stencilRaw(Rng& r)
{
    // outer blocks of M positions, each followed by one plane of `stride` elements
    int inner = r.i(1, 6), len = r.i(1, 7), outer = r.i(1, 5);
    int stride = inner, M = inner * len;
    bool flush = r.chance(.8);
    std::vector<double> v = storage(long(outer) * (M + stride) + 1);
    std::vector<std::pair<double, double>> seq;
    long L = flush ? long(outer) * M : r.i(0, outer * M);
    for (long k = 0; k < L; ++k) {
        long o = k + k / M * stride;
        seq.push_back({v[o], v[o + stride]});
    }
    std::string what = "make_forward_stencil stride=" + std::to_string(stride) + " limit=" + std::to_string(M) + " size=" + std::to_string(L) + " ";
    switch (r.i(0, 3)) {
    case 0: pairs(r, "forward", what + "over pointer", make_forward_stencil(v.data(), stride, M, L), seq); break;
    case 1: pairs(r, "forward", what + "over const pointer", make_forward_stencil((const double*)v.data(), stride, M, L), seq); break;
    case 2: pairs(r, "forward", what + "over vector iterator", make_forward_stencil(v.begin(), stride, M, L), seq); break;
    case 3: pairs(r, "forward", what + "over device_ptr", make_forward_stencil(thrust::device_ptr<double>(v.data()), stride, M, L), seq); break;
    }
}
template <int N, int I>
void wideStencil(Rng& r)
{
    int sz[N], lb[N], ub[N], stm[N], n[N];
    wide(r, sz);
    if (sz[I] < 2) return;
    bool strided = r.chance(.4), whole = r.chance(.3);
    long total = 1, s = 1;
    for (int d = N - 1; d >= 0; --d) {
        lb[d] = whole ? 0 : r.i(0, std::min(sz[d] - 1, r.chance(.5) ? 3 : sz[d] / 3));
        ub[d] = whole ? sz[d] - 1 : std::max(lb[d], sz[d] - 1 - r.i(0, r.chance(.5) ? 3 : sz[d] / 3));
        stm[d] = strided ? r.i(1, 3) : 1;
        if (s * stm[d] > 2147483647) stm[d] = 1; // strides are ints
        s *= sz[d];
        n[d] = (ub[d] - lb[d]) / stm[d] + 1 - (d == I);
        total *= n[d];
    }
    if (total < 1) return;
    auto at = [&](long p, int up) {
        int x[N];
        spread(p, n, x);
        long o = 0;
        for (int d = 0; d < N; ++d) o = o * sz[d] + lb[d] + long(x[d] + (d == I) * up) * stm[d];
        return field() + o;
    };
    std::string what = "stencil<" + std::to_string(I) + "> of submatrix " + show("size", sz, N) + show("lb", lb, N) + show("ub", ub, N) + show("stride", stm, N) + "over reserved memory";
    std::string key = "stencil" + std::to_string(N) + "d" + std::to_string(I);
    setCurrent(key, what);
    auto m = make_submatrix(field(), sz, lb, ub, stm);
    auto it = r.chance(.5) ? m.template stencil<I>() : m.stencil(I);
    using It = decltype(it);
    if (it.size() != total) R.violation(key, what + ": size() is " + std::to_string(long(it.size())) + " of " + std::to_string(total));
    blocks(n);
    walk(
        r, key, what, it, total, 0,
        [&](const It& i, long p) {
            auto x = *i;
            return &x.a == at(p, 0) && &x.b == at(p, 1);
        },
        [&](const It& i, long d, long p) {
            typename It::ref_t y = i[d];
            return &y.a == at(p, 0) && &y.b == at(p, 1);
        });
    hot.clear();
}
static void c17(Rng& r)
{
    if (r.chance(.03)) switch (r.i(0, 7)) {
        case 0: return wideStencil<1, 0>(r);
        case 1: return wideStencil<2, 0>(r);
        case 2: return wideStencil<2, 1>(r);
        case 3: return wideStencil<3, 0>(r);
        case 4: return wideStencil<3, 1>(r);
        case 5: return wideStencil<3, 2>(r);
        case 6: return wideStencil<4, 1>(r);
        case 7: return wideStencil<4, 3>(r);
        }
    switch (r.i(0, 12)) {
    case 0: stencilOf<1, 0>(r); break;
    case 1: stencilOf<2, 0>(r); break;
    case 2: stencilOf<2, 1>(r); break;
    case 3: stencilOf<3, 0>(r); break;
    case 4: stencilOf<3, 1>(r); break;
    case 5: stencilOf<3, 2>(r); break;
    case 6: stencilOf<4, 1>(r); break;
    case 7: stencilOf<4, 3>(r); break;
    default: stencilRaw(r);
    }
}

#endif
#if MODE == 18
//---------------------------------------------------------------- C18
static long floorDiv(long a, long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

template <int N, int I>
void coarse(Rng& r)
{
    int ratio = r.chance(.15) ? 1 : r.chance(.6) ? r.i(2, 4) : r.i(5, 17);
    long nf = r.i(1, 40);
    int fi = r.chance(.6) ? r.i(-40, 40) : r.chance(.8) ? r.i(-90000, 90000) : r.i(-2000000000, 2000000000);
    // the iterator may also be taken below its construction point
    long back = r.chance(.5) ? r.i(0, 30) : 0;
    long c0 = floorDiv(fi - back, ratio), c1 = floorDiv(fi + nf - 1, ratio), cb = floorDiv(fi, ratio);
    int sz[N], ci[N];
    long tot = 1;
    for (int d = 0; d < N; ++d) {
        if (d == I) {
            int g0 = r.i(0, 2), g1 = r.i(0, 2);
            sz[d] = int(c1 - c0 + 1) + g0 + g1;
            ci[d] = g0 + int(cb - c0);
        } else {
            sz[d] = r.i(1, 5);
            ci[d] = r.i(0, sz[d] - 1);
        }
        tot *= sz[d];
    }
    std::vector<double> v = storage(tot), seq;
    for (long f = fi - back; f < fi + nf; ++f) {
        long o = 0;
        for (int d = 0; d < N; ++d) o = o * sz[d] + (d == I ? ci[d] + int(floorDiv(f, ratio) - cb) : ci[d]);
        seq.push_back(v[o]);
    }
    std::string what = "make_coarse_to_fine<" + std::to_string(I) + "," + std::to_string(N) + "> " + show("size", sz, N) + show("coarse index", ci, N) +
                       "fine index=" + std::to_string(fi) + " ratio=" + std::to_string(ratio) + " back=" + std::to_string(back) + " n=" + std::to_string(nf);
    std::string key = "coarse" + std::to_string(N) + "d" + std::to_string(I);
    switch (r.i(0, 3)) {
    case 0: walkValues(r, key, what, make_coarse_to_fine<I, N>(v.data(), sz, ci, fi, ratio), seq, back); break;
    case 1: walkValues(r, key, what, make_coarse_to_fine<I, N>((const double*)v.data(), sz, ci, fi, ratio), seq, back); break;
    case 2: walkValues(r, key, what, make_coarse_to_fine<I, N>(thrust::device_ptr<double>(v.data()), sz, ci, fi, ratio), seq, back); break;
    case 3: walkValues(r, key, what, make_coarse_to_fine<I, N>(v.begin(), sz, ci, fi, ratio), seq, back); break;
    }
    auto it = make_coarse_to_fine<I, N>(v.data(), sz, ci, fi, ratio);
    long base = 0;
    for (int d = 0; d < N; ++d) base = base * sz[d] + ci[d];
    if (&*it != &v[base]) R.violation(key, what + ": does not refer to the coarse element");
}
// views: view.fine(ratio, fixed coarse bounds)(fine bounds), sweeping axis X; A... is the
// order of the storage, F... the order of the fine bounds
template <int X, int... A, int... F>
void fineView(Rng& r, std::integer_sequence<int, A...>, std::integer_sequence<int, F...>)
{
    int oa[] = {A...}, ob[] = {F...};
    constexpr int N = sizeof...(A);
    int ratio = r.chance(.15) ? 1 : r.i(2, 6);
    int lo[3], hi[3], c[3], f0[3], f1[3];
    long tot = 1;
    std::string what = "view.fine ratio=" + std::to_string(ratio) + " " + show("order", oa, N) + show("fine order", ob, N) + "sweep=" + std::to_string(X);
    for (int d : oa) {
        f0[d] = r.chance(.7) ? r.i(-30, 30) : r.chance(.8) ? r.i(-100000, 100000) : r.i(-1000000000, 1000000000);
        f1[d] = d == X ? f0[d] + (r.chance(.01) ? r.i(25, 3000) : r.i(0, 25)) : f0[d];
        c[d] = int(floorDiv(f0[d], ratio));
        lo[d] = c[d] - r.i(0, 2);
        hi[d] = int(floorDiv(f1[d], ratio)) + r.i(0, 2);
        tot *= hi[d] - lo[d] + 1;
        what += " axis" + std::to_string(d) + " fine[" + std::to_string(f0[d]) + ":" + std::to_string(f1[d]) + "] coarse[" + std::to_string(lo[d]) + ":" +
                std::to_string(hi[d]) + "]";
    }
    std::vector<double> v = storage(tot), seq;
    for (int f = f0[X]; f <= f1[X]; ++f) {
        long o = 0;
        for (int d : oa) o = o * (hi[d] - lo[d] + 1) + (d == X ? int(floorDiv(f, ratio)) : c[d]) - lo[d];
        seq.push_back(v[o]);
    }
    auto go = [&](auto&& sp) {
        auto fixed = [&](auto... b) { return sp.fine(ratio, b...); };
        if constexpr (N == 1)
            walkValues(r, "fine1", what, fixed()(DB<F>{f0[F], f1[F]}...), seq);
        else if constexpr (N == 2) {
            constexpr int Y = (A + ...) - X;
            walkValues(r, "fine2", what, fixed(DB<Y>{c[Y], c[Y]})(DB<F>{f0[F], f1[F]}...), seq);
        } else {
            constexpr int Y = X == 0 ? 1 : 0, Z = 3 - X - Y;
            if (r.chance(.5))
                walkValues(r, "fine3", what, fixed(DB<Y>{c[Y], c[Y]}, DB<Z>{c[Z], c[Z]})(DB<F>{f0[F], f1[F]}...), seq);
            else
                walkValues(r, "fine3", what, fixed(DB<Z>{c[Z], c[Z]}, DB<Y>{c[Y], c[Y]})(DB<F>{f0[F], f1[F]}...), seq);
        }
    };
    if (r.chance(.5))
        go(make_md_span(v.data(), DB<A>{lo[A], hi[A]}...));
    else
        go(make_md_span((const double*)v.data(), DB<A>{lo[A], hi[A]}...));
}
static void fines(Rng& r)
{
    switch (r.i(0, 8)) {
    case 0: fineView<1>(r, Seq<1, 2>{}, Seq<1, 2>{}); break;
    case 1: fineView<2>(r, Seq<1, 2>{}, Seq<1, 2>{}); break;
    case 2: fineView<1>(r, Seq<2, 1>{}, Seq<1, 2>{}); break;
    case 3: fineView<2>(r, Seq<2, 1>{}, Seq<2, 1>{}); break;
    case 4: fineView<0>(r, Seq<0, 1, 2>{}, Seq<0, 1, 2>{}); break;
    case 5: fineView<1>(r, Seq<1, 2, 0>{}, Seq<0, 1, 2>{}); break;
    case 6: fineView<2>(r, Seq<2, 0, 1>{}, Seq<0, 1, 2>{}); break;
    case 7: fineView<2>(r, Seq<0, 1, 2>{}, Seq<2, 0, 1>{}); break;
    case 8: fineView<0>(r, Seq<1, 2, 0>{}, Seq<2, 1, 0>{}); break;
    }
}
template <int N>
void offsets(Rng& r)
{
    int sz[N], stride[N], c[N];
    long tot = 1;
    bool large = r.chance(.002); // distances of more than 65536 elements
    for (int d = 0; d < N; ++d)
        sz[d] = large ? N == 1 ? 100000 : N == 2 ? r.i(250, 400) : N == 3 ? r.i(40, 55) : r.i(14, 18) : r.i(1, 6), c[d] = r.i(0, sz[d] - 1), tot *= sz[d];
    stride_from_size(sz, stride);
    long st[N];
    for (int d = N - 1; d >= 0; --d) st[d] = d == N - 1 ? 1 : st[d + 1] * sz[d + 1];
    // strides are the caller's business: also reversed order, as dot products use it
    bool rev = r.chance(.4);
    int n = r.chance(.1) ? r.i(13, 90) : r.i(1, 12);
    std::vector<double> v = storage(tot), seq;
    std::vector<int> o;
    long base = 0;
    for (int d = 0; d < N; ++d) base = base * sz[d] + c[d];
    for (int k = 0; k < n; ++k) {
        long p = base;
        int row[N];
        for (int d = 0; d < N; ++d) {
            row[d] = r.i(-c[d], sz[d] - 1 - c[d]);
            p += row[d] * st[d];
        }
        for (int d = 0; d < N; ++d) o.push_back(row[rev ? N - 1 - d : d]);
        seq.push_back(v[p]);
    }
    if (rev)
        for (int d = 0; d < N / 2; ++d) std::swap(stride[d], stride[N - 1 - d]);
    std::string what = "make_offset_iterator " + show("size", sz, N) + show("at", c, N) + show("stride", stride, N) + show("offsets", o.data(), int(o.size()));
    std::string key = "offset" + std::to_string(N);
    // the list the iterator is given may have offsets before that place
    int at = r.chance(.4) ? r.i(0, n - 1) : 0;
    if (at) what += "starting at " + std::to_string(at);
    thrust::device_ptr<int> po(o.data() + at * N);
    switch (r.i(0, 2)) {
    case 0: walkValues(r, key, what, make_offset_iterator(v.data() + base, stride, po), seq, at); break;
    case 1: walkValues(r, key, what, make_offset_iterator((const double*)v.data() + base, stride, po), seq, at); break;
    case 2: walkValues(r, key, what, make_offset_iterator(thrust::device_ptr<double>(v.data() + base), stride, po), seq, at); break;
    }
}
template <int N, int I>
void wideCoarse(Rng& r)
{
    int sz[N], ci[N], ratio = r.i(1, 9);
    wide(r, sz);
    long stride = 1, base = 0;
    for (int d = 0; d < N; ++d) ci[d] = r.i(0, sz[d] - 1), base = base * sz[d] + ci[d];
    for (int d = I + 1; d < N; ++d) stride *= sz[d];
    // as many fine positions as the coarse box has, as far as an int counts them
    int off = r.i(0, ratio - 1), fi = int(std::min(100000000L, long(ci[I]) * ratio) * (r.chance(.5) ? 1 : -1));
    fi = int(floorDiv(fi, ratio) * ratio + off);
    long lo = std::min(long(ci[I]) * ratio, 1000000000L) / ratio * ratio, hi = std::min(long(sz[I] - 1 - ci[I]) * ratio, 1000000000L) / ratio * ratio;
    long back = lo + off, n = lo + hi + ratio;
    auto at = [&](long p) { return field() + base + (floorDiv(p, ratio) - lo / ratio) * stride; };
    std::string what = "make_coarse_to_fine<" + std::to_string(I) + "," + std::to_string(N) + "> " + show("size", sz, N) + show("coarse index", ci, N) +
                       "fine index=" + std::to_string(fi) + " ratio=" + std::to_string(ratio) + " over reserved memory";
    hot = {ratio, 65536, 32768};
    walkAddresses(r, "coarse" + std::to_string(N) + "d" + std::to_string(I), what, make_coarse_to_fine<I, N>(field(), sz, ci, fi, ratio), n, back, at);
}
template <int N>
void wideOffsets(Rng& r)
{
    int sz[N], stride[N], c[N];
    wide(r, sz);
    long base = 0;
    for (int d = 0; d < N; ++d) c[d] = r.i(0, sz[d] - 1), base = base * sz[d] + c[d];
    stride_from_size(sz, stride);
    int n = r.i(1, 30);
    std::vector<int> o;
    std::vector<long> to;
    for (int k = 0; k < n; ++k) {
        long p = 0;
        for (int d = 0; d < N; ++d) {
            int x = r.i(0, sz[d] - 1);
            o.push_back(x - c[d]), p = p * sz[d] + x;
        }
        to.push_back(p);
    }
    std::string what = "make_offset_iterator " + show("size", sz, N) + show("at", c, N) + show("offsets", o.data(), int(o.size())) + "over reserved memory";
    walkAddresses(r, "offset" + std::to_string(N), what, make_offset_iterator(field() + base, stride, thrust::device_ptr<int>(o.data())), n, 0,
                  [&](long p) { return field() + to[p]; });
}
static void c18(Rng& r)
{
    if (r.chance(.03)) switch (r.i(0, 8)) {
        case 0: return wideCoarse<1, 0>(r);
        case 1: return wideCoarse<2, 0>(r);
        case 2: return wideCoarse<2, 1>(r);
        case 3: return wideCoarse<3, 0>(r);
        case 4: return wideCoarse<3, 1>(r);
        case 5: return wideCoarse<3, 2>(r);
        case 6: return wideOffsets<1>(r);
        case 7: return wideOffsets<2>(r);
        case 8: return wideOffsets<3>(r);
        }
    switch (r.i(0, 11)) {
    case 0: coarse<1, 0>(r); break;
    case 1: coarse<2, 0>(r); break;
    case 2: coarse<2, 1>(r); break;
    case 3: coarse<3, 0>(r); break;
    case 4: coarse<3, 1>(r); break;
    case 5: coarse<3, 2>(r); break;
    case 6: offsets<1>(r); break;
    case 7: offsets<2>(r); break;
    case 8: offsets<3>(r); break;
    default: fines(r);
    }
}

#endif
int main(int argc, char** argv)
{
    Opt o(argc, argv);
    installHandlers();
    R.memoryOnly = o.n("memory", 0);
    Rng r(o.n("seed", 1));
    long cases = o.n("cases", 1000);
    for (long c = 0; c < cases; ++c) {
        Rng q(r.next());
#if MODE == 16 || MODE == 160
        c16(q);
#elif MODE == 17
        c17(q);
#else
        c18(q);
#endif
    }
    R.json(o.s("json"));
    return R.violations ? 1 : 0;
}
