// C19: views, bounds and device vectors against a plain model of the storage.
#include "md_device_span.hpp"
#include "md_device_vector.hpp"
#include "report.hpp"

using namespace vf;
static Report R;
template <int X>
using DB = lazy::dir_bounds<X>;
template <int... A>
using Seq = std::integer_sequence<int, A...>;

static std::string KEY, WHAT;
static void begin(const std::string& k, const std::string& w)
{
    KEY = k, WHAT = w;
    setCurrent(k, w);
    R.evaluated(k, w, true);
    alarm(20);
}
static void expect(bool ok, const std::string& m)
{
    ++R.compared;
    if (!ok) R.violation(KEY, WHAT + ": " + m);
}
template <class A, class B>
static void same(A got, B want, const char* m)
{
    ++R.compared;
    if (!(got == want)) R.violation(KEY, WHAT + ": " + m + " is " + std::to_string(got) + ", has to be " + std::to_string(want));
}
static int extent(Rng& r) { return r.chance(.2) ? 1 : r.chance(.03) ? r.i(8, 40) : r.i(1, 7); }
struct Axes {
    int lo[4], hi[4], g;
    std::string str() const
    {
        std::string s = "ghost=" + std::to_string(g);
        for (int d = 0; d < 4; ++d) s += " " + std::to_string(lo[d]) + ":" + std::to_string(hi[d]);
        return s;
    }
    // declared storage of axis d
    int L(int d) const { return d == 3 ? lo[d] : lo[d] - g; }
    int H(int d) const { return d == 3 ? hi[d] : hi[d] + g; }
    int n(int d) const { return H(d) - L(d) + 1; }
};
static Axes axes(Rng& r)
{
    Axes a;
    for (int d = 0; d < 4; ++d) {
        a.lo[d] = r.chance(.7) ? r.i(-9, 9) : r.chance(.15) ? r.i(-1000000000, 1000000000) : r.i(-100000, 100000);
        a.hi[d] = a.lo[d] + extent(r) - 1;
    }
    a.lo[3] = r.i(0, 2), a.hi[3] = a.lo[3] + r.i(0, 6);
    a.g = r.chance(.3) ? 0 : r.i(1, 4);
    if (r.chance(.0005)) { // tens of thousands of elements in a row
        int l = r.i(0, 2);
        a.g = r.i(0, 1);
        for (int d = 0; d < 3; ++d) a.hi[d] = a.lo[d] + (d == l ? r.i(30000, 140000) : 1) - 1;
        a.hi[3] = a.lo[3] + r.i(0, 1);
    }
    return a;
}
template <int... A>
long where(const Axes& a, const int* x)
{
    long o = 0;
    ((o = o * a.n(A) + x[A] - a.L(A)), ...);
    return o;
}
template <int... A>
long total(const Axes& a)
{
    long t = 1;
    ((t *= a.n(A)), ...);
    return t;
}
static std::string boundsStr(const bounds& b) { return std::to_string(b.first) + ".." + std::to_string(b.last) + ":" + std::to_string(b.stride); }

//---------------------------------------------------------------- bounds
template <int X>
void boundsAlgebra(Rng& r)
{
    int lo = r.i(-1000, 1000), hi = lo + (r.chance(.1) ? -r.i(1, 5) : r.i(0, 30)), s = r.chance(.4) ? 1 : r.i(2, 6), e = r.i(0, 6), k = r.i(-7, 7);
    begin("bounds", "dir_bounds<" + std::to_string(X) + ">{" + std::to_string(lo) + "," + std::to_string(hi) + "," + std::to_string(s) + "} e=" + std::to_string(e) +
                        " k=" + std::to_string(k));
    DB<X> b{lo, hi, s};
    int n = 0;
    for (int x = lo; x <= hi; x += s) ++n;
    same(b.lb(), lo, "lb()");
    same(b.ub(), hi, "ub()");
    same(b.size(), n, "size()");
    same(b.stride, s, "stride");
    DB<X> x = b.expand(e);
    same(x.lb(), lo - e, "expand lb");
    same(x.ub(), hi + e, "expand ub");
    same(x.stride, s, "expand stride");
    DB<X> p = b + k;
    same(p.lb(), k < 0 ? lo + k : lo, "b + k lb");
    same(p.ub(), k < 0 ? hi : hi + k, "b + k ub");
    DB<X> m = b - e;
    same(m.lb(), lo - e, "b - e lb");
    same(m.ub(), hi, "b - e ub");
    DB<X> t = b.shift(k);
    same(t.lb(), lo + k, "shift lb");
    same(t.ub(), hi + k, "shift ub");
    same(t.size(), n, "shift size");
    same(t.stride, s, "shift stride");
    DB<X> u = b.unit_stride();
    same(u.stride, 1, "unit stride");
    same(u.lb(), lo, "unit stride lb");
    same(u.ub(), hi, "unit stride ub");
    same(b.lb(), lo, "the operand's lb");
    same(b.ub(), hi, "the operand's ub");
    same(b.size(), n, "the operand's size");
    bounds q = b;
    q += e;
    same(q.ub(), hi + e, "+= ub");
    q -= e;
    same(q.lb(), lo - e, "-= lb");
    bounds z(lo, hi, s, false); // exclusive upper end
    same(z.ub(), hi - 1, "exclusive ub");
}

//---------------------------------------------------------------- views
// every element of a view declared with order A... over the storage v
template <class T, class V, int... A>
void addresses(V& sp, T* v, const Axes& a, const char* how)
{
    int ax[] = {A...};
    constexpr int N = sizeof...(A);
    same(int(sp.size()), int(total<A...>(a)), (std::string(how) + " size()").c_str());
    same(long(sp.end() - sp.begin()), total<A...>(a), (std::string(how) + " end() - begin()").c_str());
    expect(thrust::raw_pointer_cast(sp.begin()) == v, std::string(how) + " begin() is not the first element");
    auto db = sp.dir_bounds();
    auto one = [&](const bounds& b, int d) {
        expect(b.lb() == a.L(d) && b.ub() == a.H(d) && b.stride == 1, std::string(how) + " dir_bounds of axis " + std::to_string(d) + " are " + boundsStr(b));
    };
    (one(std::get<DB<A>>(db), A), ...);
    int x[4] = {};
    for (int d : ax) x[d] = a.L(d);
    for (;;) {
        T* got = thrust::raw_pointer_cast(&sp.at(x[A]...));
        T* want = v + where<A...>(a, x);
        ++R.compared;
        if (got != want) {
            expect(false, std::string(how) + " at() addresses element " + std::to_string(long(got - v)) + " instead of " + std::to_string(long(want - v)));
            return;
        }
        int d = N - 1;
        for (; d >= 0; --d) {
            if (++x[ax[d]] <= a.H(ax[d])) break;
            x[ax[d]] = a.L(ax[d]);
        }
        if (d < 0) break;
    }
}
template <class T, int... A>
void views(Rng& r, Seq<A...>)
{
    Axes a = axes(r);
    int ax[] = {A...};
    std::string w = std::string(sizeof(T) == 4 ? "float " : "double ") + "view order";
    for (int d : ax) w += " " + std::to_string(d);
    begin("view", w + " " + a.str());
    // exactly sized storage
    long n = total<A...>(a);
    std::unique_ptr<T[]> v(new T[n]);
    for (long i = 0; i < n; ++i) v[i] = T(i + 1);
    // a strided domain handed in as bounds must not change the storage layout
    int st = r.i(1, 3);
    auto s0 = make_md_span(v.get(), DB<A>{a.L(A), a.H(A), A == 3 ? 1 : st}...);
    auto s1 = make_md_span((const T*)v.get(), DB<A>{a.L(A), a.H(A), A == 3 ? 1 : st}...);
    auto s2 = make_md_span(v.get(), a.g, DB<A>{a.lo[A], a.hi[A], A == 3 ? 1 : st}...);
    auto s3 = make_md_span((const T*)v.get(), a.g, DB<A>{a.lo[A], a.hi[A], A == 3 ? 1 : st}...);
    addresses<T, decltype(s0), A...>(s0, v.get(), a, "make_md_span(p, bounds)");
    addresses<const T, decltype(s1), A...>(s1, v.get(), a, "make_md_span(const p, bounds)");
    addresses<T, decltype(s2), A...>(s2, v.get(), a, "make_md_span(p, gcw, bounds)");
    addresses<const T, decltype(s3), A...>(s3, v.get(), a, "make_md_span(const p, gcw, bounds)");
    // sharing: what one view writes the others read, and nothing else changes
    std::vector<T> model(v.get(), v.get() + n);
    auto c2 = s2;
    for (int k = 0; k < 12; ++k) {
        int x[4];
        for (int d = 0; d < 4; ++d) x[d] = r.i(a.L(d), a.H(d));
        T val = T(r.i(-1000, 1000));
        long o = where<A...>(a, x);
        switch (r.i(0, 2)) {
        case 0: s0.at(x[A]...) = val; break;
        case 1: s2.at(x[A]...) = val; break;
        case 2: c2.at(x[A]...) = val; break;
        }
        model[o] = val;
        expect(T(s0.at(x[A]...)) == val && T(s1.at(x[A]...)) == val && T(s2.at(x[A]...)) == val && T(s3.at(x[A]...)) == val, "a view does not see a write made through another");
    }
    expect(!memcmp(model.data(), v.get(), n * sizeof(T)), "writing an element through a view changed another");
    // a statement through one view
    T val = T(r.i(1, 1000));
    if constexpr (((A != 3) && ...)) {
        DB<0> k{0, 0};
        int dl[4], dh[4];
        for (int d = 0; d < 4; ++d) dl[d] = r.i(a.L(d), a.H(d)), dh[d] = r.i(dl[d], a.H(d));
        with_domain(DB<A>{dl[A], dh[A], st}...)(s2 = val);
        int x[4] = {};
        for (int d : ax) x[d] = a.L(d);
        for (long o = 0; o < n; ++o) {
            bool in = true;
            for (int d : ax) in = in && x[d] >= dl[d] && x[d] <= dh[d] && (x[d] - dl[d]) % st == 0;
            if (in) model[o] = val;
            for (int d = int(sizeof...(A)) - 1; d >= 0; --d) {
                if (++x[ax[d]] <= a.H(ax[d])) break;
                x[ax[d]] = a.L(ax[d]);
            }
        }
        expect(!memcmp(model.data(), v.get(), n * sizeof(T)), "a fill through a view wrote other elements than its domain");
        T v2 = T(r.i(1, 1000));
        with_domain()(s0 = v2);
        for (auto& m : model) m = v2;
        expect(!memcmp(model.data(), v.get(), n * sizeof(T)), "with_domain() is not the whole view");
        auto t = make_md_span(v.get(), DB<A>{a.L(A), a.H(A)}...);
        with_lhs_domain(t = val);
        for (auto& m : model) m = val;
        expect(!memcmp(model.data(), v.get(), n * sizeof(T)), "with_lhs_domain is not the whole view");
    }
}
static void offsetSpan(Rng& r)
{
    int n = r.chance(.15) ? r.i(10, 300) : r.i(1, 9), dims = r.i(1, 3);
    begin("offset span", "make_offset_span n=" + std::to_string(n) + " dims=" + std::to_string(dims));
    std::vector<int> o(n * dims);
    for (size_t i = 0; i < o.size(); ++i) o[i] = int(i);
    auto c = make_offset_span((const int*)o.data(), n, dims);
    auto m = make_offset_span(o.data(), n, dims);
    same(int(c.size()), n * dims, "size()");
    same(int(m.size()), n * dims, "size()");
    // indexed from the lower bounds each declares
    auto go = [&](auto& s) {
        auto b = s.dir_bounds();
        auto w = std::get<DB<3>>(b);
        auto i = std::get<DB<2>>(b);
        same(w.size(), n, "number of offsets");
        same(i.size(), dims, "number of dimensions");
        for (int k = 0; k < n; ++k)
            for (int d = 0; d < dims; ++d) same(int(s.at(w.lb() + k, i.lb() + d)), k * dims + d, "at(offset, dimension)");
    };
    go(c), go(m);
    auto v = make_offset_vec(n, dims);
    same(v.size(), n * dims, "make_offset_vec size()");
}

//---------------------------------------------------------------- device vectors
// while the host copy is the current one, writes through host_data() stay
template <class V>
void hostWrites(V& v, Rng& r)
{
    if (!v.size()) return;
    auto* p = v.host_data();
    int k = r.i(0, v.size() - 1);
    auto old = p[k];
    for (int q = 0; q < 2; ++q) {
        p[k] = q ? old : old + 1;
        auto now = q ? old : old + 1;
        if (r.chance(.5))
            expect(v.host()[k] == now, "a value written through host_data() is lost by host()");
        else {
            typename std::vector<decltype(old)> u = v;
            expect(u[k] == now, "a value written through host_data() is lost by the copy to std::vector");
        }
    }
}
template <class T, int... A>
void vectors(Rng& r, Seq<A...>, bool ghosted)
{
    Axes a = axes(r);
    if (!ghosted) a.g = 0;
    int ax[] = {A...};
    constexpr int N = sizeof...(A);
    std::string w = "md_device_vector order";
    for (int d : ax) w += " " + std::to_string(d);
    begin("vector", w + " " + a.str());
    long n = total<A...>(a);
    auto v = ghosted ? make_md_vec<T>(a.g, DB<A>{a.lo[A], a.hi[A]}...) : make_md_vec<T>(DB<A>{a.lo[A], a.hi[A]}...);
    std::vector<T> model(n, T(0));
    same(v.size(), int(n), "size()");
    for (int d = 0; d < N; ++d) same(v.dim(d), a.n(ax[d]), "dim()");
    std::string hist;
    auto check = [&](const char* how, auto&& h) {
        ++R.compared;
        expect(long(h.size()) == n, std::string(how) + " has the wrong size");
        for (long i = 0; i < n; ++i)
            if (!(h[i] == model[i])) {
                expect(false, std::string(how) + " differs from what was written at " + std::to_string(i) + " after" + hist);
                return;
            }
    };
    for (int step = 0; step < 10; ++step) {
        int op = r.i(0, 7);
        hist += " " + std::to_string(op);
        switch (op) {
        case 0: { // single elements through the pointer
            T* p = v.data();
            for (int k = 0; k < 5; ++k) {
                int x[4];
                for (int d = 0; d < 4; ++d) x[d] = r.i(a.L(d), a.H(d));
                long o = where<A...>(a, x);
                same(long(v.index(x[A]...)), o, "index()");
                p[o] = model[o] = T(r.i(-99, 99));
            }
            break;
        }
        case 1: { // everything
            T* p = v.data();
            for (long i = 0; i < n; ++i) p[i] = model[i] = T(r.i(-99, 99));
            break;
        }
        case 2: // a statement
            if constexpr (((A != 3) && ...)) {
                auto s = ghosted ? make_md_span(v.data(), a.g, DB<A>{a.lo[A], a.hi[A]}...) : make_md_span(v.data(), DB<A>{a.lo[A], a.hi[A]}...);
                T c = T(r.i(1, 5));
                with_domain()(s = s + c);
                for (auto& m : model) m = m + c;
            }
            break;
        case 3: check("host()", v.host()), hostWrites(v, r); break;
        case 4: check("std::vector", std::vector<T>(v)); break;
        case 5: {
            const auto& cv = v;
            const T* p = cv.data();
            for (long i = 0; i < n; ++i)
                if (!(p[i] == model[i])) {
                    expect(false, "device data differs from what was written, after" + hist);
                    break;
                }
            break;
        }
        case 6:
            if (r.chance(.3)) {
                randomize();
                v.fill_random(T(1), T(50));
                hostWrites(v, r);
                std::vector<T> h = v;
                const T* p = v.data();
                bool ok = long(h.size()) == n;
                for (long i = 0; i < n; ++i) ok = ok && h[i] >= T(1) && h[i] <= T(50) && h[i] == p[i], model[i] = p[i];
                expect(ok, "fill_random: host and device copies differ or leave the range, after" + hist);
            }
            break;
        case 7: { // copies are independent
            auto u = v;
            T* p = u.data();
            for (long i = 0; i < n; ++i) p[i] = T(-1000);
            const auto& h = u.host();
            for (long i = 0; i < n; ++i) expect(h[i] == T(-1000), "a copy lost a write");
            break;
        }
        }
    }
    check("host()", v.host());
    check("std::vector", std::vector<T>(v));
}
static void offsetVector(Rng& r)
{
    int n = r.chance(.15) ? r.i(10, 300) : r.i(1, 9), dims = r.i(1, 3);
    begin("offset vector", "make_offset_vec n=" + std::to_string(n) + " dims=" + std::to_string(dims));
    auto v = make_offset_vec(n, dims);
    std::vector<int> model(n * dims, 0);
    std::string hist;
    for (int s = 0; s < 14; ++s) {
        int k = r.i(0, n - 1), a = r.i(-9, 9), b = r.i(-9, 9), c = r.i(-9, 9);
        switch (r.i(0, 3)) {
        case 0:
        case 1:
            hist += " set" + std::to_string(k);
            if (dims == 1) v.set_offset(k, a);
            if (dims == 2) v.set_offset(k, a, b);
            if (dims == 3) v.set_offset(k, a, b, c);
            model[k * dims] = a;
            if (dims > 1) model[k * dims + 1] = b;
            if (dims > 2) model[k * dims + 2] = c;
            break;
        case 2: {
            hist += " device";
            int* p = v.data();
            int i = r.i(0, n * dims - 1);
            p[i] = model[i] = a;
            break;
        }
        case 3: hist += " host"; expect(std::vector<int>(v) == model, "host copy is wrong after" + hist); break;
        }
        const int* p = v.data();
        expect(std::equal(model.begin(), model.end(), p), "device data is wrong after" + hist);
        if (r.chance(.3)) {
            thrust::device_vector<int> t(p, p + model.size());
            expect(to_std(t) == model, "to_std loses an element");
        }
    }
    expect(std::vector<int>(v) == model, "host copy is wrong after" + hist);
}

template <class T>
void anyView(Rng& r)
{
    switch (r.i(0, 11)) {
    case 0: views<T>(r, Seq<2>{}); break;
    case 1: views<T>(r, Seq<1, 2>{}); break;
    case 2: views<T>(r, Seq<2, 1>{}); break;
    case 3: views<T>(r, Seq<0, 1, 2>{}); break;
    case 4: views<T>(r, Seq<1, 2, 0>{}); break;
    case 5: views<T>(r, Seq<2, 0, 1>{}); break;
    case 6: views<T>(r, Seq<0, 2, 1>{}); break;
    case 7: views<T>(r, Seq<2, 1, 0>{}); break;
    case 8: views<T>(r, Seq<2, 3>{}); break;
    case 9: views<T>(r, Seq<1, 2, 3>{}); break;
    case 10: views<T>(r, Seq<0, 1, 2, 3>{}); break;
    case 11: views<T>(r, Seq<1>{}); break;
    }
}
template <class T>
void anyVector(Rng& r)
{
    bool g = r.chance(.6);
    switch (r.i(0, 6)) {
    case 0: vectors<T>(r, Seq<2>{}, g); break;
    case 1: vectors<T>(r, Seq<1, 2>{}, g); break;
    case 2: vectors<T>(r, Seq<2, 1>{}, g); break;
    case 3: vectors<T>(r, Seq<0, 1, 2>{}, g); break;
    case 4: vectors<T>(r, Seq<1, 2, 0>{}, g); break;
    case 5: vectors<T>(r, Seq<1, 2, 3>{}, g); break;
    case 6: vectors<T>(r, Seq<0, 1, 2, 3>{}, g); break;
    }
}
int main(int argc, char** argv)
{
    Opt o(argc, argv);
    installHandlers();
    R.memoryOnly = o.n("memory", 0);
    Rng r(o.n("seed", 1));
    long cases = o.n("cases", 1000);
    for (long c = 0; c < cases; ++c) {
        Rng q(r.next());
        switch (q.i(0, 9)) {
        case 0: q.chance(.5) ? boundsAlgebra<2>(q) : boundsAlgebra<0>(q); break;
        case 1: case 2: case 3: PART_A(q); break;
        case 4: case 5: case 6: PART_B(q); break;
        case 7: PART_C(q); break;
        case 8: offsetSpan(q); break;
        case 9: offsetVector(q); break;
        }
    }
    alarm(0);
    R.json(o.s("json"));
    return R.violations ? 1 : 0;
}
