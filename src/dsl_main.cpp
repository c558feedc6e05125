// C13, C14, C15: runs generated programs of the expression language on random boxes and
// compares every element with an interpreter of the same program.
#include "dsl.hpp"
#include "report.hpp"
#include "sched.hpp"
#include <atomic>
#include <thread>

using namespace vf;
#ifndef NPARTS
#define NPARTS 1
#endif
extern const Prog progs0[], progs1[], progs2[], progs3[], progs4[], progs5[], progs6[], progs7[];
static const Prog* const PARTS[] = {progs0, progs1, progs2, progs3, progs4, progs5, progs6, progs7};

static Report R;

struct Node {
    char op;            // + - * / n(eg) v g s t c d(double slot) i(int slot) m(window) D(ot)
    int a = 0;          // view / slot / position
    int ax[2] = {0, 0}; // axis of a gradient, shift, pair
    int sl[2] = {0, 0}; // slot or lower offset
    int n = 0;
    Node *l = nullptr, *r = nullptr;
    double c = 0;
    bool ci = false;
};
struct View {
    char t;
    bool isConst, gcw;
    int nw, nax, ax[4];
    bool written = false, denom = false;
};
struct Stmt {
    char k; // A R 1 2
    int a = 0, b = 0;
    Node* e = nullptr;
};
struct Program {
    std::string form, text, code, key; // key: a class of its own (see strided_gradients in gendsl.py)
    std::vector<int> order;
    bool strided[4];
    std::vector<View> v;
    std::vector<Stmt> s;
    int m = -1; // window matrix
    bool dot = false, flt = false;
    void (*run)(Ctx&);
};
static Node* parse(std::istringstream& in)
{
    std::string t;
    in >> t;
    Node* n = new Node;
    auto num = [](const std::string& s) { return atoi(s.c_str()); };
    if (t.size() == 1 && strchr("+-*/", t[0])) {
        n->op = t[0];
        n->l = parse(in), n->r = parse(in);
    } else if (t == "neg") {
        n->op = 'n', n->l = parse(in);
    } else if (t == "dot") {
        std::string a, b;
        in >> a >> b;
        n->op = 'D', n->a = num(a.substr(1)), n->sl[0] = num(b.substr(1));
    } else if (t[0] == 'n') {
        n->op = t[1], n->a = num(t.substr(2));
    } else if (t[0] == 'c') {
        n->op = 'c', n->c = atof(t.c_str() + 1), n->ci = t.find('.') == std::string::npos;
    } else if (t[0] == 'v' || t[0] == 'm') {
        n->op = t[0], n->a = num(t.substr(1));
    } else if (t[0] == 'g') {
        std::string h;
        n->op = 'g', n->a = num(t.substr(1));
        in >> n->ax[0] >> n->sl[0] >> h;
        n->ci = h[1] == 'i', n->sl[1] = num(h.substr(2));
    } else if (t[0] == 't') {
        n->op = 't', n->a = num(t.substr(1));
        in >> n->ax[0] >> n->sl[0];
    } else if (t[0] == 's') {
        n->op = 's', n->a = num(t.substr(1));
        in >> n->n;
        for (int k = 0; k < n->n; ++k) in >> n->ax[k] >> n->sl[k];
    } else
        throw std::logic_error("program text: " + t);
    return n;
}
static Program parseProgram(const Prog& p)
{
    Program P;
    P.text = p.text, P.code = p.code, P.run = p.run;
    std::istringstream all(p.text);
    std::string line;
    while (std::getline(all, line)) {
        std::istringstream in(line);
        std::string w;
        in >> w;
        if (w == "form") in >> P.form;
        if (w == "key") in >> P.key;
        if (w == "order")
            for (int x; in >> x;) P.order.push_back(x);
        if (w == "strided")
            for (int k = 0; k < 4; ++k) in >> P.strided[k];
        if (w == "view") {
            View v;
            in >> v.t >> v.isConst >> v.gcw >> v.nw >> v.nax;
            for (int k = 0; k < v.nax; ++k) in >> v.ax[k];
            if (v.nw) P.m = int(P.v.size());
            if (v.t == 'f') P.flt = true;
            P.v.push_back(v);
        }
        if (w == "stmt") {
            Stmt s;
            in >> s.k;
            in >> s.a;
            if (s.k == '2') in >> s.b;
            s.e = parse(in);
            if (s.k == 'A' || s.k == 'R') P.v[s.a].written = true;
            if (s.k == '1' || s.k == '2') P.v[P.m].written = true;
            P.s.push_back(s);
        }
    }
    return P;
}

struct Skip {}; // the arithmetic of this case is not well conditioned (or overflows): not run
struct Val {
    char k; // d f i
    TN t;
    long double e = 0; // rounding error the operations so far may have made, in the types they are carried out in
};
static long double unit(char k) { return k == 'd' ? 0x1p-52L : k == 'f' ? 0x1p-23L : 0; }
struct Run {
    const Program& P;
    Ctx c;
    std::vector<std::vector<TN>> cur;
    std::vector<std::vector<long double>> err;
    std::vector<std::vector<char>> read; // initial value used
    std::vector<std::vector<char>> wr;
    int nOff = 0;
    int side = 0;
    bool noting = false;
    explicit Run(const Program& P) : P(P) {}

    long idx(int v, const int* x, int w = 0)
    {
        long o = 0;
        for (int d = 0; d < P.v[v].nax; ++d) {
            int a = P.v[v].ax[d], y = a == 3 ? c.vlo[v][3] + w : x[a];
            if (y < c.vlo[v][a] || y > c.vhi[v][a]) throw std::logic_error("harness: index outside view " + std::to_string(v) + " in " + P.text);
            o = o * (c.vhi[v][a] - c.vlo[v][a] + 1) + y - c.vlo[v][a];
        }
        return o;
    }
    Val get(int v, long o)
    {
        if (!wr[v][o]) read[v][o] = 1;
        return {P.v[v].t, cur[v][o], err[v][o]};
    }
    static char join(char a, char b) { return a == 'd' || b == 'd' ? 'd' : a == 'f' || b == 'f' ? 'f' : 'i'; }
    static Val arith(char op, Val a, Val b)
    {
        char k = join(a.k, b.k);
        for (Val* x : {&a, &b})
            if (k == 'f' && x->k == 'i') x->e += unit('f') * std::fabs(x->t.v);
        long double e = a.e + b.e;
        TN t;
        switch (op) {
        case '+': t = a.t + b.t; break;
        case '-': t = a.t - b.t; break;
        case '*': t = a.t * b.t, e = a.e * std::fabs(b.t.v) + b.e * std::fabs(a.t.v) + a.e * b.e; break;
        case '/':
            if (b.t.v == 0 || (k != 'i' && std::fabs(b.t.v) < 1e-3L * b.t.m)) throw Skip{};
            if (k == 'i') {
                t = TN((long double)((long long)a.t.v / (long long)b.t.v));
            } else {
                long double den = std::fabs(b.t.v) - b.e;
                if (den <= 0) throw Skip{};
                t = a.t / b.t, e = (a.e + std::fabs(t.v) * b.e) / den;
            }
            break;
        }
        e += 2 * unit(k) * (t.m + e); // the magnitude bounds the partial results of any order of evaluation
        e += k == 'f' ? 0x1p-148L : k == 'd' ? 0x1p-1073L : 0.L;
        if (k == 'i') {
            t.m = std::fabs(t.v);
            if (t.m > 2e9L) throw Skip{};
        } else if (t.m > (k == 'f' ? 1e30L : 1e250L))
            throw Skip{};
        return {k, t, e};
    }
    Val eval(const Node* n, const int* x)
    {
        int y[4] = {x[0], x[1], x[2], 0};
        switch (n->op) {
        case '+': case '-': case '*': case '/': {
            Val a = eval(n->l, x), b = eval(n->r, x);
            return arith(n->op, a, b);
        }
        case 'n': return arith('*', Val{'i', TN(-1)}, eval(n->l, x));
        case 'c': return n->ci ? Val{'i', TN((long double)n->c)} : Val{'d', TN(n->c)};
        case 'd': return {'d', TN(c.d[n->a])};
        case 'i': return {'i', TN(c.i[n->a])};
        case 'v': return get(n->a, idx(n->a, x));
        case 'm': return get(P.m, idx(P.m, x, n->a));
        case 's':
            for (int k = 0; k < n->n; ++k) y[n->ax[k]] += c.h[n->sl[k]];
            return get(n->a, idx(n->a, y));
        case 't':
            y[n->ax[0]] += n->sl[0] + side;
            return get(n->a, idx(n->a, y));
        case 'g': {
            y[n->ax[0]] += n->sl[0];
            Val a = get(n->a, idx(n->a, y));
            ++y[n->ax[0]];
            Val b = get(n->a, idx(n->a, y));
            char t = P.v[n->a].t;
            Val h = t == 'i' ? Val{'i', TN(c.i[n->sl[1]])} : t == 'f' ? Val{'f', TN(float(c.d[n->sl[1]]))} : Val{'d', TN(c.d[n->sl[1]])};
            return arith('/', arith('-', b, a), h);
        }
        case 'D': {
            Val s{'i', TN(0)};
            int N = int(P.order.size());
            for (int w = 0; w < P.v[n->a].nw; ++w) {
                int z[4] = {x[0], x[1], x[2], 0};
                for (int q = 0; q < N; ++q) z[P.order[N - 1 - q]] += c.o[w * N + q];
                Val p = arith('*', get(n->a, idx(n->a, x, w)), get(n->sl[0], idx(n->sl[0], z)));
                s = w ? arith('+', s, p) : p;
            }
            return s;
        }
        }
        throw std::logic_error("node");
    }
    void set(int v, long o, Val e)
    {
        // converted to the element type
        if (P.v[v].t == 'i' && e.k != 'i') throw std::logic_error("harness: float to int");
        cur[v][o] = e.t;
        err[v][o] = e.e + (P.v[v].t == 'f' && e.k != 'f' ? unit('f') * (std::fabs(e.t.v) + e.e) : 0);
        wr[v][o] = 1;
    }
    template <class F>
    void domain(F&& f)
    {
        int x[4] = {0, 0, 0, 0};
        int N = int(P.order.size());
        for (int a : P.order)
            if (c.dlo[a] > c.dhi[a]) return;
        for (int a : P.order) x[a] = c.dlo[a];
        for (;;) {
            f((const int*)x);
            int q = N - 1;
            for (; q >= 0; --q) {
                int a = P.order[q];
                if ((x[a] += c.ds[a]) <= c.dhi[a]) break;
                x[a] = c.dlo[a];
            }
            if (q < 0) return;
        }
    }
    void model()
    {
        for (const Stmt& s : P.s)
            domain([&](const int* x) {
                side = 0;
                if (s.k == 'A') set(s.a, idx(s.a, x), eval(s.e, x));
                if (s.k == 'R') set(s.a, idx(s.a, x), arith('-', get(s.a, idx(s.a, x)), eval(s.e, x)));
                if (s.k == '1') set(P.m, idx(P.m, x, s.a), eval(s.e, x));
                if (s.k == '2') {
                    Val u = eval(s.e, x);
                    side = 1;
                    Val w = eval(s.e, x);
                    set(P.m, idx(P.m, x, s.a), u);
                    set(P.m, idx(P.m, x, s.b), w);
                }
            });
    }
};
static void margins(const Program& P, const Node* n, const Ctx& c, const std::vector<int>& off, int (*lo)[4], int (*hi)[4])
{
    if (!n) return;
    margins(P, n->l, c, off, lo, hi);
    margins(P, n->r, c, off, lo, hi);
    auto need = [&](int v, int a, int l, int h) { lo[v][a] = std::min(lo[v][a], l), hi[v][a] = std::max(hi[v][a], h); };
    if (n->op == 's')
        for (int k = 0; k < n->n; ++k) need(n->a, n->ax[k], c.h[n->sl[k]], c.h[n->sl[k]]);
    if (n->op == 'g' || n->op == 't') need(n->a, n->ax[0], n->sl[0], n->sl[0] + 1);
    if (n->op == 'D') {
        int N = int(P.order.size());
        for (size_t k = 0; k < off.size(); ++k) need(n->sl[0], P.order[N - 1 - k % N], off[k], off[k]);
    }
}
static void denominators(Program& P, const Node* n, bool den)
{
    if (!n) return;
    if (n->op == 'v' && den) P.v[n->a].denom = true;
    denominators(P, n->l, den);
    denominators(P, n->r, den || n->op == '/');
}

// one program with its domain, views and data
struct Trial {
    const Program& P;
    Run q;
    std::vector<int> off;
    std::vector<std::vector<double>> init;
    std::vector<std::unique_ptr<char[]>> mem;
    std::vector<std::vector<char>> before, result;
    std::string key, full;
    bool poison = false, any = false;
    explicit Trial(const Program& P) : P(P), q(P) {}
    double raw(size_t v, long k)
    {
        switch (P.v[v].t) {
        case 'd': return ((double*)q.c.p[v])[k];
        case 'f': return ((float*)q.c.p[v])[k];
        default: return ((int*)q.c.p[v])[k];
        }
    }
    std::string place(size_t v, long k)
    {
        Arr<double> A;
        A.name = "v" + std::to_string(v);
        static const int tag[] = {2, 1, 0, 3};
        for (int d = 0; d < P.v[v].nax; ++d) {
            int a = P.v[v].ax[d];
            A.ax.push_back(tag[a]), A.lo.push_back(q.c.vlo[v][a]), A.hi.push_back(q.c.vhi[v][a]);
        }
        return A.where(k);
    }
    void restore()
    {
        for (size_t v = 0; v < before.size(); ++v) memcpy(q.c.p[v], before[v].data(), before[v].size());
    }
    std::vector<std::vector<char>> bytes()
    {
        std::vector<std::vector<char>> b;
        for (size_t v = 0; v < before.size(); ++v) b.emplace_back((char*)q.c.p[v], (char*)q.c.p[v] + before[v].size());
        return b;
    }
    bool prepare(Rng& r, long no, bool poisoned);
    void judge();
};
static double hugeCases = 0;
static bool memoryOnly = false; // only what the sanitizers report counts
static bool storesToo = false;

bool Trial::prepare(Rng& r, long no, bool poisoned)
{
    Ctx& c = q.c;
    memset(&c, 0, sizeof c);
    for (auto& x : c.d) x = r.chance(.2) ? r.pick({1.0, 0.5, 2.0}) : r.d(.2, 3);
    if (r.chance(.2)) // of either sign
        for (auto& x : c.d) if (r.chance(.4)) x = -x;
    if (r.chance(.08)) // of any magnitude
        for (auto& x : c.d) if (r.chance(.5)) x *= std::pow(10., r.d(-7, 7));
    for (auto& x : c.i) x = r.pick({1, 2, 3, 4, 5, 7, 6});
    if (r.chance(.5))
        for (auto& x : c.i) if (r.chance(.4)) x = -x;
    for (auto& x : c.h) x = r.i(-3, 3);
    int N = int(P.order.size());
    bool far = r.chance(.01); // neighbours far away
    if (far)
        for (auto& x : c.h) x = N == 1 ? r.i(-70000, 70000) : N == 2 ? r.i(-300, 300) : r.i(-30, 30);
    c.h[10] = 1; // left out
    if (P.m >= 0 && P.form == "domain") {
        for (int k = 0; k < P.v[P.m].nw * N; ++k) off.push_back(r.chance(.3) ? 0 : far ? r.i(-60, 60) / N : r.i(-2, 3));
        c.o = off.data();
    }
    bool strided = P.form != "none" && P.form != "lhs" && (r.chance(.45) || !P.key.empty());
    bool longRow = r.chance(.04);
    bool huge = hugeCases > 0 && r.chance(hugeCases), rows = huge && r.chance(.5); // more than 65536 elements, in rows of more than 32767
    bool round = N == 1 && r.chance(hugeCases * 50);
    bool empty = P.form != "none" && P.form != "lhs" && r.chance(.05);
    std::string what = "domain";
    int nempty = 0;
    for (int a : P.order) {
        int e = r.chance(.2) ? 1 : r.i(1, N == 1 ? 30 : N == 2 ? 9 : 6);
        if (longRow && a == P.order.back()) e = r.i(40, 300);
        if (huge) e = N == 1 ? r.i(66000, 100000) : !rows ? N == 2 ? r.i(200, 320) : r.i(35, 48) : a != P.order.back() ? r.i(1, 3) : r.i(33000, 70000);
        if (round) e = std::max(1, (r.i(1, 4) << r.i(5, 13)) + r.i(-1, 1)); // about a power of two
        c.dlo[a] = r.chance(.75) ? r.i(-9, 9) : r.i(-90000, 90000);
        c.ds[a] = strided && P.strided[a] ? r.i(1, 4) : 1;
        if (!P.key.empty()) c.ds[a] = r.i(2, 4), e = r.i(3, 12);
        c.dhi[a] = c.dlo[a] + e - 1;
        if (empty && (r.chance(.5) || nempty == 0)) c.dhi[a] = c.dlo[a] - r.i(1, 4), ++nempty;
        what += " " + std::to_string(a) + "[" + std::to_string(c.dlo[a]) + ":" + std::to_string(c.dhi[a]) + ":" + std::to_string(c.ds[a]) + "]";
    }
    static int lo[10][4], hi[10][4];
    memset(lo, 0, sizeof lo), memset(hi, 0, sizeof hi);
    for (auto& s : P.s) margins(P, s.e, c, off, lo, hi);
    bool tight = r.chance(.4);
    if (!P.key.empty())
        for (size_t v = 0; v < P.v.size(); ++v)
            for (int a : P.order) lo[v][a] -= 4, hi[v][a] += 4;
    init.resize(P.v.size());
    for (size_t v = 0; v < P.v.size(); ++v) {
        const View& V = P.v[v];
        long n = 1;
        for (int d = 0; d < V.nax; ++d) {
            int a = V.ax[d];
            if (a == 3) {
                c.vlo[v][3] = r.i(-1, 1), c.vhi[v][3] = c.vlo[v][3] + V.nw - 1;
            } else {
                bool whole = (P.form == "none" || P.form == "lhs") && int(v) == P.s[0].a;
                int el = c.dlo[a], eh = std::max(c.dhi[a], c.dlo[a] - 1);
                c.vlo[v][a] = el + lo[v][a] - (whole || tight ? 0 : r.i(0, 3));
                c.vhi[v][a] = std::max(c.vlo[v][a], eh + hi[v][a]) + (whole || tight ? 0 : r.i(0, 3));
            }
            n *= c.vhi[v][a] - c.vlo[v][a] + 1;
        }
        init[v].resize(n);
        Mode m = V.denom ? POS : r.pick({UNI, INTS, NEGMIX, MAG});
        for (auto& x : init[v]) {
            if (V.t == 'i') {
                x = r.i(1, 9) * (!(V.denom && P.v[P.s[0].k == '1' || P.s[0].k == '2' ? P.m : P.s[0].a].t != 'i') && r.chance(.5) ? -1 : 1);
            } else
                x = V.t == 'f' ? double(value<float>(r, m)) : value<double>(r, m);
        }
        bool ints = false;
        for (auto& w : P.v) ints = ints || w.t == 'i';
        if (!ints && !vf_sched_begin && r.chance(.01)) // not-a-number and infinity have to stay visible where they are read
            for (int z = r.i(1, 3); z > 0; --z) {
                const double inf = std::numeric_limits<double>::infinity();
                init[v][r.i(0, int(n) - 1)] = r.chance(.6) ? std::numeric_limits<double>::quiet_NaN() : r.chance(.5) ? inf : -inf;
                ++R.counters["elements not finite"];
            }
        mem.emplace_back(new char[n * (V.t == 'd' ? 8 : 4)]);
        c.p[v] = mem.back().get();
        q.cur.emplace_back(n), q.err.emplace_back(n, 0.L), q.read.emplace_back(n, 0), q.wr.emplace_back(n, 0);
        for (long k = 0; k < n; ++k) q.cur[v][k] = TN(init[v][k]);
    }
    key = P.form + "/" + (P.flt ? "float" : P.v[0].t == 'i' ? "int" : "double") + "/" + std::to_string(N) + "d";
    full = P.code + "  " + what + " case " + std::to_string(no);
    if (!P.key.empty()) key = P.key;
    setCurrent(key, full);
    try {
        q.model();
    } catch (Skip&) {
        ++R.counters["cases skipped (ill-conditioned)"];
        return false;
    }
    // everything the program may not read is poisoned
    poison = poisoned && r.chance(.5);
    for (size_t v = 0; v < P.v.size(); ++v)
        for (long k = 0; k < long(init[v].size()); ++k) {
            if (poison && !q.read[v][k] && P.v[v].t != 'i') init[v][k] = std::numeric_limits<double>::quiet_NaN();
            any = any || q.wr[v][k];
            switch (P.v[v].t) {
            case 'd': ((double*)c.p[v])[k] = init[v][k]; break;
            case 'f': ((float*)c.p[v])[k] = float(init[v][k]); break;
            default: ((int*)c.p[v])[k] = int(init[v][k]);
            }
        }
    for (size_t v = 0; v < P.v.size(); ++v) {
        long b = long(init[v].size()) * (P.v[v].t == 'd' ? 8 : 4);
        before.emplace_back((char*)c.p[v], (char*)c.p[v] + b);
    }
    R.evaluated(key, full, any);
    return true;
}
static void trial(const Program& P, Rng& r, long no, bool poisoned)
{
    Trial t(P);
    if (!t.prepare(r, no, poisoned)) return;
    Ctx& c = t.q.c;
    if (vf_sched_begin) vf_sched_begin(r.s, 0, 3);
    std::vector<std::vector<unsigned char>> mark(P.v.size());
    for (size_t v = 0; v < P.v.size() && vf_sched_watch && storesToo; ++v) {
        mark[v].assign(t.before[v].size() + 1, 0);
        vf_sched_watch(c.p[v], t.before[v].size(), mark[v].data());
    }
    alarm(30);
    P.run(c);
    alarm(0);
    if (vf_sched_watch && storesToo) {
        vf_sched_watch(nullptr, 0, nullptr);
        for (size_t v = 0; v < P.v.size(); ++v)
            for (size_t b = 0; b + 1 < mark[v].size(); ++b) {
                size_t e = b / (P.v[v].t == 'd' ? 8 : 4);
                R.counters["bytes stored to"] += mark[v][b], ++R.compared;
                if (mark[v][b] && !t.q.wr[v][e]) {
                    R.violation(t.key, t.full + ": stores to " + t.place(v, e) + ", which it does not assign; a concurrent statement that does would lose its result");
                    return;
                }
            }
        return;
    }
    VfRace race;
    if (vf_sched_race && vf_sched_race(&race)) {
        std::string place = "memory outside the views";
        for (size_t v = 0; v < P.v.size(); ++v)
            if (race.addr >= (char*)c.p[v] && race.addr < (char*)c.p[v] + t.before[v].size())
                place = "v" + std::to_string(v) + " element " + std::to_string((race.addr - (char*)c.p[v]) / (P.v[v].t == 'd' ? 8 : 4));
        R.violation(t.key, t.full + ": two parallel iterations access " + place + " (" + (race.w1 ? "write" : "read") + " by logical thread " + std::to_string(race.t1) + ", " +
                             (race.w2 ? "write" : "read") + " by " + std::to_string(race.t2) + " of " + std::to_string(race.threads) + ")");
        return;
    }
    if (!memoryOnly) t.judge();
}
void Trial::judge()
{
    Ctx& c = q.c;
    for (size_t v = 0; v < P.v.size(); ++v) {
        int sz = P.v[v].t == 'd' ? 8 : 4;
        for (long k = 0; k < long(init[v].size()); ++k) {
            ++R.compared;
            if (!q.wr[v][k]) {
                if (memcmp((char*)c.p[v] + k * sz, before[v].data() + k * sz, sz)) {
                    R.violation(key, full + ": " + place(v, k) + " is not assigned but changed to " + std::to_string(raw(v, k)));
                    return;
                }
                continue;
            }
            double g = raw(v, k);
            long double w = q.cur[v][k].v, t = P.v[v].t == 'i' ? 0.L : 2 * q.err[v][k] + (P.v[v].t == 'f' ? 0x1p-140L : 0x1p-1060L);
            if (!std::isfinite(w) ? std::isfinite(g) : std::isfinite(t) && !(std::fabs((long double)g - w) <= t)) {
                char b[160];
                snprintf(b, sizeof b, " is %.17g, has to be %.17Lg%s", g, w, poison ? " (everything that may not be read is NaN)" : "");
                R.violation(key, full + ": " + place(v, k) + b);
                return;
            }
        }
    }
}

// C12: the same statement after any other statements, and while others are carried out
static void history(const std::vector<Program>& P, Rng& r, long batches)
{
    for (long n = 0; n < batches; ++n) {
        std::vector<std::unique_ptr<Trial>> T;
        while (T.size() < 24) {
            auto t = std::make_unique<Trial>(P[r.i(0, int(P.size()) - 1)]);
            if (t->prepare(r, n, true)) T.push_back(std::move(t));
        }
        auto run = [](Trial& t) { t.P.run(t.q.c); };
        auto same = [&](Trial& t, const char* how) {
            ++R.compared;
            auto b = t.bytes();
            for (size_t v = 0; v < b.size(); ++v) {
                int sz = t.P.v[v].t == 'd' ? 8 : 4;
                for (size_t k = 0; k < b[v].size() / sz; ++k)
                    if (memcmp(&b[v][k * sz], &t.result[v][k * sz], sz)) {
                        R.violation(t.key, t.full + ": " + t.place(v, k) + " becomes " + std::to_string(t.raw(v, k)) + " " + how + ", another value than the first time");
                        return;
                    }
            }
        };
        for (auto& t : T) {
            setCurrent(t->key, t->full);
            alarm(60);
            run(*t);
            t->result = t->bytes();
        }
        std::vector<int> o(T.size());
        for (size_t k = 0; k < o.size(); ++k) o[k] = int(k);
        for (size_t k = o.size() - 1; k > 0; --k) std::swap(o[k], o[r.i(0, int(k))]);
        for (int k : o) {
            setCurrent(T[k]->key, T[k]->full);
            T[k]->restore();
            run(*T[k]);
            same(*T[k], "after other statements");
        }
        for (auto& t : T) t->restore();
        setCurrent("concurrent", T[0]->full);
        std::atomic<int> at{0};
        std::vector<std::thread> th;
        for (int h = 0; h < 4; ++h)
            th.emplace_back([&] {
                for (int k; (k = at++) < int(T.size());) run(*T[o[k]]);
            });
        for (auto& t : th) t.join();
        alarm(0);
        for (auto& t : T) same(*t, "while other host threads carry out other statements");
        R.counters["concurrent statements"] += long(T.size());
    }
}

int main(int argc, char** argv)
{
    Opt o(argc, argv);
    installHandlers();
    if (vf_sched_begin && !vf_sched_selftest()) {
        fprintf(stderr, "the race detector fails its controls\n");
        finished() = true;
        return 9;
    }
    std::vector<Program> P;
    for (int p = 0; p < NPARTS; ++p)
        for (const Prog* x = PARTS[p]; x->text; ++x) {
            P.push_back(parseProgram(*x));
            for (auto& s : P.back().s) denominators(P.back(), s.e, false);
        }
    long cases = o.n("cases", 100), only = o.n("program", -1), seed = o.n("seed", 1);
    storesToo = o.n("stores", 0);
    memoryOnly = o.n("memory", 0);
    hugeCases = o.n("huge", 0) * 1e-6;
    if (o.n("history", 0)) {
        Rng r(mix(seed, 77));
        try {
            history(P, r, cases);
        } catch (std::logic_error& e) {
            fprintf(stderr, "%s\n", e.what());
            finished() = true;
            return 9;
        }
    } else
    for (size_t k = 0; k < P.size(); ++k) {
        if (only >= 0 && only != long(k)) continue;
        for (long n = 0; n < cases; ++n) {
            uint64_t s = mix(mix(seed, k), n);
            Rng r(s);
            try {
                trial(P[k], r, n, 1);
            } catch (std::logic_error& e) {
                fprintf(stderr, "%s\nprogram %s\n", e.what(), P[k].code.c_str());
                finished() = true;
                return 9;
            }
        }
    }
    R.counters["programs"] = long(P.size());
    if (vf_sched_stats) {
        VfStats s;
        vf_sched_stats(&s);
        auto& C = R.counters;
        C["parallel regions"] = s.regions, C["logical threads that touched data"] = s.threads, C["loads and stores observed"] = s.accesses, C["accesses compared with other threads'"] = s.conflictsChecked;
        C["distinct schedules of a region"] = s.schedules;
    }
    R.json(o.s("json"));
    return R.violations ? 1 : 0;
}
