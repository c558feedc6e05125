// C08: laws that relate independent kernels, on the real kernels composed the way a solver
// composes them.
//   operator   ghost fill + flux + apply   =   assembled and boundary-adjusted matrix * vector (+ coarse-fine terms)
//   residual   residual kernel             =   f - apply kernel
//   rows       row sum                     =   reaction term (before boundary adjustment)
//   symmetry   entry of a pair of cells is the same in both rows
//   flux       a face has one flux, whichever box computes it; fluxes cancel in the sum over the box
//   variants   Poisson kernels = diffusion kernels with unit coefficients, v2 = v1 with a constant reaction field
#include "report.hpp"
#define FAM_ALL
#include "fam_bc.hpp"
#include "fam_flux_apply.hpp"
#include "fam_stencil.hpp"
using namespace vf;

static Report R;
static int FORT = 0; // 0 device kernels, 1 reference kernels, 2 a mixture

template <int D, class T>
struct Problem {
    Rng& r;
    Box b;
    int variant; // 0 v1, 1 v2, 2 poisson
    std::vector<Arr<T>> a;
    std::vector<std::vector<int>> q;
    int DX, B, A, U, F, X, S, RES, RHS;
    T alpha, beta;
    int agcw, ugcw, fgcw, rgcw, sgcw, impl;
    std::string text;
    double big = 0; // largest |u| that can take part in a row

    explicit Problem(Rng& r) : r(r) {}
    int arr(Arr<T> x, Mode m)
    {
        fill(x, r, m);
        a.push_back(std::move(x));
        return int(a.size()) - 1;
    }
    int faces(const char* n, const Box& bx, Mode m, int g = 0)
    {
        int k = int(a.size());
        for (int d = 0; d < D; ++d) arr(faceArr<T>((n + std::to_string(d)).c_str(), bx, d, g), m);
        return k;
    }
    T& at(int k, const int* c, int w = 0) { return a[k].init[a[k].idx(c, w)]; }

    // both implementations take the same argument list
    template <class F>
    void call(F th, fort_t ft, Args args)
    {
        bool fort = sizeof(T) == 8 && ft && (impl == 1 || (impl == 2 && r.chance(.5)));
        std::vector<T*> p;
        std::vector<const int*> qq;
        for (auto& x : a) p.push_back(x.init.data());
        for (auto& x : q) qq.push_back(x.data());
        alarm(60);
        if (fort)
            bindFort<T>(ft, args)(p.data(), qq.data());
        else
            bindCpp<T>(th, args)(p.data(), qq.data());
        alarm(0);
        ++R.counters[fort ? "reference kernel calls" : "device kernel calls"];
    }
#define K_(cls, fn, fort, args) call(TH(cls, fn), FT(fort), args)

    // ------------------------------------------------------------------ the kernels
    void flux(int u, int x, int gcw)
    {
        if (variant == 2)
            K_(cdf, poisson_flux, cellpoissonflux, cat(loHi<D>(b), V(AR{DX}, gcw, AR{u}), ars<D>(x)));
        else
            K_(cdf, flux, celldiffusionflux, cat(loHi<D>(b), V(AR{DX}), ars<D>(B), V(gcw, AR{u}), ars<D>(x)));
    }
    void apply(int v, int res)
    {
        auto bx = pairs<D>(b);
        if (v == 0)
            K_(cd_apply, diffusion_v1_apply, celldiffusionv1apply, cat(bx, V(alpha, beta, AR{DX}, agcw, AR{A}, ugcw, AR{U}), ars<D>(X), V(rgcw, AR{res})));
        else if (v == 1)
            K_(cd_apply, diffusion_v2_apply, celldiffusionv2apply, cat(bx, V(alpha, beta, AR{DX}, ugcw, AR{U}), ars<D>(X), V(rgcw, AR{res})));
        else
            K_(cd_apply, poisson_v2_apply, cellpoissonv2apply, cat(bx, V(beta, AR{DX}), ars<D>(X), V(rgcw, AR{res})));
    }
    void residual(int v, int res)
    {
        auto bx = pairs<D>(b);
        if (v == 0)
            K_(cd_apply, diffusion_v1_res, celldiffusionv1res, cat(bx, V(alpha, beta, AR{DX}, agcw, AR{A}, ugcw, AR{U}, fgcw, AR{F}), ars<D>(X), V(rgcw, AR{res})));
        else if (v == 1)
            K_(cd_apply, diffusion_v2_res, celldiffusionv2res, cat(bx, V(alpha, beta, AR{DX}, ugcw, AR{U}, fgcw, AR{F}), ars<D>(X), V(rgcw, AR{res})));
        else
            K_(cd_apply, poisson_v1_res, cellpoissonv1res, cat(bx, V(beta, AR{DX}, fgcw, AR{F}), ars<D>(X), V(rgcw, AR{res})));
    }
    void offdiag(int v, int st)
    {
        if (v == 2)
            K_(cd_stencil, poisson_offdiag, cellpoissonoffdiag, cat(loHi<D>(b), V(AR{DX}, beta, sgcw, AR{st})));
        else
            K_(cd_stencil, offdiag, celldiffusionoffdiag, cat(loHi<D>(b), loHi<D>(b), V(AR{DX}, beta), ars<D>(B), V(sgcw, AR{st})));
    }
    void diag(int v, int st)
    {
        if (v == 0)
            K_(cd_stencil, v1diag, celldiffusionv1diag, cat(loHi<D>(b), loHi<D>(a0()), V(alpha, AR{A}, sgcw, AR{st})));
        else if (v == 1)
            K_(cd_stencil, v2diag, celldiffusionv2diag, cat(loHi<D>(b), V(alpha, sgcw, AR{st})));
        else
            K_(cd_stencil, poisson_diag, cellpoissondiag, cat(loHi<D>(b), V(sgcw, AR{st})));
    }
    Box a0() const { return b.grow(agcw); } // the box of the reaction coefficient
    struct Face {
        int dir, side, btype, order, ratio;
        bool cf;
        Box box; // ghost cells
    };
    void adjOff(const Face& f, int st)
    {
        auto h = cat(loHi<D>(b), loHi<D>(f.box), dirArg<D>(f.dir), V(f.side, f.btype, f.order, AR{DX}, T(2), T(0), beta));
        if (variant == 2)
            K_(cd_stencil, adj_poisson_offdiag, adjcellpoissonoffdiag, cat(h, V(sgcw, AR{st})));
        else
            K_(cd_stencil, adj_offdiag, adjcelldiffusionoffdiag, cat(h, ars<D>(B), V(sgcw, AR{st})));
    }
    void adjDiag(const Face& f, int st)
    {
        auto h = cat(loHi<D>(b), loHi<D>(f.box), dirArg<D>(f.dir), V(f.side, f.btype, f.order, AR{DX}, beta));
        if (variant == 2)
            K_(cd_stencil, adj_poisson_diag, adjcellpoissondiag, cat(h, V(sgcw, AR{st})));
        else
            K_(cd_stencil, adj_diag, adjcelldiffusiondiag, cat(h, ars<D>(B), V(sgcw, AR{st})));
    }
    void cfDiag(const Face& f, int st)
    {
        auto h = cat(loHi<D>(b), loHi<D>(f.box), V(f.ratio), dirArg<D>(f.dir), V(f.side, f.order, AR{DX}, beta));
        if (variant == 2)
            K_(cd_stencil, adj_poisson_cf_diag, adjcellpoissoncfdiag, cat(h, V(sgcw, AR{st})));
        else
            K_(cd_stencil, adj_cf_diag, adjcelldiffusioncfdiag, cat(h, ars<D>(B), V(sgcw, AR{st})));
    }
    void cfOff(const Face& f, int st)
    {
        K_(cd_stencil, adj_cf_offdiag, adjcelldiffusioncfoffdiag, cat(loHi<D>(b), loHi<D>(f.box), V(f.ratio), dirArg<D>(f.dir), V(f.side, f.order, sgcw, AR{st})));
    }
    void readj(const Face& f, int st)
    {
        K_(cd_stencil, readj_offdiag, readjcelldiffusionoffdiag, cat(loHi<D>(b), loHi<D>(f.box), dirArg<D>(f.dir), V(f.side, sgcw, AR{st})));
    }
    void cfRhs(const Face& f, int st, int u, int rhs)
    {
        K_(cd_stencil, adj_cf_bdryrhs, adjcelldiffusioncfbdryrhs,
           cat(loHi<D>(b), loHi<D>(f.box), dirArg<D>(f.dir), V(f.side, sgcw, AR{st}, ugcw, AR{u}, AR{rhs})));
    }
    T robin = 1; // the matrix is for alpha : beta = 2 : 1, whatever their common factor
    void fillBC(const Face& f, int u, bool asPoisson, int dg, int DD)
    {
        q.clear();
        q.push_back(std::vector<int>(f.box.lo, f.box.lo + D));
        q.push_back(std::vector<int>(f.box.hi, f.box.hi + D));
        Args ty = D == 1 ? Args{} : Args{1};
        auto tail = cat(V(ugcw, AR{u}, IR{0}, IR{1}, f.order, 2 * f.dir + f.side), ty, V(f.btype, 2 * robin, robin));
        if (asPoisson)
            K_(cd_correct_bc, set_poisson_bc, cellsetpoissoncorrectionbc, cat(pairs<D>(b), V(AR{DX}), tail));
        else
            K_(cd_correct_bc, set_bc, cellsetcorrectionbc, cat(pairs<D>(b), V(AR{DX}, dg), ars<D>(DD), tail));
    }

    // ------------------------------------------------------------------ set-up
    void setup(const char* law)
    {
        bool big = r.chance(.004); // above the sizes at which an implementation may change its ways
        G().huge = big ? 1 : 0;
        b = randBox(r, D);
        G().huge = 0;
        bool longOne = big || r.chance(.7);
        for (int d = 0; d < D && !longOne; ++d) // products of several kernels: keep it small
            if (b.ext(d) > (D == 1 ? 80 : D == 2 ? 24 : 12)) b.hi[d] = b.lo[d] + (D == 1 ? 79 : D == 2 ? 23 : 11);
        variant = r.i(0, 2);
        impl = FORT && sizeof(T) == 8 ? (r.chance(.5) ? 0 : r.chance(.5) ? 1 : 2) : 0;
        alpha = coef<T>(r), beta = coef<T>(r);
        agcw = r.chance(.5) ? 0 : r.i(0, 2), ugcw = r.i(1, 3), fgcw = r.i(0, 2), rgcw = r.i(0, 2), sgcw = r.i(0, 2);
        DX = arr(flatArr<T>("dx", D), POS);
        for (auto& x : a[DX].init) x = spacing<T>(r);
        B = faces("b", b, POS);
        if (variant == 2)
            for (int d = 0; d < D; ++d)
                for (auto& x : a[B + d].init) x = T(1);
        Mode m = r.pick({UNI, INTS, NEGMIX, UNI});
        A = arr(cellArr<T>("a", b, agcw), r.pick({UNI, INTS, NEGMIX}));
        U = arr(cellArr<T>("u", b, ugcw), m);
        F = arr(cellArr<T>("f", b, fgcw), m);
        X = faces("flux", b, UNI);
        S = arr(stArr<T>("st", b, sgcw), UNI);
        RES = arr(cellArr<T>("res", b, rgcw), UNI);
        RHS = arr(cellArr<T>("rhs", b, 0), UNI);
        static const char* vn[] = {"v1", "v2", "poisson"};
        static const char* in[] = {"device", "reference", "mixed"};
        std::ostringstream o;
        o << law << " " << D << "d<" << (sizeof(T) == 4 ? "float" : "double") << "> " << vn[variant] << " " << in[impl] << " " << b.str()
          << " alpha=" << alpha << " beta=" << beta << " gcw a" << agcw << " u" << ugcw << " f" << fgcw << " r" << rgcw << " s" << sgcw;
        text = o.str();
        key = std::string(law) + "/" + std::to_string(D) + "d/" + vn[variant] + "/" + in[impl];
        setCurrent(key, text);
    }
    std::string key;
    void note(const std::string& s)
    {
        text += " " + s;
        setCurrent(key, text);
    }
    static std::string where(const int* c)
    {
        std::string s = "(";
        for (int d = 0; d < D; ++d) s += (d ? "," : "") + std::to_string(c[d]);
        return s + ")";
    }
    bool eq(long double x, long double y, long double mag, double K, const char* what, const int* c)
    {
        ++R.compared;
        long double t = K * (long double)std::numeric_limits<T>::epsilon() * mag + 1e3L * std::numeric_limits<T>::denorm_min();
        if (std::fabs(x - y) <= t) return true;
        char v[160];
        snprintf(v, sizeof v, "%.17Lg vs %.17Lg (allowed difference %.3Lg)", x, y, t);
        R.violation(key, text + ": " + what + " at " + where(c) + ": " + v);
        return false;
    }
    long double st0mag(const int* c) // size of the unadjusted row
    {
        long double m = 0;
        for (int d = 0; d < D; ++d) {
            int c1[3] = {c[0], c[1], c[2]};
            ++c1[d];
            long double h = a[DX].init[d];
            m += 2 * std::fabs((long double)beta) / (h * h) * (std::fabs((long double)at(B + d, c)) + std::fabs((long double)at(B + d, c1)));
        }
        return m + rea(c);
    }
    long double rea(const int* c) { return variant == 2 ? 0 : std::fabs((long double)alpha * (variant == 0 ? (long double)at(A, c) : 1.L)); }
    void done(bool nontrivial = true) { R.evaluated(key, text, nontrivial); }

    // ------------------------------------------------------------------ laws
    // matrix * u with the given ghosts = apply(flux(u)); rows; symmetry; residual
    void lawInterior()
    {
        setup("operator/interior");
        flux(U, X, ugcw);
        apply(variant, RES);
        offdiag(variant, S);
        diag(variant, S);
        int res2 = arr(cellArr<T>("res2", b, rgcw), UNI);
        residual(variant, res2);
        bool ok = true;
        forBox(b, [&](const int* x) {
            if (!ok) return;
            At c(x);
            long double s = (long double)at(S, c, 0) * at(U, c), sum = at(S, c, 0), big = std::fabs((long double)at(U, c));
            for (int d = 0; d < D; ++d)
                for (int e = 0; e < 2; ++e) {
                    At n = c.s(d, e ? 1 : -1);
                    long double w = at(S, c, 2 * d + 1 + e);
                    s += w * at(U, n), sum += w;
                    big = std::max(big, std::fabs((long double)at(U, n)));
                    if (e && n.c[d] <= b.hi[d]) ok = ok && eq(w, at(S, n, 2 * d + 1), std::fabs(w), 2, "matrix not symmetric", c);
                }
            long double m = st0mag(c);
            ok = ok && eq(s, at(RES, c), m * big, 24, "matrix*u vs operator(u)", c);
            long double re = variant == 2 ? 0 : (long double)alpha * (variant == 0 ? (long double)at(A, c) : 1.L);
            ok = ok && eq(sum, re, m, 24, "row sum vs reaction term", c);
            ok = ok && eq(at(res2, c), (long double)at(F, c) - at(RES, c), m * big + std::fabs((long double)at(F, c)), 24, "residual vs f - operator(u)", c);
        });
        done();
    }
    // boundary conditions of every kind, on every side, possibly two kinds on one side
    void lawBoundary()
    {
        setup("operator/boundary");
        std::vector<Face> fs;
        std::ostringstream o;
        for (int d = 0; d < D; ++d)
            for (int side = 0; side < 2; ++side) {
                Box g = b;
                g.lo[d] = g.hi[d] = side ? b.hi[d] + 1 : b.lo[d] - 1;
                std::vector<Box> parts{g};
                if (D > 1 && r.chance(.35)) { // two kinds on one side
                    int t = (d + r.i(1, D - 1)) % D;
                    if (g.ext(t) > 1) {
                        Box g2 = g;
                        int cut = r.i(g.lo[t], g.hi[t] - 1);
                        parts[0].hi[t] = cut, g2.lo[t] = cut + 1;
                        parts.push_back(g2);
                    }
                }
                for (auto& p : parts) {
                    Face f;
                    f.dir = d, f.side = side, f.box = p;
                    f.cf = r.chance(.35);
                    f.order = b.ext(d) > 1 ? r.i(1, 2) : 1;
                    f.ratio = r.pick({2, 4, 3, 8, 2, 16});
                    f.btype = r.pick({0, 1, 4});
                    if (D == 2 && d == 1 && f.btype == 4) f.btype = 0; // the 2d adjustment handles Robin in direction 0 only
                    if (f.btype == 1 && !f.cf) f.order = r.i(1, 2);
                    o << " " << (f.cf ? "cf" : f.btype == 0 ? "dir" : f.btype == 1 ? "neu" : "rob") << f.order << (f.cf ? "r" + std::to_string(f.ratio) : "") << "@" << d << (side ? "+" : "-") << (parts.size() > 1 ? "*" : "");
                    fs.push_back(f);
                }
            }
        note(o.str());
        // matrix: off-diagonals, physical boundaries, diagonal, the rest
        offdiag(variant, S);
        for (auto& f : fs)
            if (!f.cf) adjOff(f, S);
        diag(variant, S);
        // second-order Dirichlet: the diagonal is right before the diagonal adjustment (see the known finding)
        bool all = r.chance(.15);
        if (all) note("adj_diag for every condition");
        for (auto& f : fs)
            if (!f.cf && (all || f.btype == 4)) adjDiag(f, S);
        for (auto& f : fs)
            if (f.cf) cfDiag(f, S), cfOff(f, S);
        // right-hand side: minus the coarse values' share; u's ghosts hold the coarse values
        std::vector<T> coarse = a[U].init;
        for (auto& x : a[RHS].init) x = 0;
        for (auto& f : fs)
            if (f.cf) cfRhs(f, S, U, RHS);
        for (auto& f : fs) readj(f, S);
        // the other way: ghosts, fluxes, operator
        int dg = r.i(0, 1);
        int DD = faces("d", b, POS, dg);
        for (int d = 0; d < D; ++d) {
            Box fb = b;
            fb.hi[d]++;
            forBox(fb, [&](const int* x) { at(DD + d, x) = at(B + d, x); });
        }
        bool pbc = variant == 2 && r.chance(.5);
        robin = r.pick({T(1), T(.5), T(3), T(-2), T(40)});
        for (auto& f : fs)
            if (!f.cf) {
                bool p = variant == 2 && (pbc || D == 1) && !(D == 2 && f.dir == 1 && f.btype == 4);
                fillBC(f, U, p, dg, DD);
            }
        for (auto& f : fs)
            if (f.cf) // interpolation between the coarse value and the cells inside
                forBox(f.box, [&](const int* x) {
                    At g(x), c = g.s(f.dir, f.side ? -1 : 1), c2 = g.s(f.dir, f.side ? -2 : 2);
                    long double C = coarse[a[U].idx(g)], u1 = at(U, c), u2 = f.order == 2 ? (long double)at(U, c2) : 0.L, rr = f.ratio;
                    at(U, g) = f.order == 1 ? T(2 * C / 3 + u1 / 3)
                                            : T(8 * C / ((rr + 1) * (rr + 3)) + 2 * (rr - 1) / (rr + 1) * u1 - (rr - 1) / (rr + 3) * u2);
                });
        flux(U, X, ugcw);
        apply(variant, RES);
        bool ok = true;
        forBox(b, [&](const int* x) {
            if (!ok) return;
            At c(x);
            long double s = (long double)at(S, c, 0) * at(U, c), big = std::fabs((long double)at(U, c));
            for (int d = 0; d < D; ++d)
                for (int e = 0; e < 2; ++e) {
                    At n = c.s(d, e ? 1 : -1);
                    s += (long double)at(S, c, 2 * d + 1 + e) * at(U, n);
                    big = std::max({big, std::fabs((long double)at(U, n)), std::fabs((long double)coarse[a[U].idx(n)])});
                }
            if (all && ok) {
                long double twice = 0, t = 64 * (long double)std::numeric_limits<T>::epsilon() * st0mag(c) * 3 * big;
                for (auto& f : fs)
                    if (!f.cf && f.btype == 0 && f.order == 2 && f.box.has(c.s(f.dir, f.side ? 1 : -1))) {
                        long double h = a[DX].init[f.dir];
                        twice += (long double)beta * at(B + f.dir, c.s(f.dir, f.side)) / (3 * h * h) * at(U, c);
                    }
                if (std::fabs(s - at(RHS, c) - at(RES, c)) > t && std::fabs(s - twice - at(RHS, c) - at(RES, c)) <= t) {
                    R.violation("dirichlet-order2-diagonal", text + ": the row at " + where(c) + " has the ghost's second cell twice on the diagonal");
                    ++R.counters["rows with the Dirichlet diagonal correction too many"];
                    return;
                }
            }
            ok = ok && eq(s - at(RHS, c), at(RES, c), st0mag(c) * 3 * big, 64, "adjusted matrix*u - boundary right-hand side vs operator(u with its ghosts filled)", c);
        });
        // conditions that keep the matrix symmetric
        bool sym = true;
        for (auto& f : fs) sym = sym && f.order == 1;
        if (sym)
            forBox(b, [&](const int* x) {
                At c(x);
                for (int d = 0; d < D && ok; ++d) {
                    At n = c.s(d, 1);
                    if (n.c[d] <= b.hi[d])
                        ok = ok && eq(at(S, c, 2 * d + 2), at(S, n, 2 * d + 1), std::fabs((long double)at(S, n, 2 * d + 1)), 2, "adjusted matrix not symmetric", c);
                }
            });
        done();
    }
    // one face, one flux; summed over the box the interior faces cancel
    void lawFlux()
    {
        setup("flux");
        flux(U, X, ugcw);
        T al = alpha;
        alpha = 0;
        apply(variant, RES);
        alpha = al;
        bool ok = true;
        // conservation
        long double sum = 0, faces = 0, mag = 0;
        forBox(b, [&](const int* x) {
            sum += at(RES, x);
            for (int d = 0; d < D; ++d) {
                At c(x);
                long double f0 = at(X + d, c), f1 = at(X + d, c.s(d, 1)), h = a[DX].init[d];
                if (x[d] == b.lo[d]) faces -= beta * f0 / h;
                if (x[d] == b.hi[d]) faces += beta * f1 / h;
                mag += std::fabs(beta * f0 / h) + std::fabs(beta * f1 / h);
            }
        });
        ok = ok && eq(sum, -faces, mag, 16, "sum of the operator over the box vs fluxes through its surface", b.lo);
        // the same faces from the two halves
        int cd = r.i(0, D - 1);
        if (b.ext(cd) > 1) {
            Problem P(r);
            int cut = r.i(b.lo[cd], b.hi[cd] - 1);
            for (int half = 0; half < 2 && ok; ++half) {
                P.a.clear();
                P.b = b, P.variant = variant, P.impl = impl;
                (half ? P.b.lo[cd] : P.b.hi[cd]) = cut + half;
                P.ugcw = r.i(1, ugcw);
                P.DX = 0, P.a.push_back(a[DX]);
                P.B = P.faces("b", P.b, UNI);
                P.U = P.arr(cellArr<T>("u", P.b, P.ugcw), UNI);
                P.X = P.faces("flux", P.b, UNI);
                forBox(P.b.grow(P.ugcw), [&](const int* x) { P.at(P.U, x) = at(U, x); });
                for (int d = 0; d < D; ++d) {
                    Box fb = P.b;
                    fb.hi[d]++;
                    forBox(fb, [&](const int* x) { P.at(P.B + d, x) = at(B + d, x); });
                }
                P.flux(P.U, P.X, P.ugcw);
                for (int d = 0; d < D; ++d) {
                    Box fb = P.b;
                    fb.hi[d]++;
                    forBox(fb, [&](const int* x) {
                        long double v = at(X + d, x), m = std::fabs((long double)at(B + d, x)) * (std::fabs((long double)at(U, x)) + std::fabs((long double)at(U, At(x).s(d, -1)))) / a[DX].init[d];
                        ok = ok && eq(P.at(P.X + d, x), v, m, 8, "flux of a face computed by two boxes", x);
                    });
                }
            }
        }
        done(b.ext(cd) > 1);
    }
    // unit coefficients: every variant of a kernel is the same kernel
    void lawVariants()
    {
        setup("variants");
        variant = 2;
        for (int d = 0; d < D; ++d)
            for (auto& x : a[B + d].init) x = T(1);
        for (auto& x : a[A].init) x = T(1);
        int u0 = U, x0 = X, st2 = arr(stArr<T>("st2", b, sgcw), UNI), u2 = arr(cellArr<T>("u2", b, ugcw), UNI), x2 = faces("flux2", b, UNI), r2 = arr(cellArr<T>("res2", b, rgcw), UNI);
        a[u2].init = a[U].init, a[st2].init = a[S].init, a[r2].init = a[RES].init;
        for (int d = 0; d < D; ++d) a[x2 + d].init = a[X + d].init;
        std::vector<Face> fs;
        for (int n = r.i(1, 2 * D); n > 0; --n) {
            Face f;
            f.dir = r.i(0, D - 1), f.side = r.i(0, 1), f.box = b, f.cf = r.chance(.3), f.ratio = r.pick({2, 4, 3});
            f.order = b.ext(f.dir) > 1 ? r.i(1, 2) : 1, f.btype = r.pick({0, 1, 4});
            f.box.lo[f.dir] = f.box.hi[f.dir] = f.side ? b.hi[f.dir] + 1 : b.lo[f.dir] - 1;
            if (D == 2 && f.btype == 4) f.dir == 1 ? f.btype = 1 : 0;
            if (f.btype == 0) f.order = 1; // only the diffusion kernel corrects the diagonal for Dirichlet order 2 in 2d
            bool dup = false;
            for (auto& g : fs) dup = dup || (g.dir == f.dir && g.side == f.side);
            if (!dup) fs.push_back(f);
        }
        int DD = faces("d", b, POS);
        for (int d = 0; d < D; ++d)
            for (auto& x : a[DD + d].init) x = T(1);
        T al = alpha;
        bool v1 = r.chance(.5);
        for (int pass = 0; pass < 2; ++pass) {
            int st = pass ? st2 : S, u = pass ? u2 : u0, x = pass ? x2 : x0, rs = pass ? r2 : RES;
            variant = pass ? (v1 ? 0 : 1) : 2;
            alpha = 0;
            for (auto& f : fs)
                if (!f.cf) fillBC(f, u, !pass, 0, DD);
            flux(u, x, ugcw);
            int su = U, sx = X;
            U = u, X = x;
            apply(variant, rs);
            U = su, X = sx;
            offdiag(variant, st);
            for (auto& f : fs)
                if (!f.cf) adjOff(f, st);
            diag(variant, st);
            for (auto& f : fs)
                if (!f.cf) adjDiag(f, st);
            for (auto& f : fs)
                if (f.cf) cfDiag(f, st), cfOff(f, st);
        }
        alpha = al;
        bool ok = true;
        auto cmp = [&](int p, int q_, double scale, const char* what) {
            for (size_t k = 0; k < a[p].init.size() && ok; ++k) {
                ++R.compared;
                long double x = a[p].init[k], y = a[q_].init[k], t = 64 * (long double)std::numeric_limits<T>::epsilon() * std::max({std::fabs(x), std::fabs(y), (long double)scale});
                if (!(std::fabs(x - y) <= t)) {
                    char v[160];
                    snprintf(v, sizeof v, "%.17Lg vs %.17Lg", x, y);
                    R.violation(key, text + ": " + what + " " + a[p].where(long(k)) + ": Poisson and unit-coefficient diffusion kernels: " + v);
                    ok = false;
                }
            }
        };
        double ih = 0, ih1 = 0, um = 0;
        for (auto h : a[DX].init) ih = std::max(ih, 1.0 / (double(h) * h)), ih1 = std::max(ih1, 1.0 / h);
        for (auto v : a[u0].init) um = std::max(um, std::fabs(double(v)));
        cmp(u0, u2, 3 * um, "ghosts");
        for (int d = 0; d < D; ++d) cmp(x0 + d, x2 + d, ih1 * um, "flux");
        cmp(RES, r2, 4 * D * ih * um * std::fabs(beta), "operator");
        cmp(S, st2, 4 * D * ih * std::fabs(beta), "matrix");
        if (ok) { // a constant reaction coefficient, with and without its field
            variant = 1;
            for (auto& x : a[A].init) x = T(1);
            flux(U, X, ugcw);
            apply(0, RES), apply(1, r2);
            double m = 4 * D * ih * um * std::fabs(beta) + std::fabs(alpha) * um;
            cmp(RES, r2, m, "v1/v2 operator");
            residual(0, RES), residual(1, r2);
            cmp(RES, r2, m + 10, "v1/v2 residual");
            offdiag(1, S), offdiag(1, st2);
            diag(0, S), diag(1, st2);
            cmp(S, st2, 4 * D * ih * std::fabs(beta) + std::fabs(alpha), "v1/v2 matrix");
        }
        done();
    }
};

template <int D, class T>
static void one(int law, uint64_t s)
{
    Rng g(s);
    Problem<D, T> P(g);
    switch (law) {
    case 0: P.lawInterior(); break;
    case 1: P.lawBoundary(); break;
    case 2: P.lawFlux(); break;
    case 3: P.lawVariants(); break;
    }
}

int main(int argc, char** argv)
{
    Opt o(argc, argv);
    installHandlers();
    FORT = o.n("fort", 0);
    G().huge = .0008;
    long n = o.n("cases", 100), seed = o.n("seed", 1);
    for (long i = 0; i < n; ++i)
        for (int law = 0; law < 4; ++law)
            for (int t = 0; t < 2; ++t)
                for (int D = 1; D <= 3; ++D) {
                    uint64_t s = mix(mix(mix(seed, law * 10 + D), t), i);
                    try {
                        if (t) D == 1 ? one<1, float>(law, s) : D == 2 ? one<2, float>(law, s) : one<3, float>(law, s);
                        else D == 1 ? one<1, double>(law, s) : D == 2 ? one<2, double>(law, s) : one<3, double>(law, s);
                    } catch (std::logic_error& e) {
                        fprintf(stderr, "%s\n%s\n", e.what(), currentCase());
                        finished() = true;
                        return 9;
                    }
                }
    R.json(o.s("json"));
    return R.violations ? 1 : 0;
}
