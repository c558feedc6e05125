// Kernels that exist only in Fortran: stencil application, right-hand-side adjustment,
// smoothers, linear extrapolation.
#pragma once
#include "decl.hpp"
#include <algorithm>

FDECL(applystencilatpoint)
FDECL(applystencilonpatch)
FDECL(adjcellcrsfinebdryrhs)
extern "C" void celladjustsystemrhspatch1d_();
extern "C" void celladjustsystemrhspatch2d_();
FDECL(celljacobi)
FDECL(cellgs)
FDECL(cellrbgs)
extern "C" void cells5rbgs2d_();
extern "C" void cells9rbgs2d_();
extern "C" void cells7rbgs3d_();
extern "C" void ccellblkjacobi3d_();
extern "C" void cellblock1x1jacobi1d_();
extern "C" void cellblock1x1jacobi2d_();
extern "C" void cellblock2x2jacobi1d_();
extern "C" void cellblock2x2jacobi2d_();
extern "C" void cellblockjacobi3d_();
extern "C" void linearextrap_();

namespace vf
{
// distinct compact offsets, the diagonal first
template <int D>
std::vector<int> offsets(Rng& r, int n, int reach = 1)
{
    std::vector<std::vector<int>> all;
    int lo[3], hi[3];
    for (int d = 0; d < 3; ++d) lo[d] = d < D ? -reach : 0, hi[d] = d < D ? reach : 0;
    for (int k = lo[2]; k <= hi[2]; ++k)
        for (int j = lo[1]; j <= hi[1]; ++j)
            for (int i = lo[0]; i <= hi[0]; ++i)
                if (i || j || k) all.push_back({i, j, k});
    for (size_t q = all.size(); q > 1; --q) std::swap(all[q - 1], all[r.i(0, int(q) - 1)]);
    std::vector<int> o(D, 0);
    for (int q = 0; q + 1 < n && q < int(all.size()); ++q)
        for (int d = 0; d < D; ++d) o.push_back(all[q][d]);
    return o;
}
template <int D>
int stencilSize(Rng& r)
{
    int full = D == 1 ? 3 : D == 2 ? 9 : 27;
    return r.chance(.5) ? 2 * D + 1 : r.i(1, full);
}
template <int D>
At off(const At& c, const std::vector<int>& o, int s)
{
    At x = c;
    for (int d = 0; d < D; ++d) x.c[d] += o[s * D + d];
    return x;
}
template <int D>
Box loose(Rng& r, const Box& b, int g) // box containing b grown by g, unevenly
{
    Box x = b;
    for (int d = 0; d < D; ++d) x.lo[d] -= g + r.i(0, 1), x.hi[d] += g + r.i(0, 1);
    return x;
}
template <class T>
void dominant(Rng& r, Arr<T>& st, int n) // diagonally dominant rows, diagonal first
{
    for (size_t k = 0; k + n <= st.init.size(); k += n) {
        T s = 1;
        for (int w = 1; w < n; ++w) {
            st.init[k + w] = T(r.d(-2, 2));
            s += std::fabs(st.init[k + w]);
        }
        st.init[k] = (r.chance(.3) ? -1 : 1) * s * T(r.d(1.0, 1.5));
    }
}

template <int D, class T>
Case<T> genApplySt(Rng& r, bool patch)
{
    Gen<D, T> g(r, "stapply", patch ? "applystencilonpatch" : "applystencilatpoint");
    Box b = randBox(r, D);
    int reach = r.chance(.8) ? 1 : 2;
    int n = stencilSize<D>(r);
    auto o = offsets<D>(r, n, reach);
    if (r.chance(.3)) std::rotate(o.begin(), o.begin() + D * r.i(0, n - 1), o.end());
    int fgcw = ghosts(r, 0, 2), ugcw = reach + ghosts(r, 0, 1), rgcw = ghosts(r, 0, 2);
    T a = coef<T>(r), bb = coef<T>(r);
    int S = g.arr(stArr<T>("st", b, 0, n), anyMode(r));
    int F = g.arr(cellArr<T>("f", b, fgcw), anyMode(r));
    int U = g.arr(cellArr<T>("u", b, ugcw), anyMode(r));
    int Q = g.arr(cellArr<T>("r", b, rgcw), UNI, true);
    int O = g.ints(o);
    int p[3];
    for (int d = 0; d < 3; ++d) p[d] = d < D ? r.i(b.lo[d], b.hi[d]) : 0;
    g.P << b.str() << " size=" << n << " reach=" << reach << " fgcw=" << fgcw << " ugcw=" << ugcw << " rgcw=" << rgcw;
    if (!patch) g.P << " point=" << p[0] << "," << p[1] << "," << p[2];
    auto tail = V(n, IR{O}, AR{S}, a, bb, fgcw, AR{F}, ugcw, AR{U}, rgcw, AR{Q});
    g.c.fort = patch ? bindFort<T>(FT(applystencilonpatch), cat(pairs<D>(b), tail))
                     : bindFort<T>(FT(applystencilatpoint), cat(pairs<D>(b), vec<D>(p), tail));
    Box w = b;
    if (!patch)
        for (int d = 0; d < D; ++d) w.lo[d] = w.hi[d] = p[d];
    g.c.K = 64;
    g.c.model = [=](Model<T>& M) {
        forBox(w, [&](const int* x) {
            At c(x);
            TN v = TN(bb) * M.get(F, c);
            for (int s = 0; s < n; ++s) v = v + TN(a) * M.get(S, c, s) * M.get(U, off<D>(c, o, s));
            M.set(Q, c, v);
        });
    };
    return g.done();
}

template <int D, class T>
Case<T> genCrsFineRhs(Rng& r)
{
    Gen<D, T> g(r, "stapply", "adjcellcrsfinebdryrhs");
    Box b = randBox(r, D);
    int side = r.i(0, 1), dir = r.i(0, D - 1), gcw = r.i(1, 2);
    int n = stencilSize<D>(r);
    auto o = offsets<D>(r, n);
    Box p = b;
    for (int d = 0; d < D; ++d)
        if (r.chance(.6)) {
            p.lo[d] = r.i(b.lo[d], b.hi[d]);
            p.hi[d] = r.i(p.lo[d], b.hi[d]);
        }
    int pil = side ? b.hi[dir] : b.lo[dir];
    p.lo[dir] = p.hi[dir] = pil + 2 * side - 1;
    int S = g.arr(stArr<T>("st", b, 0, n), anyMode(r));
    int U = g.arr(cellArr<T>("u", b, gcw), anyMode(r));
    int Q = g.arr(cellArr<T>("rhs", b, 0), anyMode(r), true);
    int O = g.ints(o);
    g.P << b.str() << " pbox=" << p.str() << " dir=" << dir << " side=" << side << " size=" << n << " gcw=" << gcw;
    g.c.fort = bindFort<T>(FT(adjcellcrsfinebdryrhs),
                           cat(loHi<D>(b), loHi<D>(p), dirArg<D>(dir), V(side, n, IR{O}, AR{S}, gcw, AR{U}, AR{Q})));
    Box w = p;
    w.lo[dir] = w.hi[dir] = pil;
    g.c.K = 64;
    g.c.model = [=](Model<T>& M) {
        forBox(w, [&](const int* x) {
            At c(x);
            TN v = M.get(Q, c);
            for (int s = 0; s < n; ++s) {
                TN st = M.get(S, c, s); // multiplied with zero where the neighbour is not across the boundary
                if (o[s * D + dir] == 2 * side - 1) v = v - st * M.get(U, off<D>(c, o, s));
            }
            M.set(Q, c, v);
        });
    };
    return g.done();
}

template <int D, class T>
Case<T> genSysRhs(Rng& r)
{
    Gen<D, T> g(r, "stapply", "celladjustsystemrhspatch");
    Box b = randBox(r, D);
    int n = stencilSize<D>(r), no = r.chance(.6) ? n : r.i(0, n);
    auto o = offsets<D>(r, n);
    o.resize(std::max(no, 1) * D);
    int ugcw = ghosts(r, 1, 2), fgcw = ghosts(r, 0, 2);
    int S = g.arr(stArr<T>("st", b, 0, n), anyMode(r));
    int U = g.arr(cellArr<T>("u", b, ugcw), anyMode(r));
    int F = g.arr(cellArr<T>("f", b, fgcw), anyMode(r), true);
    int O = g.ints(o);
    g.P << b.str() << " noffsets=" << no << " size=" << n << " ugcw=" << ugcw << " fgcw=" << fgcw;
    g.c.fort = bindFort<T>(D == 1 ? FT1(celladjustsystemrhspatch1d_) : FT1(celladjustsystemrhspatch2d_),
                           cat(loHi<D>(b), V(no, IR{O}, n, AR{S}, ugcw, AR{U}, fgcw, AR{F})));
    g.c.K = 64;
    g.c.nontrivial = no > 0;
    g.c.model = [=](Model<T>& M) {
        if (!no) return;
        forBox(b, [&](const int* x) {
            At c(x);
            TN v = M.get(F, c);
            for (int s = 0; s < no; ++s) v = v + M.get(S, c, s) * M.get(U, off<D>(c, o, s));
            M.set(F, c, v);
        });
    };
    return g.done();
}

enum SmKind { JACOBI, GS, RBGS, FIXRB }; // FIXRB: fixed 5/9/7-point red-black
template <int D, class T>
Case<T> genSmooth(Rng& r, SmKind k, int fixedSize = 0)
{
    std::string nm = k == JACOBI ? "celljacobi" : k == GS ? "cellgs" : k == RBGS ? "cellrbgs"
                     : fixedSize == 5 ? "cells5rbgs" : fixedSize == 9 ? "cells9rbgs" : "cells7rbgs";
    Gen<D, T> g(r, "smooth", nm);
    Box b = randBox(r, D);
    int n = k == FIXRB ? fixedSize : stencilSize<D>(r);
    std::vector<int> o;
    if (k == FIXRB) {
        if (D == 2) o = {0, 0, -1, 0, 1, 0, 0, -1, 0, 1, -1, -1, 1, -1, -1, 1, 1, 1};
        else o = {0, 0, 0, -1, 0, 0, 1, 0, 0, 0, -1, 0, 0, 1, 0, 0, 0, -1, 0, 0, 1};
    } else
        o = offsets<D>(r, n);
    int color = r.i(0, 1);
    Box sb = loose<D>(r, b, 0), fb = loose<D>(r, b, 0), ub = loose<D>(r, b, 1);
    int S = g.arr(stArr<T>("st", sb, 0, n), UNI);
    dominant(r, g.c.a[S], n);
    int F = g.arr(cellArr<T>("f", fb, 0), anyMode(r));
    int U = g.arr(cellArr<T>("u", ub, 0), anyMode(r), true);
    int O = k == FIXRB ? -1 : g.ints(o);
    g.P << b.str() << " size=" << n << " color=" << color << " stbox " << sb.str() << " fbox " << fb.str() << " ubox " << ub.str();
    auto tail = cat(pairs<D>(sb), V(AR{S}), pairs<D>(fb), V(AR{F}), pairs<D>(ub), V(AR{U}));
    auto bx = pairs<D>(b);
    if (k == JACOBI) g.c.fort = bindFort<T>(FT(celljacobi), cat(bx, V(n, IR{O}), tail));
    if (k == GS) g.c.fort = bindFort<T>(FT(cellgs), cat(bx, V(n, IR{O}), tail));
    if (k == RBGS) g.c.fort = bindFort<T>(FT(cellrbgs), cat(bx, V(color, n, IR{O}), tail));
    if (k == FIXRB)
        g.c.fort = bindFort<T>(D == 3 ? FT1(cells7rbgs3d_) : n == 5 ? FT1(cells5rbgs2d_) : FT1(cells9rbgs2d_),
                               cat(bx, V(color), tail));
    g.c.K = 2000; // successive updates feed into each other
    g.c.model = [=](Model<T>& M) {
        if (k == JACOBI) {
            const TN w = D == 1 ? TN(2) / TN(3) : TN(4) / TN(5);
            std::vector<TN> nu;
            forBox(b, [&](const int* x) {
                At c(x);
                TN v = M.get(F, c);
                for (int s = 0; s < n; ++s) v = v - M.get(S, c, s) * M.get(U, off<D>(c, o, s));
                nu.push_back(M.get(U, c) + w * (v / M.get(S, c, 0)));
            });
            size_t q = 0;
            forBox(b, [&](const int* x) { M.set(U, x, nu[q++]); });
            return;
        }
        forBox(b, [&](const int* x) {
            At c(x);
            if (k != GS) {
                int t = x[0] - b.lo[0] - color;
                if (D > 1) t -= x[1];
                if (D > 2) t -= x[2];
                if (t & 1) return;
            }
            TN v = M.get(F, c);
            for (int s = 1; s < n; ++s) v = v - M.get(S, c, s) * M.get(U, off<D>(c, o, s));
            M.set(U, c, v / M.get(S, c, 0));
        });
    };
    return g.done();
}

template <int D, class T>
Case<T> genBlockJacobi(Rng& r, bool two)
{
    Gen<D, T> g(r, "smooth", two ? "cellblock2x2jacobi" : "cellblock1x1jacobi");
    Box b = randBox(r, D);
    int fgcw = ghosts(r, 0, 2), ugcw = ghosts(r, 0, 2);
    int S = g.arr(stArr<T>("st", b, 0, two ? 4 : 1), UNI);
    auto& st = g.c.a[S].init;
    if (two)
        for (size_t q = 0; q < st.size(); q += 4) {
            st[q] = r.d(2, 5), st[q + 3] = -r.d(2, 5), st[q + 1] = r.d(-1, 1), st[q + 2] = r.d(-1, 1);
        }
    else
        for (auto& x : st) x = (r.chance(.5) ? -1 : 1) * r.d(.3, 4);
    int F = g.arr(cellArr<T>("f0", b, fgcw), anyMode(r));
    if (two) g.arr(cellArr<T>("f1", b, fgcw), anyMode(r));
    int U = g.arr(cellArr<T>("u0", b, ugcw), anyMode(r), true);
    if (two) g.arr(cellArr<T>("u1", b, ugcw), anyMode(r), true);
    g.P << b.str() << " fgcw=" << fgcw << " ugcw=" << ugcw;
    if (two)
        g.c.fort = bindFort<T>(D == 1 ? FT1(cellblock2x2jacobi1d_) : FT1(cellblock2x2jacobi2d_),
                               cat(pairs<D>(b), V(AR{S}, fgcw, AR{F}, AR{F + 1}, ugcw, AR{U}, AR{U + 1})));
    else
        g.c.fort = bindFort<T>(D == 1 ? FT1(cellblock1x1jacobi1d_) : FT1(cellblock1x1jacobi2d_),
                               cat(pairs<D>(b), V(AR{S}, fgcw, AR{F}, ugcw, AR{U})));
    g.c.K = 64;
    g.c.model = [=](Model<T>& M) {
        const TN w = D == 1 ? TN(2) / TN(3) : TN(4) / TN(5);
        forBox(b, [&](const int* x) {
            At c(x);
            if (!two) {
                M.set(U, c, M.get(U, c) + w * M.get(F, c) / M.get(S, c, 0));
                return;
            }
            TN a[4], f0 = M.get(F, c), f1 = M.get(F + 1, c);
            for (int q = 0; q < 4; ++q) a[q] = M.get(S, c, q);
            TN det = a[0] * a[3] - a[1] * a[2];
            M.set(U, c, M.get(U, c) + w * ((a[3] * f0 - a[1] * f1) / det));
            M.set(U + 1, c, M.get(U + 1, c) + w * ((a[0] * f1 - a[2] * f0) / det));
        });
    };
    return g.done();
}

// x = A^-1 b in long double
inline std::vector<long double> solve(std::vector<long double> A, std::vector<long double> b)
{
    int n = int(b.size());
    for (int c = 0; c < n; ++c) {
        int p = c;
        for (int q = c + 1; q < n; ++q)
            if (std::fabs(A[q * n + c]) > std::fabs(A[p * n + c])) p = q;
        for (int q = 0; q < n; ++q) std::swap(A[c * n + q], A[p * n + q]);
        std::swap(b[c], b[p]);
        for (int q = c + 1; q < n; ++q) {
            long double m = A[q * n + c] / A[c * n + c];
            for (int z = c; z < n; ++z) A[q * n + z] -= m * A[c * n + z];
            b[q] -= m * b[c];
        }
    }
    for (int c = n - 1; c >= 0; --c) {
        for (int z = c + 1; z < n; ++z) b[c] -= A[c * n + z] * b[z];
        b[c] /= A[c * n + c];
    }
    return b;
}
inline long double maxAbs(const std::vector<long double>& v)
{
    long double m = 0;
    for (auto x : v) m = std::max(m, std::fabs(x));
    return m;
}

template <class T>
Case<T> genDenseBlockJacobi(Rng& r)
{
    constexpr int D = 3;
    Gen<D, T> g(r, "smooth", "cellblockjacobi");
    int bs[3], bn[3];
    Box b = randBox(r, 3);
    int slack[3];
    for (int d = 0; d < 3; ++d) {
        bs[d] = r.i(1, 3), bn[d] = r.i(1, 2);
        slack[d] = r.i(0, 2);
        if (G().big && bs[d] < 3) bn[d]++;
        b.hi[d] = b.lo[d] + bs[d] * bn[d] - 1 + slack[d];
    }
    int n = stencilSize<3>(r);
    auto o = offsets<3>(r, n);
    std::vector<int> disp[3];
    int first[3];
    for (int d = 0; d < 3; ++d) {
        first[d] = r.i(0, slack[d]);
        for (int q = 0; q < bn[d]; ++q) disp[d].push_back(first[d] + q * bs[d]);
    }
    Box fb = loose<3>(r, b, 0), ub = loose<3>(r, b, 1);
    int S = g.arr(stArr<T>("st", b, 0, n), UNI);
    dominant(r, g.c.a[S], n);
    int F = g.arr(cellArr<T>("f", fb, 0), UNI);
    int U = g.arr(cellArr<T>("u", ub, 0), UNI, true);
    int O = g.ints(o), X = g.ints(disp[0]), Y = g.ints(disp[1]), Z = g.ints(disp[2]);
    g.P << b.str() << " size=" << n << " blocks " << bn[0] << "x" << bn[1] << "x" << bn[2] << " of " << bs[0] << "x"
        << bs[1] << "x" << bs[2] << " first " << first[0] << "," << first[1] << "," << first[2];
    g.c.fort = bindFort<T>(FT1(cellblockjacobi3d_),
                           cat(pairs<3>(b), V(n, IR{O}, AR{S}), pairs<3>(fb), V(AR{F}), pairs<3>(ub), V(AR{U}),
                               V(IR{X}, bn[0], bs[0], IR{Y}, bn[1], bs[1], IR{Z}, bn[2], bs[2])));
    g.c.K = 20000;
    int s0 = bs[0], s1 = bs[1], s2 = bs[2], n0 = bn[0], n1 = bn[1], n2 = bn[2];
    int f0 = first[0], f1 = first[1], f2 = first[2];
    g.c.model = [=](Model<T>& M) {
        std::map<long, long double> res;
        auto key = [&](const int* c) { return ((long)(c[2] - b.lo[2]) * b.ext(1) + (c[1] - b.lo[1])) * b.ext(0) + c[0] - b.lo[0]; };
        forBox(b, [&](const int* x) {
            At c(x);
            TN v = M.get(F, c);
            for (int s = 0; s < n; ++s) v = v - M.get(S, c, s) * M.get(U, off<3>(c, o, s));
            res[key(c)] = v.v;
        });
        int nb = s0 * s1 * s2;
        for (int bk = 0; bk < n2; ++bk)
            for (int bj = 0; bj < n1; ++bj)
                for (int bi = 0; bi < n0; ++bi) {
                    Box w = b;
                    int sz[3] = {s0, s1, s2}, at[3] = {bi, bj, bk}, fi[3] = {f0, f1, f2};
                    for (int d = 0; d < 3; ++d) {
                        w.lo[d] = b.lo[d] + fi[d] + at[d] * sz[d];
                        w.hi[d] = w.lo[d] + sz[d] - 1;
                    }
                    auto loc = [&](const int* c) { return ((c[2] - w.lo[2]) * s1 + (c[1] - w.lo[1])) * s0 + c[0] - w.lo[0]; };
                    std::vector<long double> A(nb * nb), rhs(nb);
                    forBox(w, [&](const int* x) {
                        At c(x);
                        int q = loc(c);
                        rhs[q] = res[key(c)];
                        A[q * nb + q] = M.get(S, c, 0).v;
                        for (int s = 1; s < n; ++s) {
                            At m = off<3>(c, o, s);
                            if (w.has(m)) A[q * nb + loc(m)] = M.get(S, c, s).v;
                        }
                    });
                    auto sol = solve(A, rhs);
                    long double scale = maxAbs(sol) + 1;
                    forBox(w, [&](const int* x) {
                        TN u = M.get(U, x);
                        long double v = u.v + 0.8L * sol[loc(x)];
                        M.set(U, x, TN(v, std::fabs(u.v) + scale));
                    });
                }
    };
    return g.done();
}

template <class T>
Case<T> genPointBlockGS(Rng& r)
{
    constexpr int D = 3;
    Gen<D, T> g(r, "smooth", "ccellblkjacobi");
    Box b = randBox(r, 3);
    for (int d = 0; d < 3; ++d)
        if (b.ext(d) > 5) b.hi[d] = b.lo[d] + 4;
    int n = r.chance(.5) ? 7 : r.i(1, 9), nd = r.i(1, 3);
    auto o = offsets<3>(r, n);
    int fg = r.i(0, 1), ug = r.i(1, 2), rg = r.i(0, 1);
    int F = g.arr(stArr<T>("f", b, fg, nd), UNI);
    int U = g.arr(stArr<T>("u", b, ug, nd), UNI, true);
    int R = g.arr(stArr<T>("r", b, rg, nd), UNI, true);
    int S = g.arr(stArr<T>("st", b, 0, n * nd * nd), UNI);
    auto& st = g.c.a[S].init;
    for (size_t q = 0; q < st.size(); q += n * nd * nd)
        for (int z = 0; z < nd; ++z) st[q + 0 + n * (z + z * nd)] = (r.chance(.3) ? -1 : 1) * r.d(3, 6) * nd;
    int O = g.ints(o);
    g.P << b.str() << " size=" << n << " ndof=" << nd << " fgcw=" << fg << " ugcw=" << ug << " rgcw=" << rg;
    g.c.fort = bindFort<T>(FT1(ccellblkjacobi3d_),
                           cat(pairs<3>(b), V(n, IR{O}, AR{S}, nd, fg, AR{F}, ug, AR{U}, rg, AR{R})));
    g.c.K = 20000;
    g.c.model = [=](Model<T>& M) {
        forBox(b, [&](const int* x) {
            At c(x);
            std::vector<long double> rhs(nd), A(nd * nd);
            for (int p = 0; p < nd; ++p) {
                TN v = M.get(F, c, p);
                for (int s = 0; s < n; ++s)
                    for (int q = 0; q < nd; ++q)
                        v = v - M.get(S, c, s + n * (p + q * nd)) * M.get(U, off<3>(c, o, s), q);
                rhs[p] = v.v;
                for (int q = 0; q < nd; ++q) A[p * nd + q] = M.get(S, c, n * (p + q * nd)).v;
            }
            auto sol = solve(A, rhs);
            long double sc = maxAbs(sol) + maxAbs(rhs) + 1;
            for (int p = 0; p < nd; ++p) {
                M.setw(R, c, p, TN(sol[p], sc));
                TN u = M.get(U, c, p);
                M.setw(U, c, p, TN(u.v + sol[p], std::fabs(u.v) + sc));
            }
        });
    };
    return g.done();
}

template <class T>
Case<T> genLinExtrap(Rng& r)
{
    constexpr int D = 3;
    Gen<D, T> g(r, "c2f", "linearextrap");
    Box b = randBox(r, 3);
    int gcw = r.i(1, 2), type = r.i(1, 3);
    int face = type == 1 ? r.i(0, 5) : type == 2 ? r.i(0, 11) : r.i(0, 7);
    int dir = face / 2, side = face % 2;
    if (type == 1 && b.ext(dir) + 2 * gcw < 3) b.hi[dir]++;
    int p = 0, q = 1, e = face % 4;
    if (type == 2) p = face < 8 ? 0 : 1, q = face < 4 ? 1 : 2;
    Box v = b.grow(gcw);
    for (int d = 0; d < 3; ++d) {
        bool normal = type == 3 || (type == 1 ? d == dir : d == p || d == q);
        if (normal) {
            int s = type == 1 ? side : type == 2 ? (d == p ? e & 1 : e >> 1) : (face >> d) & 1;
            v.lo[d] = v.hi[d] = s ? b.hi[d] + 1 : b.lo[d] - 1;
        } else {
            int lo = v.lo[d], hi = v.hi[d];
            v.lo[d] = r.i(lo, hi);
            v.hi[d] = r.i(v.lo[d], hi);
        }
    }
    int U = g.arr(cellArr<T>("u", b, gcw), anyMode(r), true);
    int il = g.ints({v.lo[0], v.lo[1], v.lo[2]}), ih = g.ints({v.hi[0], v.hi[1], v.hi[2]});
    g.P << b.str() << " seg " << v.str() << " gcw=" << gcw << " type=" << type << " face=" << face;
    g.c.fort = bindFort<T>(FT1(linearextrap_), cat(pairs<3>(b), V(gcw, AR{U}, IR{il}, IR{ih}, face, type)));
    g.c.model = [=](Model<T>& M) {
        forBox(v, [&](const int* x) {
            At c(x);
            if (type == 1) {
                int s = side ? -1 : 1;
                M.set(U, c, TN(2) * M.get(U, c.s(dir, s)) - M.get(U, c.s(dir, 2 * s)));
            } else {
                int sp = e & 1 ? -1 : 1, sq = e & 2 ? -1 : 1;
                M.set(U, c, M.get(U, c.s(p, sp)) + M.get(U, c.s(q, sq)) - M.get(U, c.s(p, sp).s(q, sq)));
            }
        });
    };
    return g.done();
}

template <class T>
void regFort(Registry<T>& R)
{
    auto add = [&](auto dc) {
        constexpr int D = decltype(dc)::value;
        for (int p = 0; p < 2; ++p)
            R.push_back({"stapply", "", D, [p](Rng& r) { return genApplySt<D, T>(r, p); }});
        R.push_back({"stapply", "", D, [](Rng& r) { return genCrsFineRhs<D, T>(r); }});
        if (D < 3) R.push_back({"stapply", "", D, [](Rng& r) { return genSysRhs<D < 3 ? D : 2, T>(r); }});
        for (int k = JACOBI; k <= RBGS; ++k)
            R.push_back({"smooth", "", D, [k](Rng& r) { return genSmooth<D, T>(r, SmKind(k)); }});
        if (D < 3)
            for (int two = 0; two < 2; ++two)
                R.push_back({"smooth", "", D, [two](Rng& r) { return genBlockJacobi<D < 3 ? D : 2, T>(r, two); }});
    };
    add(std::integral_constant<int, 1>());
    add(std::integral_constant<int, 2>());
    add(std::integral_constant<int, 3>());
    R.push_back({"smooth", "", 2, [](Rng& r) { return genSmooth<2, T>(r, FIXRB, 5); }});
    R.push_back({"smooth", "", 2, [](Rng& r) { return genSmooth<2, T>(r, FIXRB, 9); }});
    R.push_back({"smooth", "", 3, [](Rng& r) { return genSmooth<3, T>(r, FIXRB, 7); }});
    R.push_back({"smooth", "", 3, [](Rng& r) { return genDenseBlockJacobi<T>(r); }});
    R.push_back({"smooth", "", 3, [](Rng& r) { return genPointBlockGS<T>(r); }});
    R.push_back({"c2f", "", 3, [](Rng& r) { return genLinExtrap<T>(r); }});
}
} // namespace vf
