// Boundary ghost filling and coarse-to-fine copies (and the Fortran-only linear
// extrapolation, which is the same job for a whole boundary segment).
#pragma once
#include "decl.hpp"

FDECL(cellsetcorrectionbc)
FDECL(cellsetpoissoncorrectionbc)
extern "C" void cellsetinteriorcornerbc2d_();
extern "C" void cellsethomogenousbc2d_();
extern "C" void copycoarsetofine3d_();
extern "C" void copycoarsetofinecorner3d_();
extern "C" void linearextrap_();

namespace vf
{
template <int D, class T>
Case<T> genBC(Rng& r, bool poisson)
{
    Gen<D, T> g(r, "bc", poisson ? "cellsetpoissoncorrectionbc" : "cellsetcorrectionbc");
    int type = D == 1 ? 1 : r.chance(.65) ? 1 : D == 2 ? 2 : r.i(2, 3);
    int face = type == 1 ? r.i(0, 2 * D - 1) : D == 2 ? r.i(0, 3) : type == 2 ? r.i(0, 11) : r.i(0, 7);
    int btype = r.pick({0, 1, 4, 4, 0});
    int order = r.i(1, 2);
    if (D == 2 && !poisson && type == 1 && btype == 0 && r.chance(.2)) order = 0;
    int dir = face / 2, side = face % 2;
    Box b = randBox(r, D);
    int ugcw = r.chance(.5) ? 1 : ghosts(r, 2, 3);
    int dgcw = r.chance(.4) ? 0 : ghosts(r, 0, 2);
    // u(ghost +- 2) has to exist
    if (type == 1 && order == 2 && b.ext(dir) + 2 * ugcw < 3) b.hi[dir]++;
    // boundary box in ghost-cell index space
    int lo[3] = {0, 0, 0}, hi[3] = {0, 0, 0};
    Box v = b; // boundary box
    for (int d = 0; d < D; ++d) {
        bool normal = type == 1 ? d == dir
                    : D == 2   ? true
                    : type == 3 ? true
                    : (face < 4 ? d != 2 : face < 8 ? d != 1 : d != 0);
        if (normal) {
            int s;
            if (type == 1) s = side;
            else if (D == 2) s = d == 0 ? face & 1 : face >> 1;
            else if (type == 3) s = d == 0 ? face & 1 : d == 1 ? (face >> 1) & 1 : (face >> 2) & 1;
            else {
                int e = face % 4, first = face < 8 ? 0 : 1;
                s = d == first ? e & 1 : e >> 1;
            }
            v.lo[d] = v.hi[d] = s ? b.hi[d] + 1 : b.lo[d] - 1;
        } else {
            int q = r.i(0, 5); // tangential extent of the boundary box
            if (q < 2) {}
            else if (q == 2) v.lo[d] = b.lo[d] - r.i(0, ugcw), v.hi[d] = b.hi[d] + r.i(0, ugcw);
            else if (q == 3) v.lo[d] = b.lo[d] - 5, v.hi[d] = b.hi[d] + 7; // clipped to the patch
            else {
                v.lo[d] = r.i(b.lo[d], b.hi[d]);
                v.hi[d] = r.i(v.lo[d], b.hi[d]);
            }
        }
        lo[d] = v.lo[d], hi[d] = v.hi[d];
    }
    T alpha = r.chance(.15) ? T(0) : pcoef<T>(r), beta = alpha != T(0) && r.chance(.15) ? T(0) : alpha != T(0) && r.chance(.07) ? alpha : pcoef<T>(r);
    if (type == 1 && r.chance(.15)) { // the part of the boundary box along the face is what counts
        // thick boundary box: the low/high index of the box selects the layer
        if (side) lo[dir] -= r.i(0, 1); else hi[dir] += r.i(0, 1);
    }
    int dx = g.dx();
    int DD = poisson ? -1 : g.faces("d", b, POS, dgcw);
    int U = g.arr(cellArr<T>("u", b, ugcw), anyMode(r), true);
    int il = g.ints(std::vector<int>(lo, lo + D)), ih = g.ints(std::vector<int>(hi, hi + D));
    g.P << b.str() << " bLo=" << lo[0] << "," << lo[1] << "," << lo[2] << " bHi=" << hi[0] << "," << hi[1]
        << "," << hi[2] << " type=" << type << " face=" << face << " btype=" << btype << " exOrder=" << order
        << " ugcw=" << ugcw << " dgcw=" << dgcw << " alpha=" << alpha << " beta=" << beta;
    Args ty = D == 1 ? Args{} : Args{type};
    auto tail = cat(V(ugcw, AR{U}, IR{il}, IR{ih}, order, face), ty, V(btype, alpha, beta));
    auto bx = pairs<D>(b);
    if (poisson) {
        auto args = cat(bx, V(AR{dx}), tail);
        g.c.run = bindCpp<T>(TH(cd_correct_bc, set_poisson_bc), args);
        if (sizeof(T) == 8) g.c.fort = bindFort<T>(FT(cellsetpoissoncorrectionbc), args);
    } else {
        auto args = cat(bx, V(AR{dx}, dgcw), ars<D>(DD), tail);
        g.c.run = bindCpp<T>(TH(cd_correct_bc, set_bc), args);
        if (sizeof(T) == 8) g.c.fort = bindFort<T>(FT(cellsetcorrectionbc), args);
    }
    // Some of the Fortran routines (2D, 3D edges, 3D constant-coefficient) take the boundary
    // box as it is; every other implementation clips it to the patch. Only boxes that lie
    // along the patch have one meaning for both.
    if (D == 2 || (D == 3 && (poisson || type != 1)))
        for (int d = 0; d < D; ++d) {
            bool tangential;
            if (type == 1) tangential = d != dir;
            else if (D == 2 || type == 3) tangential = false;
            else tangential = face < 4 ? d == 2 : face < 8 ? d == 1 : d == 0;
            if (tangential && (v.lo[d] < b.lo[d] || v.hi[d] > b.hi[d])) g.c.fort = {};
        }
    Box L;
    L.D = D;
    for (int d = 0; d < D; ++d) L.lo[d] = std::max(lo[d], b.lo[d]), L.hi[d] = std::min(hi[d], b.hi[d]);
    g.c.K = 48;
    g.c.nontrivial = !(poisson && D == 2 && type == 1 && btype == 4 && dir == 1);
    g.c.model = [=](Model<T>& M) {
        Box w = L;
        if (type == 1) {
            if (poisson && D == 2 && btype == 4 && dir == 1) return;
            w.lo[dir] = w.hi[dir] = side ? hi[dir] : lo[dir];
            int s = side ? -1 : 1;
            forBox(w, [&](const int* x) {
                At c(x);
                auto u1 = [&] { return M.get(U, c.s(dir, s)); };
                auto u2 = [&] { return M.get(U, c.s(dir, 2 * s)); };
                if (btype == 0 && order == 0) M.set(U, c, TN(0));
                if (btype == 0 && order == 1) M.set(U, c, -u1());
                if (btype == 0 && order == 2) M.set(U, c, -(TN(2) * u1()) + u2() / TN(3));
                if (btype == 1) M.set(U, c, u1());
                if (btype == 4) {
                    TN h = M.geti(dx, dir);
                    TN a = TN(alpha) * (DD >= 0 ? M.get(DD + dir, c.s(dir, side ? 0 : 1)) : TN(1));
                    TN bh = TN(beta) * h;
                    if (order == 1)
                        M.set(U, c, (TN(2) * a - bh) / (TN(2) * a + bh) * u1());
                    else {
                        TN den = TN(8) * a + TN(3) * bh;
                        M.set(U, c, (TN(8) * a - TN(6) * bh) / den * u1() + bh / den * u2());
                    }
                }
            });
            return;
        }
        // edges and corners: linear extrapolation u2 + u3 - u1 in the plane (p,q)
        int p = 0, q = 1, e = face % 4;
        if (D == 3 && type == 2) p = face < 8 ? 0 : 1, q = face < 4 ? 1 : 2;
        int sp = e & 1 ? -1 : 1, sq = e & 2 ? -1 : 1;
        for (int d = 0; d < D; ++d)
            if (type == 3 || D == 2 || d == p || d == q)
                w.lo[d] = w.hi[d] = v.lo[d];
        forBox(w, [&](const int* x) {
            At c(x);
            M.set(U, c, M.get(U, c.s(p, sp)) + M.get(U, c.s(q, sq)) - M.get(U, c.s(p, sp).s(q, sq)));
        });
    };
    return g.done();
}

template <class T>
Case<T> genCornerBC(Rng& r)
{
    constexpr int D = 2;
    Gen<D, T> g(r, "bc", "cellsetinteriorcornerbc");
    Box b = randBox(r, D);
    int face = r.i(0, 3), gcw = r.i(1, 3);
    // an interior (re-entrant) corner: anywhere such that both cells exist
    int c0[2];
    for (int d = 0; d < 2; ++d) {
        int s = (d == 0 ? face & 1 : face >> 1) ? -1 : 1;
        int lo = b.lo[d] - gcw, hi = b.hi[d] + gcw;
        if (s > 0) hi--; else lo++;
        c0[d] = r.chance(.5) ? (s > 0 ? b.lo[d] - 1 : b.hi[d] + 1) : r.i(lo, hi);
    }
    int dx = g.dx();
    int DD = g.faces("d", b, POS, gcw);
    int U = g.arr(cellArr<T>("u", b, gcw), anyMode(r), true);
    int il = g.ints({c0[0], c0[1]}), ih = g.ints({c0[0], c0[1]});
    int order = r.i(1, 2), type = 2, btype = r.pick({0, 1, 4});
    g.P << b.str() << " corner=" << c0[0] << "," << c0[1] << " face=" << face << " gcw=" << gcw;
    auto args = cat(pairs<2>(b), V(gcw, AR{dx}, AR{DD}, AR{DD + 1}, AR{U}, IR{il}, IR{ih}, order, face, type, btype));
    g.c.run = bindCpp<T>(&cd_correct_bc_2d_cuda<T>::set_corner_bc, args);
    if (sizeof(T) == 8) g.c.fort = bindFort<T>(FT1(cellsetinteriorcornerbc2d_), args);
    int x0 = c0[0], x1 = c0[1];
    g.c.model = [=](Model<T>& M) {
        int c[3] = {x0, x1, 0}, n[3] = {x0 + (face & 1 ? -1 : 1), x1 + (face & 2 ? -1 : 1), 0};
        M.set(U, c, TN(-5) * M.get(U, n));
    };
    return g.done();
}

template <class T>
Case<T> genHomogenousBC(Rng& r)
{
    constexpr int D = 2;
    Gen<D, T> g(r, "bc", "cellsethomogenousbc");
    Box b = randBox(r, D);
    int face = r.i(0, 3), order = r.i(1, 4), dir = face / 2, side = face % 2;
    while (b.ext(dir) + 1 < order) b.hi[dir]++;
    int lo[2], hi[2];
    for (int d = 0; d < 2; ++d) {
        lo[d] = b.lo[d] - r.i(0, 3), hi[d] = b.hi[d] + r.i(0, 3);
        if (r.chance(.5)) {
            lo[d] = r.i(b.lo[d], b.hi[d]);
            hi[d] = r.i(lo[d], b.hi[d]);
        }
    }
    int U = g.arr(cellArr<T>("u", b, 1), anyMode(r), true);
    int il = g.ints({lo[0], lo[1]}), ih = g.ints({hi[0], hi[1]});
    g.P << b.str() << " bLo=" << lo[0] << "," << lo[1] << " bHi=" << hi[0] << "," << hi[1] << " face=" << face
        << " exOrder=" << order;
    auto args = cat(loHi<2>(b), V(face, IR{il}, IR{ih}, order, AR{U}));
    g.c.run = bindCpp<T>(&cd_correct_bc_2d_cuda<T>::set_homogenous_bc, args);
    if (sizeof(T) == 8) g.c.fort = bindFort<T>(FT1(cellsethomogenousbc2d_), args);
    int t = 1 - dir, tl = std::max(lo[t], b.lo[t]), th = std::min(hi[t], b.hi[t]);
    g.c.K = 48;
    g.c.model = [=](Model<T>& M) {
        static const double C[5][4] = {{0}, {-1}, {-2, 1.0 / 3}, {-3, 1, -1.0 / 5}, {-4, 2, -4.0 / 5, 1.0 / 7}};
        int s = side ? -1 : 1, gi = side ? b.hi[dir] + 1 : b.lo[dir] - 1;
        for (int q = tl; q <= th; ++q) {
            int c[3] = {0, 0, 0};
            c[dir] = gi, c[t] = q;
            At at(c);
            TN x = TN(0);
            for (int m = 0; m < order; ++m) x = x + TN(C[order][m]) * M.get(U, at.s(dir, (m + 1) * s));
            M.set(U, c, x);
        }
        for (int e = 0; e < 2; ++e) {
            int c[3] = {0, 0, 0};
            c[dir] = gi, c[t] = e ? b.hi[t] + 1 : b.lo[t] - 1;
            At at(c);
            M.set(U, c, M.get(U, at.s(dir, s).s(t, e ? -1 : 1)));
        }
    };
    return g.done();
}

template <class T>
Case<T> genC2F(Rng& r, bool corner)
{
    constexpr int D = 3;
    Gen<D, T> g(r, "c2f", corner ? "copycoarsetofinecorner" : "copycoarsetofine");
    int gcw = r.chance(.4) ? 0 : ghosts(r, 1, 2);
    int axis = r.i(0, 2);
    int ratio[3] = {r.pick({2, 4, 3, 1, 2, 5, 8}), r.pick({2, 4, 3, 1, 2, 6, 16}), r.pick({2, 4, 3, 1, 2, 7, 10})};
    // the coarse and fine arrays, and the copied segments inside their ghosted boxes
    int sh[3] = {G().shift[0], G().shift[1], G().shift[2]};
    for (int d = 0; d < 3; ++d) G().shift[d] = 0;
    Box cb = randBox(r, 3), fb;
    for (int d = 0; d < 3; ++d) {
        G().shift[d] = sh[d];
        if (std::abs(cb.lo[d]) > 30000000) { // the fine indices have to be representable, too
            int e = cb.ext(d);
            cb.lo[d] /= 12, cb.hi[d] = cb.lo[d] + e - 1;
        }
    }
    fb = cb;
    Box f, c;
    f.D = c.D = 3;
    for (int d = 0; d < 3; ++d) {
        // a coarse range and the fine box covering part of it, not aligned in general
        fb.lo[d] = cb.lo[d] * ratio[d] + r.i(0, ratio[d] - 1);
        fb.hi[d] = fb.lo[d] + r.i(0, std::max(0, cb.hi[d] * ratio[d] + ratio[d] - 1 - fb.lo[d]));
        if (d != axis && !corner) { // tangential: arbitrary, need not match the coarse index
            fb.lo[d] = r.i(-20, 20);
            fb.hi[d] = fb.lo[d] + geometry(r) - 1;
        }
    }
    auto fl = [](int a, int n) { return a >= 0 ? a / n : -((-a + n - 1) / n); };
    Box cg = cb.grow(gcw), fg = fb.grow(gcw);
    for (int d = 0; d < 3; ++d) {
        f.lo[d] = r.i(fg.lo[d], fg.hi[d]);
        f.hi[d] = r.chance(.7) ? r.i(f.lo[d], fg.hi[d]) : f.lo[d];
        c.lo[d] = r.i(cg.lo[d], cg.hi[d]);
        c.hi[d] = r.i(c.lo[d], cg.hi[d]);
    }
    if (!corner) { // along the axis the coarse cells under the fine segment must exist
        int lo = std::max(fg.lo[axis], cg.lo[axis] * ratio[axis]);
        int hi = std::min(fg.hi[axis], cg.hi[axis] * ratio[axis] + ratio[axis] - 1);
        f.lo[axis] = r.i(lo, hi);
        f.hi[axis] = r.chance(.85) ? r.i(f.lo[axis], hi) : f.lo[axis];
        c.lo[axis] = fl(f.lo[axis], ratio[axis]);
        c.hi[axis] = fl(f.hi[axis], ratio[axis]);
    }
    auto mv = [&](Box& x, bool fine) {
        for (int d = 0; d < 3; ++d) {
            int n = sh[d] * (fine ? ratio[d] : 1);
            x.lo[d] += n, x.hi[d] += n;
        }
    };
    mv(cb, false), mv(c, false), mv(fb, true), mv(f, true);
    int C = g.arr(cellArr<T>("coarse", cb, gcw), anyMode(r));
    int F = g.arr(cellArr<T>("fine", fb, gcw), anyMode(r), true);
    int ra = g.ints({ratio[0], ratio[1], ratio[2]});
    g.P << "coarse " << c.str() << " fine " << f.str() << " coarse data " << cb.str() << " fine data " << fb.str()
        << " gcw=" << gcw << " axis=" << axis << " ratio=" << ratio[0] << "," << ratio[1] << "," << ratio[2];
    if (corner) {
        auto args = cat(pairs<3>(c), pairs<3>(f), pairs<3>(cb), pairs<3>(fb), V(gcw, AR{C}, AR{F}));
        g.c.run = bindCpp<T>(&coarse_to_fine<T>::copy_corner, args);
        if (sizeof(T) == 8) g.c.fort = bindFort<T>(FT1(copycoarsetofinecorner3d_), args);
    } else {
        auto args = cat(pairs<3>(c), pairs<3>(f), V(axis), pairs<3>(cb), pairs<3>(fb), V(gcw, IR{ra}, AR{C}, AR{F}));
        g.c.run = bindCpp<T>(&coarse_to_fine<T>::copy, args);
        if (sizeof(T) == 8) g.c.fort = bindFort<T>(FT1(copycoarsetofine3d_), args);
    }
    int rx = ratio[axis];
    g.c.model = [=](Model<T>& M) {
        int x[3] = {f.lo[0], f.lo[1], f.lo[2]}, y[3] = {c.lo[0], c.lo[1], c.lo[2]};
        if (corner) {
            M.set(F, x, M.get(C, y));
            return;
        }
        for (int q = f.lo[axis]; q <= f.hi[axis]; ++q) {
            x[axis] = q, y[axis] = fl(q, rx);
            M.set(F, x, M.get(C, y));
        }
    };
    return g.done();
}

template <class T>
void regBC(Registry<T>& R)
{
    auto add = [&](auto dc) {
        constexpr int D = decltype(dc)::value;
        for (int p = 0; p < 2; ++p)
            for (int rep = 0; rep < 2; ++rep)
                R.push_back({"bc", "", D, [p](Rng& r) { return genBC<D, T>(r, p); }});
    };
    add(std::integral_constant<int, 1>());
    add(std::integral_constant<int, 2>());
    add(std::integral_constant<int, 3>());
    R.push_back({"bc", "", 2, [](Rng& r) { return genCornerBC<T>(r); }});
    R.push_back({"bc", "", 2, [](Rng& r) { return genHomogenousBC<T>(r); }});
}
template <class T>
void regC2F(Registry<T>& R)
{
    R.push_back({"c2f", "", 3, [](Rng& r) { return genC2F<T>(r, false); }});
    R.push_back({"c2f", "", 3, [](Rng& r) { return genC2F<T>(r, true); }});
}
} // namespace vf
