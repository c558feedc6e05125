// Stencil assembly, physical-boundary adjustment and coarse-fine adjustment kernels
// (Thrust, Fortran cell kernels, Fortran node kernels).
#pragma once
#include "decl.hpp"

FDECL(celldiffusionoffdiag)
FDECL(cellpoissonoffdiag)
FDECL(celldiffusionv1diag)
FDECL(celldiffusionv2diag)
FDECL(cellpoissondiag)
FDECL(adjcelldiffusiondiag)
FDECL(adjcellpoissondiag)
FDECL(adjcelldiffusioncfdiag)
FDECL(adjcellpoissoncfdiag)
FDECL(adjcelldiffusionoffdiag)
FDECL(adjcellpoissonoffdiag)
FDECL(adjcelldiffusioncfoffdiag)
FDECL(readjcelldiffusionoffdiag)
FDECL(adjcelldiffusioncfbdryrhs)
FDECL(nodediffusionoffdiag)
FDECL(nodepoissonoffdiag)
FDECL(nodediffusionv1diag)
FDECL(nodediffusionv2diag)
FDECL(nodepoissondiag)
FDECL(adjnodediffusiondiag)
FDECL(adjnodepoissondiag)
FDECL(adjnodediffusioncfdiag)
FDECL(adjnodepoissoncfdiag)
FDECL(adjnodediffusionoffdiag)
FDECL(adjnodepoissonoffdiag)
FDECL(adjnodediffusioncfoffdiag)
FDECL(readjnodediffusionoffdiag)
FDECL(adjnodediffusioncfbdryrhs)

namespace vf
{
enum StKind {
    OFFDIAG, POFFDIAG, V1DIAG, V2DIAG, PDIAG,              // assembly
    ADJDIAG, PADJDIAG, ADJOFF, PADJOFF,                    // physical boundary
    CFDIAG, PCFDIAG, CFOFF, READJ, CFRHS, NST
};
inline const char* stFamily(int k) { return k <= PDIAG ? "stencil" : k <= PADJOFF ? "adjbdry" : "adjcf"; }

// everything random about one call, so that law monitors can drive the same kernels
struct StPar {
    Box b, aux;          // patch and coefficient box / adjustment box
    int sgcw = 0, gcw = 0;
    int dir = 0, side = 0, btype = 0, order = 0, ratio = 2;
    double alpha = 1, beta = 1, dirf = 1, neuf = 1;
};

template <int D>
Box subBox(Rng& r, const Box& b) // random non-empty sub-box
{
    Box s = b;
    for (int d = 0; d < D; ++d) {
        if (r.chance(.4)) continue;
        s.lo[d] = r.i(b.lo[d], b.hi[d]);
        s.hi[d] = r.i(s.lo[d], b.hi[d]);
    }
    return s;
}

// st(w) of the two neighbours involved at a boundary
inline int uEnt(int dir, int side) { return 2 * dir + 1 + side; }
inline int vEnt(int dir, int side) { return 2 * dir + 2 - side; }

template <int D, class T>
Case<T> genStencil(Rng& r, StKind k, bool node)
{
    static const char* nm[] = {"diffusionoffdiag", "poissonoffdiag", "diffusionv1diag", "diffusionv2diag",
                               "poissondiag", "diffusiondiag", "poissondiag", "diffusionoffdiag",
                               "poissonoffdiag", "diffusioncfdiag", "poissoncfdiag", "diffusioncfoffdiag",
                               "diffusionoffdiag", "diffusioncfbdryrhs"};
    std::string pre = k <= PDIAG ? "" : k == READJ ? "readj" : "adj";
    Gen<D, T> g(r, node ? "node" : stFamily(k), pre + (node ? "node" : "cell") + nm[k]);
    Box b = randBox(r, D);
    int sgcw = node ? 0 : r.chance(.4) ? 0 : ghosts(r, 1, 2);
    T alpha = coef<T>(r), beta = coef<T>(r);
    bool cf = k == CFDIAG || k == PCFDIAG || k == CFOFF;
    int btype = r.pick({0, 1, 4}), order = r.i(1, 2), side = r.i(0, 1), dir = r.i(0, D - 1);
    int ratio = r.pick({2, 2, 4, 3, 8, 2, 4, 16, 5, 1});
    T dirf = coef<T>(r), neuf = coef<T>(r);
    // boxes
    Box aux = b; // b-box / a-box contains the patch; adjustment box lies along the patch
    if (k == OFFDIAG || k == V1DIAG) {
        for (int d = 0; d < D; ++d)
            if (r.chance(.5)) aux.lo[d] -= r.i(0, 2), aux.hi[d] += r.i(0, 2);
    } else if (k >= ADJDIAG) {
        aux = subBox<D>(r, b);
        // the adjusted layer: the one next to the boundary, sometimes an interior one
        int layer = r.chance(.75) ? (side ? b.hi[dir] : b.lo[dir]) : r.i(b.lo[dir], b.hi[dir]);
        aux.lo[dir] = aux.hi[dir] = layer + 2 * side - 1;
    }
    int p0 = aux.lo[dir], pil = p0 - 2 * side + 1, edge = p0 - side + 1;
    int gcw = k == CFRHS ? r.i(1, 3) : 0;
    if (k == CFRHS && r.chance(.3)) gcw = 1;
    bool hasB = k == OFFDIAG || k == ADJDIAG || k == ADJOFF || k == CFDIAG;
    bool hasDx = k <= POFFDIAG || (k >= ADJDIAG && k <= PCFDIAG);
    bool adjb = k >= ADJDIAG && k <= PADJOFF;
    int dx = hasDx ? g.dx() : -1;
    Mode bm = adjb && btype == 4 ? POS : anyMode(r);
    int B = hasB ? g.faces("b", k == OFFDIAG ? aux : b, bm) : -1;
    int A = k == V1DIAG ? g.arr(cellArr<T>("a", aux, 0), anyMode(r)) : -1;
    int S = g.arr(stArr<T>("st", b, sgcw), anyMode(r), k != CFRHS);
    int U = -1, Q = -1;
    if (k == CFRHS) {
        U = g.arr(cellArr<T>("u", b, gcw), anyMode(r));
        Q = g.arr(cellArr<T>("rhs", b, 0), anyMode(r), true);
    }
    g.P << b.str() << " sgcw=" << sgcw;
    if (k == OFFDIAG || k == V1DIAG) g.P << " coefbox=" << aux.str();
    if (k >= ADJDIAG) g.P << " pbox=" << aux.str() << " dir=" << dir << " side=" << side;
    if (adjb) g.P << " btype=" << btype << " exOrder=" << order;
    if (cf) g.P << " r=" << ratio << " intOrder=" << order;
    g.P << " alpha=" << alpha << " beta=" << beta;
    if (k == ADJOFF || k == PADJOFF) g.P << " dirfactor=" << dirf << " neufactor=" << neuf;
    if (k == CFRHS) g.P << " gcw=" << gcw;

    auto bx = loHi<D>(b);
    auto pb = loHi<D>(aux);
    auto dr = dirArg<D>(dir);
#define SET(thfn, cellft, nodeft, head, tail)                                            \
    do {                                                                                 \
        if (!node) g.c.run = bindCpp<T>(TH(cd_stencil, thfn), cat(head, V(sgcw), tail)); \
        if (sizeof(T) == 8)                                                              \
            g.c.fort = node ? bindFort<T>(FT(nodeft), cat(head, tail))                   \
                            : bindFort<T>(FT(cellft), cat(head, V(sgcw), tail));         \
    } while (0)
    auto st = V(AR{S});
    switch (k) {
    case OFFDIAG: SET(offdiag, celldiffusionoffdiag, nodediffusionoffdiag, cat(bx, pb, V(AR{dx}, beta), ars<D>(B)), st); break;
    case POFFDIAG: SET(poisson_offdiag, cellpoissonoffdiag, nodepoissonoffdiag, cat(bx, V(AR{dx}, beta)), st); break;
    case V1DIAG: SET(v1diag, celldiffusionv1diag, nodediffusionv1diag, cat(bx, pb, V(alpha, AR{A})), st); break;
    case V2DIAG: SET(v2diag, celldiffusionv2diag, nodediffusionv2diag, cat(bx, V(alpha)), st); break;
    case PDIAG: SET(poisson_diag, cellpoissondiag, nodepoissondiag, bx, st); break;
    case ADJDIAG: SET(adj_diag, adjcelldiffusiondiag, adjnodediffusiondiag, cat(bx, pb, dr, V(side, btype, order, AR{dx}, beta), ars<D>(B)), st); break;
    case PADJDIAG: SET(adj_poisson_diag, adjcellpoissondiag, adjnodepoissondiag, cat(bx, pb, dr, V(side, btype, order, AR{dx}, beta)), st); break;
    case ADJOFF: SET(adj_offdiag, adjcelldiffusionoffdiag, adjnodediffusionoffdiag, cat(bx, pb, dr, V(side, btype, order, AR{dx}, dirf, neuf, beta), ars<D>(B)), st); break;
    case PADJOFF: SET(adj_poisson_offdiag, adjcellpoissonoffdiag, adjnodepoissonoffdiag, cat(bx, pb, dr, V(side, btype, order, AR{dx}, dirf, neuf, beta)), st); break;
    case CFDIAG: SET(adj_cf_diag, adjcelldiffusioncfdiag, adjnodediffusioncfdiag, cat(bx, pb, V(ratio), dr, V(side, order, AR{dx}, beta), ars<D>(B)), st); break;
    case PCFDIAG: SET(adj_poisson_cf_diag, adjcellpoissoncfdiag, adjnodepoissoncfdiag, cat(bx, pb, V(ratio), dr, V(side, order, AR{dx}, beta)), st); break;
    case CFOFF: SET(adj_cf_offdiag, adjcelldiffusioncfoffdiag, adjnodediffusioncfoffdiag, cat(bx, pb, V(ratio), dr, V(side, order)), st); break;
    case READJ: SET(readj_offdiag, readjcelldiffusionoffdiag, readjnodediffusionoffdiag, cat(bx, pb, dr, V(side)), st); break;
    case CFRHS: SET(adj_cf_bdryrhs, adjcelldiffusioncfbdryrhs, adjnodediffusioncfbdryrhs, cat(bx, pb, dr, V(side)), V(AR{S}, gcw, AR{U}, AR{Q})); break;
    default: break;
    }
#undef SET
    // the layer of cells the adjustment kernels work on
    Box layer = aux;
    layer.lo[dir] = layer.hi[dir] = pil;
    const int u = uEnt(dir, side), v = vEnt(dir, side);
    g.c.K = 32;
    bool acts = true;
    if (k == ADJDIAG || k == PADJDIAG) {
        acts = order == 2 && (btype == 4 || btype == 0);
        if (D == 1 && btype == 0) acts = false;
        if (D == 2 && btype == 4 && dir != 0) acts = false;
        if (D == 2 && k == PADJDIAG && btype == 0) acts = false;
    }
    if ((k == ADJOFF || k == PADJOFF) && D == 2 && btype == 4 && dir != 0) acts = false;
    g.c.nontrivial = acts;
    g.c.model = [=](Model<T>& M) {
        if (!acts) return;
        if (k <= PDIAG) {
            forBox(b, [&](const int* x) {
                At c(x);
                if (k == OFFDIAG || k == POFFDIAG) {
                    for (int d = 0; d < D; ++d) {
                        TN h = M.geti(dx, d), f = -TN(beta) / (h * h);
                        M.setw(S, c, 2 * d + 1, k == OFFDIAG ? f * M.get(B + d, c) : f);
                        M.setw(S, c, 2 * d + 2, k == OFFDIAG ? f * M.get(B + d, c.s(d, 1)) : f);
                    }
                } else {
                    TN s = TN(0);
                    for (int w = 1; w <= 2 * D; ++w) s = s + M.get(S, c, w);
                    s = -s;
                    if (k == V1DIAG) s = s + TN(alpha) * M.get(A, c);
                    if (k == V2DIAG) s = s + TN(alpha);
                    M.setw(S, c, 0, s);
                }
            });
            return;
        }
        TN h = dx >= 0 ? M.geti(dx, dir) : TN(1);
        forBox(layer, [&](const int* x) {
            At c(x), e = c.s(dir, edge - pil);
            // lazily fetched face coefficient (1 for the constant-coefficient kernels)
            auto bb = [&] { return B >= 0 ? M.get(B + dir, e) : TN(1); };
            auto get = [&](int w) { return M.get(S, c, w); };
            auto set = [&](int w, TN val) { M.setw(S, c, w, val); };
            const TN be = TN(beta);
            switch (k) {
            case ADJDIAG:
            case PADJDIAG:
                if (btype == 4)
                    set(0, get(0) - be * bb() / (h * (TN(3) * h + TN(16) * bb())));
                else
                    set(0, get(0) + be / (TN(3) * h * h) * bb());
                break;
            case ADJOFF:
            case PADJOFF:
                if (btype == 4 && order == 1)
                    set(u, get(u) * (TN(2) * h / (TN(4) * bb() + h)));
                else if (btype == 4) {
                    TN f = be * bb() / (h * (TN(3) * h + TN(16) * bb()));
                    set(u, -TN(9) * f);
                    set(v, get(v) - f);
                } else if (btype == 0 && order == 1)
                    set(u, get(u) * TN(dirf));
                else if (btype == 0) {
                    set(v, get(v) + get(u) / TN(3));
                    set(u, get(u) * TN(8) / TN(3));
                } else
                    set(u, TN(0));
                break;
            case CFDIAG:
            case PCFDIAG: {
                TN f = order == 1 ? TN(1) / TN(3)
                                  : TN(2) * TN(ratio - 1) / TN(ratio + 1);
                set(0, get(0) - be / (h * h) * f * bb());
                break;
            }
            case CFOFF:
                if (order == 1)
                    set(u, get(u) * TN(2) / TN(3));
                else {
                    set(v, get(v) - get(u) * TN(ratio - 1) / TN(ratio + 3));
                    set(u, get(u) * TN(8) / (TN(ratio + 1) * TN(ratio + 3)));
                }
                break;
            case READJ: set(u, TN(0)); break;
            case CFRHS:
                M.set(Q, c, M.get(Q, c) - get(u) * M.get(U, c.s(dir, 2 * side - 1)));
                break;
            default: break;
            }
        });
    };
    return g.done();
}

template <class T>
void regStencil(Registry<T>& R, bool thrust, bool node)
{
    auto add = [&](auto dc) {
        constexpr int D = decltype(dc)::value;
        for (int k = 0; k < NST; ++k) {
            if (thrust)
                R.push_back({stFamily(k), "", D, [k](Rng& r) { return genStencil<D, T>(r, StKind(k), false); }});
            if (node)
                R.push_back({"node", "", D, [k](Rng& r) { return genStencil<D, T>(r, StKind(k), true); }});
        }
    };
    add(std::integral_constant<int, 1>());
    add(std::integral_constant<int, 2>());
    add(std::integral_constant<int, 3>());
}
} // namespace vf
