// Face fluxes and residual/operator application (Thrust kernels, their Fortran references
// and the node-centred Fortran kernels).
#pragma once
#include "decl.hpp"

FDECL(celldiffusionflux)
FDECL(cellpoissonflux)
FDECL(celldiffusionv1res)
FDECL(celldiffusionv2res)
FDECL(cellpoissonv1res)
FDECL(celldiffusionv1apply)
FDECL(celldiffusionv2apply)
FDECL(cellpoissonv2apply)
FDECL(nodediffusionflux)
FDECL(nodepoissonflux)
FDECL(nodediffusionv1apply)
FDECL(nodediffusionv2apply)
FDECL(nodepoissonapply)

namespace vf
{
template <int D, class T>
Case<T> genFlux(Rng& r, bool poisson, bool node)
{
    Gen<D, T> g(r, node ? "node" : "flux",
                std::string(node ? "node" : "cell") + (poisson ? "poisson" : "diffusion") + "flux");
    Box b = randBox(r, D);
    int gcw = r.chance(.5) ? 1 : ghosts(r, 2, 4);
    Mode m = anyMode(r);
    int dx = g.dx();
    int B = poisson ? -1 : g.faces("b", b, anyMode(r));
    int u = g.arr(cellArr<T>("u", b, gcw), m);
    int f = g.faces("flux", b, UNI, 0, true);
    g.P << b.str() << " gcw=" << gcw;
    if (poisson) {
        auto args = cat(loHi<D>(b), V(AR{dx}, gcw, AR{u}), ars<D>(f));
        if (!node) g.c.run = bindCpp<T>(TH(cdf, poisson_flux), args);
        if (sizeof(T) == 8)
            g.c.fort = node ? bindFort<T>(FT(nodepoissonflux), args) : bindFort<T>(FT(cellpoissonflux), args);
    } else {
        auto args = cat(loHi<D>(b), V(AR{dx}), ars<D>(B), V(gcw, AR{u}), ars<D>(f));
        if (!node) g.c.run = bindCpp<T>(TH(cdf, flux), args);
        if (sizeof(T) == 8)
            g.c.fort = node ? bindFort<T>(FT(nodediffusionflux), args) : bindFort<T>(FT(celldiffusionflux), args);
    }
    g.c.model = [=](Model<T>& M) {
        for (int d = 0; d < D; ++d) {
            Box fb = b;
            fb.hi[d]++;
            TN h = M.geti(dx, d);
            forBox(fb, [&](const int* x) {
                At c(x);
                TN v = (M.get(u, c) - M.get(u, c.s(d, -1))) / h;
                M.set(f + d, c, poisson ? v : M.get(B + d, c) * v);
            });
        }
    };
    return g.done();
}

enum ApplyKind { V1RES, V2RES, PRES, V1APPLY, V2APPLY, PAPPLY, NV1, NV2, NP };
template <int D, class T>
Case<T> genApply(Rng& r, ApplyKind k)
{
    static const char* nm[] = {"celldiffusionv1res", "celldiffusionv2res", "cellpoissonv1res",
                               "celldiffusionv1apply", "celldiffusionv2apply", "cellpoissonv2apply",
                               "nodediffusionv1apply", "nodediffusionv2apply", "nodepoissonapply"};
    bool node = k >= NV1;
    Gen<D, T> g(r, node ? "node" : "apply", nm[k]);
    Box b = randBox(r, D);
    auto gw = [&] { return r.chance(.3) ? 0 : ghosts(r, 0, 3); };
    int agcw = gw(), ugcw = gw(), fgcw = gw(), rgcw = gw();
    bool hasA = k == V1RES || k == V1APPLY || k == NV1;
    bool hasU = hasA || k == V2RES || k == V2APPLY || k == NV2;
    bool hasF = k == V1RES || k == V2RES || k == PRES || node;
    T alpha = coef<T>(r), beta = coef<T>(r), na = coef<T>(r), nb = coef<T>(r);
    Mode m = anyMode(r);
    int dx = g.dx();
    int A = hasA ? g.arr(cellArr<T>("a", b, agcw), anyMode(r)) : -1;
    int U = hasU ? g.arr(cellArr<T>("u", b, ugcw), m) : -1;
    int F = hasF ? g.arr(cellArr<T>("f", b, fgcw), anyMode(r)) : -1;
    int X = g.faces("flux", b, anyMode(r));
    int R = g.arr(cellArr<T>("res", b, rgcw), UNI, true);
    g.P << b.str() << " alpha=" << alpha << " beta=" << beta << " agcw=" << agcw << " ugcw=" << ugcw
        << " fgcw=" << fgcw << " rgcw=" << rgcw;
    if (node) g.P << " a=" << na << " b=" << nb;
    auto bx = pairs<D>(b);
    auto set = [&](auto th, fort_t ft, auto args) {
        if constexpr (!std::is_same_v<decltype(th), int>) g.c.run = bindCpp<T>(th, args);
        if (sizeof(T) == 8) g.c.fort = bindFort<T>(ft, args);
    };
    switch (k) {
    case V1RES:
        set(TH(cd_apply, diffusion_v1_res), FT(celldiffusionv1res),
            cat(bx, V(alpha, beta, AR{dx}, agcw, AR{A}, ugcw, AR{U}, fgcw, AR{F}), ars<D>(X), V(rgcw, AR{R})));
        break;
    case V2RES:
        set(TH(cd_apply, diffusion_v2_res), FT(celldiffusionv2res),
            cat(bx, V(alpha, beta, AR{dx}, ugcw, AR{U}, fgcw, AR{F}), ars<D>(X), V(rgcw, AR{R})));
        break;
    case PRES:
        set(TH(cd_apply, poisson_v1_res), FT(cellpoissonv1res),
            cat(bx, V(beta, AR{dx}, fgcw, AR{F}), ars<D>(X), V(rgcw, AR{R})));
        break;
    case V1APPLY:
        set(TH(cd_apply, diffusion_v1_apply), FT(celldiffusionv1apply),
            cat(bx, V(alpha, beta, AR{dx}, agcw, AR{A}, ugcw, AR{U}), ars<D>(X), V(rgcw, AR{R})));
        break;
    case V2APPLY:
        set(TH(cd_apply, diffusion_v2_apply), FT(celldiffusionv2apply),
            cat(bx, V(alpha, beta, AR{dx}, ugcw, AR{U}), ars<D>(X), V(rgcw, AR{R})));
        break;
    case PAPPLY:
        set(TH(cd_apply, poisson_v2_apply), FT(cellpoissonv2apply),
            cat(bx, V(beta, AR{dx}), ars<D>(X), V(rgcw, AR{R})));
        break;
    case NV1:
        set(0, FT(nodediffusionv1apply),
            cat(bx, V(alpha, beta, AR{dx}, agcw, AR{A}, ugcw, AR{U}, fgcw, AR{F}), ars<D>(X),
                V(na, nb, rgcw, AR{R})));
        break;
    case NV2:
        set(0, FT(nodediffusionv2apply),
            cat(bx, V(alpha, beta, AR{dx}, ugcw, AR{U}, fgcw, AR{F}), ars<D>(X), V(na, nb, rgcw, AR{R})));
        break;
    case NP:
        set(0, FT(nodepoissonapply),
            cat(bx, V(beta, AR{dx}, fgcw, AR{F}), ars<D>(X), V(na, nb, rgcw, AR{R})));
        break;
    }
    g.c.model = [=](Model<T>& M) {
        forBox(b, [&](const int* x) {
            At c(x);
            TN div = TN(0);
            for (int d = 0; d < D; ++d)
                div = div + (M.get(X + d, c.s(d, 1)) - M.get(X + d, c)) / M.geti(dx, d);
            TN bd = TN(beta) * div;
            TN au = hasU ? (hasA ? TN(alpha) * M.get(A, c) * M.get(U, c) : TN(alpha) * M.get(U, c)) : TN(0);
            TN v;
            if (node)
                v = TN(nb) * M.get(F, c) + TN(na) * (au - bd);
            else if (hasF)
                v = M.get(F, c) + bd - au;
            else
                v = au - bd;
            M.set(R, c, v);
        });
    };
    return g.done();
}

template <class T>
void regFluxApply(Registry<T>& R, bool thrust, bool node)
{
    auto add = [&](auto dc) {
        constexpr int D = decltype(dc)::value;
        for (int p = 0; p < 2; ++p) {
            if (thrust)
                R.push_back({"flux", "", D, [p](Rng& r) { return genFlux<D, T>(r, p, false); }});
            if (node)
                R.push_back({"node", "", D, [p](Rng& r) { return genFlux<D, T>(r, p, true); }});
        }
        if (thrust)
            for (int k = V1RES; k <= PAPPLY; ++k)
                R.push_back({"apply", "", D, [k](Rng& r) { return genApply<D, T>(r, ApplyKind(k)); }});
        if (node)
            for (int k = NV1; k <= NP; ++k)
                R.push_back({"node", "", D, [k](Rng& r) { return genApply<D, T>(r, ApplyKind(k)); }});
    };
    add(std::integral_constant<int, 1>());
    add(std::integral_constant<int, 2>());
    add(std::integral_constant<int, 3>());
}
} // namespace vf
