// C21: the operators between angular and scalar flux, for arbitrary fluxes, weights and cross sections.
#include "common.hh"
#include "Util.hh"
template<class Q> static auto setWt(Q *q, U a, double w, int) -> decltype((void)q->c_w[0], true) { q->c_w[a] = w; return true; }
template<class Q> static bool setWt(Q *, U, double, long) { return false; }
extern "C" int sx_main() {
  U nc = P("cells", 0) ? P("cells", 0) : 1 + sx_choose(3, "cells"), ng = P("groups", 0) ? P("groups", 0) : 1 + sx_choose(3, "groups"), na = P("angles", 0) ? P("angles", 0) : 1 + sx_choose(3, "angles"), T = P("threads", 1);
  basicGlobals(T, ng, na); if (na > 8) g_quadrature = new Quadrature(4), g_nAngles = na; g_nCells = nc; mpiModel(); std::vector<double> w(na); for (U a = 0; a < na; a++) { w[a] = P("symwt", 1) ? sx_real_in("weight", 0.01, 10) : g_quadrature->getWt(a); if (P("symwt", 1) && !setWt(g_quadrature, a, w[a], 0)) w[a] = g_quadrature->getWt(a); }
  g_sigmaS.resize(nc); g_sigmaT.resize(nc); for (U c = 0; c < nc; c++) { g_sigmaS[c] = sx_real_in("sigmaS", 0, 100); g_sigmaT[c] = 1000 + c; }
  PsiData psi, src, tot, exp; PhiData phi, phi2, sc; U n = psi.size(), k = phi.size(); sx_assert(n == nc * na * 4 * ng && k == nc * 4 * ng, "sizes");
  for (U i = 0; i < n; i++) { psi[i] = sx_real_in("psi", -100, 100); src[i] = sx_real_in("source", -100, 100); tot[i] = 17; exp[i] = 19; } for (U i = 0; i < k; i++) { phi[i] = sx_real_in("phi", -100, 100); phi2[i] = 23; sc[i] = 29; }
  std::vector<double> s0(n), p0(n), f0(k); for (U i = 0; i < n; i++) s0[i] = src[i], p0[i] = psi[i]; for (U i = 0; i < k; i++) f0[i] = phi[i];
  bool alias = sx_choose(2, "in_place"); // the total source may replace the source
  Util::psiToPhi(phi2, psi); Util::phiToPsi(phi, exp); Util::calcTotalSource(src, phi, alias ? src : tot); PsiData &total = alias ? src : tot; if (alias) for (U i = 0; i < n; i++) ; Util::operatorS(phi, sc); PhiData inpl; for (U i = 0; i < k; i++) inpl[i] = phi[i]; Util::operatorS(inpl, inpl);
  for (U c = 0; c < nc; c++) for (U v = 0; v < 4; v++) for (U g = 0; g < ng; g++) { double s = 0; U j = (c * 4 + v) * ng + g;
    for (U a = 0; a < na; a++) { U i = ((c * na + a) * 4 + v) * ng + g; s += p0[i] * w[a]; sx_assert(sx_same(exp[i], f0[j]), "the expanded flux is not the scalar flux in every direction"); sx_assert_near(total(g, v, a, c), s0[i] + g_sigmaS[c] * f0[j] * 0.079577471545947667884, 1e-7, "the total source is not the external source plus scattering"); if (!alias) sx_assert(sx_same(src[i], s0[i]), "the external source was changed"); sx_assert(sx_same(psi[i], p0[i]), "the flux was changed"); }
    sx_assert_near(phi2(g, v, c), s, 1e-7, "the scalar flux is not the weighted sum over directions"); sx_assert_near(sc(g, v, c), g_sigmaS[c] * f0[j] * 0.079577471545947667884, 1e-7, "the scattering operator"); sx_assert_near(inpl(g, v, c), sc(g, v, c), 1e-7, "the scattering operator in place"); sx_assert(sx_same(phi[j], f0[j]), "the scalar flux was changed"); }
  for (U i = 0; i < k; i++) phi2[i] = 31; Util::psiToPhi(phi2, psi); PhiData p3; Util::psiToPhi(p3, psi); for (U i = 0; i < k; i++) sx_assert_near(phi2[i], p3[i], 1e-9, "the scalar flux depends on what the array held before");
  sx_reach("operators"); return 0;
}
