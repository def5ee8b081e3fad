// C25: cross sections and the manufactured source; C29: the reported error of the solution.
#include "common.hh"
#include "Problem.hh"
#include "Util.hh"
template<class Q> static auto setCoord(Q *q, U n, U d, double x, int) -> decltype((void)q->c_nodeCoords(0, 0), true) { q->c_nodeCoords(n, d) = x; return true; }
template<class Q> static bool setCoord(Q *, U, U, double, long) { return false; }
static double tol(double) { return 1e-7; }
extern "C" int sx_main() {
  int kind = P("kind", 0), R = P("ranks", 1); MeshDef m; meshDef(P("mesh", 1), m); SerialMesh s; 
  if (P("scale", 0)) for (int i = 0; i < m.nn; i++) for (int d = 0; d < 3; d++) m.x[i][d] = 50 + 20 * (m.x[i][d] - 0.4) + (d + 1) * 0.013;
  toSerial(m, s, 1); std::vector<U> mat(m.nt, 1); if (kind == 0) for (int c = 0; c < m.nt; c++) s.c_cellData[c].materialIndex = mat[c] = sx_u64("material");
  std::vector<U> part = choosePart(m.nt, R); splitAndWrite(s, part, R, "m.pmesh"); basicGlobals(1, P("groups", 2), P("angles", kind ? 2 : 1)); mpiModel();
  double *sh = (double *)sx_shared_alloc(4096); std::vector<double> val(m.nt * g_nAngles * 4 * g_nGroups); if (kind == 3) for (double &v : val) v = sx_real_in("psi", -10, 10);
  sx_spawn(R); int argc = 0; MPI_Init(&argc, 0); g_tychoMesh = new TychoMesh("m.pmesh"); TychoMesh &T = *g_tychoMesh;
  if (kind == 0) { double x[4]; static const char *N[] = {"sigmaT1", "sigmaS1", "sigmaT2", "sigmaS2"}; for (int i = 0; i < 4; i++) x[i] = sx_opaque(N[i]); int bad = 0; for (U c = 0; c < g_nCells; c++) { U x = mat[T.getLGCell(c)]; bad |= (x != 1) & (x != 2); }
    std::vector<double> t(P("dirty", 5), 3.0), u(P("dirty", 5) ? 1 : 0, 4.0); sx_set("abort_ok", 1); Problem::createCrossSections(t, u, x[0], x[1], x[2], x[3]); sx_set("abort_ok", 0);
    sx_assert(!bad, "an unknown material was accepted"); sx_assert(t.size() == g_nCells && u.size() == g_nCells, "one cross section per cell");
    for (U c = 0; c < g_nCells; c++) { U g = T.getLGCell(c); sx_assert((mat[g] == 1) | (mat[g] == 2), "an unknown material was accepted"); bool one = mat[g] == 1; sx_assert(sx_same(t[c], one ? x[0] : x[2]), "total cross section of a cell"); sx_assert(sx_same(u[c], one ? x[1] : x[3]), "scattering cross section of a cell"); } sx_reach("cross sections"); }
  if (kind == 1 || kind == 2) { // one vertex of cell 0 anywhere, or at the apex
    g_sigmaT.resize(g_nCells); g_sigmaS.resize(g_nCells); for (U c = 0; c < g_nCells; c++) { g_sigmaT[c] = kind == 2 ? 2.5 * sx_choose(3, "sigmaT") : sx_real_in("sigmaT", 0, 100); g_sigmaS[c] = kind == 2 ? 0.75 * sx_choose(2, "sigmaS") : sx_real_in("sigmaS", 0, 100); }
    U node = T.getCellNode(0, P("vertex", 1)); double p[3] = {50, 50, 50}; if (kind == 1) { for (int d = 0; d < 3; d++) p[d] = sx_real_in("coordinate", -100, 200); double q = (p[0] - 50) * (p[0] - 50) + (p[1] - 50) * (p[1] - 50) + (p[2] - 50) * (p[2] - 50); sx_assume(q > 1e-6); }
    for (int d = 0; d < 3; d++) if (!setCoord(g_tychoMesh, node, d, p[d], 0)) { sx_reach("done"); return 0; }
    if (P("symdir", 0)) symbolicDirections(1); PsiData src; for (U i = 0; i < src.size(); i++) src[i] = 77; Problem::getSource(src);
    for (U c = 0; c < g_nCells; c++) for (U v = 0; v < 4; v++) { U n = T.getCellNode(c, v); double x = T.getNodeCoord(n, 0) - 50, y = T.getNodeCoord(n, 1) - 50, z = T.getNodeCoord(n, 2) - 50, r2 = x * x + y * y + z * z, r = std::sqrt(r2); bool in = r <= 30;
      for (U a = 0; a < g_nAngles; a++) for (U g = 0; g < g_nGroups; g++) { double o = g_quadrature->getXi(a) * x + g_quadrature->getEta(a) * y + g_quadrature->getMu(a) * z, q = src(g, v, a, c);
        if (!in) { sx_assert(sx_same(q, 0.0), "the source outside the hat"); if (n == node) sx_reach("outside"); continue; }
        if (n == node && kind == 2) { sx_assert(q == q && q - q == 0, "the source is not a finite number at the apex of the hat"); sx_assert_near(q, g_sigmaT[c] - g_sigmaS[c], 1e-7, "the source at the apex of the hat"); sx_reach("apex"); continue; }
        // omega . grad psi + (sigmaT - sigmaS) psi for psi = 1 - r / 30
        sx_assert_near(q * r * 30, -o + (g_sigmaT[c] - g_sigmaS[c]) * (30 * r - r2), 1e-6, "the source is not the transport operator applied to the hat flux"); if (n == node) sx_reach("inside"); } } }
  if (kind == 3) { PsiData psi; U na = g_nAngles, ng = g_nGroups; for (U c = 0; c < g_nCells; c++) for (U a = 0; a < na; a++) for (U v = 0; v < 4; v++) for (U g = 0; g < ng; g++) psi(g, v, a, c) = val[((T.getLGCell(c) * na + a) * 4 + v) * ng + g];
    double num = 0, den = 0; for (int c = 0; c < m.nt; c++) { double x[3] = {0}; for (int v = 0; v < 4; v++) for (int d = 0; d < 3; d++) x[d] += (m.x[m.t[c][v]][d] - 50) / 4; double r = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), e = r <= 30 ? 1 - r / 30 : 0; sx_reach(r <= 30 ? "inside" : "outside");
      for (U a = 0; a < na; a++) for (U g = 0; g < ng; g++) { double p = 0; for (int v = 0; v < 4; v++) p += val[((c * na + a) * 4 + v) * ng + g] / 4; num += (p - e) * (p - e); den += p * p; } }
    sx_assume(den > 1e-3); double e = Problem::hatL2Error(psi); sx_assert_near(e * e * den, num, 1e-6, "the reported error is not the relative L2 error of the cell averages"); sx_assert(e >= 0, "the reported error is negative"); sh[sx_rank()] = e; MPI_Barrier(MPI_COMM_WORLD); sx_assert(sx_same(sh[0], e), "ranks report different errors"); sxmpi_check_clean("after computing the error"); sx_reach("error"); }
  if (kind == 4) { PsiData psi; U n = psi.size(), ng = g_nGroups; std::vector<double> v(n); for (U i = 0; i < n; i++) { bool free = i / ng < (U)P("free", 3) || i / ng >= n / ng - (U)P("tail", 1); v[i] = free ? sx_real_in("psi", -10, 10) : 0.25; psi[i] = v[i]; } sx_set("lazyabs", 0);
    double d = Util::diffBetweenGroups(psi), M = 0, D = 0; int hitD = 0; for (U i = 0; i < n; i += ng) { double a = v[i]; if (a < 0) a = -a; if (a > M) M = a; for (U g = 1; g < ng; g++) { double e = v[i] - v[i + g]; if (e < 0) e = -e; if (e > D) D = e; } } (void)hitD;
    sx_assert_near(d * M, D, 1e-6, "the reported difference between groups is not the largest relative difference"); sx_reach("group difference"); }
  (void)tol; sx_join(); sx_reach("done"); return 0;
}
