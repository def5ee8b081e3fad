// C27: source iteration and block-Jacobi loops stop exactly when converged or at the limit. The sweep inside the loop is replaced by one that returns
// arbitrary iterates; the loops, norms, reductions and counters are the real ones.
#include "common.hh"
#include "SourceIteration.hh"
#include "SweeperPBJ.hh"
#include "GraphTraverser.hh"
#include "Problem.hh"
#include "Util.hh"
static const int MAXI = 8;
struct Shared { double val[MAXI][2][2]; U calls[4], ended[4]; };      // val[iterate][rank][free entry]
static Shared *sh; static int me, R, kind; static U limit; static double tol; static double wtsum;
extern int sxpetsc_iters, sxpetsc_maxit, sxpetsc_solves; extern double sxpetsc_rtol;
// flux of an iterate: entry 0 and 1 of cell 0 are free, everything else is fixed
static double entry(int it, int r, int v) { return it < 0 ? 0.0 : v < P("free", 1) ? sh->val[it][r][v] : 0.125 * (v + 1); }
static double ab(double x) { return x < 0 ? -x : x; }
// stop rule on iterates it-1 and it: 0 = must go on, 1 = must stop, 2 = on the edge
static int rule(int it) { double e = 0, n = 0; for (int r = 0; r < R; r++) for (int v = 0; v < 4; v++) { e += ab(entry(it, r, v) - entry(it - 1, r, v)); n += ab(entry(it, r, v)); } 
  if (e < tol * (1 - 1e-9) * n) return 1; if (e > tol * (1 + 1e-9) * n) return 0; return 2; }
static void nextIterate(PsiData &psi) {
  U k = sh->calls[me]++; sx_assert(k < limit, "more sweeps than the iteration limit allows");
  if (k > 0) { sx_assert(rule(k - 1) != 1, "the loop went on although the relative change was below the tolerance"); sx_reach("went on"); }
  for (U c = 0; c < g_nCells; c++) for (U a = 0; a < g_nAngles; a++) for (U v = 0; v < 4; v++) for (U g = 0; g < g_nGroups; g++) psi(g, v, a, c) = entry(k, me, v);
}
namespace Problem { void getSource(PsiData &q) { q.setToValue(0.0); } double hatL2Error(const PsiData &) { return 0; } }
namespace Util { void sweepLocal(PsiData &psi, const PsiData &, PsiBoundData &) { nextIterate(psi); } }
struct Fake : SweeperAbstract { void sweep(PsiData &psi, const PsiData &, bool) { nextIterate(psi); } void solve() {} };
struct Half : SweeperAbstract { U n = 0; void sweep(PsiData &psi, const PsiData &q, bool) { n++; for (U c = 0; c < g_nCells; c++) for (U a = 0; a < g_nAngles; a++) for (U v = 0; v < 4; v++) for (U g = 0; g < g_nGroups; g++) psi(g, v, a, c) = 0.5 * q(g, v, a, c); } void solve() {} };
extern "C" int sx_main() {
  R = P("ranks", 1); kind = P("kind", 0); MeshDef m; meshDef(R == 1 ? 0 : 1, m); SerialMesh s; toSerial(m, s, 1); std::vector<U> part(m.nt); if (R == 2) part[1] = 1;
  splitAndWrite(s, part, R, "m.pmesh"); basicGlobals(1, P("groups", 1), 8);
  U it = P("limit", 3); limit = kind == 0 ? it : it - 1; static const double tols[3] = {0.25, 0.0625, 0.9}; tol = tols[sx_choose(P("tols", 1), "tolerance")];
  if (P("nolimit", 0)) { it = sx_choose(3, "limit"); limit = kind == 0 ? it : it ? it - 1 : 0; }
  g_sigmaT.assign(m.nt, 1.0); g_sigmaS.assign(m.nt, 0.0); g_mpiType = MPIType_TychoTwoSided;
  if (kind == 0) { g_iterMax = it; g_errMax = tol; } else { g_ddIterMax = it; g_ddErrMax = tol; g_iterMax = 1; g_errMax = 0; g_useSourceIteration = true; }
  mpiModel(); sh = (Shared *)sx_shared_alloc(sizeof(Shared)); sxmpi_init();
  for (U i = 0; i < it; i++) for (int r = 0; r < R; r++) for (int v = 0; v < P("free", 1); v++) sh->val[i][r][v] = sx_real_in("flux", P("neg", 0) ? -2 : 0.25, 2);
  sx_spawn(R); int argc = 0; MPI_Init(&argc, 0); MPI_Comm_rank(MPI_COMM_WORLD, &me); g_tychoMesh = new TychoMesh("m.pmesh"); g_sigmaT.assign(g_nCells, 1.0); g_sigmaS.assign(g_nCells, 0.0); g_graphTraverserForward = 0;
  if (kind == 4) { // Krylov form: the tolerance and limit of the deck reach the solver, its iteration count is returned
    Half f; PsiData psi, q; psi.setToValue(0.0); for (U c = 0; c < g_nCells; c++) for (U a = 0; a < 8; a++) for (U v = 0; v < 4; v++) for (U g = 0; g < g_nGroups; g++) q(g, v, a, c) = sh->val[0][me][0] + v;
    for (U c = 0; c < g_nCells; c++) g_sigmaS[c] = 0.5; g_errMax = tol; g_iterMax = 37; sxpetsc_iters = 11;
    U k = SourceIteration::krylov(f, psi, q); sx_assert(sxpetsc_solves == 1, "the Krylov solver is not run exactly once"); sx_assert(k == 11, "the number of Krylov iterations returned is wrong"); sx_assert(sxpetsc_rtol == tol && sxpetsc_maxit == 37, "tolerance or iteration limit does not reach the Krylov solver");
    // psi = (q + S phi) / 2 with phi = the weighted sum of psi, here 4 pi psi: psi = q / 2 + psi / 4
    for (U c = 0; c < g_nCells; c++) for (U a = 0; a < 8; a++) for (U v = 0; v < 4; v++) for (U g = 0; g < g_nGroups; g++) sx_assert_near(psi(g, v, a, c), (sh->val[0][me][0] + v) / 1.5, 1e-7, "the flux is not the solution of the Krylov form");
    sx_join(); sx_reach("done"); return 0; }
  U n = 0; PsiData psi, q; PsiData *res = &psi; psi.setToValue(0.0); q.setToValue(0.0);
  if (kind == 0) { Fake f; n = SourceIteration::fixedPoint(f, psi, q); sx_assert(n == sh->calls[me], "the number of iterations returned is not the number of sweeps made"); }
  else if (kind == 1) { SweeperPBJ *w = new SweeperPBJ; w->sweep(psi, q, false); }
  else if (kind == 2) { SweeperPBJOuter *w = new SweeperPBJOuter; w->solve(); res = &w->getPsi(); }
  else if (kind == 3) { SweeperPBJSI *w = new SweeperPBJSI; w->solve(); res = &w->getPsi(); }
  n = sh->calls[me]; MPI_Barrier(MPI_COMM_WORLD);
  for (int r = 0; r < R; r++) sx_assert(sh->calls[r] == n, "ranks made a different number of iterations");
  if (n < limit) { sx_assert(n > 0, "no iteration was made"); sx_assert(rule(n - 1) != 0, "the loop stopped before the limit although the relative change was not below the tolerance"); sx_reach("converged"); } else sx_reach("limit reached");
  for (U v = 0; v < 4; v++) for (U c = 0; c < g_nCells; c++) for (U a = 0; a < g_nAngles; a++) for (U g = 0; g < g_nGroups; g++) sx_assert_near((*res)(g, v, a, c), n ? entry(n - 1, me, v) : 0, 1e-9, "the result is not the last iterate");
  sxmpi_check_clean("after the iteration"); sx_join(); sx_assert(sxmpi_pending_messages() == 0, "messages are left in flight"); sx_reach("done");
  return 0;
}
