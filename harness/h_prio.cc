// C32: the order of work follows the priorities the user guide defines for each intra-angle and inter-angle option
#include "common.hh"
#include "ref.hh"
#include "SweepSchedule.hh"
#include "Priorities.hh"
struct Shared { unsigned char out[16][4][4]; U rank[16], step[16][4]; };
static Shared *sh; static const int MA = 4, NV = 8;
// Reference priorities. The documents leave some freedom (a leaf has level 0 or 1, a cell with children on both sides of a partition boundary), so
// there is one set per reading; an order is demanded only where all readings agree.
static U refp[NV][16][MA];
static int nv;
static void reference(const Ref &R, int n, int A, U intra, bool localToo) {
  nv = 0;
  for (int local = 0; local <= (localToo ? 1 : 0); local++) for (int base = 0; base < 2; base++) for (int mix = 0; mix < 2; mix++) {
    for (int a = 0; a < A; a++) { U lev[16], p[16]; for (int c = 0; c < n; c++) { lev[c] = base; p[c] = 0; }
      for (int k = 0; k < n; k++) for (int c = 0; c < n; c++) for (int f = 0; f < 4; f++) { int e = R.adj[c * 4 + f]; if (e < 0 || !sh->out[c][f][a]) continue; U l = (local && sh->rank[e] != sh->rank[c]) ? base : lev[e]; if (l + 1 > lev[c]) lev[c] = l + 1; }
      for (int c = 0; c < n; c++) sx_assume(lev[c] <= (U)n);   // no cycles
      if (intra == 1) for (int c = 0; c < n; c++) p[c] = lev[c];
      else for (int k = 0; k < n; k++) for (int c = 0; c < n; c++) { U off = 0, on = 0; bool anyOff = false;
        for (int f = 0; f < 4; f++) { int e = R.adj[c * 4 + f]; if (e < 0 || !sh->out[c][f][a]) continue;
          if (sh->rank[e] != sh->rank[c]) { U l = local ? base : lev[e]; U v = intra == 2 ? l : intra == 3 ? l + 1000 : l * 1000; anyOff = true; if (v > off) off = v; }
          else if (p[e] > 0) { U v = intra == 2 ? p[e] : p[e] - 1; if (v > on) on = v; } }
        p[c] = (mix && anyOff && intra != 2) ? off : off > on ? off : on; }
      for (int c = 0; c < n; c++) refp[nv][c][a] = p[c]; }
    nv++; } }
static bool above(int c, int a, int d, int b) { for (int i = 0; i < nv; i++) if (!(refp[i][c][a] > refp[i][d][b])) return false; return true; }
static bool level(int c, int a, int d, int b) { for (int i = 0; i < nv; i++) if (refp[i][c][a] != refp[i][d][b]) return false; return true; }
extern "C" int sx_main() {
  int ranks = P("ranks", 1), A = P("angles", 2); MeshDef m; meshDef(P("mesh", 7), m); SerialMesh s; toSerial(m, s, 1);
  std::vector<U> part = P("part", -1) >= 0 ? partFromCode(m.nt, ranks, P("part", 0)) : choosePart(m.nt, ranks);
  splitAndWrite(s, part, ranks, "m.pmesh"); basicGlobals(P("threads", 1), 1, A); if (P("symdir", 0)) symbolicDirections(P("symdir", 0)); else if (P("dirs", 0)) { static const double D[4][3] = {{0.8, 0.36, 0.48}, {-0.28, 0.576, 0.768}, {0.6, -0.64, 0.48}, {-0.36, -0.48, -0.8}}; for (int a = 0; a < A; a++) setDir(g_quadrature, a, D[a][0], D[a][1], D[a][2], 0); }
  g_intraAngleP = P("intra", 0) ? P("intra", 0) : 1 + sx_choose(4, "intraAngleP"); g_interAngleP = P("inter", -1) >= 0 ? P("inter", 0) : sx_choose(3, "interAngleP");
  U maxStep = P("steps", 0) ? 1 + sx_choose(P("steps", 0), "maxCellsPerStep") : 1000; g_maxCellsPerStep = maxStep;
  mpiModel(); sh = (Shared *)sx_shared_alloc(sizeof(Shared)); sxmpi_init();
  sx_spawn(ranks); int argc = 0; MPI_Init(&argc, 0); int me; MPI_Comm_rank(MPI_COMM_WORLD, &me);
  g_tychoMesh = new TychoMesh("m.pmesh"); TychoMesh &T = *g_tychoMesh; assumeNoGrazing();
  for (U c = 0; c < g_nCells; c++) { U g = T.getLGCell(c); sh->rank[g] = me; for (U f = 0; f < 4; f++) for (int a = 0; a < A; a++) if (T.getOmegaDotN(a, c, f) > 0) sh->out[g][f][a] = 1; else sh->out[g][f][a] = 0; }
  MPI_Barrier(MPI_COMM_WORLD); Ref R(m, A, 1); int n = m.nt; U nc = g_nCells;
  if (P("traverse", 0)) {
    reference(R, n, A, g_intraAngleP, !P("entire", 0));
    Mat2<U> pr(g_nCells, A); Priorities::calcPriorities(pr);
    U hi[MA]; for (int a = 0; a < A; a++) { hi[a] = 0; for (U c = 0; c < nc; c++) if (pr(c, a) > hi[a]) hi[a] = pr(c, a); }
    for (int a = 0; a < A; a++) for (U c = 0; c < nc; c++) for (U d = 0; d < nc; d++) { int gc = T.getLGCell(c), gd = T.getLGCell(d);
      if (above(gc, a, gd, a)) { sx_assert(pr(c, a) > pr(d, a), "the priorities of two cells of a direction are not ordered as documented"); sx_reach("order compared"); }
      if (level(gc, a, gd, a) && refp[0][gc][a] == 0) { sx_assert(pr(c, a) == pr(d, a), "cells without descendants on another rank do not have the same, lowest priority"); sx_reach("lowest priority"); }
      for (int b = 0; b < A; b++) if (a != b) {
        if (g_interAngleP == 0) { if (above(gc, a, gd, b)) { sx_assert(pr(c, a) > pr(d, b), "interleaved directions are not ordered by their intra-angle priorities"); sx_reach("interleaved"); } }
        else if (g_interAngleP == 1) { if (a > b) { sx_assert(pr(c, a) >= pr(d, b), "a direction with a larger index has a lower priority"); sx_reach("globally prioritized"); } }
        else { bool more = hi[a] > hi[b]; if (more) { sx_assert(pr(c, a) >= pr(d, b), "the cells of a direction with the higher maximum are not prioritized over those of another"); sx_reach("locally prioritized"); } } } }
  } else {
    reference(R, n, A, g_intraAngleP, false);
    std::vector<U> ang(A); for (int a = 0; a < A; a++) ang[a] = a;
    SweepSchedule S(ang, maxStep, g_intraAngleP, g_interAngleP);
    U hi[NV][MA]; for (int i = 0; i < nv; i++) for (int a = 0; a < A; a++) { hi[i][a] = 0; for (U c = 0; c < nc; c++) { U p = refp[i][T.getLGCell(c)][a]; if (p > hi[i][a]) hi[i][a] = p; } }
    U ns = S.nSteps();
    for (U i = 0; i < ns; i++) for (const SweepSchedule::Work &w : S.getWork(i)) { U c = w.getCell(), a = w.getAngle(); sx_assert(c < nc && a < (U)A, "schedule contains a cell or direction out of range"); sh->step[T.getLGCell(c)][a] = i + 1; }
    MPI_Barrier(MPI_COMM_WORLD);
    std::vector<int> done(16 * MA, 0);
    for (U i = 0; i < ns; i++) for (const SweepSchedule::Work &w : S.getWork(i)) { U c = w.getCell(); int a = w.getAngle(), gc = T.getLGCell(c);
      for (U d = 0; d < nc; d++) for (int b = 0; b < A; b++) { int gd = T.getLGCell(d); if (done[gd * MA + b] || (d == c && a == b)) continue;
        bool ready = true; for (int f = 0; f < 4; f++) { int e = R.adj[gd * 4 + f]; if (e < 0 || sh->out[gd][f][b]) continue; if (sh->rank[e] == (U)me ? !done[e * MA + b] : !(sh->step[e][b] && sh->step[e][b] < i + 1)) ready = false; }
        if (!ready) continue;
        bool beats;
        if (a == b || g_interAngleP == 0) beats = above(gd, b, gc, a);
        else if (g_interAngleP == 1) beats = b > a;
        else { beats = true; for (int k = 0; k < nv; k++) if (!(hi[k][b] > hi[k][a])) beats = false; }
        sx_assert(!beats, "a cell and direction is scheduled while another with a higher priority is ready"); sx_reach(a == b ? "choice within a direction" : "choice between directions"); }
      done[gc * MA + a] = 1; }
    sx_reach("order compared");
  }
  sx_join(); sx_reach("done"); return 0;
}
