// C09: the schedules SweepSchedule computes, for all directions, partitions, priority options and per-step limits.
#include "common.hh"
#include "SweepSchedule.hh"
static const U MS = 4096;
struct Shared { U nSteps[4]; U step[24][8], pos[24][8]; unsigned char send[4][4][MS], recv[4][4][MS], needSend[4][4][MS]; };
static Shared *sh;
extern "C" int sx_main() {
  int ranks = P("ranks", 1), A = P("angles", 8); MeshDef m; meshDef(P("mesh", 4), m);
  if (P("skew", 0)) for (int i = 0; i < m.nn; i++) { double a = m.x[i][0], b = m.x[i][1], c = m.x[i][2]; m.x[i][0] = a + 0.11 * b + 0.07 * c; m.x[i][1] = b + 0.13 * c - 0.05 * a; m.x[i][2] = c + 0.17 * a + 0.03 * b; }
  SerialMesh s; toSerial(m, s, P("rot", 1));
  std::vector<U> part = P("part", -1) >= 0 ? partFromCode(m.nt, ranks, P("part", 0)) : choosePart(m.nt, ranks);
  splitAndWrite(s, part, ranks, "m.pmesh"); basicGlobals(1, 1, A);
  if (P("symdir", 0)) symbolicDirections(P("symdir", 0));
  U first = P("first", 0), cnt = P("count", A), maxStep = P("maxstep", 0) ? P("maxstep", 0) : 1 + sx_choose(P("steps", 2), "maxCellsPerStep"), intra = P("intra", -1) < 0 ? sx_choose(5, "intraAngleP") : P("intra", 0), inter = P("inter", -1) < 0 ? sx_choose(3, "interAngleP") : P("inter", 0);
  mpiModel(); sh = (Shared *)sx_shared_alloc(sizeof(Shared)); sxmpi_init();
  sx_spawn(ranks); int argc = 0; MPI_Init(&argc, 0); int me; MPI_Comm_rank(MPI_COMM_WORLD, &me);
  g_tychoMesh = new TychoMesh("m.pmesh"); TychoMesh &T = *g_tychoMesh;
  for (int a = 0; a < A; a++) for (U c = 0; c < g_nCells; c++) for (U f = 0; f < 4; f++) { double o = T.getOmegaDotN(a, c, f); if (P("symdir", 0)) sx_assume(o > 1e-9 || o < -1e-9); }
  std::vector<U> ang(cnt); for (U a = 0; a < cnt; a++) ang[a] = first + a;
  SweepSchedule S(ang, maxStep, intra, inter);
  U n = S.nSteps(); sx_assert(n < MS, "the schedule has an absurd number of steps"); sh->nSteps[me] = n;
  for (U i = 0; i < n; i++) {
    U pos = 0; sx_assert(S.getWork(i).size() <= maxStep, "a step of the schedule exceeds the per-step limit");
    for (const SweepSchedule::Work &w : S.getWork(i)) { U c = w.getCell(), a = w.getAngle(); sx_assert(c < g_nCells && a >= first && a < first + cnt, "schedule contains a cell or direction out of range"); U g = T.getLGCell(c); sx_assert(sh->step[g][a] == 0, "a cell and direction is scheduled twice"); sh->step[g][a] = i + 1; sh->pos[g][a] = ++pos;
      for (U f = 0; f < 4; f++) if (T.getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE && T.getAdjRank(c, f) != TychoMesh::BAD_RANK && T.getOmegaDotN(a, c, f) > 1e-9) sh->needSend[me][T.getAdjRank(c, f)][i] = 1; }
    for (U p : S.getSendProcs(i)) { sx_assert(p < (U)ranks && p != (U)me, "schedule sends to a rank out of range"); sx_assert(!sh->send[me][p][i], "schedule sends twice to a rank in one step"); sh->send[me][p][i] = 1; }
    for (U p : S.getRecvProcs(i)) { sx_assert(p < (U)ranks && p != (U)me, "schedule receives from a rank out of range"); sx_assert(!sh->recv[me][p][i], "schedule receives twice from a rank in one step"); sh->recv[me][p][i] = 1; } }
  sxmpi_check_clean("after computing the schedule"); MPI_Barrier(MPI_COMM_WORLD);
  for (int r = 0; r < ranks; r++) { sx_assert(sh->nSteps[r] == n, "number of steps differs between ranks");
    for (U i = 0; i < n; i++) { sx_assert(sh->send[me][r][i] == sh->recv[r][me][i], "a scheduled send has no matching receive in the same step"); if (sh->needSend[me][r][i]) sx_assert(sh->send[me][r][i] == 1, "outgoing data of a step is not sent in that step"); if (sh->send[me][r][i]) sx_reach("scheduled send"); } }
  for (U c = 0; c < g_nCells; c++) for (U a = first; a < first + cnt; a++) { U g = T.getLGCell(c); sx_assert(sh->step[g][a] > 0, "a cell and direction is never scheduled");
    for (U f = 0; f < 4; f++) if (T.getOmegaDotN(a, c, f) < -1e-9) {
      if (T.getAdjCell(c, f) != TychoMesh::BOUNDARY_FACE) { U h = T.getLGCell(T.getAdjCell(c, f)); sx_assert(sh->step[h][a] < sh->step[g][a] || (sh->step[h][a] == sh->step[g][a] && sh->pos[h][a] < sh->pos[g][a]), "a cell is scheduled before its upwind neighbour"); sx_reach("local dependency"); }
      else if (T.getAdjRank(c, f) != TychoMesh::BAD_RANK) { const SerialMesh::CellData &cd = s.c_cellData[g]; U h = NONE;
        for (int k = 0; k < 4; k++) { const SerialMesh::FaceData &fd = s.c_faceData[cd.boundingFaces[k]]; U fn[3] = {fd.boundingNodes[0], fd.boundingNodes[1], fd.boundingNodes[2]}; bool has = false; for (int q = 0; q < 3; q++) { bool eq = true; for (int d = 0; d < 3; d++) if (m.x[fn[q]][d] != T.getNodeCoord(T.getCellNode(c, f), d)) eq = false; if (eq) has = true; } if (!has) h = fd.boundingCells[0] == g ? fd.boundingCells[1] : fd.boundingCells[0]; }
        sx_assert(h != NONE && h < (U)m.nt, "neighbour not found"); sx_assert(sh->step[h][a] > 0 && sh->step[h][a] < sh->step[g][a], "a cell is scheduled before the data of its upwind neighbour on another rank is received"); sx_reach("remote dependency"); } } }
  sx_join(); sx_assert(sxmpi_pending_messages() == 0, "messages are left in flight after computing the schedule"); sx_reach("checked");
  return 0;
}
