// C01 / C02 / C26 / C28: GraphTraverser on real meshes, all directions, priorities, partitions, message timings.
#include "common.hh"
#include "GraphTraverser.hh"
static const U MAXS = 128, MAXA = 4, W = 2;                     // global sides, directions, words of payload per packet
struct Shared { uint64_t sent[MAXS * MAXA], got[MAXS * MAXA]; double val[MAXS * MAXA * W]; uint64_t total; };
static Shared *sh, *shs[4];
class Check : public TraverseData {
public:
  bool backward, comm; U nA; std::vector<int> done; std::vector<double> out, side; std::vector<int> sideGot; std::vector<U> prio; U order;
  int nprio;
  Check(bool b, bool c) : backward(b), comm(c), nA(g_nAngles), done(g_nCells * g_nAngles), out(g_nCells * 4 * g_nAngles * W), side((g_tychoMesh->getNSides() + 1) * g_nAngles * W), sideGot((g_tychoMesh->getNSides() + 1) * g_nAngles), prio(g_nCells * g_nAngles), order(0) {
    for (U i = 0; i < prio.size(); i++) { prio[i] = (i < (U)P("symprio", 0)) ? sx_u64("priority") : i * 7 % 5; } }
  bool outw(U a, U c, U f) { return backward ? g_tychoMesh->isIncoming(a, c, f) : g_tychoMesh->isOutgoing(a, c, f); }
  bool inw(U a, U c, U f) { return backward ? g_tychoMesh->isOutgoing(a, c, f) : g_tychoMesh->isIncoming(a, c, f); }
  const char *getData(UINT c, UINT f, UINT a) {
    sx_assert(c < g_nCells && f < 4 && a < nA, "data requested for an index out of range");
    sx_assert(done[c * nA + a] == 1, "outgoing data taken before the cell was computed");
    return (const char *)&out[((c * 4 + f) * nA + a) * W]; }
  void setSideData(UINT s, UINT a, const char *d) {
    sx_assert(s < g_tychoMesh->getNSides() && a < nA, "received data for a side or direction out of range");
    sx_assert(!sideGot[s * nA + a], "a rank-boundary packet was delivered twice"); sideGot[s * nA + a] = 1;
    memcpy(&side[(s * nA + a) * W], d, W * 8);
    U g = g_tychoMesh->getLGSide(s); sh->got[g * MAXA + a]++;
    sx_assert(sh->sent[g * MAXA + a] == 1, "data delivered for a side whose upwind cell has not been computed");
    for (U i = 0; i < W; i++) sx_assert(sx_same(side[(s * nA + a) * W + i], sh->val[(g * MAXA + a) * W + i]), "packet content, face or direction differs from what the neighbour produced"); }
  UINT getPriority(UINT c, UINT a) { sx_assert(c < g_nCells && a < nA, "priority of an index out of range"); return prio[c * nA + a]; }
  void update(UINT c, UINT a, UINT adj[4], BoundaryType b[4]) {
    sx_assert(c < g_nCells && a < nA, "update of an index out of range");
    sx_assert(done[c * nA + a] == 0, "cell computed twice for one direction");
    for (U f = 0; f < 4; f++) {
      U n = g_tychoMesh->getAdjCell(c, f), r = g_tychoMesh->getAdjRank(c, f); bool o = g_tychoMesh->isOutgoing(a, c, f);
      BoundaryType e = n != TychoMesh::BOUNDARY_FACE ? (o ? BoundaryType_OutInt : BoundaryType_InInt) : r != TychoMesh::BAD_RANK ? (o ? BoundaryType_OutIntBdry : BoundaryType_InIntBdry) : (o ? BoundaryType_OutExtBdry : BoundaryType_InExtBdry);
      sx_assert(b[f] == e, "boundary type given to the cell update is wrong");
      if (n != TychoMesh::BOUNDARY_FACE) sx_assert(adj[f] == n, "adjacent cell given to the cell update is wrong");
      else if (r != TychoMesh::BAD_RANK) sx_assert(adj[f] == g_tychoMesh->getSide(c, f), "side given to the cell update is wrong");
      if (!inw(a, c, f)) continue;
      if (n != TychoMesh::BOUNDARY_FACE) { sx_assert(done[n * nA + a] == 1, "cell computed before its upwind neighbour on the same rank"); sx_reach("local dependency"); }
      else if (r != TychoMesh::BAD_RANK && comm) { sx_assert(sideGot[g_tychoMesh->getSide(c, f) * nA + a] == 1, "cell computed before the data of its upwind neighbour on another rank arrived"); sx_reach("remote dependency"); }
    }
    done[c * nA + a] = 1;
    for (U f = 0; f < 4; f++) for (U i = 0; i < W; i++) {
      double v = P("symdata", 0) ? sx_opaque("flux") : (double)(g_tychoMesh->getLGCell(c) * 1000 + f * 100 + a * 10 + i + 1); out[((c * 4 + f) * nA + a) * W + i] = v;
      if (g_tychoMesh->getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE && g_tychoMesh->getAdjRank(c, f) != TychoMesh::BAD_RANK && outw(a, c, f)) { U g = g_tychoMesh->getLGSide(g_tychoMesh->getSide(c, f)); sh->val[(g * MAXA + a) * W + i] = v; sh->sent[g * MAXA + a] = 1; } }
  }
};
extern "C" int sx_main() {
  int ranks = P("ranks", 1); bool back = P("backward", 0), comm = P("comm", 1); int A = P("angles", 1);
  MeshDef m; meshDef(P("mesh", 2), m); SerialMesh s; toSerial(m, s, P("rot", 1));
  std::vector<U> part = P("part", -1) >= 0 ? partFromCode(m.nt, ranks, P("part", 0)) : choosePart(m.nt, ranks);
  splitAndWrite(s, part, ranks, "m.pmesh");
  basicGlobals(P("threads", 1), 1, A);
  if (P("symdir", 1)) symbolicDirections(P("symdir", 1) < A ? P("symdir", 1) : A);
  U maxStep = P("maxstep", 0) ? P("maxstep", 0) : 1 + sx_choose(P("steps", 2), "maxComputePerStep");
  g_mpiType = P("mpitype", 0) ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided;
  mpiModel();
  for (int i = 0; i < P("sweeps", 1); i++) shs[i] = (Shared *)sx_shared_alloc(sizeof(Shared)); sxmpi_init();
  sx_spawn(ranks);
  int argc = 0; MPI_Init(&argc, 0);
  g_tychoMesh = new TychoMesh("m.pmesh");
  if (P("symdir", 1)) assumeNoGrazing();
  GraphTraverser g(back ? Direction_Backward : Direction_Forward, comm, W * 8);
  for (int sweep = 0; sweep < P("sweeps", 1); sweep++) {
    sh = shs[sweep]; Check d(back, comm);
    g.traverse(maxStep, d);
    for (U i = 0; i < d.done.size(); i++) sx_assert(d.done[i] == 1, "a cell was not computed for some direction");
    for (U c = 0; c < g_nCells; c++) for (U f = 0; f < 4; f++) for (U a = 0; a < g_nAngles; a++) if (g_tychoMesh->getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE) { U sd = g_tychoMesh->getSide(c, f); bool want = comm && g_tychoMesh->getAdjRank(c, f) != TychoMesh::BAD_RANK && d.inw(a, c, f); sx_assert(d.sideGot[sd * g_nAngles + a] == (want ? 1 : 0), "wrong set of rank-boundary packets delivered"); }
  }
  sxmpi_check_clean("after sweep");
  sx_reach("sweep finished");
  sx_join();
  sx_assert(sxmpi_pending_messages() == 0, "messages are left in flight after the sweep");
  sx_reach("all ranks finished");
  return 0;
}
