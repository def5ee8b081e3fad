// C08 / C26: CommSides moves every outgoing rank-boundary flux to its own inflow slot, for all fluxes, directions, partitions, buffering and arrival orders.
#include "common.hh"
#include "CommSides.hh"
static std::vector<double> val; static int A, G; static MeshDef m; static SerialMesh s;
static size_t I(int c, int v, int a, int g) { return ((size_t)(c * A + a) * 4 + v) * G + g; }
static int nodeOf(U localNode) { for (int n = 0; n < m.nn; n++) { bool eq = true; for (int d = 0; d < 3; d++) if (m.x[n][d] != g_tychoMesh->getNodeCoord(localNode, d)) eq = false; if (eq) return n; } sx_fail("model", "node not found"); return 0; }
static int vertexOf(U gc, int node) { for (int v = 0; v < 4; v++) if (m.t[gc][v] == node) return v; return -1; }
static double flow(int a, U c, U f) { return g_tychoMesh->getOmegaDotN(a, c, f); }
extern "C" int sx_main() {
  int ranks = P("ranks", 2), rounds = P("rounds", 1); A = P("angles", 8); G = P("groups", 1); meshDef(P("mesh", 4), m);
  toSerial(m, s, P("rots", 0) ? 1 + sx_choose(P("rots", 0), "face_vertex_order") : P("rot", 1));
  std::vector<U> part = P("part", -1) >= 0 ? partFromCode(m.nt, ranks, P("part", 0)) : choosePart(m.nt, ranks);
  splitAndWrite(s, part, ranks, "m.pmesh"); basicGlobals(1, G, A);
  if (P("symdir", 0)) symbolicDirections(P("symdir", 0));
  val.resize((size_t)rounds * m.nt * A * 4 * G); for (double &x : val) x = sx_opaque("psi");
  double sent = sx_opaque("untouched");
  mpiModel(); sxmpi_init(); sx_spawn(ranks); int argc = 0; MPI_Init(&argc, 0);
  g_tychoMesh = new TychoMesh("m.pmesh"); TychoMesh &T = *g_tychoMesh;
  if (P("symdir", 0)) assumeNoGrazing();
  CommSides cs; PsiBoundData b; PsiData psi; b.setToValue(0.0);
  for (U sd = 0; sd < T.getNSides(); sd++) for (int a = 0; a < A; a++) for (U v = 0; v < 3; v++) for (int g = 0; g < G; g++) b(g, v, a, sd) = sent;
  for (int k = 0; k < rounds; k++) { double *w = &val[(size_t)k * m.nt * A * 4 * G];
    for (U c = 0; c < g_nCells; c++) for (U v = 0; v < 4; v++) { int n = nodeOf(T.getCellNode(c, v)), sv = vertexOf(T.getLGCell(c), n); for (int a = 0; a < A; a++) for (int g = 0; g < G; g++) psi(g, v, a, c) = w[I(T.getLGCell(c), sv, a, g)]; }
    cs.commSides(psi, b);
    for (U c = 0; c < g_nCells; c++) for (U f = 0; f < 4; f++) if (T.getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE) { U sd = T.getSide(c, f), gc = T.getLGCell(c); bool phys = T.getAdjRank(c, f) == TychoMesh::BAD_RANK;
      int fn[3]; for (U v = 0; v < 3; v++) fn[v] = nodeOf(T.getCellNode(c, T.getFaceToCellVrtx(c, f, v))); U h = NONE; // the cell of the mesh that shares these three nodes
      for (int c2 = 0; c2 < m.nt; c2++) if ((U)c2 != gc && vertexOf(c2, fn[0]) >= 0 && vertexOf(c2, fn[1]) >= 0 && vertexOf(c2, fn[2]) >= 0) h = c2;
      sx_assert((h == NONE) == phys, "neighbour of a boundary face");
      for (int a = 0; a < A; a++) { double o = flow(a, c, f);
        for (U v = 0; v < 3; v++) for (int g = 0; g < G; g++) {
          if (phys) { sx_assert(sx_same(b(g, v, a, sd), sent), "inflow on a physical boundary was changed"); }
          else if (o < -1e-9) { sx_assert(sx_same(b(g, v, a, sd), w[I(h, vertexOf(h, fn[v]), a, g)]), "inflow of a rank-boundary face is not the neighbour's flux at that vertex"); sx_reach("inflow checked"); } } } } 
    for (U c = 0; c < g_nCells; c++) for (U v = 0; v < 4; v++) { int n = nodeOf(T.getCellNode(c, v)), sv = vertexOf(T.getLGCell(c), n); for (int a = 0; a < A; a++) for (int g = 0; g < G; g++) sx_assert(sx_same(psi(g, v, a, c), w[I(T.getLGCell(c), sv, a, g)]), "the exchange changed the flux of a cell"); } }
  sxmpi_check_clean("after the exchange"); sx_join(); sx_assert(sxmpi_pending_messages() == 0, "messages are left in flight after the exchange"); sx_reach("done");
  return 0;
}
