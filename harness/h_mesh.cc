// C05, C06, C07: geometry, topology and flow direction of the loaded mesh, on every rank, for every partition, vertex order and direction.
#include "common.hh"
struct Entry { U set, gside, cell, face, gcell, node[3]; double flow[2]; U out[2]; };
struct Table { Entry e[64][2]; };
static Table *tb; static SerialMesh s; static std::vector<U> part; static double X[27][3];
static U faceOf(const U n[3]) { for (U g = 0; g < s.c_numFaces; g++) if (sameFace(s.c_faceData[g].boundingNodes, n)) return g; return NONE; }
extern "C" int sx_main() {
  int ranks = P("ranks", 1), A = P("angles", 1), box = P("box", 0), geom = P("geom", 0), topo = P("topo", 0), flow = P("flow", 0);
  MeshDef m; meshDef(P("mesh", 0), m);
  for (int pc = 0; pc < P("permcells", 0); pc++) { int p[4] = {0, 1, 2, 3}, q[4], k = P("permfirst", 0) + pc; for (int i = 0; i < 4; i++) q[i] = m.t[k][i]; U c = sx_choose(24, "vertex_order"); for (int i = 0; i < 4; i++) { int r = c % (4 - i); c /= 4 - i; int t = p[i]; p[i] = p[i + r]; p[i + r] = t; } for (int i = 0; i < 4; i++) m.t[k][i] = q[p[i]]; }
  if (box) for (int i = P("boxfirst", 0); i < m.nn && i < P("boxnodes", 27); i++) for (int d = 0; d < 3; d++) m.x[i][d] += sx_real_in("coord", -1.0 / box, 1.0 / box);
  if (P("apex", 0)) { m.x[3][0] = sx_real_in("apex_x", -2, 2); m.x[3][1] = sx_real_in("apex_y", -2, 2); m.x[3][2] = sx_real_in("apex_z", 0.0009765625, 4); }
  const double u = unit(), u2 = u * u, u3 = u2 * u; if (P("scale2", 0)) rescale(m);
  int rot = P("rots", 0) ? sx_choose(P("rots", 0), "face_order") : P("rot", 1), rev = P("revs", 0) ? sx_choose(2, "face_list_order") : 0;
  toSerial(m, s, rot, rev);
  for (U c = 0; c < s.c_numCells; c++) s.c_cellData[c].materialIndex = 1 + (c * 7 + 1) % 2;
  part = P("part", -1) >= 0 ? partFromCode(m.nt, ranks, P("part", 0)) : choosePart(m.nt, ranks);
  splitAndWrite(s, part, ranks, "m.pmesh");
  basicGlobals(1, 1, A);
  if (P("symdir", 0)) for (int a = 0; a < A; a++) { double w[3]; for (int d = 0; d < 3; d++) w[d] = sx_real_in("omega", -1, 1); setDir(g_quadrature, a, w[0], w[1], w[2], 0); }
  mpiModel(); tb = (Table *)sx_shared_alloc(sizeof(Table));
  sx_spawn(ranks); int argc = 0; MPI_Init(&argc, 0); int me = sx_rank();
  g_tychoMesh = new TychoMesh("m.pmesh"); TychoMesh &T = *g_tychoMesh;
  // cells of this rank
  U mine = 0; for (U c = 0; c < s.c_numCells; c++) if (part[c] == (U)me) mine++;
  sx_assert(g_nCells == mine, "number of cells of the rank differs from the partition");
  std::vector<int> seen(s.c_numCells), sideSeen(T.getNSides()); std::vector<U> vn(mine * 4), local(s.c_numCells, NONE);
  for (U c = 0; c < g_nCells; c++) { U gc = T.getLGCell(c); sx_assert(gc < s.c_numCells && part[gc] == (U)me && !seen[gc], "local cell is not one of the partition's cells, or listed twice"); seen[gc] = 1; local[gc] = c;
    sx_assert(T.getCellMaterial(c) == s.c_cellData[gc].materialIndex, "material of a cell differs from the file");
    for (U v = 0; v < 4; v++) { U n = T.getCellNode(c, v); sx_assert(n < T.getNNodes(), "node index out of range"); U hit = NONE;
      for (U k = 0; k < 4; k++) { U g = s.c_cellData[gc].boundingNodes[k]; bool eq = true; for (int d = 0; d < 3 && eq; d++) if (!sx_same(T.getNodeCoord(n, d), s.c_nodeData[g].coords[d])) eq = false; if (eq) hit = g; }
      sx_assert(hit != NONE, "vertex of a cell is not one of the cell's nodes in the file"); for (U k = 0; k < v; k++) sx_assert(vn[c * 4 + k] != hit, "two vertices of a cell are the same node"); vn[c * 4 + v] = hit; } }
  U nSides = 0;
  for (U c = 0; c < g_nCells; c++) for (U f = 0; f < 4; f++) {
    U n[3], k = 0, gc = T.getLGCell(c); for (U v = 0; v < 4; v++) if (v != f) n[k++] = vn[c * 4 + v];
    U gf = faceOf(n); sx_assert(gf != NONE, "face opposite a vertex does not exist in the file");
    U b0 = s.c_faceData[gf].boundingCells[0], b1 = s.c_faceData[gf].boundingCells[1], other = b0 == gc ? b1 : b0; bool outer = other == SerialMesh::INVALID_INDEX;
    U fv[3]; for (U v = 0; v < 3; v++) { U cv = T.getFaceToCellVrtx(c, f, v); sx_assert(cv < 4 && cv != f, "face vertex is not a vertex of the face"); sx_assert(T.getCellToFaceVrtx(c, f, cv) == v, "cell-to-face and face-to-cell vertex maps are not inverse"); fv[v] = vn[c * 4 + cv]; }
    if (topo) {
      if (!outer && part[other] == (U)me) {
        U d = T.getAdjCell(c, f); sx_assert(d != TychoMesh::BOUNDARY_FACE && d < g_nCells && T.getLGCell(d) == other, "adjacent cell differs from the file"); sx_assert(T.getSide(c, f) == TychoMesh::NOT_BOUNDARY_FACE, "interior face has a boundary side");
        U g = T.getAdjFace(c, f); sx_assert(g < 4, "adjacent face index out of range"); for (U v = 0; v < 3; v++) sx_assert(vn[d * 4 + g] != fv[v], "adjacent face is not the shared face");
        sx_assert(T.getAdjCell(d, g) == c && T.getAdjFace(d, g) == f, "adjacency is not symmetric");
        for (U v = 0; v < 3; v++) { U w = T.getNeighborVrtx(c, f, v); sx_assert(w < 4 && vn[d * 4 + w] == fv[v], "neighbour vertex is not the same point"); }
        sx_reach("interior face");
      } else {
        sx_assert(T.getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE, "boundary face has an adjacent cell"); U sd = T.getSide(c, f); nSides++;
        sx_assert(sd < T.getNSides() && !sideSeen[sd], "side number out of range or used twice"); sideSeen[sd] = 1;
        sx_assert(T.getSideCell(sd) == c, "side does not map back to its cell"); U gs = T.getLGSide(sd); sx_assert(T.getGLSide(gs) == sd, "local and global side numbers are not inverse");
        if (outer) { sx_assert(T.getAdjRank(c, f) == TychoMesh::BAD_RANK, "mesh boundary face has a neighbour rank"); sx_reach("mesh boundary"); }
        else sx_assert(T.getAdjRank(c, f) == part[other], "neighbour rank of a rank-boundary face is wrong");
      }
    }
    int slot = b0 == gc ? 0 : 1; Entry &e = tb->e[gf][slot]; e.set = 1; e.cell = c; e.face = f; e.gcell = gc; e.gside = T.getSide(c, f) == TychoMesh::NOT_BOUNDARY_FACE ? NONE : T.getLGSide(T.getSide(c, f)); for (int v = 0; v < 3; v++) e.node[v] = fv[v];
    if (flow) for (int a = 0; a < A; a++) { e.flow[a] = T.getOmegaDotN(a, c, f); e.out[a] = T.isOutgoing(a, c, f); if (P("complement", 1)) { int big = (e.flow[a] > 1e-9) | (e.flow[a] < -1e-9), o = T.isOutgoing(a, c, f), i = T.isIncoming(a, c, f); sx_assert((big ^ 1) | (o ^ i), "face is both or neither incoming and outgoing"); } }
    if (geom) { // outward area vector from the nodes of the file
      const double *o = s.c_nodeData[n[0]].coords, *p = s.c_nodeData[n[1]].coords, *q = s.c_nodeData[n[2]].coords, *w = s.c_nodeData[vn[c * 4 + f]].coords; double a[3], b[3], h[3];
      for (int d = 0; d < 3; d++) { a[d] = p[d] - o[d]; b[d] = q[d] - o[d]; h[d] = w[d] - o[d]; }
      double S[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}, vol = S[0] * h[0] + S[1] * h[1] + S[2] * h[2], sg = vol > 0 ? -0.5 : 0.5, ar = T.getFaceArea(c, f), V = T.getCellVolume(c);
      sx_assert_near(V * u3, (vol > 0 ? vol / 6 : -vol / 6) * u3, 1e-9, "cell volume is wrong"); sx_assert(V > 0, "cell volume is not positive");
      sx_assert_near(ar * ar * u2 * u2, 0.25 * (S[0] * S[0] + S[1] * S[1] + S[2] * S[2]) * u2 * u2, 1e-9, "face area is wrong"); sx_assert(ar > 0, "face area is not positive");
      for (int an = 0; an < A; an++) { std::vector<double> om = g_quadrature->getOmega(an); sx_assert_near(ar * T.getOmegaDotN(an, c, f) * u2, sg * (S[0] * om[0] + S[1] * om[1] + S[2] * om[2]) * u2, 1e-9, "direction dot outward unit normal of a face is wrong"); }
      sx_reach("geometry checked"); }
  }
  if (geom) for (U c = 0; c < g_nCells; c++) for (int an = 0; an < A; an++) { double z = 0; for (U f = 0; f < 4; f++) z += T.getFaceArea(c, f) * T.getOmegaDotN(an, c, f); sx_assert_near(z * u2, 0, 1e-9, "area-weighted normals of a cell do not sum to zero"); }
  if (topo) sx_assert(nSides == T.getNSides(), "number of sides differs from the boundary faces");
  MPI_Barrier(MPI_COMM_WORLD);
  for (U gf = 0; gf < s.c_numFaces; gf++) { Entry &x = tb->e[gf][0], &y = tb->e[gf][1]; bool inner = s.c_faceData[gf].boundingCells[1] != SerialMesh::INVALID_INDEX;
    if (!inner) continue; sx_assert(x.set && y.set, "a shared face is missing on one of its two ranks"); bool cross = part[x.gcell] != part[y.gcell];
    if (topo && cross) { sx_assert(x.gside == y.gside && x.gside != NONE, "global side number differs between the two ranks that share a side"); for (int v = 0; v < 3; v++) sx_assert(x.node[v] == y.node[v], "face vertices of a shared side are ordered differently on the two ranks");
      for (U g = 0; g < gf; g++) sx_assert(tb->e[g][0].gside != x.gside || x.gside == NONE, "two faces have the same global side number");
      for (int k = 0; k < 2; k++) { Entry &p = k ? y : x, &q = k ? x : y; if (part[p.gcell] != (U)me) continue; U sd = T.getGLSide(p.gside); sx_assert(T.getAdjCellFromSide(sd) == q.cell && T.getAdjFaceFromSide(sd) == q.face, "cell or face on the other rank of a side is wrong"); sx_reach("shared side"); } }
    if (flow) for (int a = 0; a < A; a++) { sx_assert_near(x.flow[a], -y.flow[a], 1e-9, "the two sides of a face see different flow"); int big = (x.flow[a] > 1e-9) | (x.flow[a] < -1e-9); if (P("complement", 1)) sx_assert((big ^ 1) | (x.out[a] + y.out[a] == 1), "face is not outgoing for exactly one of its two cells"); sx_reach(cross ? "flow across ranks" : "flow inside a rank"); }
  }
  sxmpi_check_clean("after loading the mesh");
  sx_reach("checked"); sx_join(); sx_reach("all ranks");
  return 0;
}
