// C16: the refinement utility, run as a program on small meshes whose coordinates are (partly) arbitrary.
#include "common.hh"
extern uint64_t sxfs_cap;
int refine_main(int argc, char *argv[]);
static MeshDef m; static SerialMesh s;
struct E { U a, b; double x[3]; }; // a parent's node (a == b) or the midpoint of an edge
static int vertexOf(int c, U n) { for (int v = 0; v < 4; v++) if (s.c_cellData[c].boundingNodes[v] == n) return v; return -1; }
static bool ofCell(int c, const E &e) { return vertexOf(c, e.a) >= 0 && vertexOf(c, e.b) >= 0; }
static double det3(const double a[3], const double b[3], const double c[3]) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
extern "C" int sx_main() {
  sxmpi_init(); meshDef(P("mesh", 0), m); int kind = P("kind", 0);
  if (P("generic", 0)) for (int i = 0; i < m.nn; i++) for (int d = 0; d < 3; d++) m.x[i][d] += 0.011 * ((i * (7 + 3 * d) + 5 * d) % 13); // no two nodes or midpoints share a coordinate
  if (kind == 3) { sxfs_cap = 8 << 20; U N = P("cells", 1001); s.c_numCells = N; s.c_numFaces = s.c_numNodes = 4 * N; for (U c = 0; c < N; c++) { SerialMesh::CellData d; d.materialIndex = c; for (int i = 0; i < 4; i++) { d.boundingFaces[i] = d.boundingNodes[i] = 4 * c + i; SerialMesh::FaceData f; f.boundingCells[0] = c; f.boundingCells[1] = NONE; int k = 0; for (int j = 0; j < 4; j++) if (j != i) f.boundingNodes[k++] = 4 * c + j; s.c_faceData.push_back(f); SerialMesh::NodeData n; for (int j = 0; j < 3; j++) n.coords[j] = m.x[i][j] + 3.0 * (c % 100) * (j == 0) + 5.0 * (c / 100) * (j == 1); s.c_nodeData.push_back(n); } s.c_cellData.push_back(d); } } // many cells
  else toSerial(m, s, P("rots", 0) ? sx_choose(P("rots", 0), "face_vertex_order") : 1, P("revs", 0) ? sx_choose(2, "face_list_order") : 0);
  U nk = P("renum", 0) ? sx_choose(P("renum", 0), "renumber") : 0;
  if (nk) { U N = s.c_numNodes, F = s.c_numFaces; SerialMesh t = s; auto pn = [&](U n) { return nk == 1 ? N - 1 - n : (n + N / 2) % N; }; auto pf = [&](U f) { return nk == 1 ? F - 1 - f : (f + F / 2) % F; };
    for (U n = 0; n < N; n++) t.c_nodeData[pn(n)] = s.c_nodeData[n]; for (U f = 0; f < F; f++) { SerialMesh::FaceData d = s.c_faceData[f]; for (int i = 0; i < 3; i++) d.boundingNodes[i] = pn(d.boundingNodes[i]); t.c_faceData[pf(f)] = d; }
    for (auto &c : t.c_cellData) for (int i = 0; i < 4; i++) { c.boundingFaces[i] = pf(c.boundingFaces[i]); c.boundingNodes[i] = pn(c.boundingNodes[i]); } s = t; }
  if (P("extra", 0)) { SerialMesh::NodeData n; n.coords[0] = 7; n.coords[1] = 8; n.coords[2] = 9; s.c_nodeData.push_back(n); s.c_numNodes++; } // a node of no cell
  if (kind != 3) for (auto &c : s.c_cellData) c.materialIndex = sx_u64("material");
  // kind 0: one coordinate of every node arbitrary, the others concrete; kind 1: one node anywhere near its place; kind 2: all concrete
  int ax = P("axis", 0), fn = P("node", 0); double h = P("range", 100) / 100.0;
  if (kind == 0) for (U i = 0; i < (U)P("nfree", 2) && i < s.c_numNodes; i++) { s.c_nodeData[i].coords[ax] = sx_real_in("coordinate", -h, h); }
  if (kind == 1) { fn = sx_choose(s.c_numNodes, "moved_node"); for (int d = 0; d < 3; d++) s.c_nodeData[fn].coords[d] += sx_real_in("shift", -h, h); }
  s.write("in.smesh"); char p0[] = "RefineSerialMesh.x", p1[] = "in.smesh", p2[] = "out.smesh"; char *av[] = {p0, p1, p2, 0};
  sx_assert(refine_main(3, av) == 0, "the program reports an error"); SxFile *f = sx_fs_find("out.smesh", false); sx_assert(f != 0, "no mesh was written");
  SerialMesh q; q.read("out.smesh"); if (kind == 3) { U N = s.c_numCells; sx_assert(q.c_numCells == 8 * N && q.c_numNodes == 10 * N && q.c_numFaces == 24 * N, "wrong numbers of cells, nodes or faces"); std::vector<int> cnt(N); for (auto &c : q.c_cellData) { sx_assert(c.materialIndex < N, "material"); cnt[c.materialIndex]++; } for (U i = 0; i < N; i++) sx_assert(cnt[i] == 8, "a cell does not have eight parts"); sx_reach("done"); return 0; }
  int n = m.nt; sx_assert(q.c_numCells == (U)(8 * n), "not eight cells per cell");
  // expected nodes
  std::vector<E> ex; for (int c = 0; c < n; c++) for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) { U a = s.c_cellData[c].boundingNodes[i], b = s.c_cellData[c].boundingNodes[j]; if (a > b) { U t = a; a = b; b = t; } bool had = false; for (E &e : ex) if (e.a == a && e.b == b) had = true; if (had) continue;
    E e; e.a = a; e.b = b; for (int d = 0; d < 3; d++) e.x[d] = a == b ? s.c_nodeData[a].coords[d] : (s.c_nodeData[a].coords[d] + s.c_nodeData[b].coords[d]) * 0.5; ex.push_back(e); }
  std::vector<int> who(q.c_numNodes, -1), seen(ex.size()); int order[3] = {(ax + 1) % 3, (ax + 2) % 3, ax};
  for (U i = 0; i < q.c_numNodes; i++) { for (U k = 0; k < ex.size(); k++) { bool same = true; for (int d = 0; d < 3 && same; d++) { double u = q.c_nodeData[i].coords[order[d]] - ex[k].x[order[d]]; if (!(u > -1e-10)) same = false; else if (!(u < 1e-10)) same = false; } if (!same) continue;
      sx_assert(who[i] < 0, "harness: two expected nodes coincide"); who[i] = k; sx_assert(!seen[k], "a node is there twice"); seen[k] = 1; }
    sx_assert(who[i] >= 0, "a node is neither a node of the mesh nor the midpoint of an edge"); }
  sx_assert(q.c_numNodes == ex.size(), "a node or midpoint is missing");
  // cells: parent, material, volume
  std::vector<int> parent(8 * n, -1), kids(n); std::vector<double> vol(n);
  for (int c = 0; c < 8 * n; c++) { SerialMesh::CellData &d = q.c_cellData[c]; for (int i = 0; i < 4; i++) { sx_assert(d.boundingNodes[i] < q.c_numNodes, "node of a cell"); sx_assert(d.boundingFaces[i] < q.c_numFaces, "face of a cell"); }
    for (int p = 0; p < n; p++) { bool in = true; for (int i = 0; i < 4; i++) if (!ofCell(p, ex[who[d.boundingNodes[i]]])) in = false; if (in) { sx_assert(parent[c] < 0, "a cell without volume"); parent[c] = p; } }
    int p = parent[c]; sx_assert(p >= 0, "a cell is in no parent"); kids[p]++; sx_assert(d.materialIndex == s.c_cellData[p].materialIndex, "material of a cell");
    double bc[4][4] = {}; for (int i = 0; i < 4; i++) { E &e = ex[who[d.boundingNodes[i]]]; bc[i][vertexOf(p, e.a)] += 0.5; bc[i][vertexOf(p, e.b)] += 0.5; }
    double r[3][3]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) r[i][k] = bc[i + 1][k + 1] - bc[0][k + 1]; double v = det3(r[0], r[1], r[2]); vol[p] += v < 0 ? -v : v; sx_assert(v > 1e-6 || v < -1e-6, "a cell without volume"); }
  for (int p = 0; p < n; p++) { sx_assert(kids[p] == 8, "not eight cells in a cell"); sx_assert(vol[p] > 1 - 1e-12 && vol[p] < 1 + 1e-12, "the volumes do not add up to the parent's"); }
  // faces
  std::vector<std::vector<int>> uses(q.c_numFaces); for (int c = 0; c < 8 * n; c++) for (int i = 0; i < 4; i++) uses[q.c_cellData[c].boundingFaces[i]].push_back(c); int outer = 0, inner = 0;
  for (U g = 0; g < q.c_numFaces; g++) { SerialMesh::FaceData &d = q.c_faceData[g]; for (int i = 0; i < 3; i++) sx_assert(d.boundingNodes[i] < q.c_numNodes, "node of a face"); sx_assert(d.boundingNodes[0] != d.boundingNodes[1] && d.boundingNodes[1] != d.boundingNodes[2] && d.boundingNodes[0] != d.boundingNodes[2], "a face without area");
    for (U k = 0; k < g; k++) sx_assert(!sameFace(q.c_faceData[k].boundingNodes, d.boundingNodes), "a face is there twice");
    bool bd = d.boundingCells[1] == NONE || d.boundingCells[0] == NONE; sx_assert(uses[g].size() == (bd ? 1u : 2u), "a face is not a face of exactly its cells");
    for (int i = 0; i < 2; i++) { U c = d.boundingCells[i]; if (c == NONE) continue; sx_assert(c < (U)(8 * n), "cell of a face"); bool in = false; for (int u : uses[g]) if ((U)u == c) in = true; sx_assert(in, "a face belongs to another cell"); for (int k = 0; k < 3; k++) { bool of = false; for (int j = 0; j < 4; j++) if (q.c_cellData[c].boundingNodes[j] == d.boundingNodes[k]) of = true; sx_assert(of, "a face has a node its cell does not have"); } }
    sx_assert(d.boundingCells[0] != d.boundingCells[1], "a face has one cell on both sides"); sx_assert(d.boundingCells[0] != NONE, "a face without first cell");
    bool mesh = false; for (auto &pf : s.c_faceData) if (pf.boundingCells[1] == NONE) { bool on = true; for (int k = 0; k < 3; k++) { E &e = ex[who[d.boundingNodes[k]]]; bool a = false, b = false; for (int j = 0; j < 3; j++) { if (pf.boundingNodes[j] == e.a) a = true; if (pf.boundingNodes[j] == e.b) b = true; } if (!a || !b) on = false; } if (on) mesh = true; }
    sx_assert(mesh == bd, mesh ? "a face on the boundary joins two cells" : "a face inside the mesh is marked as its boundary"); if (bd) outer++; else inner++; }
  int pout = 0, pin = 0; for (auto &pf : s.c_faceData) if (pf.boundingCells[1] == NONE) pout++; else pin++;
  sx_assert(outer == 4 * pout, "number of boundary faces"); sx_assert(inner == 4 * pin + 8 * n, "number of interior faces"); sx_reach("done"); if (pin) sx_reach("shared face");
  return 0;
}
