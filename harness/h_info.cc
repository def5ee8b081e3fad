// C30: what the mesh information tools print is what the file holds: every word and value of the output, in order
#include "common.hh"
#include "sxprint.h"
std::vector<SxTok> *sx_print_log;
int sinfo_main(int, char **); int pinfo_main(int, char **);
static void put(std::vector<unsigned char> &o, const void *p, size_t n) { o.insert(o.end(), (const unsigned char *)p, (const unsigned char *)p + n); }
static void putU(std::vector<U> &o, const U *p, int n) { for (int i = 0; i < n; i++) o.push_back(p[i]); }
static const char SN[32] = "Tycho 2 Serial Mesh", PN[32] = "Tycho 2 Parallel Mesh";
static U bits(double d) { U u; memcpy(&u, &d, 8); return u; }
static U w(const char *n) { return sx_u64(n); }
typedef ParallelMesh::PartitionData Part;
static void fillSerial(SerialMesh &s) {
  s.c_numCells = sx_choose(P("maxc", 1) + 1, "cells"); s.c_numFaces = sx_choose(P("maxf", 1) + 1, "faces"); s.c_numNodes = sx_choose(P("maxn", 1) + 1, "nodes");
  s.c_cellData.resize(s.c_numCells); s.c_faceData.resize(s.c_numFaces); s.c_nodeData.resize(s.c_numNodes);
  for (auto &c : s.c_cellData) { for (int i = 0; i < 4; i++) c.boundingFaces[i] = w("cell_face"); for (int i = 0; i < 4; i++) c.boundingNodes[i] = w("cell_node"); c.materialIndex = w("material"); }
  for (auto &f : s.c_faceData) { for (int i = 0; i < 2; i++) f.boundingCells[i] = w("face_cell"); for (int i = 0; i < 3; i++) f.boundingNodes[i] = w("face_node"); }
  for (auto &n : s.c_nodeData) for (int i = 0; i < 3; i++) n.coords[i] = sx_opaque("coord"); }
static void fillPart(Part &p) {
  p.numCells = sx_choose(P("maxc", 1) + 1, "cells"); p.numFaces = sx_choose(P("maxf", 1) + 1, "faces"); p.numNodes = sx_choose(P("maxn", 1) + 1, "nodes");
  p.cellData.resize(p.numCells); p.faceData.resize(p.numFaces); p.nodeData.resize(p.numNodes);
  for (auto &c : p.cellData) { for (int i = 0; i < 4; i++) c.boundingFaces[i] = w("cell_face"); for (int i = 0; i < 4; i++) c.boundingNodes[i] = w("cell_node"); c.globalID = w("cell_id"); c.materialIndex = w("material"); }
  for (auto &f : p.faceData) { for (int i = 0; i < 2; i++) f.boundingCells[i] = w("face_cell"); for (int i = 0; i < 3; i++) f.boundingNodes[i] = w("face_node"); f.globalID = w("face_id"); for (int i = 0; i < 2; i++) f.partition[i] = w("face_partition"); f.boundaryType = w("face_type"); sx_assume(f.boundaryType < 3); }
  for (auto &n : p.nodeData) { for (int i = 0; i < 3; i++) n.coords[i] = sx_opaque("coord"); n.globalID = w("node_id"); } }
static void ex(const Part &p, bool v) {
  sx_printf("Num Cells: %lu Num Faces: %lu Num Nodes: %lu", p.numCells, p.numFaces, p.numNodes); if (!v) return;
  for (U i = 0; i < p.numCells; i++) { auto &c = p.cellData[i]; sx_printf("Cell %lu Faces %lu %lu %lu %lu Nodes %lu %lu %lu %lu", i, c.boundingFaces[0], c.boundingFaces[1], c.boundingFaces[2], c.boundingFaces[3], c.boundingNodes[0], c.boundingNodes[1], c.boundingNodes[2], c.boundingNodes[3]); sx_printf("globalID: %lu materialIndex: %lu", c.globalID, c.materialIndex); }
  for (U i = 0; i < p.numFaces; i++) { auto &f = p.faceData[i]; sx_printf("Face %lu Cells %lu %lu Nodes %lu %lu %lu globalID: %lu partition: %lu %lu boundaryType: %s", i, f.boundingCells[0], f.boundingCells[1], f.boundingNodes[0], f.boundingNodes[1], f.boundingNodes[2], f.globalID, f.partition[0], f.partition[1], f.boundaryType == 0 ? "MeshBoundary" : f.boundaryType == 1 ? "PartitionBoundary" : "NotBoundary"); }
  for (U i = 0; i < p.numNodes; i++) { auto &n = p.nodeData[i]; sx_printf("Node %lu coords: (%f, %f, %f) globalID: %lu", i, n.coords[0], n.coords[1], n.coords[2], n.globalID); } }
static void compare(std::vector<SxTok> &want, std::vector<SxTok> &got) {
  for (size_t i = 0; i < want.size() && i < got.size(); i++) { sx_assert(want[i].kind == got[i].kind, "a value is printed where a word belongs, or the other way round"); if (want[i].kind == 0) sx_assert(want[i].u == got[i].u, "another label is printed"); else if (want[i].kind == 1) sx_assert((want[i].u == got[i].u) & (want[i].neg == got[i].neg), "a number printed is not the one in the file"); else { sx_assert(want[i].u == got[i].u, "another number format is printed"); sx_assert(sx_same(want[i].d, got[i].d), "a coordinate printed is not the one in the file"); } }
  sx_assert(want.size() == got.size(), "something is missing in the output or printed twice"); sx_reach("output compared"); }
extern "C" int sx_main() {
  sxmpi_init(); bool v = sx_choose(2, "verbose"); std::vector<SxTok> want, got; char a0[8] = "info", a1[8] = "m.mesh", a2[8] = "verbose"; char *av[4] = {a0, a1, a2, 0}; std::vector<unsigned char> img;
  if (P("kind", 0) == 0) { SerialMesh s; fillSerial(s); std::vector<U> u; u.push_back(2); u.push_back(s.c_numCells); u.push_back(s.c_numFaces); u.push_back(s.c_numNodes);
    for (auto &c : s.c_cellData) { putU(u, c.boundingFaces, 4); putU(u, c.boundingNodes, 4); u.push_back(c.materialIndex); }
    for (auto &f : s.c_faceData) { putU(u, f.boundingCells, 2); putU(u, f.boundingNodes, 3); }
    put(img, SN, 32); put(img, u.data(), u.size() * 8); for (auto &n : s.c_nodeData) put(img, n.coords, 24); sx_file_write("m.mesh", img.data(), img.size());
    sx_print_log = &want; sx_printf("--- SerialMeshInfo Utility --- Mesh Format Name: Tycho 2 Serial Mesh Mesh Version: %lu Num Cells: %lu Num Faces: %lu Num Nodes: %lu", (U)2, s.c_numCells, s.c_numFaces, s.c_numNodes);
    if (v) { for (U i = 0; i < s.c_numCells; i++) { auto &c = s.c_cellData[i]; sx_printf("Cell %lu Faces %lu %lu %lu %lu Nodes %lu %lu %lu %lu Material Index %lu", i, c.boundingFaces[0], c.boundingFaces[1], c.boundingFaces[2], c.boundingFaces[3], c.boundingNodes[0], c.boundingNodes[1], c.boundingNodes[2], c.boundingNodes[3], c.materialIndex); }
      for (U i = 0; i < s.c_numFaces; i++) { auto &f = s.c_faceData[i]; sx_printf("Face %lu Cells %lu %lu Nodes %lu %lu %lu", i, f.boundingCells[0], f.boundingCells[1], f.boundingNodes[0], f.boundingNodes[1], f.boundingNodes[2]); }
      for (U i = 0; i < s.c_numNodes; i++) { auto &n = s.c_nodeData[i]; sx_printf("Node %lu: (%f, %f, %f)", i, n.coords[0], n.coords[1], n.coords[2]); } }
    sx_print_log = &got; sinfo_main(v ? 3 : 2, av); sx_print_log = nullptr; compare(want, got);
  } else { int n = P("parts", 2); std::vector<Part> p(n); std::vector<U> off(n + 1), u; off[0] = 32 + (3 + n) * 8;
    for (int i = 0; i < n; i++) { fillPart(p[i]); off[i + 1] = off[i] + 24 + p[i].numCells * 80 + p[i].numFaces * 72 + p[i].numNodes * 32; }
    u.push_back(2); u.push_back(n); for (U o : off) u.push_back(o);
    for (auto &q : p) { u.push_back(q.numCells); u.push_back(q.numFaces); u.push_back(q.numNodes);
      for (auto &c : q.cellData) { putU(u, c.boundingFaces, 4); putU(u, c.boundingNodes, 4); u.push_back(c.globalID); u.push_back(c.materialIndex); }
      for (auto &f : q.faceData) { putU(u, f.boundingCells, 2); putU(u, f.boundingNodes, 3); u.push_back(f.globalID); putU(u, f.partition, 2); u.push_back(f.boundaryType); }
      for (auto &x : q.nodeData) { for (int k = 0; k < 3; k++) u.push_back(bits(x.coords[k])); u.push_back(x.globalID); } }
    put(img, PN, 32); put(img, u.data(), u.size() * 8); sx_file_write("m.mesh", img.data(), img.size());
    sx_spawn(n); int r = sx_rank(); sx_print_log = &want;
    if (r == 0) { sx_printf("--- ParallelMeshInfo Utility --- Parallel mesh data read serially. Mesh Format Name: Tycho 2 Parallel Mesh Mesh Version: %lu Num partitions %lu Bytes Offset", (U)2, (U)n); for (U o : off) sx_printf("%lu", o); for (int i = 0; i < n; i++) { sx_printf("Partition %d", i); ex(p[i], v); } sx_printf("Parallel mesh data read in parallel."); }
    sx_printf("Partition %d", r); ex(p[r], v);
    sx_print_log = &got; pinfo_main(v ? 3 : 2, av); sx_print_log = nullptr; compare(want, got); sx_join(); }
  sx_reach("done"); return 0;
}
