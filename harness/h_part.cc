// C13: splitting a serial mesh. Every partition vector of a small mesh, node and face numbering permuted, coordinates and materials arbitrary.
#include "common.hh"
static MeshDef m; static SerialMesh s;
static U pos(const std::vector<ParallelMesh::CellData> &v, U id) { U r = NONE; for (U i = 0; i < v.size(); i++) if (v[i].globalID == id) { sx_assert(r == NONE, "a cell is twice in a partition"); r = i; } return r; }
extern "C" int sx_main() {
  int R = P("parts", 2); meshDef(P("mesh", 4), m); toSerial(m, s, P("rots", 0) ? sx_choose(P("rots", 0), "face_vertex_order") : 1, P("revs", 0) ? sx_choose(2, "face_list_order") : 0);
  // renumber nodes and faces
  U nk = P("renum", 1) ? sx_choose(3, "renumber") : 0;
  if (nk) { U N = s.c_numNodes, F = s.c_numFaces; SerialMesh t = s; auto pn = [&](U n) { return nk == 1 ? N - 1 - n : (n + N / 2) % N; }; auto pf = [&](U f) { return nk == 1 ? F - 1 - f : (f + F / 2) % F; };
    for (U n = 0; n < N; n++) t.c_nodeData[pn(n)] = s.c_nodeData[n]; for (U f = 0; f < F; f++) { SerialMesh::FaceData d = s.c_faceData[f]; for (int i = 0; i < 3; i++) d.boundingNodes[i] = pn(d.boundingNodes[i]); if (nk == 2 && d.boundingCells[1] != NONE) { U q = d.boundingCells[0]; d.boundingCells[0] = d.boundingCells[1]; d.boundingCells[1] = q; } t.c_faceData[pf(f)] = d; }
    for (auto &c : t.c_cellData) for (int i = 0; i < 4; i++) { c.boundingFaces[i] = pf(c.boundingFaces[i]); c.boundingNodes[i] = pn(c.boundingNodes[i]); } s = t; }
  for (auto &n : s.c_nodeData) for (int i = 0; i < 3; i++) n.coords[i] = sx_opaque("coord");
  for (auto &c : s.c_cellData) c.materialIndex = sx_u64("material");
  std::vector<U> part(m.nt); for (U &p : part) { p = sx_u64("part"); sx_assume(p < (U)R); } // arbitrary assignment, split by the engine where the code depends on it
  SerialMesh s0 = s; std::vector<U> part0 = part;
  ParallelMesh q; if (P("dirty", 1)) { q.c_partitionData.resize(1); q.c_partitionData[0].cellData.resize(9); q.c_partitionData[0].faceData.resize(3); q.c_bytesOffset.resize(1); }
  q.createFromSerialMesh(s, part, R);
  for (int c = 0; c < m.nt; c++) sx_assert(part[c] == part0[c], "the partition vector was changed");
  sx_assert(q.c_numPartitions == (U)R && q.c_partitionData.size() == (U)R && q.c_bytesOffset.size() == (U)R + 1, "number of partitions");
  U off = 32 + (3 + R) * 8, cells = 0;
  for (int r = 0; r < R; r++) { ParallelMesh::PartitionData &p = q.c_partitionData[r];
    sx_assert(q.c_bytesOffset[r] == off, "byte offset of a partition"); off += 24 + p.numCells * 80 + p.numFaces * 72 + p.numNodes * 32; cells += p.numCells;
    sx_assert(p.cellData.size() == p.numCells && p.faceData.size() == p.numFaces && p.nodeData.size() == p.numNodes, "sizes of a partition");
    std::vector<int> needF(s.c_numFaces), needN(s.c_numNodes); U nf = 0, nn = 0;
    for (int c = 0; c < m.nt; c++) { U l = pos(p.cellData, c); sx_assert((l != NONE) == (part[c] == (U)r), "a cell is not exactly in the partition requested");
      if (l == NONE) continue; ParallelMesh::CellData &d = p.cellData[l]; sx_assert(d.materialIndex == s0.c_cellData[c].materialIndex, "material of a cell");
      for (int i = 0; i < 4; i++) { U gf = s0.c_cellData[c].boundingFaces[i], gn = s0.c_cellData[c].boundingNodes[i]; if (!needF[gf]) nf++; needF[gf] = 1; if (!needN[gn]) nn++; needN[gn] = 1;
        sx_assert(d.boundingFaces[i] < p.numFaces && p.faceData[d.boundingFaces[i]].globalID == gf, "face of a cell refers to another face"); sx_assert(d.boundingNodes[i] < p.numNodes && p.nodeData[d.boundingNodes[i]].globalID == gn, "node of a cell refers to another node"); } }
    sx_assert(p.numFaces == nf && p.numNodes == nn, "a partition does not hold exactly the faces and nodes its cells use");
    for (auto &f : p.faceData) { sx_assert(f.globalID < s.c_numFaces && needF[f.globalID] == 1, "a face is twice in a partition or not used by it"); needF[f.globalID] = 2; SerialMesh::FaceData &g = s0.c_faceData[f.globalID];
      for (int i = 0; i < 3; i++) sx_assert(f.boundingNodes[i] < p.numNodes && p.nodeData[f.boundingNodes[i]].globalID == g.boundingNodes[i], "node of a face refers to another node");
      bool mb = false, pb = false; 
      for (int i = 0; i < 2; i++) { U gc = g.boundingCells[i]; if (gc == NONE) { mb = true; sx_assert(f.boundingCells[i] == NONE && f.partition[i] == NONE, "outer side of a mesh boundary face"); continue; }
        U w = part[gc]; if (w != (U)r) pb = true; sx_assert(f.partition[i] == w, "partition of the cell on one side of a face"); sx_assert(f.boundingCells[i] < q.c_partitionData[w].numCells && q.c_partitionData[w].cellData[f.boundingCells[i]].globalID == gc, "cell of a face refers to another cell"); }
      sx_assert(f.boundaryType == (U)(mb ? ParallelMesh::MeshBoundary : pb ? ParallelMesh::PartitionBoundary : ParallelMesh::NotBoundary), "boundary type of a face"); if (pb) sx_reach("rank boundary"); if (mb) sx_reach("mesh boundary"); if (!mb && !pb) sx_reach("interior face"); }
    for (auto &n : p.nodeData) { sx_assert(n.globalID < s.c_numNodes && needN[n.globalID] == 1, "a node is twice in a partition or not used by it"); needN[n.globalID] = 2; for (int i = 0; i < 3; i++) sx_assert(sx_same(n.coords[i], s0.c_nodeData[n.globalID].coords[i]), "coordinates of a node"); }
    if (!p.numCells) sx_reach("empty partition"); }
  sx_assert(q.c_bytesOffset[R] == off, "size of the file"); sx_assert(cells == (U)m.nt, "number of cells"); sx_reach("done");
  return 0;
}
