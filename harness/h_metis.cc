// C15: the graph partitioner, run as a program; the graph library is a stand-in that examines the graph it is given and returns an arbitrary partition.
#include "common.hh"
#include <metis.h>
int metis_main(int argc, char *argv[]);
static MeshDef m; static SerialMesh s; static int parts, fails, calls; static std::vector<U> answer;
static int graph(idx_t *nvtxs, idx_t *ncon, idx_t *xadj, idx_t *adjncy, idx_t *vwgt, idx_t *vsize, idx_t *adjwgt, idx_t *nparts, real_t *tp, idx_t *part) {
  int n = m.nt; calls++; sx_assert(*nvtxs == n, "number of vertices of the graph"); sx_assert(*nparts == parts, "number of partitions asked for"); sx_assert(*ncon == 1, "number of constraints"); sx_assert(xadj[0] == 0, "the first list does not begin at 0");
  if (vwgt) for (int c = 1; c < n; c++) sx_assert(vwgt[c] == vwgt[0] && vwgt[c] > 0, "cells have different weights"); if (adjwgt) for (int k = 1; k < xadj[n]; k++) sx_assert(adjwgt[k] == adjwgt[0] && adjwgt[k] > 0, "faces have different weights"); if (vsize) for (int c = 1; c < n; c++) sx_assert(vsize[c] == vsize[0], "cells have different sizes");
  if (tp) for (int p = 1; p < parts; p++) sx_assert(tp[p] == tp[0], "partitions have different weights");
  for (int c = 0; c < n; c++) { std::vector<int> adj(n), got(n); int deg = 0; for (int i = 0; i < 4; i++) { SerialMesh::FaceData &f = s.c_faceData[s.c_cellData[c].boundingFaces[i]]; for (int k = 0; k < 2; k++) if (f.boundingCells[k] != NONE && f.boundingCells[k] != (U)c) { adj[f.boundingCells[k]]++; deg++; } }
    sx_assert(xadj[c + 1] - xadj[c] == deg, "number of neighbours of a cell"); for (int k = xadj[c]; k < xadj[c + 1]; k++) { sx_assert(adjncy[k] >= 0 && adjncy[k] < n, "a neighbour is no cell"); got[adjncy[k]]++; }
    for (int d = 0; d < n; d++) sx_assert(adj[d] == got[d], "the neighbours of a cell are not those across its faces"); if (deg) sx_reach("neighbours"); if (deg < 4) sx_reach("boundary cell"); }
  if (fails) return fails == 1 ? METIS_ERROR_INPUT : fails == 2 ? METIS_ERROR : -3;
  answer.resize(n); for (int c = 0; c < n; c++) { answer[c] = sx_u64("part"); sx_assume(answer[c] < (U)parts); part[c] = (idx_t)answer[c]; } return METIS_OK; }
extern "C" int METIS_SetDefaultOptions(idx_t *o) { for (int i = 0; i < METIS_NOPTIONS; i++) o[i] = -1; return METIS_OK; }
extern "C" int METIS_PartGraphKway(idx_t *n, idx_t *nc, idx_t *x, idx_t *a, idx_t *vw, idx_t *vs, idx_t *aw, idx_t *np, real_t *tp, real_t *, idx_t *, idx_t *cut, idx_t *p) { *cut = 0; return graph(n, nc, x, a, vw, vs, aw, np, tp, p); }
extern "C" int METIS_PartGraphRecursive(idx_t *n, idx_t *nc, idx_t *x, idx_t *a, idx_t *vw, idx_t *vs, idx_t *aw, idx_t *np, real_t *tp, real_t *, idx_t *, idx_t *cut, idx_t *p) { *cut = 0; return graph(n, nc, x, a, vw, vs, aw, np, tp, p); }
extern "C" int sx_main() {
  sxmpi_init(); parts = P("parts", 2); fails = P("fails", 0) ? 1 + sx_choose(3, "library_error") : 0; meshDef(P("mesh", 4), m); if (P("subset", 0)) { int keep = 1 + sx_choose(m.nt, "cells"); m.nt = keep; }
  int glue = P("glue", 0); toSerial(m, s, P("rots", 0) ? sx_choose(P("rots", 0), "face_vertex_order") : 1, P("revs", 0) ? sx_choose(2, "face_list_order") : 0);
  if (glue) { U F = s.c_numFaces; for (U f = 0; f < F; f++) if (s.c_faceData[f].boundingCells[1] != NONE && sx_choose(2, "unglued")) { U d = s.c_faceData[f].boundingCells[1], g = s.c_faceData.size(); s.c_faceData[f].boundingCells[1] = NONE; SerialMesh::FaceData n = s.c_faceData[f]; n.boundingCells[0] = d; for (int i = 0; i < 4; i++) if (s.c_cellData[d].boundingFaces[i] == f) s.c_cellData[d].boundingFaces[i] = g; s.c_faceData.push_back(n); s.c_numFaces++; } } // any subset of the interior faces
  for (auto &f : s.c_faceData) if (f.boundingCells[1] != NONE && P("swap", 1) && sx_choose(2, "swapped_cells")) { U t = f.boundingCells[0]; f.boundingCells[0] = f.boundingCells[1]; f.boundingCells[1] = t; }
  if (P("renum", 0) && sx_choose(2, "renumber")) { U F = s.c_numFaces; std::vector<SerialMesh::FaceData> t = s.c_faceData; for (U f = 0; f < F; f++) t[F - 1 - f] = s.c_faceData[f]; s.c_faceData = t; for (auto &c : s.c_cellData) for (int i = 0; i < 4; i++) c.boundingFaces[i] = F - 1 - c.boundingFaces[i]; }
  for (auto &c : s.c_cellData) c.materialIndex = sx_u64("material");
  s.write("in.smesh"); std::string a = std::to_string(parts); char p0[] = "PartitionMetis.x", p2[] = "in.smesh", p3[] = "out.pmesh"; char *av[] = {p0, &a[0], p2, p3, 0}; int n = m.nt;
  if (fails) sx_set("abort_ok", 1);
  int r = metis_main(4, av); if (fails) { SxFile *f = sx_fs_find("out.pmesh", false); sx_assert(r != 0 || f == 0, "the library failed and a partition was written all the same"); sx_reach("refused"); return 0; }
  sx_assert(r == 0, "the program reports an error"); SxFile *f = sx_fs_find("out.pmesh", false); sx_assert(f != 0, "no mesh was written");
  if (parts > 1) sx_assert(calls == 1, "the graph was not partitioned exactly once");
  if (answer.empty()) answer.resize(n);
  ParallelMesh q; q.read("out.pmesh"); sx_assert(q.c_numPartitions == (U)parts, "number of partitions"); std::vector<int> seen(n);
  for (int p = 0; p < parts; p++) for (auto &d : q.c_partitionData[p].cellData) { sx_assert(d.globalID < (U)n, "a cell that does not exist"); sx_assert(!seen[d.globalID], "a cell is in two partitions"); seen[d.globalID] = 1; sx_assert(answer[d.globalID] == (U)p, "a cell is not in the partition the library chose"); sx_assert(d.materialIndex == s.c_cellData[d.globalID].materialIndex, "material of a cell"); }
  for (int c = 0; c < n; c++) sx_assert(seen[c], "a cell is in no partition"); sx_reach("done"); return 0;
}
