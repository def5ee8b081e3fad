// C11, C12: mesh files. Every field of the mesh is an arbitrary value; what is read back is compared field by field, what is on disk byte by byte with the documented format.
#include "common.hh"
static void put(std::vector<unsigned char> &o, const void *p, size_t n) { o.insert(o.end(), (const unsigned char *)p, (const unsigned char *)p + n); }
static void putU(std::vector<U> &o, const U *p, int n) { for (int i = 0; i < n; i++) o.push_back(p[i]); }
static U cst(const char *n) { return sx_u64(n); }
static const char SN[32] = "Tycho 2 Serial Mesh", PN[32] = "Tycho 2 Parallel Mesh";
static U bits(double d) { U u; memcpy(&u, &d, 8); return u; }
// ---- serial
static void fillSerial(SerialMesh &s) {
  s.c_numCells = sx_choose(P("maxc", 2) + 1, "cells"); s.c_numFaces = sx_choose(P("maxf", 2) + 1, "faces"); s.c_numNodes = sx_choose(P("maxn", 2) + 1, "nodes");
  s.c_cellData.resize(s.c_numCells); s.c_faceData.resize(s.c_numFaces); s.c_nodeData.resize(s.c_numNodes);
  for (auto &c : s.c_cellData) { for (int i = 0; i < 4; i++) c.boundingFaces[i] = cst("cell_face"); for (int i = 0; i < 4; i++) c.boundingNodes[i] = cst("cell_node"); c.materialIndex = cst("material"); }
  for (auto &f : s.c_faceData) { for (int i = 0; i < 2; i++) f.boundingCells[i] = cst("face_cell"); for (int i = 0; i < 3; i++) f.boundingNodes[i] = cst("face_node"); }
  for (auto &n : s.c_nodeData) for (int i = 0; i < 3; i++) n.coords[i] = sx_opaque("coord");
}
static void imageSerial(const SerialMesh &s, std::vector<unsigned char> &o) {
  std::vector<U> u; u.push_back(2); u.push_back(s.c_numCells); u.push_back(s.c_numFaces); u.push_back(s.c_numNodes);
  for (auto &c : s.c_cellData) { putU(u, c.boundingFaces, 4); putU(u, c.boundingNodes, 4); u.push_back(c.materialIndex); }
  for (auto &f : s.c_faceData) { putU(u, f.boundingCells, 2); putU(u, f.boundingNodes, 3); }
  put(o, SN, 32); put(o, u.data(), u.size() * 8); for (auto &n : s.c_nodeData) put(o, n.coords, 24); }
static void sameSerial(const SerialMesh &a, const SerialMesh &b) {
  sx_assert((a.c_numCells == b.c_numCells) & (a.c_numFaces == b.c_numFaces) & (a.c_numNodes == b.c_numNodes) & (a.c_version == 2) & (b.c_version == 2), "header read back");
  sx_assert(b.c_cellData.size() == b.c_numCells && b.c_faceData.size() == b.c_numFaces && b.c_nodeData.size() == b.c_numNodes, "sizes read back");
  sx_assert(sx_same_bytes(b.c_meshFormatName, SN, 32), "format name read back");
  for (U i = 0; i < a.c_numCells; i++) { for (int k = 0; k < 4; k++) { sx_assert(a.c_cellData[i].boundingFaces[k] == b.c_cellData[i].boundingFaces[k], "faces of a cell read back"); sx_assert(a.c_cellData[i].boundingNodes[k] == b.c_cellData[i].boundingNodes[k], "nodes of a cell read back"); } sx_assert(a.c_cellData[i].materialIndex == b.c_cellData[i].materialIndex, "material of a cell read back"); }
  for (U i = 0; i < a.c_numFaces; i++) { for (int k = 0; k < 2; k++) sx_assert(a.c_faceData[i].boundingCells[k] == b.c_faceData[i].boundingCells[k], "cells of a face read back"); for (int k = 0; k < 3; k++) sx_assert(a.c_faceData[i].boundingNodes[k] == b.c_faceData[i].boundingNodes[k], "nodes of a face read back"); }
  for (U i = 0; i < a.c_numNodes; i++) for (int k = 0; k < 3; k++) sx_assert(sx_same(a.c_nodeData[i].coords[k], b.c_nodeData[i].coords[k]), "coordinates of a node read back"); }
// ---- parallel
static void fillPart(ParallelMesh::PartitionData &p) {
  p.numCells = sx_choose(P("maxc", 1) + 1, "cells"); p.numFaces = sx_choose(P("maxf", 1) + 1, "faces"); p.numNodes = sx_choose(P("maxn", 1) + 1, "nodes");
  p.cellData.resize(p.numCells); p.faceData.resize(p.numFaces); p.nodeData.resize(p.numNodes);
  for (auto &c : p.cellData) { for (int i = 0; i < 4; i++) c.boundingFaces[i] = cst("cell_face"); for (int i = 0; i < 4; i++) c.boundingNodes[i] = cst("cell_node"); c.globalID = cst("cell_id"); c.materialIndex = cst("material"); }
  for (auto &f : p.faceData) { for (int i = 0; i < 2; i++) f.boundingCells[i] = cst("face_cell"); for (int i = 0; i < 3; i++) f.boundingNodes[i] = cst("face_node"); f.globalID = cst("face_id"); for (int i = 0; i < 2; i++) f.partition[i] = cst("face_partition"); f.boundaryType = cst("face_type"); sx_assume(f.boundaryType < ParallelMesh::NumBoundaryTypes); }
  for (auto &n : p.nodeData) { for (int i = 0; i < 3; i++) n.coords[i] = sx_opaque("coord"); n.globalID = cst("node_id"); } }
static void imagePart(const ParallelMesh::PartitionData &p, std::vector<U> &u) {
  u.push_back(p.numCells); u.push_back(p.numFaces); u.push_back(p.numNodes);
  for (auto &c : p.cellData) { putU(u, c.boundingFaces, 4); putU(u, c.boundingNodes, 4); u.push_back(c.globalID); u.push_back(c.materialIndex); }
  for (auto &f : p.faceData) { putU(u, f.boundingCells, 2); putU(u, f.boundingNodes, 3); u.push_back(f.globalID); putU(u, f.partition, 2); u.push_back(f.boundaryType); }
  for (auto &n : p.nodeData) { for (int k = 0; k < 3; k++) u.push_back(bits(n.coords[k])); u.push_back(n.globalID); } }
static U partBytes(const ParallelMesh::PartitionData &p) { return 24 + p.numCells * 80 + p.numFaces * 72 + p.numNodes * 32; }
static void samePart(const ParallelMesh::PartitionData &a, const ParallelMesh::PartitionData &b) {
  sx_assert(a.numCells == b.numCells && a.numFaces == b.numFaces && a.numNodes == b.numNodes && b.cellData.size() == a.numCells && b.faceData.size() == a.numFaces && b.nodeData.size() == a.numNodes, "sizes of a partition read back");
  for (U i = 0; i < a.numCells; i++) { for (int k = 0; k < 4; k++) { sx_assert(a.cellData[i].boundingFaces[k] == b.cellData[i].boundingFaces[k], "faces of a cell read back"); sx_assert(a.cellData[i].boundingNodes[k] == b.cellData[i].boundingNodes[k], "nodes of a cell read back"); } sx_assert(a.cellData[i].materialIndex == b.cellData[i].materialIndex, "material of a cell read back"); sx_assert(a.cellData[i].globalID == b.cellData[i].globalID, "global number of a cell read back"); }
  for (U i = 0; i < a.numFaces; i++) { for (int k = 0; k < 2; k++) { sx_assert(a.faceData[i].boundingCells[k] == b.faceData[i].boundingCells[k], "cells of a face read back"); sx_assert(a.faceData[i].partition[k] == b.faceData[i].partition[k], "partitions of a face read back"); } for (int k = 0; k < 3; k++) sx_assert(a.faceData[i].boundingNodes[k] == b.faceData[i].boundingNodes[k], "nodes of a face read back"); sx_assert(a.faceData[i].globalID == b.faceData[i].globalID, "global number of a face read back"); sx_assert(a.faceData[i].boundaryType == b.faceData[i].boundaryType, "boundary type of a face read back"); }
  for (U i = 0; i < a.numNodes; i++) { for (int k = 0; k < 3; k++) sx_assert(sx_same(a.nodeData[i].coords[k], b.nodeData[i].coords[k]), "coordinates of a node read back"); sx_assert(a.nodeData[i].globalID == b.nodeData[i].globalID, "global number of a node read back"); } }
static void dirtyPart(ParallelMesh::PartitionData &p) { p.numCells = 3; p.numFaces = 4; p.numNodes = 2; p.cellData.resize(3); p.faceData.resize(4); p.nodeData.resize(2); }
extern "C" int sx_main() {
  int kind = P("kind", 0); sxmpi_init();
  if (kind == 0) { // serial round trip and format
    SerialMesh a, b; fillSerial(a); memset(a.c_meshFormatName, 'x', 32); a.c_version = 77; if (P("stale", 1)) { std::vector<char> junk(4000, 'j'); sx_file_write("m.smesh", junk.data(), junk.size()); }
    a.write("m.smesh"); std::vector<unsigned char> img; imageSerial(a, img); SxFile *f = sx_fs_find("m.smesh", false);
    sx_assert(f && f->size == img.size(), "the file has not the documented size"); sx_assert(sx_same_bytes(f->data, img.data(), img.size()), "the file has not the documented format");
    if (P("dirty", 1)) { b.c_cellData.resize(5); b.c_faceData.resize(1); b.c_nodeData.resize(7); }
    b.read("m.smesh"); sameSerial(a, b); sx_reach("serial file read back");
  } else if (kind == 1) { // anything else than the supported format is refused
    SerialMesh a, b; fillSerial(a); a.c_version = 2; std::vector<unsigned char> img; imageSerial(a, img);
    U v = 2; unsigned char nm[32]; memcpy(nm, SN, 32);
    int what = sx_choose(3, "what"); if (what == 0) for (int i = 0; i < 32; i++) nm[i] = sx_u8("magic"); if (what == 1) v = sx_u64("version"); 
    memcpy(&img[0], nm, 32); memcpy(&img[32], &v, 8); size_t len = what == 2 ? sx_choose(img.size() + 1, "length") : img.size();
    sx_file_write("m.smesh", img.data(), len); sx_set("abort_ok", 1); b.read("m.smesh"); sx_set("abort_ok", 0);
    sx_assert(sx_same_bytes(nm, SN, 32), "a file with another format name was accepted"); sx_assert(v == 2, "a file of another version was accepted"); sx_assert(len == img.size(), "a truncated file was accepted");
    sameSerial(a, b); sx_reach("accepted");
  } else { // parallel
    int n = P("parts", 2); ParallelMesh a; a.c_numPartitions = n; a.c_partitionData.resize(n); a.c_bytesOffset.resize(n + 1); a.c_bytesOffset[0] = 32 + (3 + n) * 8;
    for (int i = 0; i < n; i++) { fillPart(a.c_partitionData[i]); a.c_bytesOffset[i + 1] = a.c_bytesOffset[i] + partBytes(a.c_partitionData[i]); }
    std::vector<U> u; U v = 2, np = n; unsigned char nm[32]; memcpy(nm, PN, 32); bool whole = true;
    if (kind == 3) { int what = sx_choose(3, "what"); if (what == 0) for (int i = 0; i < 32; i++) nm[i] = sx_u8("magic"); if (what == 1) v = sx_u64("version"); if (what == 2) { if (P("par", 1)) np = sx_u64("partitions"); else whole = false; } }
    u.push_back(v); u.push_back(np); for (U o : a.c_bytesOffset) u.push_back(o); for (auto &p : a.c_partitionData) imagePart(p, u);
    std::vector<unsigned char> img; put(img, nm, 32); put(img, u.data(), u.size() * 8);
    if (kind == 2) { memset(a.c_meshFormatName, 'x', 32); a.c_version = 77; std::vector<char> junk(5000, 'j'); sx_file_write("m.pmesh", junk.data(), junk.size()); a.write("m.pmesh"); SxFile *f = sx_fs_find("m.pmesh", false);
      sx_assert(f && f->size == img.size(), "the file has not the documented size"); sx_assert(sx_same_bytes(f->data, img.data(), img.size()), "the file has not the documented format"); }
    else { size_t len = whole ? img.size() : (size_t)sx_choose(img.size() / 8 + 1, "words") * 8; whole = len == img.size(); sx_file_write("m.pmesh", img.data(), len); sx_set("abort_ok", 1); }
    if (kind == 2 || !P("par", 1)) { ParallelMesh b; b.c_partitionData.resize(1); dirtyPart(b.c_partitionData[0]); b.read("m.pmesh"); sx_set("abort_ok", 0);
      if (kind == 3) { sx_assert(sx_same_bytes(nm, PN, 32), "a file with another format name was accepted"); sx_assert(v == 2, "a file of another version was accepted"); sx_assert(whole, "a truncated file was accepted"); sx_reach("accepted"); }
      sx_assert(b.c_version == 2 && b.c_numPartitions == (U)n && b.c_partitionData.size() == (U)n && b.c_bytesOffset.size() == (U)n + 1 && sx_same_bytes(b.c_meshFormatName, PN, 32), "header read back");
      for (int i = 0; i <= n; i++) sx_assert(a.c_bytesOffset[i] == b.c_bytesOffset[i], "offsets read back");
      for (int i = 0; i < n; i++) samePart(a.c_partitionData[i], b.c_partitionData[i]); sx_reach("whole file read back"); }
    if (kind == 2 || P("par", 1)) { sx_spawn(n); int argc = 0; MPI_Init(&argc, 0); ParallelMesh::PartitionData p; dirtyPart(p); ParallelMesh::readInParallel("m.pmesh", p); sx_set("abort_ok", 0);
      if (kind == 3) { sx_assert(sx_same_bytes(nm, PN, 32), "a file with another format name was accepted"); sx_assert(v == 2, "a file of another version was accepted"); sx_assert(np == (U)n, "a file with another number of partitions was accepted"); sx_reach("accepted"); }
      samePart(a.c_partitionData[sx_rank()], p); sxmpi_check_clean("after reading"); sx_join(); sx_reach("partition read by its rank"); }
  }
  sx_reach("done");
  return 0;
}
