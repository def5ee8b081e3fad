// Shared pieces of the harnesses: small meshes, mesh files in the in-memory file system, configuration of the run.
#pragma once
#include "sx.h"
#include <mpi.h>
#include <vector>
#include <string>
#include <cmath>
#include "Global.hh"
#include "Quadrature.hh"
#include "TychoMesh.hh"
#include "SerialMesh.hh"
#include "ParallelMesh.hh"
#include "PsiData.hh"
#include "Mat.hh"
extern int sxmpi_send_mode, sxmpi_delay_budget, sxmpi_any_choice, sxmpi_strict, sxmpi_choices;
void sxmpi_init(); void sxmpi_check_clean(const char *); uint64_t sxmpi_pending_messages();
typedef uint64_t U;
static const U NONE = UINT64_MAX;
static inline int64_t P(const char *n, int64_t d);
// buffering (0 eager, 1 rendezvous, 2/3 free choice for the first 'choices' operations of each rank, then eager / rendezvous), arrival order and delays of the MPI model
static void mpiModel() { sxmpi_send_mode = P("sendmode", 0); sxmpi_delay_budget = P("delay", 0); sxmpi_any_choice = P("anychoice", 0); sxmpi_choices = P("choices", 1000); sx_set("preempt", P("preempt", 0)); sx_set("omp_order", P("omporder", 0)); }
static inline int64_t P(const char *n, int64_t d) { return sx_param(n, d); }

// ---- small conforming meshes (nodes, tetrahedra)
struct MeshDef { int nn, nt; double x[27][3]; int t[24][4]; };
static void addNode(MeshDef &m, double a, double b, double c) { m.x[m.nn][0] = a; m.x[m.nn][1] = b; m.x[m.nn][2] = c; m.nn++; }
static void addTet(MeshDef &m, int a, int b, int c, int d) { m.t[m.nt][0] = a; m.t[m.nt][1] = b; m.t[m.nt][2] = c; m.t[m.nt][3] = d; m.nt++; }
static void cubeNodes(MeshDef &m, double x0, double x1) { for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) addNode(m, i ? x1 : x0, j, k); }
// 0: one tetrahedron; 1: two sharing a face; 2: cube in 5; 3: cube in 6 (all share the diagonal); 4: strip of 3; 5: irregular fan of 4 around an edge; 6: two cubes, 10 tetrahedra; 7: strip of 4
static void meshDef(int id, MeshDef &m) {
  m.nn = m.nt = 0;
  switch (id) {
  case 0: addNode(m, 0, 0, 0); addNode(m, 1, 0, 0); addNode(m, 0, 1, 0); addNode(m, 0, 0, 1); addTet(m, 0, 1, 2, 3); break;
  case 1: addNode(m, 0.1, 0, 0); addNode(m, 1, 0.05, 0); addNode(m, 0, 1.1, 0.15); addNode(m, 0.2, 0.1, 1); addNode(m, 0.9, 1.2, 1.1); addTet(m, 2, 0, 3, 1); addTet(m, 1, 3, 4, 2); break;
  case 2: cubeNodes(m, 0, 1); addTet(m, 0, 1, 2, 4); addTet(m, 3, 1, 7, 2); addTet(m, 5, 4, 1, 7); addTet(m, 2, 6, 7, 4); addTet(m, 7, 1, 2, 4); break;
  case 3: cubeNodes(m, 0, 1); addTet(m, 0, 1, 3, 7); addTet(m, 0, 3, 2, 7); addTet(m, 0, 2, 6, 7); addTet(m, 0, 6, 4, 7); addTet(m, 0, 4, 5, 7); addTet(m, 0, 5, 1, 7); break;
  case 4: addNode(m, 0, 0, 0); addNode(m, 1, 0.1, 0); addNode(m, 0.3, 1, 0.1); addNode(m, 0.2, 0.3, 1); addNode(m, 1.2, 1.1, 0.9); addNode(m, 0.4, 1.3, 1.6); addTet(m, 0, 1, 2, 3); addTet(m, 4, 2, 1, 3); addTet(m, 3, 5, 4, 2); break;
  case 5: addNode(m, 0, 0, 0); addNode(m, 0, 0.1, 1); addNode(m, 1, 0, 0.4); addNode(m, 0.1, 1.1, 0.3); addNode(m, -1, 0.2, 0.6); addNode(m, 0.1, -0.9, 0.5); addTet(m, 0, 1, 2, 3); addTet(m, 1, 3, 0, 4); addTet(m, 4, 5, 0, 1); addTet(m, 5, 2, 1, 0); break;
  case 6: for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) addNode(m, i, j, k);
    addTet(m, 0, 1, 3, 6); addTet(m, 4, 1, 10, 3); addTet(m, 7, 6, 1, 10); addTet(m, 9, 6, 10, 3); addTet(m, 1, 3, 6, 10);
    addTet(m, 2, 5, 1, 8); addTet(m, 4, 1, 5, 10); addTet(m, 7, 1, 8, 10); addTet(m, 11, 10, 8, 5); addTet(m, 1, 5, 8, 10); break;
  case 7: addNode(m, 0, 0, 0); addNode(m, 1, 0.1, 0); addNode(m, 0.3, 1, 0.1); addNode(m, 0.2, 0.3, 1); addNode(m, 1.2, 1.1, 0.9); addNode(m, 0.4, 1.3, 1.6); addNode(m, 1.5, 0.6, 1.9); addTet(m, 0, 1, 2, 3); addTet(m, 4, 2, 1, 3); addTet(m, 3, 5, 4, 2); addTet(m, 5, 4, 6, 3); break;
  case 8: // a sliver, a tiny cell and a far-away cell (not connected)
    addNode(m, 0, 0, 0); addNode(m, 1, 0.1, 0.02); addNode(m, 0.1, 1, 0.03); addNode(m, 0.4, 0.3, 0.02); addTet(m, 0, 1, 2, 3);
    addNode(m, 2, 0, 0); addNode(m, 2.01, 0.001, 0); addNode(m, 2.002, 0.012, 0.001); addNode(m, 2.003, 0.004, 0.009); addTet(m, 6, 5, 4, 7);
    addNode(m, 300, 40, 50); addNode(m, 301, 40.5, 50.25); addNode(m, 300.25, 47, 50.5); addNode(m, 299, 40.125, 58); addTet(m, 8, 9, 10, 11); break;
  default: sx_fail("model", "mesh id");
  }
}
// coordinates are divided by unit() = 2^scale2
static double unit() { double u = 1; for (int k = P("scale2", 0); k > 0; k--) u *= 2; for (int k = P("scale2", 0); k < 0; k++) u /= 2; return u; }
static void rescale(MeshDef &m) { for (int i = 0; i < m.nn; i++) for (int d = 0; d < 3; d++) m.x[i][d] /= unit(); }
static bool sameFace(const U *a, const U *b) { for (int i = 0; i < 3; i++) { bool f = false; for (int j = 0; j < 3; j++) if (a[i] == b[j]) f = true; if (!f) return false; } return true; }
// serial mesh of a definition: faces numbered in order of first use; 'rot' varies the vertex order inside faces, 'rev' the order of the cells' face lists
static void toSerial(const MeshDef &m, SerialMesh &s, int rot = 0, int rev = 0) {
  memset(s.c_meshFormatName, 0, 32); strcpy(s.c_meshFormatName, "Tycho 2 Serial Mesh"); s.c_version = SerialMesh::VERSION;
  s.c_numCells = m.nt; s.c_numNodes = m.nn; s.c_cellData.resize(m.nt); s.c_nodeData.resize(m.nn); s.c_faceData.clear();
  for (int i = 0; i < m.nn; i++) for (int d = 0; d < 3; d++) s.c_nodeData[i].coords[d] = m.x[i][d];
  for (int c = 0; c < m.nt; c++) {
    SerialMesh::CellData &cd = s.c_cellData[c]; cd.materialIndex = 1;
    for (int v = 0; v < 4; v++) cd.boundingNodes[v] = m.t[c][v];
    for (int f = 0; f < 4; f++) {
      U n[3]; int k = 0; for (int v = 0; v < 4; v++) if (v != f) n[k++] = m.t[c][v];
      int r = (rot + c + f) % 6; if (rot) { U q[3] = {n[0], n[1], n[2]}; static const int pm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; for (int i = 0; i < 3; i++) n[i] = q[pm[r][i]]; }
      U found = NONE; for (U g = 0; g < s.c_faceData.size(); g++) if (sameFace(s.c_faceData[g].boundingNodes, n)) found = g;
      if (found == NONE) { SerialMesh::FaceData fd; fd.boundingCells[0] = c; fd.boundingCells[1] = SerialMesh::INVALID_INDEX; for (int i = 0; i < 3; i++) fd.boundingNodes[i] = n[i]; found = s.c_faceData.size(); s.c_faceData.push_back(fd); }
      else s.c_faceData[found].boundingCells[1] = c;
      cd.boundingFaces[rev ? 3 - f : (f + rot) % 4] = found;
    }
  }
  s.c_numFaces = s.c_faceData.size();
}
static void splitAndWrite(const SerialMesh &s, const std::vector<U> &part, int n, const char *file) { ParallelMesh pm; pm.createFromSerialMesh(s, part, n); pm.write(file); }
// arbitrary partition: every assignment that leaves no rank empty when 'full'; up to 'maxSplit' cells are free
static std::vector<U> choosePart(int cells, int ranks, bool full = true) {
  std::vector<U> p(cells); if (ranks == 1) return p;
  int cnt[8] = {0}; for (int c = 0; c < cells; c++) { p[c] = sx_choose(ranks, "part"); cnt[p[c]]++; }
  if (full) for (int r = 0; r < ranks; r++) sx_assume(cnt[r] > 0);
  return p; }
static std::vector<U> partFromCode(int cells, int ranks, U code) { std::vector<U> p(cells); for (int c = 0; c < cells; c++) { p[c] = code % ranks; code /= ranks; } return p; }

// ---- direction set: replace the quadrature's directions (falls back to the real ones if its storage is reorganised)
template<class Q> static auto setDir(Q *q, U a, double x, double y, double z, int) -> decltype((void)q->c_mu[0], (void)q->c_eta[0], (void)q->c_xi[0], true) { q->c_xi[a] = x; q->c_eta[a] = y; q->c_mu[a] = z; return true; }
template<class Q> static bool setDir(Q *, U, double, double, double, long) { return false; }
static void symbolicDirections(U n) {
  for (U a = 0; a < n; a++) { double x = sx_real("omega_x"), y = sx_real("omega_y"), z = sx_real("omega_z");
    sx_assume(x >= -1 && x <= 1 && y >= -1 && y <= 1 && z >= -1 && z <= 1);
    setDir(g_quadrature, a, x, y, z, 0);
    if (P("opposite", 0) && a == 0) { setDir(g_quadrature, 1, -x, -y, -z, 0); a++; } } }
static void basicGlobals(U threads, U groups, U angles) {
  g_nThreads = threads; g_nAngleGroups = threads; g_nGroups = groups; g_snOrder = 2; g_quadrature = new Quadrature(2); g_nAngles = angles;
  g_iterMax = 1; g_errMax = 1e-5; g_ddErrMax = 1e-5; g_ddIterMax = 10; g_maxCellsPerStep = 1000; g_intraAngleP = 0; g_interAngleP = 0; g_useSourceIteration = true;
  g_mpiType = MPIType_TychoTwoSided; g_sweepType = SweepType_TraverseGraph; g_gaussElim = GaussElim_Original; g_outputFile = false; g_outputFilename = "out.psi";
  sx_threads((int)threads); sxmpi_init(); }
// directions parallel to a face of the mesh have no upwind side; C07 treats them
static void assumeNoGrazing() { for (U a = 0; a < g_nAngles; a++) for (U c = 0; c < g_nCells; c++) for (U f = 0; f < 4; f++) { double o = g_tychoMesh->getOmegaDotN(a, c, f); sx_assume(o > 1e-9 || o < -1e-9); } }
// face of a neighbouring cell (local) that is shared with (c, f), found from the nodes
static U mirrorFace(U c, U f) { U d = g_tychoMesh->getAdjCell(c, f); for (U g = 0; g < 4; g++) if (g_tychoMesh->getAdjCell(d, g) == c) { bool shared = false; U opp = g_tychoMesh->getCellNode(d, g); for (U v = 0; v < 4; v++) if (g_tychoMesh->getCellNode(c, v) == opp) shared = true; if (!shared) return g; } return NONE; }
