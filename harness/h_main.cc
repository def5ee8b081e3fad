// C10, C18, C20, C22, C27: the real main() with a mesh file and an input deck in the in-memory file system; the external source is arbitrary.
#include "ref.hh"
#include "Problem.hh"
#include "Util.hh"
#include <cstdio>
int tycho_main(int argc, char *argv[]);
extern int sxpetsc_check_linear;
struct Shared { U vmap[24][4], set[24]; };
static Shared *sh; static MeshDef m; static SerialMesh s; static std::vector<double> src; static int A, G;
static size_t I(int c, int v, int a, int g) { return ((size_t)(c * A + a) * 4 + v) * G + g; }
namespace Problem {
void getSource(PsiData &q) {
  for (U c = 0; c < g_nCells; c++) { U gc = g_tychoMesh->getLGCell(c); sh->set[gc] = 1;
    for (U v = 0; v < 4; v++) { U n = g_tychoMesh->getCellNode(c, v), hit = NONE; for (U k = 0; k < 4; k++) { bool eq = true; for (int d = 0; d < 3; d++) if (g_tychoMesh->getNodeCoord(n, d) != m.x[m.t[gc][k]][d]) eq = false; if (eq) hit = k; }
      if (hit == NONE) sx_fail("model", "vertex not found"); sh->vmap[gc][v] = hit;
      for (int a = 0; a < A; a++) for (int g = 0; g < G; g++) q(g, v, a, c) = src[I(gc, hit, a, g)]; } } }
double hatL2Error(const PsiData &) { return 0; }
}
namespace Util { double diffBetweenGroups(const PsiData &) { return 0; } }
static std::string num(double x) { char b[40]; char *p = b; if (x < 0) { *p++ = '-'; x = -x; } int i = (int)x; std::string r; do { r.insert(r.begin(), '0' + i % 10); i /= 10; } while (i); x -= (int)x; std::string q(b, p - b); q += r + "."; for (int k = 0; k < 6; k++) { x *= 10; int d = (int)(x + 1e-9); q += (char)('0' + d); x -= d; } return q; }
static std::string inum(long x) { std::string r; bool neg = x < 0; if (neg) x = -x; do { r.insert(r.begin(), '0' + x % 10); x /= 10; } while (x); return neg ? "-" + r : r; }
static const char *SW[] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "Schur", "SchurOuter", "PBJSI", "SchurKrylov"};
static const char *GE[] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"};
extern "C" int sx_main() {
  int ranks = P("ranks", 1), sweepType = P("sweep", 2), iters = P("iters", 1), elim = P("elim", 1); if (P("sweeps", 0)) { static const int L[9] = {2, 0, 1, 3, 4, 5, 6, 7, 8}; sweepType = L[sx_choose(P("sweeps", 0), "sweep_type")]; } G = P("groups", 1); A = 8;
  int ddIter = P("dditer", 20), maxstep = P("maxstep", 0) ? P("maxstep", 0) : P("steps", 0) ? 1 + sx_choose(P("steps", 0), "maxCellsPerStep") : 100, intra = P("intra", 0) < 0 ? (int)sx_choose(5, "intraAngleP") : P("intra", 0), inter = P("inter", 0) < 0 ? (int)sx_choose(3, "interAngleP") : P("inter", 0);
  bool si = P("si", 1) < 0 ? sx_choose(2, "source_iteration") : P("si", 1), cap = P("mpitype", 0) < 0 ? sx_choose(2, "mpi_type") : P("mpitype", 0);
  double sigT[2] = {2.0, 3.5}, sigS[2] = {0, 0}; if (P("scatter", 0) == 1) { sigS[0] = 0.5; sigS[1] = 1.25; } if (P("scatter", 0) == 2) { sigS[0] = 0.03; sigS[1] = 0.05; }
  meshDef(P("mesh", 4), m); if (P("skew", 0)) for (int i = 0; i < m.nn; i++) { double a = m.x[i][0], b = m.x[i][1], c = m.x[i][2]; m.x[i][0] = a + 0.11 * b + 0.07 * c; m.x[i][1] = b + 0.13 * c - 0.05 * a; m.x[i][2] = c + 0.17 * a + 0.03 * b; }
  toSerial(m, s, P("rot", 1)); for (int c = 0; c < m.nt; c++) s.c_cellData[c].materialIndex = 1 + c % 2;
  std::vector<U> part = P("part", -1) >= 0 ? partFromCode(m.nt, ranks, P("part", 0)) : choosePart(m.nt, ranks);
  splitAndWrite(s, part, ranks, "m.pmesh");
  std::string d = "# deck\nsnOrder 2\niterMax " + inum(iters) + "\nerrMax " + (P("conv", 0) ? "1e-9" : "-1.0") + "\nmaxCellsPerStep " + inum(maxstep) + "\nintraAngleP " + inum(intra) + "\ninterAngleP " + inum(inter) + "\nnGroups " + inum(G);
  d += "\nsigmaT1 " + num(sigT[0]) + "\nsigmaS1 " + num(sigS[0]) + "\nsigmaT2 " + num(sigT[1]) + "\nsigmaS2 " + num(sigS[1]) + "\nOutputFile true\nOutputFilename o.psi\nSourceIteration " + (si ? "true" : "false") + "\nDD_IterMax " + inum(ddIter) + "\nDD_ErrMax " + (P("ddconv", 0) ? "1e-9" : "-1.0") + "\nSweepType " + SW[sweepType] + "\nGaussElim " + GE[elim] + "\nMPIType " + (cap ? "CapsaicinTwoSided" : "TychoTwoSided") + "\n";
  sx_file_write("in.deck", d.data(), d.size());
  src.assign((size_t)m.nt * A * 4 * G, 0.0); int sa = P("symangles", 8);
  for (int c = 0; c < m.nt; c++) for (int a = 0; a < A; a++) for (int v = 0; v < 4; v++) for (int g = 0; g < G; g++) src[I(c, v, a, g)] = a < sa ? sx_real_in("source", -1, 1) : 0.25;
  if (P("stale", 0)) { std::vector<char> junk(64 + (size_t)m.nt * A * 4 * G * 8 + 200, 'x'); sx_file_write("o.psi", junk.data(), junk.size()); sx_fs_find("o.psi", false)->written = 0; }
  sh = (Shared *)sx_shared_alloc(sizeof(Shared)); sx_threads(P("threads", 1)); mpiModel(); sxmpi_init(); sxpetsc_check_linear = P("linear", 0); sx_set("lazyabs", 1); sx_set("coefbits", 48);
  sx_spawn(ranks);
  char a0[] = "sweep.x", a1[] = "m.pmesh", a2[] = "in.deck"; char *av[] = {a0, a1, a2, 0};
  int rc = tycho_main(3, av);
  sx_assert(rc == 0, "the program ended with an error");
  sxmpi_check_clean("at the end of the run");
  sx_join();
  sx_assert(sxmpi_pending_messages() == 0, "messages are left in flight at the end of the run");
  // ---- result
  SxFile *f = sx_fs_find("o.psi", false); sx_assert(f != 0, "no output file was written");
  size_t n = (size_t)m.nt * A * 4 * G; sx_assert(f->size == 64 + n * 8, "output file has the wrong size");
  sx_assert(f->written == f->size, "some part of the output file is written more than once");
  for (int c = 0; c < m.nt; c++) for (U v = 0; v < 4; v++) sx_assert(sh->vmap[c][v] == v, "the vertices of a cell are not in the order of the mesh file");
  static const char nm[32] = "Tycho 2 Psi Output"; sx_assert(sx_same_bytes(f->data, nm, 32), "name in the output file"); U h[4] = {1, (U)m.nt, (U)A, (U)G}; sx_assert(sx_same_bytes(f->data + 32, h, 32), "header of the output file");
  std::vector<double> out(n); const double *o = (const double *)(f->data + 64);
  for (int c = 0; c < m.nt; c++) { sx_assert(sh->set[c], "a cell is on no rank"); for (int a = 0; a < A; a++) for (int v = 0; v < 4; v++) for (int g = 0; g < G; g++) out[I(c, sh->vmap[c][v], a, g)] = o[((size_t)(c * A + a) * 4 + v) * G + g]; }
  Ref R(m, A, G); Quadrature *q = new Quadrature(2); for (int a = 0; a < A; a++) { std::vector<double> w = q->getOmega(a); for (int k = 0; k < 3; k++) R.om[a * 3 + k] = w[k]; R.wt[a] = q->getWt(a); }
  for (int c = 0; c < m.nt; c++) { R.sT[c] = sigT[c % 2]; R.sS[c] = sigS[c % 2]; }
  std::vector<double> want(n), t;
  if (P("converged", 0)) { R.scatter(src, out, t); R.sweep(t, want); }
  else for (int k = 0; k < (sweepType == 7 ? ddIter - 1 : iters); k++) { R.scatter(src, want, t); R.sweep(t, want); }
  for (size_t i = 0; i < n; i++) sx_assert_near(out[i], want[i], 1e-7, P("converged", 0) ? "the flux written is not a solution of the transport equation with scattering" : "the flux written differs from the undecomposed reference sweep");
  sx_reach("flux compared"); static char tag[40]; strcpy(tag, "sweep "); strcat(tag, SW[sweepType]); sx_reach(tag);
  return 0;
}
