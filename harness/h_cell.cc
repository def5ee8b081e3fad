// C03: the local cell solve satisfies the discretised transport equation, for every elimination method.
#include "common.hh"
#include "Transport.hh"
typedef const double CD;
// area-weighted outward normal of the face opposite vertex f and the volume, from the node coordinates
static void geometry(U cell, double S[4][3], double &vol) {
  double x[4][3]; for (int v = 0; v < 4; v++) for (int d = 0; d < 3; d++) x[v][d] = g_tychoMesh->getNodeCoord(g_tychoMesh->getCellNode(cell, v), d);
  double s6 = 0;
  for (int f = 0; f < 4; f++) { int o[3], k = 0; for (int v = 0; v < 4; v++) if (v != f) o[k++] = v;
    double a[3], b[3], c[3]; for (int d = 0; d < 3; d++) { a[d] = x[o[1]][d] - x[o[0]][d]; b[d] = x[o[2]][d] - x[o[0]][d]; c[d] = x[f][d] - x[o[0]][d]; }
    double n[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
    double h = n[0] * c[0] + n[1] * c[1] + n[2] * c[2], sg = h > 0 ? -0.5 : 0.5; for (int d = 0; d < 3; d++) S[f][d] = sg * n[d]; s6 = h > 0 ? h : -h; }
  vol = s6 / 6;
}
extern "C" int sx_main() {
  MeshDef m; meshDef(P("mesh", 0), m);
  if (P("perm", 0)) { // every order of the vertices of the first cell
    int p[4] = {0, 1, 2, 3}, q[4]; for (int i = 0; i < 4; i++) q[i] = m.t[0][i]; U c = sx_choose(24, "vertex_order"); for (int i = 0; i < 4; i++) { int r = c % (4 - i); c /= 4 - i; int t = p[i]; p[i] = p[i + r]; p[i + r] = t; } for (int i = 0; i < 4; i++) m.t[0][i] = q[p[i]]; }
  const double u = unit(), u2 = u * u; if (P("scale2", 0)) rescale(m);
  SerialMesh s; toSerial(m, s, P("rot", 1)); splitAndWrite(s, std::vector<U>(m.nt, 0), 1, "m.pmesh");
  int G = P("groups", 2), sym = P("symdir", 0); basicGlobals(1, G, 1);
  double om[3]; static CD dirs[8][3] = {{0.48, 0.6, 0.64}, {-0.6, 0.48, 0.64}, {0.2, -0.9, 0.387}, {-0.5, -0.5, 0.7071}, {0.3, 0.3, -0.9}, {-0.8, 0.1, -0.59}, {0.7, -0.7, -0.14}, {-0.55, -0.6, -0.58}};
  if (sym) { for (int d = 0; d < 3; d++) { double c = dirs[P("dir", 0)][d]; om[d] = d + 1 > sym ? c : P("obox", 0) ? c + sx_real_in("omega", -1.0 / P("obox", 0), 1.0 / P("obox", 0)) : sx_real_in("omega", -1, 1); } }
  else { U k = sx_choose(P("dirs", 8), "direction"); for (int d = 0; d < 3; d++) om[d] = dirs[k][d]; }
  setDir(g_quadrature, 0, om[0], om[1], om[2], 0); { std::vector<double> w = g_quadrature->getOmega(0); for (int d = 0; d < 3; d++) om[d] = w[d]; }
  g_tychoMesh = new TychoMesh("m.pmesh");
  double sigma; static CD sig[4] = {0.01, 1, 3.5, 100};
  if (P("symsigma", 0)) { double lo = P("siglo", 1) / 10.0, hi = P("sighi", 100) / 10.0; sigma = sx_real_in("sigma", lo, hi); } else sigma = sig[P("sigmas", 4) == 1 ? 1 : sx_choose(P("sigmas", 4), "sigma")];
  sigma *= u;
  static const GaussElim mt[4] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
  int me = P("method", -1); g_gaussElim = mt[me >= 0 ? me : sx_choose(4, "method")];
  for (U cell = P("cell", 0); cell < (P("cells", 0) ? (U)(P("cell", 0) + P("cells", 0)) : g_nCells); cell++) {
    double S[4][3], V, A[4]; geometry(cell, S, V);
    if (sym) { V = g_tychoMesh->getCellVolume(cell); for (int f = 0; f < 4; f++) A[f] = g_tychoMesh->getFaceArea(cell, f) * g_tychoMesh->getOmegaDotN(0, cell, f); }
    else for (int f = 0; f < 4; f++) A[f] = om[0] * S[f][0] + om[1] * S[f][1] + om[2] * S[f][2];
    Mat3<double> bnd(3, 4, G); Mat2<double> src(4, G), psi(4, G);
    for (int g = 0; g < G; g++) { for (int f = 0; f < 4; f++) for (int v = 0; v < 3; v++) bnd(v, f, g) = sx_real_in("inflow", -1, 1); for (int v = 0; v < 4; v++) { src(v, g) = sx_real_in("source", -1, 1) * u; psi(v, g) = 1e30; } }
    Transport::solve(cell, 0, sigma, bnd, src, psi);
    for (int g = 0; g < G; g++) for (int i = 0; i < 4; i++) {
      double r = 0, b = 0;
      for (int j = 0; j < 4; j++) { double M = A[i] / 12 + (i == j ? 2 : 1) * sigma * V / 20;          // streaming + collision
        for (int f = 0; f < 4; f++) if (f != i && f != j && A[f] > 0) M += (i == j ? 2 : 1) * A[f] / 12;      // outgoing faces
        r += M * psi(j, g); b += (i == j ? 2 : 1) * V / 20 * src(j, g); }
      for (int f = 0; f < 4; f++) if (f != i && A[f] < 0) for (int v = 0; v < 3; v++) b -= (g_tychoMesh->getFaceToCellVrtx(cell, f, v) == (U)i ? 2 : 1) * A[f] / 12 * bnd(v, f, g); // upwind flux
      sx_assert_near(r * u2, b * u2, 1e-7, "nodal fluxes do not satisfy the discontinuous Galerkin equation of the cell"); }
    sx_reach("cell solved");
  }
  sx_reach("all cells");
  return 0;
}
