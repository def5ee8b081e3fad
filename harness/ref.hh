// Independent reference for the transport equation on a small mesh: one sweep per direction, dense 4x4 solves of the discontinuous
// Galerkin equations written from the node coordinates of the mesh definition.  Indices are global cells and vertices of the file.
#pragma once
#include "common.hh"
struct Ref {
  const MeshDef &m; int A, G; std::vector<double> om, wt, sT, sS; std::vector<int> adj;   // adj: neighbour cell behind face f (opposite vertex f) or -1
  double S[24][4][3], V[24];
  Ref(const MeshDef &m, int A, int G) : m(m), A(A), G(G), om(A * 3), wt(A), sT(m.nt), sS(m.nt), adj(m.nt * 4, -1) {
    for (int c = 0; c < m.nt; c++) { double s6 = 0;
      for (int f = 0; f < 4; f++) { int o[3], k = 0; for (int v = 0; v < 4; v++) if (v != f) o[k++] = m.t[c][v]; double a[3], b[3], h[3]; for (int d = 0; d < 3; d++) { a[d] = m.x[o[1]][d] - m.x[o[0]][d]; b[d] = m.x[o[2]][d] - m.x[o[0]][d]; h[d] = m.x[m.t[c][f]][d] - m.x[o[0]][d]; }
        double n[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}, q = n[0] * h[0] + n[1] * h[1] + n[2] * h[2], sg = q > 0 ? -0.5 : 0.5; for (int d = 0; d < 3; d++) S[c][f][d] = sg * n[d]; s6 = q > 0 ? q : -q;
        for (int e = 0; e < m.nt; e++) if (e != c) { int hit = 0; for (int i = 0; i < 3; i++) for (int v = 0; v < 4; v++) if (m.t[e][v] == o[i]) hit++; if (hit == 3) adj[c * 4 + f] = e; } }
      V[c] = s6 / 6; } }
  size_t I(int c, int v, int a, int g) const { return ((size_t)(c * A + a) * 4 + v) * G + g; }
  size_t size() const { return (size_t)m.nt * A * 4 * G; }
  double flow(int c, int f, int a) const { double r = 0; for (int d = 0; d < 3; d++) r += om[a * 3 + d] * S[c][f][d]; return r; }
  int vertexOf(int c, int node) const { for (int v = 0; v < 4; v++) if (m.t[c][v] == node) return v; return -1; }
  // psi = L^-1 q (vacuum boundary); 'in' (optional) gives inflow for faces between different parts instead of the neighbour's flux
  void sweep(const std::vector<double> &q, std::vector<double> &psi, const int *part = 0, const std::vector<double> *old = 0) const {
    psi.assign(size(), 0.0);
    for (int a = 0; a < A; a++) { std::vector<int> done(m.nt);
      for (int n = 0; n < m.nt;) { int before = n;
        for (int c = 0; c < m.nt; c++) if (!done[c]) { bool ok = true; for (int f = 0; f < 4; f++) { int e = adj[c * 4 + f]; if (e >= 0 && flow(c, f, a) < 0 && !done[e] && !(part && part[e] != part[c])) ok = false; } if (!ok) continue; done[c] = 1; n++; cell(c, a, q, psi, part, old); }
        if (n == before) { sx_fail("model", "reference sweep found a cycle"); return; } } } }
  void cell(int c, int a, const std::vector<double> &q, std::vector<double> &psi, const int *part, const std::vector<double> *old) const {
    double M[4][4], F[4]; for (int f = 0; f < 4; f++) F[f] = flow(c, f, a);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { M[i][j] = F[i] / 12 + (i == j ? 2 : 1) * sT[c] * V[c] / 20; for (int f = 0; f < 4; f++) if (f != i && f != j && F[f] > 0) M[i][j] += (i == j ? 2 : 1) * F[f] / 12; }
    double R[4][4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) R[i][j] = i == j;
    for (int k = 0; k < 4; k++) { int p = k; for (int i = k; i < 4; i++) if (std::fabs(M[i][k]) > std::fabs(M[p][k])) p = i; for (int j = 0; j < 4; j++) { std::swap(M[k][j], M[p][j]); std::swap(R[k][j], R[p][j]); }
      double d = M[k][k]; for (int j = 0; j < 4; j++) { M[k][j] /= d; R[k][j] /= d; } for (int i = 0; i < 4; i++) if (i != k) { double t = M[i][k]; for (int j = 0; j < 4; j++) { M[i][j] -= t * M[k][j]; R[i][j] -= t * R[k][j]; } } }
    for (int g = 0; g < G; g++) { double b[4];
      for (int i = 0; i < 4; i++) { b[i] = 0; for (int j = 0; j < 4; j++) b[i] += (i == j ? 2 : 1) * V[c] / 20 * q[I(c, j, a, g)];
        for (int f = 0; f < 4; f++) if (f != i && F[f] < 0) { int e = adj[c * 4 + f]; if (e < 0) continue; bool cross = part && part[e] != part[c]; if (cross && !old) continue;
          for (int v = 0; v < 4; v++) if (v != f) b[i] -= (v == i ? 2 : 1) * F[f] / 12 * (cross ? *old : psi)[I(e, vertexOf(e, m.t[c][v]), a, g)]; } }
      for (int i = 0; i < 4; i++) { double s = 0; for (int j = 0; j < 4; j++) s += R[i][j] * b[j]; psi[I(c, i, a, g)] = s; } } }
  // total source q + sigma_s/(4 pi) sum_a w_a psi
  void scatter(const std::vector<double> &q, const std::vector<double> &psi, std::vector<double> &t) const {
    t.assign(size(), 0.0); for (int c = 0; c < m.nt; c++) for (int v = 0; v < 4; v++) for (int g = 0; g < G; g++) { double phi = 0; for (int a = 0; a < A; a++) phi += wt[a] * psi[I(c, v, a, g)]; for (int a = 0; a < A; a++) t[I(c, v, a, g)] = q[I(c, v, a, g)] + sS[c] / (4 * M_PI) * phi; } }
};
