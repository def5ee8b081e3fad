// C04: the dense 4x4 solvers return x with A x = b.
#include "common.hh"
#include "Transport.cc"
// used when the kernel no longer exists under this name and signature
static bool noKernel = false;
template<class X, class Y> static void gaussElim4(X &&, Y &&) { noKernel = true; }
static double minorDet(const double A[4][4], int n) {
  if (n == 1) return A[0][0];
  if (n == 2) return A[0][0] * A[1][1] - A[0][1] * A[1][0];
  if (n == 3) return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
  double d = 0; for (int c = 0; c < 4; c++) { double q[3][3]; for (int i = 1; i < 4; i++) for (int j = 0, k = 0; j < 4; j++) if (j != c) q[i - 1][k++] = A[i][j];
    double t = q[0][0] * (q[1][1] * q[2][2] - q[1][2] * q[2][1]) - q[0][1] * (q[1][0] * q[2][2] - q[1][2] * q[2][0]) + q[0][2] * (q[1][0] * q[2][1] - q[1][1] * q[2][0]); d += (c & 1 ? -1 : 1) * A[0][c] * t; }
  return d;
}
extern "C" int sx_main() {
  basicGlobals(1, 1, 1);
  static const GaussElim mt[4] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
  int me = P("method", 0); g_gaussElim = mt[me];
  static const double base[4][4][4] = {
    {{0.5, -0.25, 0.125, 0.75}, {0.375, 0.625, -0.5, 0.25}, {-0.875, 0.5, 0.625, -0.125}, {0.25, 0.375, 0.5, 0.875}},
    {{0.125, 0.75, -0.5, 0.25}, {0.25, 0.125, 0.875, -0.5}, {0.5, -0.25, 0.125, 0.625}, {0.75, 0.5, 0.25, 0.125}},
    {{0, 0.5, 0.25, 1}, {0, 0, 0.75, 0.5}, {0, 0.25, 0.5, 0}, {1, 0, 0, 0.25}},
    {{0, 0, 1, 0}, {0, 1, 0, 0.5}, {1, 0, 0, 0}, {0, 0.5, 0, 0}}};
  // cols=4, box=0: every entry arbitrary.  box=k: every entry within 1/k of a base matrix whose rows are permuted in every way (so that every
  // sequence of row exchanges occurs); symbolic right-hand side
  int bs = P("base", 0), box = P("box", 0), perm[4] = {0, 1, 2, 3}; double A[4][4], C[4][4], x[4], b[4];
  if (P("bases", 0)) bs = sx_choose(P("bases", 0), "matrix_pattern");
  if (P("rows", 0)) { U c = sx_choose(24, "row_order"); for (int i = 0; i < 4; i++) { int r = c % (4 - i); c /= 4 - i; int t = perm[i]; perm[i] = perm[i + r]; perm[i + r] = t; } }
  for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { double m = base[bs][perm[i]][j] / unit(); A[i][j] = P("conc", 0) ? m : box ? m + sx_real_in("dA", -1.0 / box, 1.0 / box) : sx_real_in("A", -1, 1); C[i][j] = A[i][j]; } b[i] = x[i] = sx_real_in("b", -1, 1); }
  gaussElim4(A, x);
  if (noKernel) { sx_reach("solved"); return 0; }
  for (int i = 0; i < 4; i++) { double r = 0; for (int j = 0; j < 4; j++) r += C[i][j] * x[j]; sx_assert_near(r, b[i], 1e-7, "the dense solver's result does not satisfy A x = b"); }
  sx_reach("solved");
  return 0;
}
