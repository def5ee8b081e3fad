// C17: the angular quadrature against polynomials with arbitrary coefficients; unsupported orders.
#include "common.hh"
static double dfact(int n) { double r = 1; for (; n > 1; n -= 2) r *= n; return r; }
static double moment(int a, int b, int c) { if (a % 2 || b % 2 || c % 2) return 0; // (a-1)!!(b-1)!!(c-1)!!/(a+b+c+1)!! without overflow
  double r = 4 * M_PI; int k[3] = {a, b, c}, d = 1; for (int i = 0; i < 3; i++) for (int j = 1; j < k[i]; j += 2) { d += 2; r *= (double)j / d; } return r; }
extern "C" int sx_main() {
  int kind = P("kind", 0); sxmpi_init();
  if (kind == 0) { U n = sx_u64("snOrder"); int ok = (n >= 2) & (n <= 30) & (n % 2 == 0); sx_assume(!ok); sx_set("abort_ok", 1); try { Quadrature q(n); } catch (...) { sx_reach("refused"); return 0; } sx_set("abort_ok", 0); sx_fail("assert", "an unsupported quadrature order was accepted"); return 0; }
  int n = P("order", 0) ? P("order", 0) : 2 * (1 + (int)sx_choose(15, "order")); Quadrature q(n); int A = 2 * n * n; sx_assert(g_nAngles == (U)A, "number of directions");
  std::vector<double> x(A), y(A), z(A), w(A), px(A), py(A), pz(A); double sum = 0;
  for (int a = 0; a < A; a++) { x[a] = q.getXi(a); y[a] = q.getEta(a); z[a] = q.getMu(a); w[a] = q.getWt(a); std::vector<double> o = q.getOmega(a); sx_assert(o.size() == 3 && o[0] == x[a] && o[1] == y[a] && o[2] == z[a], "components of a direction"); double e = x[a] * x[a] + y[a] * y[a] + z[a] * z[a] - 1; sx_assert(e < 1e-14 && e > -1e-14, "a direction has not length one"); sx_assert(w[a] > 0, "a weight is not positive"); sum += w[a]; }
  sum -= 4 * M_PI; sx_assert(sum < 1e-12 && sum > -1e-12, "the weights do not sum to the solid angle"); sx_reach("directions");
  const double tol = P("tol", 3) * 1e-13; int D = 2 * n - 1, S = P("low", 6) < D ? P("low", 6) : D; double s = 0, bound = 0;
  auto term = [&](double got, double want) { double c = sx_real_in("coefficient", -1, 1); s += c * (got - want); bound += tol; };
  auto flush = [&](const char *m) { sx_assert(s <= bound && -s <= bound, m); s = bound = 0; };
  // 1: every polynomial of low total degree
  for (int i = 0; i <= S; i++) for (int j = 0; i + j <= S; j++) for (int k = 0; i + j + k <= S; k++) { double m = 0; for (int a = 0; a < A; a++) { double t = w[a]; for (int e = 0; e < i; e++) t *= x[a]; for (int e = 0; e < j; e++) t *= y[a]; for (int e = 0; e < k; e++) t *= z[a]; m += t; } term(m, moment(i, j, k)); }
  flush("a polynomial of low degree is not integrated exactly");
  // 2: every polynomial in one direction cosine, to the guaranteed degree
  for (int d = 0; d < 3; d++) { std::vector<double> t(w); const std::vector<double> &v = d == 0 ? x : d == 1 ? y : z; for (int e = 0; e <= D; e++) { double m = 0; for (int a = 0; a < A; a++) { m += t[a]; t[a] *= v[a]; } term(m, moment(d == 0 ? e : 0, d == 1 ? e : 0, d == 2 ? e : 0)); } flush(d == 2 ? "a polynomial in mu is not integrated exactly" : d ? "a polynomial in eta is not integrated exactly" : "a polynomial in xi is not integrated exactly"); }
  // 3: mixed monomials of the highest guaranteed degrees
  for (int i = 0; i <= D; i += 1 + D / 6) for (int j = 0; i + j <= D; j += 1 + D / 5) { int k = D - i - j; for (int kk = k > 0 ? k - 1 : 0; kk <= k; kk++) { double m = 0; for (int a = 0; a < A; a++) { double t = w[a]; for (int e = 0; e < i; e++) t *= x[a]; for (int e = 0; e < j; e++) t *= y[a]; for (int e = 0; e < kk; e++) t *= z[a]; m += t; } term(m, moment(i, j, kk)); } }
  flush("a polynomial of the guaranteed degree is not integrated exactly"); sx_reach("polynomials"); return 0;
}
