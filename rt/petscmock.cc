#include "sx.h"
#include "petscksp.h"
#include <cstdlib>
#include <cstring>
int sxpetsc_iters = 3, sxpetsc_solves = 0, sxpetsc_applies = 0, sxpetsc_initialized = 0, sxpetsc_guess_nonzero = 0, sxpetsc_maxit = -1, sxpetsc_check_linear = 0; double sxpetsc_rtol = -1;
struct SxVec { int n, N; double *a; int out; };
struct SxMat { int n, N; void *ctx; PetscErrorCode (*mult)(Mat, Vec, Vec); };
struct SxKsp { Mat A; double rtol; int maxit; int nz; };
template<class T> static T *mk() { T *p = (T *)malloc(sizeof(T)); memset(p, 0, sizeof(T)); return p; }
PetscErrorCode PetscInitialize(int *, char ***, const char *, const char *) { sxpetsc_initialized++; return 0; }
PetscErrorCode PetscFinalize() { sxpetsc_initialized--; return 0; }
PetscErrorCode PetscPopSignalHandler() { return 0; }
PetscErrorCode VecCreate(MPI_Comm, Vec *v) { *v = mk<SxVec>(); return 0; }
PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N) { v->n = n; v->N = N; v->a = (double *)malloc(n * sizeof(double) + 8); for (int i = 0; i < n; i++) v->a[i] = 0; return 0; }
PetscErrorCode VecSetType(Vec, VecType) { return 0; }
PetscErrorCode VecDuplicate(Vec v, Vec *w) { VecCreate(1, w); return VecSetSizes(*w, v->n, v->N); }
PetscErrorCode VecDestroy(Vec *v) { free((*v)->a); free(*v); *v = 0; return 0; }
PetscErrorCode VecGetArray(Vec v, PetscScalar **a) { *a = v->a; return 0; }
PetscErrorCode VecRestoreArray(Vec, PetscScalar **) { return 0; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar **a) { *a = v->a; return 0; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **) { return 0; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt *n) { *n = v->n; return 0; }
PetscErrorCode VecGetSize(Vec v, PetscInt *n) { *n = v->N; return 0; }
PetscErrorCode VecSet(Vec v, PetscScalar x) { for (int i = 0; i < v->n; i++) v->a[i] = x; return 0; }
PetscErrorCode VecCopy(Vec x, Vec y) { for (int i = 0; i < x->n; i++) y->a[i] = x->a[i]; return 0; }
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt n, PetscInt, PetscInt N, PetscInt, void *ctx, Mat *m) { *m = mk<SxMat>(); (*m)->n = n; (*m)->N = N; (*m)->ctx = ctx; return 0; }
PetscErrorCode MatShellSetOperation(Mat m, MatOperation, void (*f)(void)) { m->mult = (PetscErrorCode(*)(Mat, Vec, Vec))f; return 0; }
PetscErrorCode MatShellSetContext(Mat m, void *c) { m->ctx = c; return 0; }
PetscErrorCode MatShellGetContext(Mat m, void *c) { *(void **)c = m->ctx; return 0; }
PetscErrorCode MatDestroy(Mat *m) { free(*m); *m = 0; return 0; }
PetscErrorCode KSPCreate(MPI_Comm, KSP *k) { *k = mk<SxKsp>(); return 0; }
PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat) { k->A = a; return 0; }
PetscErrorCode KSPSetTolerances(KSP k, PetscReal r, PetscReal, PetscReal, PetscInt m) { k->rtol = r; k->maxit = m; sxpetsc_rtol = r; sxpetsc_maxit = m; return 0; }
PetscErrorCode KSPSetType(KSP, KSPType) { return 0; }
PetscErrorCode KSPSetInitialGuessNonzero(KSP k, PetscBool b) { k->nz = b; sxpetsc_guess_nonzero = b; return 0; }
PetscErrorCode KSPSetFromOptions(KSP) { return 0; }
PetscErrorCode KSPGetPC(KSP, PC *p) { *p = 0; return 0; }
PetscErrorCode PCSetType(PC, PCType) { return 0; }
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt *n) { *n = sxpetsc_iters; return 0; }
PetscErrorCode KSPGetResidualNorm(KSP, PetscReal *r) { *r = 0; return 0; }
PetscErrorCode KSPDestroy(KSP *k) { free(*k); *k = 0; return 0; }
static void allgatherv(const double *loc, int n, double *all, const int *cnt, int R) { // through Allgather of the padded maximum
  int mx = 0; for (int r = 0; r < R; r++) if (cnt[r] > mx) mx = cnt[r]; if (!mx) return;
  double *p = (double *)malloc(mx * 8), *q = (double *)malloc(mx * R * 8); for (int i = 0; i < mx; i++) p[i] = i < n ? loc[i] : 0;
  MPI_Allgather(p, mx, MPI_DOUBLE, q, mx, MPI_DOUBLE, MPI_COMM_WORLD); int o = 0; for (int r = 0; r < R; r++) for (int i = 0; i < cnt[r]; i++) all[o++] = q[r * mx + i]; free(p); free(q); }
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
  sxpetsc_solves++;
  int me, R; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &R); int n = b->n;
  int cnt[16]; MPI_Allgather(&n, 1, MPI_INT, cnt, 1, MPI_INT, MPI_COMM_WORLD); int N = 0, off = 0; for (int r = 0; r < R; r++) { if (r < me) off += cnt[r]; N += cnt[r]; }
  if (N != k->A->N) sx_fail("petsc", "global size of the operator differs from the sum of the local sizes");
  double *A = (double *)malloc((N * N + 1) * 8), *B = (double *)malloc((N + 1) * 8), *X = (double *)malloc((N + 1) * 8), *col = (double *)malloc((N + 1) * 8);
  Vec u, v; VecDuplicate(b, &u); VecDuplicate(b, &v);
  if (sxpetsc_check_linear) { VecSet(u, 0); k->A->mult(k->A, u, v); sxpetsc_applies++; for (int i = 0; i < n; i++) sx_assert_near(v->a[i], 0, 1e-9, "operator applied to zero is not zero"); }
  for (int j = 0; j < N; j++) { for (int i = 0; i < n; i++) { u->a[i] = (off + i == j) ? 1 : 0; v->a[i] = 0.37 + i; } k->A->mult(k->A, u, v); sxpetsc_applies++; for (int i = 0; i < n; i++) if (u->a[i] != ((off + i == j) ? 1 : 0)) sx_fail("petsc", "the operator modified its read-only argument"); allgatherv(v->a, n, col, cnt, R); for (int i = 0; i < N; i++) A[i * N + j] = col[i]; }
  if (!N) { k->A->mult(k->A, u, v); }
  else if (sxpetsc_check_linear) { // the operator applied to an arbitrary vector is the matrix times that vector
    double *xs = (double *)malloc((N + 1) * 8); for (int i = 0; i < n; i++) { u->a[i] = sx_real_in("krylov_vector", -1, 1); v->a[i] = 0.37 + i; } allgatherv(u->a, n, xs, cnt, R); k->A->mult(k->A, u, v); sxpetsc_applies++;
    for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < N; j++) if (A[(off + i) * N + j] != 0) t += A[(off + i) * N + j] * xs[j]; sx_assert_near(v->a[i], t, 1e-7, "the operator given to the Krylov solver is not linear"); } free(xs); sx_reach("operator is linear"); }
  allgatherv(b->a, n, B, cnt, R);
  for (int c = 0; c < N; c++) { int p = c; double best = -1; for (int r = c; r < N; r++) { double a = A[r * N + c]; if (a < 0) a = -a; if (a > best) { best = a; p = r; } }
    if (p != c) { for (int j = 0; j < N; j++) { double t = A[c * N + j]; A[c * N + j] = A[p * N + j]; A[p * N + j] = t; } double t = B[c]; B[c] = B[p]; B[p] = t; }
    if (best < 1e-12) { sx_fail("petsc", "operator is singular"); return 1; }
    for (int r = c + 1; r < N; r++) { double f = A[r * N + c]; if (f == 0) continue; f /= A[c * N + c]; for (int j = c; j < N; j++) A[r * N + j] -= f * A[c * N + j]; B[r] = B[r] - f * B[c]; } }
  for (int r = N - 1; r >= 0; r--) { double s = B[r]; for (int j = r + 1; j < N; j++) if (A[r * N + j] != 0) s = s - A[r * N + j] * X[j]; X[r] = s / A[r * N + r]; }
  for (int i = 0; i < n; i++) x->a[i] = X[off + i];
  VecDestroy(&u); VecDestroy(&v); free(A); free(B); free(X); free(col); return 0;
}
