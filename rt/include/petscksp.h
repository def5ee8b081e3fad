// Model of the part of PETSc used: distributed vectors, shell matrices, and a linear solver.
// The model solver builds the operator matrix by applying it to unit vectors and solves exactly.
#pragma once
#include <mpi.h>
#include <cstddef>
typedef int PetscErrorCode; typedef int PetscInt; typedef double PetscReal; typedef double PetscScalar;
struct SxVec; typedef SxVec *Vec; struct SxMat; typedef SxMat *Mat; struct SxKsp; typedef SxKsp *KSP; struct SxPc; typedef SxPc *PC;
typedef enum { PETSC_FALSE = 0, PETSC_TRUE = 1 } PetscBool;
typedef enum { MATOP_MULT = 3 } MatOperation;
#define PETSC_DEFAULT (-2)
#define PETSC_DECIDE (-1)
#define PETSC_DETERMINE (-1)
#define PETSC_NULL 0
#define KSPGMRES "gmres"
#define KSPBCGS "bcgs"
#define VECMPI "mpi"
#define VECSTANDARD "standard"
typedef const char *KSPType; typedef const char *VecType; typedef const char *PCType;
#define PCNONE "none"
PetscErrorCode PetscInitialize(int *, char ***, const char *, const char *); PetscErrorCode PetscFinalize(); PetscErrorCode PetscPopSignalHandler();
PetscErrorCode VecCreate(MPI_Comm, Vec *); PetscErrorCode VecSetSizes(Vec, PetscInt, PetscInt); PetscErrorCode VecSetType(Vec, VecType); PetscErrorCode VecDuplicate(Vec, Vec *); PetscErrorCode VecDestroy(Vec *);
PetscErrorCode VecGetArray(Vec, PetscScalar **); PetscErrorCode VecRestoreArray(Vec, PetscScalar **); PetscErrorCode VecGetArrayRead(Vec, const PetscScalar **); PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecGetLocalSize(Vec, PetscInt *); PetscErrorCode VecGetSize(Vec, PetscInt *); PetscErrorCode VecSet(Vec, PetscScalar); PetscErrorCode VecCopy(Vec, Vec);
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt, PetscInt, PetscInt, PetscInt, void *, Mat *); PetscErrorCode MatShellSetOperation(Mat, MatOperation, void (*)(void)); PetscErrorCode MatShellSetContext(Mat, void *); PetscErrorCode MatShellGetContext(Mat, void *); PetscErrorCode MatDestroy(Mat *);
PetscErrorCode KSPCreate(MPI_Comm, KSP *); PetscErrorCode KSPSetOperators(KSP, Mat, Mat); PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt); PetscErrorCode KSPSetType(KSP, KSPType); PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool); PetscErrorCode KSPSolve(KSP, Vec, Vec); PetscErrorCode KSPGetIterationNumber(KSP, PetscInt *); PetscErrorCode KSPGetResidualNorm(KSP, PetscReal *); PetscErrorCode KSPDestroy(KSP *); PetscErrorCode KSPSetFromOptions(KSP); PetscErrorCode KSPGetPC(KSP, PC *); PetscErrorCode PCSetType(PC, PCType);
#define CHKERRQ(e) do { if (e) return e; } while (0)
// model controls
extern int sxpetsc_iters;                 // reported iteration count
extern int sxpetsc_solves;                // number of KSPSolve calls made by this rank
extern int sxpetsc_applies;               // number of operator applications made by this rank
extern int sxpetsc_initialized;
extern int sxpetsc_guess_nonzero, sxpetsc_maxit; extern double sxpetsc_rtol;
extern int sxpetsc_check_linear;          // assert A(0) == 0
