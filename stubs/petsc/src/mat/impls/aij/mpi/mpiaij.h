/* Stand-in for PETSc's private header of the same path, which the installed PETSc lacks.
 * Only the members BLASTed's interface reads; used to type-check src/blasted_petsc.cpp, never linked. */
#ifndef VERIF_STUB_MPIAIJ
#define VERIF_STUB_MPIAIJ
#include <petscmat.h>
#include <petsc/private/matimpl.h>
typedef struct { PetscInt *i, *j, *diag; MatScalar *a; PetscInt nz; } Mat_SeqAIJ;
typedef struct { Mat A, B; } Mat_MPIAIJ;
#ifndef SETERRQ1
#define SETERRQ1(comm,n,s,a1) SETERRQ(comm,n,s,a1)
#define SETERRQ2(comm,n,s,a1,a2) SETERRQ(comm,n,s,a1,a2)
#define SETERRQ3(comm,n,s,a1,a2,a3) SETERRQ(comm,n,s,a1,a2,a3)
#endif
#endif
