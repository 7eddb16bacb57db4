#ifndef VERIF_STUB_MPIBAIJ
#define VERIF_STUB_MPIBAIJ
#include <petscmat.h>
#include <petsc/private/matimpl.h>
typedef struct { PetscInt *i, *j, *diag; MatScalar *a; PetscInt nz; } Mat_SeqBAIJ;
typedef struct { Mat A, B; } Mat_MPIBAIJ;
#endif
