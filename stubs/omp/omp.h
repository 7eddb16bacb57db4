/* the OpenMP API header of the compiler that builds the project, minus a gcc-only attribute argument */
#define __malloc__(...) __malloc__
#include "/usr/lib/gcc/x86_64-linux-gnu/13/include/omp.h"
#undef __malloc__
