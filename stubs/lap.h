/* harness-side registration of decompositions returned by the LAPACK contract stubs */
#ifndef LAP_H
#define LAP_H
typedef struct { double re, im; } lapz;
/* eigenproblem expected next of size n: matrix A (row-major), unitary V (columns = eigenvectors, row-major), eigenvalues w ascending.
   B (or NULL): generalised problem, V is B-orthonormal. */
void lap_expect_eig(int n, const lapz *A, const lapz *B, const lapz *V, const double *w);
/* the same as a table: any matrix whose entries equal A (checked) may be decomposed, any number of times, in any order */
void lap_known_eig(int n, const lapz *A, const lapz *V, const double *w);
int lap_pending(void);
extern int lap_fail_potrf; /* report a singular matrix */
#endif
