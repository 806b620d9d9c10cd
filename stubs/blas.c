/* Contract stubs for the BLAS routines used by blasglue.c (column-major). */
#include <stdlib.h>
#include <math.h>
#include "sym.h"
#include "config.h"
typedef struct { double re, im; } Z;
static int up(const char *c) { return *c & ~32; }
#define OPA(i, l) (ta == 'N' ? a[(i) + (size_t)(l) * *lda] : a[(l) + (size_t)(i) * *lda])
#define OPB(l, j) (tb == 'N' ? b[(l) + (size_t)(j) * *ldb] : b[(j) + (size_t)(l) * *ldb])
static int mx(int a, int b) { return a > b ? a : b; }
static void chkld(const char *w, int ld, int need) { if (ld < mx(1, need)) sr_check_true(w, 0); }
void dgemm_(const char *TA, const char *TB, int *m, int *n, int *k, double *al, double *a, int *lda, double *b, int *ldb, double *be, double *c, int *ldc) {
  int ta = up(TA), tb = up(TB), i, j, l; chkld("BLAS gemm: leading dimension of A", *lda, ta == 'N' ? *m : *k); chkld("BLAS gemm: leading dimension of B", *ldb, tb == 'N' ? *k : *n); chkld("BLAS gemm: leading dimension of C", *ldc, *m);
  for (j = 0; j < *n; j++) for (i = 0; i < *m; i++) { double s = 0, *p = &c[i + (size_t)j * *ldc]; for (l = 0; l < *k; l++) s += OPA(i, l) * OPB(l, j); s = *al * s; if (*be != 0) s += *be * *p; *p = s; }
}
void zgemm_(const char *TA, const char *TB, int *m, int *n, int *k, Z *al, Z *a, int *lda, Z *b, int *ldb, Z *be, Z *c, int *ldc) {
  int ta = up(TA), tb = up(TB), i, j, l; chkld("BLAS gemm: leading dimension of A", *lda, ta == 'N' ? *m : *k); chkld("BLAS gemm: leading dimension of B", *ldb, tb == 'N' ? *k : *n); chkld("BLAS gemm: leading dimension of C", *ldc, *m);
  for (j = 0; j < *n; j++) for (i = 0; i < *m; i++) { double r = 0, q = 0, x, y; Z *p = &c[i + (size_t)j * *ldc];
    for (l = 0; l < *k; l++) { Z u = OPA(i, l), v = OPB(l, j); if (ta == 'C') u.im = -u.im; if (tb == 'C') v.im = -v.im; r += u.re * v.re - u.im * v.im; q += u.re * v.im + u.im * v.re; }
    x = al->re * r - al->im * q; y = al->re * q + al->im * r;
    if (be->re != 0 || be->im != 0) { x += be->re * p->re - be->im * p->im; y += be->re * p->im + be->im * p->re; }
    p->re = x; p->im = y; }
}
/* herk/syrk: only the selected triangle is referenced */
void dsyrk_(const char *U, const char *T, int *n, int *k, double *al, double *a, int *lda, double *be, double *c, int *ldc) {
  int u = up(U), t = up(T), i, j, l; for (j = 0; j < *n; j++) for (i = 0; i < *n; i++) { if (u == 'U' ? i > j : i < j) continue; double s = 0, *p = &c[i + (size_t)j * *ldc];
    for (l = 0; l < *k; l++) s += t == 'N' ? a[i + (size_t)l * *lda] * a[j + (size_t)l * *lda] : a[l + (size_t)i * *lda] * a[l + (size_t)j * *lda];
    s = *al * s; if (*be != 0) s += *be * *p; *p = s; } }
void zherk_(const char *U, const char *T, int *n, int *k, double *al, Z *a, int *lda, double *be, Z *c, int *ldc) {
  int u = up(U), t = up(T), i, j, l; for (j = 0; j < *n; j++) for (i = 0; i < *n; i++) { if (u == 'U' ? i > j : i < j) continue; double r = 0, q = 0; Z *p = &c[i + (size_t)j * *ldc];
    for (l = 0; l < *k; l++) { Z x, y; if (t == 'N') { x = a[i + (size_t)l * *lda]; y = a[j + (size_t)l * *lda]; y.im = -y.im; } else { x = a[l + (size_t)i * *lda]; x.im = -x.im; y = a[l + (size_t)j * *lda]; }
      r += x.re * y.re - x.im * y.im; q += x.re * y.im + x.im * y.re; }
    r = *al * r; q = *al * q; if (*be != 0) { r += *be * p->re; q += *be * p->im; } p->re = r; p->im = i == j ? 0 : q; } }
void dcopy_(int *n, double *x, int *ix, double *y, int *iy) { int i; for (i = 0; i < *n; i++) y[i * *iy] = x[i * *ix]; }
void zcopy_(int *n, Z *x, int *ix, Z *y, int *iy) { int i; for (i = 0; i < *n; i++) y[i * *iy] = x[i * *ix]; }
void daxpy_(int *n, double *a, double *x, int *ix, double *y, int *iy) { int i; for (i = 0; i < *n; i++) y[i * *iy] += *a * x[i * *ix]; }
void zaxpy_(int *n, Z *a, Z *x, int *ix, Z *y, int *iy) { int i; for (i = 0; i < *n; i++) { Z v = x[i * *ix], *p = &y[i * *iy]; double r = a->re * v.re - a->im * v.im, q = a->re * v.im + a->im * v.re; p->re += r; p->im += q; } }
void dscal_(int *n, double *a, double *x, int *ix) { int i; for (i = 0; i < *n; i++) x[i * *ix] *= *a; }
void zscal_(int *n, Z *a, Z *x, int *ix) { int i; for (i = 0; i < *n; i++) { Z *p = &x[i * *ix]; double r = a->re * p->re - a->im * p->im, q = a->re * p->im + a->im * p->re; p->re = r; p->im = q; } }
void zdscal_(int *n, double *a, Z *x, int *ix) { int i; for (i = 0; i < *n; i++) { x[i * *ix].re *= *a; x[i * *ix].im *= *a; } }
double ddot_(int *n, double *x, int *ix, double *y, int *iy) { double s = 0; int i; for (i = 0; i < *n; i++) s += x[i * *ix] * y[i * *iy]; return s; }
Z zdotc_(int *n, Z *x, int *ix, Z *y, int *iy) { Z s = {0, 0}; int i; for (i = 0; i < *n; i++) { Z u = x[i * *ix], v = y[i * *iy]; s.re += u.re * v.re + u.im * v.im; s.im += u.re * v.im - u.im * v.re; } return s; }
Z zdotu_(int *n, Z *x, int *ix, Z *y, int *iy) { Z s = {0, 0}; int i; for (i = 0; i < *n; i++) { Z u = x[i * *ix], v = y[i * *iy]; s.re += u.re * v.re - u.im * v.im; s.im += u.re * v.im + u.im * v.re; } return s; }
