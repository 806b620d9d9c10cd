/* LAPACK contracts: only the selected triangle is read; results satisfy the documented
   postconditions exactly.  Factorisations leave opaque data in the triangle. */
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "lap.h"
typedef lapz Z;
#define MAXQ 16
static struct { int n; Z A[64], B[64], V[64]; double w[8]; int gen; } Q[MAXQ]; static int nq = 0, hq = 0;
int lap_fail_potrf = 0;
int lap_pending(void) { return nq - hq; }
void lap_expect_eig(int n, const Z *A, const Z *B, const Z *V, const double *w) { if (nq >= MAXQ || n > 8) sr_fatal("lap queue"); memcpy(Q[nq].A, A, sizeof(Z) * n * n); if (B) memcpy(Q[nq].B, B, sizeof(Z) * n * n); Q[nq].gen = B != 0; memcpy(Q[nq].V, V, sizeof(Z) * n * n); memcpy(Q[nq].w, w, sizeof(double) * n); Q[nq++].n = n; }
#define MAXT 600
static struct { int n; Z A[9], V[9]; double w[3]; } T[MAXT]; static int nt = 0;
void lap_known_eig(int n, const Z *A, const Z *V, const double *w) { if (nt >= MAXT || n > 3) sr_fatal("lap table"); memcpy(T[nt].A, A, sizeof(Z) * n * n); memcpy(T[nt].V, V, sizeof(Z) * n * n); memcpy(T[nt].w, w, sizeof(double) * n); T[nt++].n = n; }
static int U(const char *c) { return *c & ~32; }
/* element (i,j) of the Hermitian matrix stored column-major in the given triangle */
static Z el(int cplx, const double *a, int lda, int up, int i, int j) { int sw = up == 'U' ? i > j : i < j, r = sw ? j : i, c = sw ? i : j; Z z; if (cplx) { z.re = a[2 * (r + (size_t)c * lda)]; z.im = i == j ? 0 : a[2 * (r + (size_t)c * lda) + 1]; if (sw) z.im = -z.im; } else { z.re = a[r + (size_t)c * lda]; z.im = 0; } return z; }
static void put(int cplx, double *a, int lda, int i, int j, Z z) { if (cplx) { a[2 * (i + (size_t)j * lda)] = z.re; a[2 * (i + (size_t)j * lda) + 1] = z.im; } else a[i + (size_t)j * lda] = z.re; }
static Z mul(Z a, Z b) { Z r = {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; return r; }
static Z det(int n, const Z *M) { Z s = {0, 0}; int c, i, j; if (n == 0) { s.re = 1; return s; } if (n == 1) return M[0]; for (c = 0; c < n; c++) { Z m[64]; int q = 0; for (i = 1; i < n; i++) for (j = 0; j < n; j++) if (j != c) m[q++] = M[i * n + j]; Z d = mul(M[c], det(n - 1, m)); if (c & 1) { s.re -= d.re; s.im -= d.im; } else { s.re += d.re; s.im += d.im; } } return s; }
static void inverse(int n, const Z *M, Z *I) { double d = det(n, M).re; int i, j, a, b; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { Z m[64]; int q = 0; for (a = 0; a < n; a++) for (b = 0; b < n; b++) if (a != j && b != i) m[q++] = M[a * n + b]; Z c = det(n - 1, m); if ((i + j) & 1) { c.re = -c.re; c.im = -c.im; } I[i * n + j].re = c.re / d; I[i * n + j].im = i == j ? 0 : c.im / d; } }
static struct { const double *a; int n, lda, up, kind, cplx; Z M[64]; } F[8];
static void factor(int cplx, int kind, const char *u, int n, double *a, int lda, int *info) { int k, i, j, up = U(u); static int cnt = 0; *info = 0; if (lda < n || n > 8) { sr_check_true("LAPACK factorisation arguments", lda >= n); sr_fatal("size"); }
  if (lap_fail_potrf) { *info = 1; return; } for (k = 0; k < 8 && F[k].a && F[k].a != a; k++); if (k == 8) sr_fatal("factors"); F[k].a = a; F[k].n = n; F[k].lda = lda; F[k].up = up; F[k].kind = kind; F[k].cplx = cplx;
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) F[k].M[i * n + j] = el(cplx, a, lda, up, i, j);
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (up == 'U' ? i <= j : i >= j) { Z g; cnt++; g.re = sr_fresh("fact", 3.5 + cnt * 0.25); g.im = sr_fresh("fact", 1.5 + cnt * 0.25); put(cplx, a, lda, i, j, g); } }
static void invf(int cplx, int kind, const char *u, int n, double *a, int lda, int *info) { int k, i, j; Z I[64]; *info = 0; for (k = 0; k < 8 && F[k].a != a; k++); if (k == 8 || F[k].kind != kind || F[k].n != n || F[k].lda != lda || F[k].up != U(u)) { sr_check_true("LAPACK inversion follows the matching factorisation", 0); return; }
  inverse(n, F[k].M, I); for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (F[k].up == 'U' ? i <= j : i >= j) put(cplx, a, lda, i, j, I[i * n + j]); }
void zpotrf_(char *u, int *n, double *a, int *l, int *info) { factor(1, 1, u, *n, a, *l, info); } void dpotrf_(char *u, int *n, double *a, int *l, int *info) { factor(0, 1, u, *n, a, *l, info); }
void zpotri_(char *u, int *n, double *a, int *l, int *info) { invf(1, 1, u, *n, a, *l, info); } void dpotri_(char *u, int *n, double *a, int *l, int *info) { invf(0, 1, u, *n, a, *l, info); }
void zhetrf_(char *u, int *n, double *a, int *l, int *p, double *w, int *lw, int *info) { sr_check_true("hetrf workspace", *lw >= 1); factor(1, 2, u, *n, a, *l, info); } void dsytrf_(char *u, int *n, double *a, int *l, int *p, double *w, int *lw, int *info) { sr_check_true("sytrf workspace", *lw >= 1); factor(0, 2, u, *n, a, *l, info); }
void zhetri_(char *u, int *n, double *a, int *l, int *p, double *w, int *info) { invf(1, 2, u, *n, a, *l, info); } void dsytri_(char *u, int *n, double *a, int *l, int *p, double *w, int *info) { invf(0, 2, u, *n, a, *l, info); }
static void eig(int cplx, int gen, const char *jz, const char *u, int n, double *a, int lda, double *b, int ldb, double *w, int *info) { int i, j, up = U(u); *info = 0;
  if (n == 1 && !gen && !lap_pending()) { Z one = {1, 0}; w[0] = el(cplx, a, lda, up, 0, 0).re; put(cplx, a, lda, 0, 0, one); return; } /* 1x1 needs no registration */
  if (lda < n) sr_check_true("LAPACK eigensolver leading dimension", 0);
  if (hq < nq && Q[hq].n == n && Q[hq].gen == gen) { /* registered decomposition */
    int h = hq++; double e = 1; Z m = el(cplx, a, lda, up, 0, 0); (void)m; (void)e; int tr = 0; 
    /* Fortran sees the transpose of the row-major matrix the caller stored: accept A^T (= conj A) and conjugate the vectors */
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) { Z x = el(cplx, a, lda, up, j, i); sr_checkf_eq(x.re, Q[h].A[i * n + j].re, "matrix given to the dense eigensolver, re %d %d", i, j); sr_checkf_eq(x.im, Q[h].A[i * n + j].im, "matrix given to the dense eigensolver, im %d %d", i, j); if (gen) { x = el(cplx, b, ldb, up, j, i); sr_checkf_eq(x.re, Q[h].B[i * n + j].re, "metric given to the dense eigensolver, re %d %d", i, j); sr_checkf_eq(x.im, Q[h].B[i * n + j].im, "metric given to the dense eigensolver, im %d %d", i, j); } }
    (void)tr; for (i = 0; i < n; i++) w[i] = Q[h].w[i];
    if (U(jz) == 'V') for (i = 0; i < n; i++) for (j = 0; j < n; j++) { Z z = Q[h].V[i * n + j]; z.im = -z.im; put(cplx, a, lda, i, j, z); }
    return; }
  if (!gen) { int t; for (t = 0; t < nt; t++) if (T[t].n == n) { int ok = 1; for (i = 0; i < n && ok; i++) for (j = 0; j < n; j++) { Z x = el(cplx, a, lda, up, j, i); double e = sr_nominal(x.re) - sr_nominal(T[t].A[i * n + j].re), f = sr_nominal(x.im) - sr_nominal(T[t].A[i * n + j].im); if (e > 1e-9 || e < -1e-9 || f > 1e-9 || f < -1e-9) ok = 0; }
    if (!ok) continue; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { Z x = el(cplx, a, lda, up, j, i); if (sr_symbolic(x.re) || sr_symbolic(T[t].A[i * n + j].re)) sr_checkf_eq(x.re, T[t].A[i * n + j].re, "matrix given to the dense eigensolver, re %d %d", i, j); if (sr_symbolic(x.im) || sr_symbolic(T[t].A[i * n + j].im)) sr_checkf_eq(x.im, T[t].A[i * n + j].im, "matrix given to the dense eigensolver, im %d %d", i, j); }
    for (i = 0; i < n; i++) w[i] = T[t].w[i]; if (U(jz) == 'V') for (i = 0; i < n; i++) for (j = 0; j < n; j++) { Z z = T[t].V[i * n + j]; z.im = -z.im; put(cplx, a, lda, i, j, z); } return; } }
  if (gen) sr_fatal("unregistered generalised eigenproblem");
  if (n == 1) { Z o = {1, 0}; w[0] = el(cplx, a, lda, up, 0, 0).re; if (U(jz) == 'V') put(cplx, a, lda, 0, 0, o); return; }
  if (n == 2 || n == 3) { /* eigenvalues only (vectors left opaque): roots of the characteristic polynomial in ascending order */
    Z M[9]; double re[9], im[9], nm[3]; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { M[i * n + j] = el(cplx, a, lda, up, i, j); re[i * n + j] = M[i * n + j].re; im[i * n + j] = M[i * n + j].im; } sr_eigvals(n, re, im, nm); double tr = 0, mi = 0, d = det(n, M).re; for (i = 0; i < n; i++) { tr += M[i * n + i].re; w[i] = sr_fresh("eig", nm[i]); if (i) sr_assume_ge(w[i], w[i - 1]); }
    for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) { Z p = M[i * n + j]; mi += M[i * n + i].re * M[j * n + j].re - (p.re * p.re + p.im * p.im); }
    if (n == 2) { sr_assume_eq(w[0] + w[1], tr); sr_assume_eq(w[0] * w[1], d); } else { sr_assume_eq(w[0] + w[1] + w[2], tr); sr_assume_eq(w[0] * w[1] + w[0] * w[2] + w[1] * w[2], mi); sr_assume_eq(w[0] * w[1] * w[2], d); }
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) { Z g = {sr_fresh("vec", 0.5 + i + 2 * j), sr_fresh("vec", 0.25 + i - j)}; put(cplx, a, lda, i, j, g); } return; }
  sr_fatal("unregistered eigenproblem of size %d", n); }
void zheev_(char *j, char *u, int *n, double *a, int *l, double *w, double *wk, int *lw, double *rw, int *info) { sr_check_true("heev workspace", *lw >= 2 * *n - 1 || *lw >= 1 && *n <= 1); eig(1, 0, j, u, *n, a, *l, 0, 0, w, info); }
void dsyev_(char *j, char *u, int *n, double *a, int *l, double *w, double *wk, int *lw, int *info) { sr_check_true("syev workspace", *lw >= 3 * *n - 1); eig(0, 0, j, u, *n, a, *l, 0, 0, w, info); }
void zhegv_(int *t, char *j, char *u, int *n, double *a, int *l, double *b, int *lb, double *w, double *wk, int *lw, double *rw, int *info) { sr_check_true("hegv problem type", *t == 1 && *lw >= 2 * *n - 1); eig(1, 1, j, u, *n, a, *l, b, *lb, w, info); }
void dsygv_(int *t, char *j, char *u, int *n, double *a, int *l, double *b, int *lb, double *w, double *wk, int *lw, int *info) { sr_check_true("sygv problem type", *t == 1 && *lw >= 3 * *n - 1); eig(0, 1, j, u, *n, a, *l, b, *lb, w, info); }
/* general eigenvalues: a workspace query first; then any numbers with the right elementary symmetric functions (n <= 3) */
static void geev(int cplx, const char *jl, const char *jr, int n, double *a, int lda, double *w, double *wr, double *wi, int lwork, double *work, int *info) { int i, j; *info = 0; sr_check_true("geev: eigenvectors are not requested", U(jl) == 'N' && U(jr) == 'N' && lda >= n); if (lwork == -1) { work[0] = 4 * n + 2; return; } sr_check_true("geev workspace", lwork >= (cplx ? 2 : 3) * n); if (n > 3) sr_fatal("geev size");
  Z M[9], e[4] = {{1, 0}, {0, 0}, {0, 0}, {0, 0}}, W[3]; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { if (cplx) { M[i * n + j].re = a[2 * (i + j * lda)]; M[i * n + j].im = a[2 * (i + j * lda) + 1]; } else { M[i * n + j].re = a[i + j * lda]; M[i * n + j].im = 0; } }
  for (i = 0; i < n; i++) { W[i].re = sr_fresh("gev", 0.5 + i); W[i].im = sr_fresh("gevi", 0.25 * i); if (cplx) { w[2 * i] = W[i].re; w[2 * i + 1] = W[i].im; } else { wr[i] = W[i].re; wi[i] = W[i].im; } }
  for (i = 0; i < n; i++) for (j = i + 1; j > 0; j--) { Z p = mul(W[i], e[j - 1]); e[j].re += p.re; e[j].im += p.im; }
  Z tr = {0, 0}, mi = {0, 0}, d = det(n, M); for (i = 0; i < n; i++) { tr.re += M[i * n + i].re; tr.im += M[i * n + i].im; for (j = i + 1; j < n; j++) { Z p = mul(M[i * n + i], M[j * n + j]), q = mul(M[i * n + j], M[j * n + i]); mi.re += p.re - q.re; mi.im += p.im - q.im; } }
  sr_assume_eq(e[1].re, tr.re); sr_assume_eq(e[1].im, tr.im); if (n == 3) { sr_assume_eq(e[2].re, mi.re); sr_assume_eq(e[2].im, mi.im); } if (n > 1) { sr_assume_eq(e[n].re, d.re); sr_assume_eq(e[n].im, d.im); } 
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { a[(cplx ? 2 : 1) * (i + j * lda)] = sr_fresh("geevjunk", 2.5); } }
void zgeev_(char *jl, char *jr, int *n, double *a, int *l, double *w, double *vl, int *ll, double *vr, int *lr, double *wk, int *lw, double *rw, int *info) { geev(1, jl, jr, *n, a, *l, w, 0, 0, *lw, wk, info); }
void dgeev_(char *jl, char *jr, int *n, double *a, int *l, double *wr, double *wi, double *vl, int *ll, double *vr, int *lr, double *wk, int *lw, int *info) { geev(0, jl, jr, *n, a, *l, 0, wr, wi, *lw, wk, info); }
