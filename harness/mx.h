#ifndef MX_H
#define MX_H
#include "config.h"
#include "imaxwell.h"
#include "hx.h"
#include <math.h>
typedef struct { double re, im; } cx;
static cx cxm(cx a, cx b) { cx r = {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; return r; }
static cx cxa(cx a, cx b) { cx r = {a.re + b.re, a.im + b.im}; return r; }
static cx cxs(double s, cx a) { cx r = {s * a.re, s * a.im}; return r; }
static cx cxc(cx a) { cx r = {a.re, -a.im}; return r; }
static double nomv(int seed) { /* deterministic "generic" nominal */
  unsigned u = (unsigned)seed * 2654435761u + 12345u; u ^= u >> 15; u *= 2246822519u; u ^= u >> 13;
  int v = (int)(u % 37) - 18; if (v == 0) v = 5; return v / 8.0; }
#ifdef SCALAR_COMPLEX
#  define SC_IM(z) ((z).im)
#  define SC_RE(z) ((z).re)
#else
#  define SC_IM(z) (0.0)
#  define SC_RE(z) (z)
#endif
static scalar mx_scalar(const char *nm, int i, int j, int k) {
  scalar s;
#ifdef SCALAR_COMPLEX
  s.re = sr_varf(nomv(i * 131 + j * 17 + k * 7 + nm[0]), "%s_%d_%d_%d_r", nm, i, j, k); s.im = sr_varf(nomv(i * 131 + j * 17 + k * 7 + 5000 + nm[0]), "%s_%d_%d_%d_i", nm, i, j, k);
#else
  s = sr_varf(nomv(i * 131 + j * 17 + k * 7 + nm[0]), "%s_%d_%d_%d", nm, i, j, k);
#endif
  return s; }
static scalar mx_const(int seed) { scalar s;
#ifdef SCALAR_COMPLEX
  s.re = nomv(seed); s.im = nomv(seed + 777);
#else
  s = nomv(seed);
#endif
  return s; }
static void mx_fill(evectmatrix X, const char *nm) { int i, b; for (i = 0; i < X.n; i++) for (b = 0; b < X.p; b++) X.data[i * X.p + b] = mx_scalar(nm, i, b, 0); }
static void mx_fill_const(evectmatrix X, int seed) { int i, b; for (i = 0; i < X.n; i++) for (b = 0; b < X.p; b++) X.data[i * X.p + b] = mx_const(seed + i * 31 + b * 7); }
/* k+G data: arbitrary symbols (kd=0), exact rational frames (kd=1), or arbitrary |k+G| with
   rational frames (kd=2).  Frames are not assumed orthonormal when kd==0. */
static const int quat[8][4] = {{1, 2, 2, 4}, {2, 1, -2, 4}, {1, 0, 2, 2}, {3, 1, 1, 5}, {1, -1, 1, -1}, {0, 1, 2, 2}, {2, 3, 6, 0}, {1, 1, 3, 5}};
static void mx_kdata(maxwell_data *d, int kd) { int i; for (i = 0; i < d->local_N; i++) { k_data *k = d->k_plus_G + i;
    if (kd == 0) { k->kmag = sr_varf(0.5 + (i % 5) * 0.25, "kmag_%d", i); double *p = &k->mx; int j; for (j = 0; j < 6; j++) p[j] = sr_varf(nomv(i * 11 + j + 40), "fr_%d_%d", i, j); }
    else { const int *q = quat[i % 8]; double a = q[0], b = q[1], c = q[2], e = q[3], n = a * a + b * b + c * c + e * e;
      k->mx = (a * a + b * b - c * c - e * e) / n; k->my = 2 * (b * c + a * e) / n; k->mz = 2 * (b * e - a * c) / n;
      k->nx = 2 * (b * c - a * e) / n; k->ny = (a * a - b * b + c * c - e * e) / n; k->nz = 2 * (c * e + a * b) / n;
      k->kmag = kd == 2 ? sr_varf(0.5 + (i % 5) * 0.25, "kmag_%d", i) : (3 + i % 5) / 4.0; }
    d->k_plus_G_normsqr[i] = k->kmag * k->kmag; } }
/* arbitrary symmetric / Hermitian tensor */
static void mx_tensor(symmetric_matrix *m, const char *nm, int i) {
  m->m00 = sr_varf(1 + (i % 3) * 0.5, "%s%d_00", nm, i); m->m11 = sr_varf(0.75 + (i % 4) * 0.25, "%s%d_11", nm, i); m->m22 = sr_varf(1.25 + (i % 5) * 0.25, "%s%d_22", nm, i);
#ifdef WITH_HERMITIAN_EPSILON
  m->m01.re = sr_varf(0.125, "%s%d_01r", nm, i); m->m01.im = sr_varf(-0.25, "%s%d_01i", nm, i); m->m02.re = sr_varf(0.1875, "%s%d_02r", nm, i); m->m02.im = sr_varf(0.0625, "%s%d_02i", nm, i); m->m12.re = sr_varf(-0.125, "%s%d_12r", nm, i); m->m12.im = sr_varf(0.3125, "%s%d_12i", nm, i);
#else
  m->m01 = sr_varf(0.125, "%s%d_01", nm, i); m->m02 = sr_varf(0.1875, "%s%d_02", nm, i); m->m12 = sr_varf(-0.125, "%s%d_12", nm, i);
#endif
}
static void mx_tensor_const(symmetric_matrix *m, int s) {
  memset(m, 0, sizeof *m); m->m00 = 1 + (s % 3) * 0.5; m->m11 = 0.75 + (s % 4) * 0.25; m->m22 = 1.25 + (s % 5) * 0.25;
#ifdef WITH_HERMITIAN_EPSILON
  m->m01.re = 0.125; m->m01.im = -0.25 + (s % 3) * 0.125; m->m02.re = 0.1875; m->m02.im = 0.0625; m->m12.re = -0.125; m->m12.im = 0.0625 * (s % 4);
#else
  m->m01 = 0.125 * (1 + s % 2); m->m02 = 0.1875; m->m12 = -0.125;
#endif
}
static cx mx_el(const symmetric_matrix *m, int i, int j) { cx r = {0, 0}; int sw = i > j; if (sw) { int t = i; i = j; j = t; }
  if (i == j) { r.re = i == 0 ? m->m00 : i == 1 ? m->m11 : m->m22; return r; }
#ifdef WITH_HERMITIAN_EPSILON
  scalar_complex z = i == 0 ? (j == 1 ? m->m01 : m->m02) : m->m12; r.re = z.re; r.im = sw ? -z.im : z.im;
#else
  r.re = i == 0 ? (j == 1 ? m->m01 : m->m02) : m->m12;
#endif
  return r; }
/* position-space storage: index of stored element for point (x,y,z), or of its partner */
static int mx_pidx(maxwell_data *d, int x, int y, int z, int *conj) {
  int nx = d->nx, ny = d->ny, nz = d->nz; *conj = 0;
#ifdef SCALAR_COMPLEX
  return (x * ny + y) * nz + z;
#else
  int rank = nz == 1 ? (ny == 1 ? 1 : 2) : 3, n = rank == 1 ? nx : rank == 2 ? ny : nz, l = rank == 1 ? x : rank == 2 ? y : z, ls = n / 2 + 1;
  if (l >= ls) { *conj = 1; x = (nx - x) % nx; y = (ny - y) % ny; z = (nz - z) % nz; l = rank == 1 ? x : rank == 2 ? y : z; }
  return rank == 1 ? x : rank == 2 ? x * ls + y : (x * ny + y) * ls + z;
#endif
}
/* is stored point self-conjugate position (inversion-symmetric point)? */
static int mx_selfconj(maxwell_data *d, int x, int y, int z) { return (d->nx - x) % d->nx == x && (d->ny - y) % d->ny == y && (d->nz - z) % d->nz == z; }
static void mx_sq3(cx M[3][3], maxwell_data *d, symmetric_matrix *t, int x, int y, int z) { int cj, p = mx_pidx(d, x, y, z, &cj), i, j; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { M[i][j] = mx_el(t + p, i, j); if (cj) M[i][j].im = -M[i][j].im; } }
static cx mx_w(int num, int n) { /* exp(-2 pi i num/n) */ cx r; num = ((num % n) + n) % n; if (4 * num % n == 0) { static const double C[4] = {1, 0, -1, 0}, S[4] = {0, -1, 0, 1}; r.re = C[4 * num / n]; r.im = S[4 * num / n]; } else { r.re = sr_cos2pi(num * (1.0 / n)); r.im = -sr_sin2pi(num * (1.0 / n)); if (n == 3 || n == 6) { int k = 6 / n * num; static const double c6[6] = {1, .5, -.5, -1, -.5, .5}; static const int s6[6] = {0, 1, 1, 0, -1, -1}; r.re = c6[k]; r.im = -0.5 * s6[k] * sr_sqrt_of(3.0); } } return r; }
/* exact 3d transform of one component; in/out dense [x][y][z]; sign -1: e^{-i..} (forward) */
static void mx_dft(maxwell_data *d, cx *in, cx *out, int fwd) { int nx = d->nx, ny = d->ny, nz = d->nz, n[3] = {nx, ny, nz}, st[3] = {ny * nz, nz, 1}, a, i, j, N = nx * ny * nz; cx *t = malloc(sizeof(cx) * N), *u = malloc(sizeof(cx) * N); for (i = 0; i < N; i++) t[i] = in[i];
  for (a = 0; a < 3; a++) { for (i = 0; i < N; i++) { int pos = (i / st[a]) % n[a], base = i - pos * st[a]; cx s = {0, 0}; for (j = 0; j < n[a]; j++) { cx w = mx_w(pos * j, n[a]); if (!fwd) w = cxc(w); s = cxa(s, cxm(w, t[base + j * st[a]])); } u[i] = s; } cx *tt = t; t = u; u = tt; }
  for (i = 0; i < N; i++) out[i] = t[i]; free(t); free(u); }
static cx mx_get(evectmatrix X, int i, int pol, int b) { scalar s = X.data[(i * 2 + pol) * X.p + b]; cx r = {SC_RE(s), SC_IM(s)}; return r; }
/* ---- independent reference: Cartesian amplitudes (per plane wave) ---- */
static void ref_cart(maxwell_data *d, evectmatrix X, int b, cx *v[3]) { int i, c; for (i = 0; i < d->N; i++) { k_data *k = d->k_plus_G + i; double m[3] = {k->mx, k->my, k->mz}, n[3] = {k->nx, k->ny, k->nz}; cx a = mx_get(X, i, 0, b), e = mx_get(X, i, 1, b); for (c = 0; c < 3; c++) v[c][i] = cxa(cxs(m[c], a), cxs(n[c], e)); } }
/* (k+G) x v for v in the transverse plane: k x m = |k| n, k x n = -|k| m */
static void ref_curl(maxwell_data *d, evectmatrix X, int b, cx *v[3]) { int i, c; for (i = 0; i < d->N; i++) { k_data *k = d->k_plus_G + i; double m[3] = {k->mx, k->my, k->mz}, n[3] = {k->nx, k->ny, k->nz}; cx a = mx_get(X, i, 0, b), e = mx_get(X, i, 1, b); for (c = 0; c < 3; c++) v[c][i] = cxs(k->kmag, cxa(cxs(n[c], a), cxs(-m[c], e))); } }
static void ref_mul(maxwell_data *d, cx *v[3], symmetric_matrix *t) { int x, y, z, i, c, e; for (x = 0; x < d->nx; x++) for (y = 0; y < d->ny; y++) for (z = 0; z < d->nz; z++) { cx M[3][3], o[3]; i = (x * d->ny + y) * d->nz + z; mx_sq3(M, d, t, x, y, z); for (c = 0; c < 3; c++) { o[c].re = o[c].im = 0; for (e = 0; e < 3; e++) o[c] = cxa(o[c], cxm(M[c][e], v[e][i])); } for (c = 0; c < 3; c++) v[c][i] = o[c]; } }
static void ref_alloc(maxwell_data *d, cx *v[3]) { int c; for (c = 0; c < 3; c++) v[c] = calloc(d->N, sizeof(cx)); }
static void ref_free(cx *v[3]) { int c; for (c = 0; c < 3; c++) free(v[c]); }
static void ref_fft(maxwell_data *d, cx *v[3], int fwd) { int c; for (c = 0; c < 3; c++) mx_dft(d, v[c], v[c], fwd); }
/* out[i][0..1]: transverse components, scale * (v.m, v.n) */
static void ref_proj(maxwell_data *d, cx *v[3], double scale, cx *o0, cx *o1) { int i, c; for (i = 0; i < d->N; i++) { k_data *k = d->k_plus_G + i; double m[3] = {k->mx, k->my, k->mz}, n[3] = {k->nx, k->ny, k->nz}; cx a = {0, 0}, e = {0, 0}; for (c = 0; c < 3; c++) { a = cxa(a, cxs(m[c], v[c][i])); e = cxa(e, cxs(n[c], v[c][i])); } o0[i] = cxs(scale, a); o1[i] = cxs(scale, e); } }
/* scale * (k x v) in transverse components: at0 = v.m, at1 = v.n -> (-|k| at1, |k| at0) */
static void ref_curlproj(maxwell_data *d, cx *v[3], double scale, cx *o0, cx *o1) { int i; cx *a = calloc(d->N, sizeof(cx)), *e = calloc(d->N, sizeof(cx)); ref_proj(d, v, scale, a, e); for (i = 0; i < d->N; i++) { double k = d->k_plus_G[i].kmag; o0[i] = cxs(-k, e[i]); o1[i] = cxs(k, a[i]); } free(a); free(e); }
static void ref_setband(evectmatrix Y, int b, cx *o0, cx *o1, int N) { int i; for (i = 0; i < N; i++) { scalar *p = &Y.data[(i * 2) * Y.p + b], *q = &Y.data[(i * 2 + 1) * Y.p + b]; ASSIGN_SCALAR(*p, o0[i].re, o0[i].im); ASSIGN_SCALAR(*q, o1[i].re, o1[i].im); } }
/* transverse mu^-1 */
static void ref_muinv(maxwell_data *d, evectmatrix X, evectmatrix Y) { int b; cx *v[3], *o0 = calloc(d->N, sizeof(cx)), *o1 = calloc(d->N, sizeof(cx)); ref_alloc(d, v); for (b = 0; b < X.p; b++) { ref_cart(d, X, b, v); ref_fft(d, v, 1); ref_mul(d, v, d->mu_inv); ref_fft(d, v, 0); ref_proj(d, v, 1.0 / d->N, o0, o1); ref_setband(Y, b, o0, o1, d->N); } ref_free(v); free(o0); free(o1); }
static void ref_curlepscurl(maxwell_data *d, evectmatrix X, evectmatrix Y) { int b; cx *v[3], *o0 = calloc(d->N, sizeof(cx)), *o1 = calloc(d->N, sizeof(cx)); ref_alloc(d, v); for (b = 0; b < X.p; b++) { ref_curl(d, X, b, v); ref_fft(d, v, 1); ref_mul(d, v, d->eps_inv); ref_fft(d, v, 0); ref_curlproj(d, v, -1.0 / d->N, o0, o1); ref_setband(Y, b, o0, o1, d->N); } ref_free(v); free(o0); free(o1); }
static void ref_operator(maxwell_data *d, evectmatrix X, evectmatrix Y) { if (!d->mu_inv) { ref_curlepscurl(d, X, Y); return; } evectmatrix T = create_evectmatrix(X.N, X.c, X.p, X.localN, X.Nstart, X.allocN), U = create_evectmatrix(X.N, X.c, X.p, X.localN, X.Nstart, X.allocN); ref_muinv(d, X, T); ref_curlepscurl(d, T, U); ref_muinv(d, U, Y); destroy_evectmatrix(T); destroy_evectmatrix(U); }
static void mx_check_same(evectmatrix A, evectmatrix B, const char *what) { int i, b; for (i = 0; i < A.n; i++) for (b = 0; b < A.p; b++) { scalar s = A.data[i * A.p + b], t = B.data[i * B.p + b]; sr_checkf_eq(SC_RE(s), SC_RE(t), "%s: re component %d band %d", what, i, b);
#ifdef SCALAR_COMPLEX
      sr_checkf_eq(SC_IM(s), SC_IM(t), "%s: im component %d band %d", what, i, b);
#endif
  } }
typedef struct { maxwell_data *d; int N, Ns, al; } mxs;
static mxs mx_new(int nx, int ny, int nz, int nb, int maxfft, int mu) { mxs s; s.d = create_maxwell_data(nx, ny, nz, &s.N, &s.Ns, &s.al, nb, maxfft); if (mu) s.d->mu_inv = malloc(sizeof(symmetric_matrix) * s.d->fft_output_size); return s; }
static evectmatrix mx_ev(mxs s, int p) { return create_evectmatrix(s.d->N, 2, p, s.N, s.Ns, s.al); }
static void mx_eps(mxs s, int sym) { /* self-conjugate points of inversion-symmetric structures have real tensors */
  int i, x, y, z; maxwell_data *d = s.d;
  for (i = 0; i < d->fft_output_size; i++) { if (sym & 1) mx_tensor(d->eps_inv + i, "e", i); else mx_tensor_const(d->eps_inv + i, i * 7 + 1); if (d->mu_inv) { if (sym & 2) mx_tensor(d->mu_inv + i, "u", i); else mx_tensor_const(d->mu_inv + i, i * 5 + 3); } }
#ifndef SCALAR_COMPLEX
  /* inversion symmetry: stored points that are partners of stored points must agree */
  for (x = 0; x < d->nx; x++) for (y = 0; y < d->ny; y++) for (z = 0; z < d->nz; z++) { int cj, c2, p = mx_pidx(d, x, y, z, &cj), q; if (cj) continue; int X = (d->nx - x) % d->nx, Y = (d->ny - y) % d->ny, Z = (d->nz - z) % d->nz; q = mx_pidx(d, X, Y, Z, &c2); if (c2 || q <= p) continue; d->eps_inv[q] = d->eps_inv[p]; if (d->mu_inv) d->mu_inv[q] = d->mu_inv[p]; }
#endif
}
static int A(char **v, int i) { return atoi(v[i]); }
#endif
