#ifndef MPT_H
#define MPT_H
/* tensors with a known spectral decomposition T = V diag(w) V^H (w ascending), registered with the dense-eigensolver stand-in */
#include "lap.h"
static void mp_known(symmetric_matrix *t, int i, const double w[3]) {
  const int *q = quat[i % 8]; double a = q[0], b = q[1], c = q[2], e = q[3], n = a * a + b * b + c * c + e * e; int r, s, u; lapz V[9], M[9];
  double R[9] = {(a * a + b * b - c * c - e * e) / n, 2 * (b * c - a * e) / n, 2 * (b * e + a * c) / n, 2 * (b * c + a * e) / n, (a * a - b * b + c * c - e * e) / n, 2 * (c * e - a * b) / n, 2 * (b * e - a * c) / n, 2 * (c * e + a * b) / n, (a * a - b * b - c * c + e * e) / n};
  static const double P[3][2] = {{1, 0}, {0, 1}, {0.6, 0.8}};
  for (r = 0; r < 3; r++) for (s = 0; s < 3; s++) {
#ifdef WITH_HERMITIAN_EPSILON
    V[r * 3 + s].re = P[r][0] * R[r * 3 + s]; V[r * 3 + s].im = P[r][1] * R[r * 3 + s];
#else
    V[r * 3 + s].re = R[r * 3 + s]; V[r * 3 + s].im = 0;
#endif
  } (void)P;
  for (r = 0; r < 3; r++) for (s = 0; s < 3; s++) { M[r * 3 + s].re = M[r * 3 + s].im = 0; for (u = 0; u < 3; u++) { lapz x = V[r * 3 + u], y = V[s * 3 + u]; M[r * 3 + s].re += w[u] * (x.re * y.re + x.im * y.im); M[r * 3 + s].im += w[u] * (x.im * y.re - x.re * y.im); } }
  t->m00 = M[0].re; t->m11 = M[4].re; t->m22 = M[8].re;
#ifdef WITH_HERMITIAN_EPSILON
  t->m01.re = M[1].re; t->m01.im = M[1].im; t->m02.re = M[2].re; t->m02.im = M[2].im; t->m12.re = M[5].re; t->m12.im = M[5].im;
#else
  t->m01 = M[1].re; t->m02 = M[2].re; t->m12 = M[5].re;
#endif
  lap_known_eig(3, M, V, w); }
#endif
