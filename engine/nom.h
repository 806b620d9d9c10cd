/* eigenvalues of a small Hermitian matrix (plain doubles), ascending */
#include <math.h>
static void nom_jacobi(int m, double *a, double *w) { int it, p, q, i; for (it = 0; it < 100; it++) { double off = 0; for (p = 0; p < m; p++) for (q = p + 1; q < m; q++) off += a[p * m + q] * a[p * m + q]; if (off < 1e-28) break;
    for (p = 0; p < m; p++) for (q = p + 1; q < m; q++) { double b = a[p * m + q]; if (fabs(b) < 1e-300) continue; double th = (a[q * m + q] - a[p * m + p]) / (2 * b), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c;
      for (i = 0; i < m; i++) { double x = a[i * m + p], y = a[i * m + q]; a[i * m + p] = c * x - s * y; a[i * m + q] = s * x + c * y; }
      for (i = 0; i < m; i++) { double x = a[p * m + i], y = a[q * m + i]; a[p * m + i] = c * x - s * y; a[q * m + i] = s * x + c * y; } } }
  for (i = 0; i < m; i++) w[i] = a[i * m + i]; for (p = 0; p < m; p++) for (q = p + 1; q < m; q++) if (w[q] < w[p]) { double t = w[p]; w[p] = w[q]; w[q] = t; } }
static void nom_eig(int n, const double *re, const double *im, double *w) { double a[400], ww[20]; int i, j, m = 2 * n; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { a[i * m + j] = a[(i + n) * m + j + n] = re[i * n + j]; a[i * m + j + n] = -im[i * n + j]; a[(i + n) * m + j] = im[i * n + j]; } nom_jacobi(m, a, ww); for (i = 0; i < n; i++) w[i] = ww[2 * i]; }
