/* reported dielectric: scalar field and statistics, exported tensor components. args: nx ny nz lat mu mode(0 scalar, 1 tensor components) */
#include <stdarg.h>
#include "mps.h"
#include "mpt.h"
static double got[6]; static int ngot = 0; static char line0[64];
void mpi_one_printf(const char *f, ...) { va_list a; va_start(a, f); if (strstr(f, "harm. mean")) { int i; for (i = 0; i < 6; i++) got[i] = va_arg(a, double); ngot++; strncpy(line0, f, 60); } va_end(a); }
extern void get_epsilon_tensor(int, int, int, int);
static double minv(double a, double b) { return a < b ? a : b; }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), lat = A(v, 4), mu = A(v, 5), mode = A(v, 6), i, k, x, y, z, c, e, N = nx * ny * nz, cj;
  mps_start(nx, ny, nz, 1, 1, lat, mu, 0); maxwell_data *d = mdata; int M = d->fft_output_size;
  if (mode == 0) { int which; for (which = 0; which < 2; which++) { symmetric_matrix *T = which ? d->mu_inv : d->eps_inv; double *w = malloc(sizeof(double) * 3 * M);
      for (i = 0; i < M && T; i++) { const char *nm = which ? "u" : "e"; double b = 0.0625 * (1 + (i * 5 + which) % 11); if (i % 4 != 1 || i > 5 || (M > 8 && i > 2)) { w[3 * i] = b; w[3 * i + 1] = b + 0.25; w[3 * i + 2] = 2; } else { w[3 * i] = sr_varf(b, "%sa%d", nm, i); w[3 * i + 1] = sr_varf(b + 0.125 + 0.03125 * i, "%sb%d", nm, i); w[3 * i + 2] = sr_varf(b + 1 + 0.0078125 * i, "%sc%d", nm, i); sr_assume_gt(w[3 * i], 0); sr_assume_ge(w[3 * i + 1], w[3 * i]); sr_assume_ge(w[3 * i + 2], w[3 * i + 1]); } mp_known(T + i, i + 3 * which, w + 3 * i); }
      ngot = 0; if (which) get_mu(); else get_epsilon(); real *o = (real *)curfield;
      sr_check_true("type of the dielectric field", curfield_type == (which ? 'm' : 'n') && curfield_band == 0 && (real *)d->fft_data == o && ngot == 1);
      double lo = 1e9, hi = -1e9, s = 0, si = 0; int nf = 0;
      for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int q = mx_pidx(d, x, y, z, &cj); if (!cj) { if (T) sr_checkf_eq(o[q] * (w[3 * q] + w[3 * q + 1]), 2, "scalar %d at %d", which, q); else sr_checkf_eq(o[q], 1, "scalar %d at %d", which, q); } if (o[q] < lo) lo = o[q]; if (o[q] > hi) hi = o[q]; s += o[q]; si += 1 / o[q]; if (o[q] > 1.0001) nf++; }
      sr_checkf_eq(got[0], lo, "lowest %d", which); sr_checkf_eq(got[1], hi, "highest %d", which); sr_checkf_eq(got[2] * N, s, "mean %d", which); sr_checkf_eq(got[3] * si, N, "harmonic mean %d", which); sr_checkf_eq(got[4] * N, 100.0 * nf, "percentage above one %d", which);
      if (hi == lo) sr_checkf_eq(got[5], 100, "fill of a uniform cell %d", which); else sr_checkf_eq(got[5] * (hi - lo) * N, 100 * (s - N * lo), "fill %d", which); } }
  else { cx (*O)[9] = calloc(M, sizeof *O); int inv, im;
    for (i = 0; i < M; i++) { if (i == (mode - 1) % M) { mx_tensor(d->eps_inv + i, "t", i); cx m[3][3]; for (c = 0; c < 3; c++) for (e = 0; e < 3; e++) m[c][e] = mx_el(d->eps_inv + i, c, e); cx D = {0, 0}; for (c = 0; c < 3; c++) { cx p = cxm(m[0][c], cxm(m[1][(c + 1) % 3], m[2][(c + 2) % 3])), q = cxm(m[0][c], cxm(m[1][(c + 2) % 3], m[2][(c + 1) % 3])); D = cxa(D, cxa(p, cxs(-1, q))); } if (mode > 100) { d->eps_inv[i].m01 = d->eps_inv[i].m02 = d->eps_inv[i].m12 = (__typeof__(d->eps_inv[i].m01)){0}; sr_assume_ne(d->eps_inv[i].m00, 0); sr_assume_ne(d->eps_inv[i].m11, 0); sr_assume_ne(d->eps_inv[i].m22, 0); } else sr_assume_ne(D.re, 0); } else mx_tensor_const(d->eps_inv + i, i); }
    for (inv = 0; inv < 2; inv++) { memset(O, 0, M * sizeof *O); for (c = 0; c < 3; c++) for (e = 0; e < 3; e++) for (im = 0; im < 2; im++) {
#ifndef WITH_HERMITIAN_EPSILON
          if (im) continue;
#endif
          get_epsilon_tensor(c, e, im, inv); sr_check_true("tensor component field", curfield_type == '-'); for (i = 0; i < M; i++) { double t = ((real *)d->fft_data)[i]; if (im) O[i][c * 3 + e].im = c == e ? 0 : t; else O[i][c * 3 + e].re = t; } }
      for (i = 0; i < M; i++) for (c = 0; c < 3; c++) for (e = 0; e < 3; e++) { cx w = {c == e, 0}, g = {0, 0}; if (inv) { g = O[i][c * 3 + e]; w = mx_el(d->eps_inv + i, c, e); } else for (k = 0; k < 3; k++) g = cxa(g, cxm(mx_el(d->eps_inv + i, c, k), O[i][k * 3 + e])); sr_checkf_eq(g.re, w.re, "tensor %d point %d re %d%d", inv, i, c, e); sr_checkf_eq(g.im, w.im, "tensor %d point %d im %d%d", inv, i, c, e); } } }
  (void)minv; sr_reach("end"); return 0; }
