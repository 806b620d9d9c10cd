/* dielectric grid initialisation. args: nx ny nz mode (0 no averaging, 1 averaging callback, 2 mesh average without a normal) mesh mu */
#include "mx.h"
static int n[3], mode, ms, calls; static symmetric_matrix TI[64], SE[64][8], SI[64][8]; static const int *msz; static int mesh3[3];
static int near(double a, double b) { return fabs(a - b) < 1e-9; }
static int pix(real r[3], int sub[3]) { int c, id = 0; for (c = 0; c < 3; c++) { int p = (int)floor(r[c] * n[c] + 0.5 - 1e-9), m = mesh3[c]; double f = (r[c] * n[c] - p + 0.5) * m; int s = (int)floor(f + (f < m / 2.0 ? 1e-6 : -1e-6)); sub[c] = s < 0 ? 0 : s >= m ? m - 1 : s; p = ((p % n[c]) + n[c]) % n[c]; id = id * n[c] + p; } return id; }
static int gridpoint(real r[3]) { int c, id = 0; for (c = 0; c < 3; c++) { double x = r[c] * n[c]; int p = (int)floor(x + 0.5); if (!near(x, p) || p < 0 || p >= n[c]) return -1; id = id * n[c] + p; } return id; }
static int cur; static int tag;
static void efun(symmetric_matrix *e, symmetric_matrix *ei, const real r_[3], void *d) { real r[3]; int i, s[3]; for (i = 0; i < 3; i++) r[i] = r_[i]; sr_check_true("user data passed through", d == &tag); calls++;
  if (mode == 0) { i = gridpoint(r); sr_check_true("evaluated exactly at a grid point of the cell", i >= 0); if (i < 0) i = 0; *ei = TI[i]; mx_tensor_const(e, i); return; }
  i = pix(r, s); int k = (s[0] * mesh3[1] + s[1]) * mesh3[2] + s[2]; *e = SE[i][k]; *ei = SI[i][k]; }
static int mfun(symmetric_matrix *m, symmetric_matrix *mi, real nn[3], real d1, real d2, real d3, real tol, const real r_[3], void *d) { real r[3]; int i; for (i = 0; i < 3; i++) r[i] = r_[i]; sr_check_true("user data passed through", d == &tag); i = gridpoint(r); sr_check_true("averaging called at a grid point of the cell", i >= 0); if (i < 0) i = 0; sr_check_true("pixel size passed to averaging", near(d1 * n[0], 1) && near(d2 * n[1], 1) && near(d3 * n[2], 1)); if (mode == 2 || i % 3 == 2) return 0; *m = TI[i]; *mi = TI[(i + 1) % (n[0] * n[1] * n[2])]; nn[0] = 1; nn[1] = nn[2] = 0; return 1; }
int harness_main(int argc, char **v) {
  for (int i = 0; i < 3; i++) n[i] = A(v, i + 1); mode = A(v, 4); ms = A(v, 5); int mu = A(v, 6), N = n[0] * n[1] * n[2], i, j, k, c, x, y, z; mxs s = mx_new(n[0], n[1], n[2], 1, 1, 0); maxwell_data *d = s.d;
  for (c = 0; c < 3; c++) mesh3[c] = mode == 0 ? 1 : n[c] == 1 && ms < 4 ? 1 : ms == 3 ? 2 + (c == 1) : 2; if (mode == 2) { mesh3[0] = ms; mesh3[1] = n[1] > 1 ? 2 : 1; mesh3[2] = n[2] > 1 ? 2 : 1; if (ms == 4) { mesh3[0] = 2; mesh3[1] = 2; mesh3[2] = 1; } }
  int M = mesh3[0] * mesh3[1] * mesh3[2]; if (M > 8 || N > 64) sr_fatal("size");
  int sel = mode ? sr_choose("point", 0, N - 1) : -1;
  for (i = 0; i < N; i++) { if (sel < 0 || i == sel) mx_tensor(&TI[i], "t", i); else mx_tensor_const(&TI[i], i * 11 + 2); if (mode == 1 && i == sel && i % 3 != 2) { cx D = {0, 0}; for (c = 0; c < 3; c++) { int a = (c + 1) % 3, b = (c + 2) % 3; D = cxa(D, cxm(mx_el(&TI[i], 0, c), cxa(cxm(mx_el(&TI[i], 1, a), mx_el(&TI[i], 2, b)), cxs(-1, cxm(mx_el(&TI[i], 1, b), mx_el(&TI[i], 2, a)))))); } sr_assume_ne(D.re, 0.0); } if (mode == 2 || mode == 1) for (k = 0; k < M; k++) { char nm[20]; sprintf(nm, "si%d", k); mx_tensor_const(&SE[i][k], i); if (i == sel) mx_tensor(&SI[i][k], nm, i); else mx_tensor_const(&SI[i][k], i * 5 + 3 * k); SE[i][k].m00 = 2 + 0.5 * k; SE[i][k].m11 = 6 - 0.25 * k; SE[i][k].m22 = 3 - 0.25 * k; /* constant trace, not uniform */ if (mode == 1) { SE[i][k] = SE[i][0]; SI[i][k] = SI[i][0]; } } }
  /* inversion-symmetric structure for the real-transform build: identify partners so the layout check is meaningful */
  real R[3][3] = {{1.5, 0, 0}, {1.5, 2, 0}, {0, 0, 1}}, G[3][3] = {{2 / 3., -0.5, 0}, {0, 0.5, 0}, {0, 0, 1}}; int mi[3]; for (c = 0; c < 3; c++) mi[c] = mesh3[c];
  for (i = 0; i < d->fft_output_size; i++) { memset(d->eps_inv + i, 0, sizeof(symmetric_matrix)); d->eps_inv[i].m00 = -77; } double keepm = 0; symmetric_matrix keep[64];
  if (mu) { for (i = 0; i < d->fft_output_size; i++) mx_tensor_const(keep + i, 5 * i + 1), d->eps_inv[i] = keep[i]; d->eps_inv_mean = keepm = sr_var("oldmean", 0.5); int two = sr_choose("remake", 0, 1); if (two) { d->mu_inv = malloc(sizeof(symmetric_matrix) * d->fft_output_size); memset(d->mu_inv, 0, sizeof(symmetric_matrix) * d->fft_output_size); }
    set_maxwell_mu(d, mi, R, G, efun, mode == 0 ? 0 : mfun, &tag); }
  else set_maxwell_dielectric(d, mi, R, G, efun, mode == 0 ? 0 : mfun, &tag);
  symmetric_matrix *E = mu ? d->mu_inv : d->eps_inv; sr_check_true("tensor array present", E != 0);
  if (mu) { sr_check_eq("mean of the other tensor untouched", d->eps_inv_mean, keepm); for (i = 0; i < d->fft_output_size; i++) sr_checkf_true(!memcmp(&keep[i], &d->eps_inv[i], sizeof keep[0]), "other tensor untouched %d", i); }
  double tot = 0; for (i = 0; i < d->fft_output_size; i++) tot += E[i].m00 + E[i].m11 + E[i].m22; sr_check_eq("mean trace", (mu ? d->mu_inv_mean : d->eps_inv_mean) * 3 * d->fft_output_size, tot);
  for (x = 0; x < n[0]; x++) for (y = 0; y < n[1]; y++) for (z = 0; z < n[2]; z++) { int cj, p = mx_pidx(d, x, y, z, &cj); if (cj) continue; i = (x * n[1] + y) * n[2] + z; cx T[3][3], W[3][3]; for (j = 0; j < 3; j++) for (k = 0; k < 3; k++) T[j][k] = mx_el(E + p, j, k);
    if (mode == 1 && i % 3 != 2) { cx I[3][3]; for (j = 0; j < 3; j++) for (k = 0; k < 3; k++) I[j][k] = mx_el(&TI[i], j, k); for (j = 0; j < 3; j++) for (k = 0; k < 3; k++) { cx q = {0, 0}; for (c = 0; c < 3; c++) q = cxa(q, cxm(I[j][c], T[c][k])); sr_checkf_eq(q.re, j == k, "inverse of the averaged tensor at point %d: re %d %d", i, j, k); sr_checkf_eq(q.im, 0, "inverse of the averaged tensor at point %d: im %d %d", i, j, k); } continue; }
    for (j = 0; j < 3; j++) for (k = 0; k < 3; k++) { cx w = {0, 0}; if (mode == 0) w = mx_el(&TI[i], j, k); else { for (c = 0; c < M; c++) w = cxa(w, mx_el(&SI[i][c], j, k)); w = cxs(1.0 / M, w); } sr_checkf_eq(T[j][k].re, w.re, "tensor at point %d: re %d %d", i, j, k); sr_checkf_eq(T[j][k].im, w.im, "tensor at point %d: im %d %d", i, j, k); } }
  sr_reach("end"); return 0; }
