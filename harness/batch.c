/* batching. args: nx ny nz nb maxfft mu hist(0 fresh, 1 other shapes used before, 2 more than 40 plan shapes before) setbands(-1 or n for maxwell_set_num_bands) */
#include "mx.h"
extern void maxwell_compute_H_from_e(maxwell_data *, evectmatrix, scalar_complex *, int, int, real);
static void ucross_ref(maxwell_data *d, evectmatrix X, evectmatrix Y, const double u[3]) { int b, i, c; cx *v[3], *o0 = calloc(d->N, sizeof(cx)), *o1 = calloc(d->N, sizeof(cx)); ref_alloc(d, v); for (b = 0; b < X.p; b++) { ref_cart(d, X, b, v); for (i = 0; i < d->N; i++) { cx q[3]; for (c = 0; c < 3; c++) q[c] = cxa(cxs(u[(c + 1) % 3], v[(c + 2) % 3][i]), cxs(-u[(c + 2) % 3], v[(c + 1) % 3][i])); for (c = 0; c < 3; c++) v[c][i] = q[c]; } ref_fft(d, v, 1); ref_mul(d, v, d->eps_inv); ref_fft(d, v, 0); ref_curlproj(d, v, -1.0 / d->N, o0, o1); ref_setband(Y, b, o0, o1, d->N); } ref_free(v); free(o0); free(o1); }
static void posref(maxwell_data *d, evectmatrix X, int b, cx *o[3], int curl) { if (curl) ref_curl(d, X, b, o); else ref_cart(d, X, b, o); ref_fft(d, o, 1); }
static void poscheck(maxwell_data *d, scalar_complex *f, int nb, int b, cx *o[3], const char *what) { int x, y, z, c; for (x = 0; x < d->nx; x++) for (y = 0; y < d->ny; y++) for (z = 0; z < d->nz; z++) { int cj, q = mx_pidx(d, x, y, z, &cj), i = (x * d->ny + y) * d->nz + z; if (cj) continue; for (c = 0; c < 3; c++) { sr_checkf_eq(f[3 * (q * nb + b) + c].re, o[c][i].re, "%s re point %d comp %d band %d", what, i, c, b); sr_checkf_eq(f[3 * (q * nb + b) + c].im, o[c][i].im, "%s im point %d comp %d band %d", what, i, c, b); } } }
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), nb = A(v, 4), mf = A(v, 5), mu = A(v, 6), hist = A(v, 7), setb = A(v, 8), i, b, w; double u[3] = {0.5, -0.25, 1.5};
  mxs s = mx_new(nx, ny, nz, hist == 2 ? 64 : nb, hist == 2 ? 64 : mf, mu); maxwell_data *d = s.d; mx_kdata(d, 1); mx_eps(s, 0);
  if (hist) { int n = hist == 2 ? 40 : mf; for (i = 1; i <= n; i++) { evectmatrix T = mx_ev(s, i), U = mx_ev(s, i), W = mx_ev(s, i); memset(T.data, 0, sizeof(scalar) * T.n * T.p); mx_fill_const(T, i); if (hist == 2) maxwell_compute_d_from_H(d, T, (scalar_complex *)d->fft_data, 0, i); else maxwell_operator(T, U, d, 0, W); } if (hist == 2) { maxwell_set_num_bands(d, nb); } }
  if (setb >= 0) { maxwell_set_num_bands(d, 1); maxwell_set_num_bands(d, setb); }
  evectmatrix X = mx_ev(s, nb), X0 = mx_ev(s, nb), Y = mx_ev(s, nb), W = mx_ev(s, nb), R = mx_ev(s, nb); mx_fill(X, "X"); evectmatrix_copy(X0, X);
  maxwell_operator(X, Y, d, 0, W); ref_operator(d, X0, R); mx_check_same(Y, R, "operator"); 
  if (mu) { maxwell_muinv_operator(X, Y, d, 0, W); ref_muinv(d, X0, R); mx_check_same(Y, R, "muinv"); }
  if (!mu) { maxwell_ucross_op(X, Y, d, u); ucross_ref(d, X0, R, u); mx_check_same(Y, R, "velocity operator"); }
  cx *o[3]; ref_alloc(d, o); int bs = sr_choose("batch size", 1, mf < nb ? mf : nb);
  for (w = 0; w < nb; w += bs) { int n = nb - w < bs ? nb - w : bs;
    maxwell_compute_d_from_H(d, X, (scalar_complex *)d->fft_data, w, n); for (b = 0; b < n; b++) { posref(d, X0, w + b, o, 1); poscheck(d, (scalar_complex *)d->fft_data, n, b, o, "curl field"); }
    maxwell_compute_e_from_d(d, (scalar_complex *)d->fft_data, n); for (b = 0; b < n; b++) { posref(d, X0, w + b, o, 1); ref_mul(d, o, d->eps_inv); poscheck(d, (scalar_complex *)d->fft_data, n, b, o, "E field"); }
    maxwell_compute_H_from_e(d, Y, (scalar_complex *)d->fft_data, w, n, -1.0 / d->N);
    maxwell_compute_h_from_H(d, X, (scalar_complex *)d->fft_data, w, n); for (b = 0; b < n; b++) { posref(d, X0, w + b, o, 0); poscheck(d, (scalar_complex *)d->fft_data, n, b, o, "H field"); } }
  { evectmatrix T = mx_ev(s, nb); evectmatrix_copy(T, X0); symmetric_matrix *m = d->mu_inv; d->mu_inv = 0; ref_operator(d, T, R); d->mu_inv = m; mx_check_same(Y, R, "curl of E in batches"); }
  /* magnetic-field conversion with independent source/target offsets */
  { evectmatrix B = mx_ev(s, nb + 2), Ho = mx_ev(s, nb + 1), H2 = mx_ev(s, nb + 1), E = mx_ev(s, nb + 2); int n = bs < nb ? bs : nb; mx_fill_const(B, 31); mx_fill_const(Ho, 77); for (i = 0; i < X.n; i++) for (b = 0; b < n; b++) B.data[i * B.p + b + 2] = X0.data[i * nb + b]; evectmatrix_copy(H2, Ho);
    maxwell_compute_H_from_B(d, B, Ho, (scalar_complex *)d->fft_data, 2, 1, n); if (mu) ref_muinv(d, B, E); else evectmatrix_copy(E, B); for (i = 0; i < X.n; i++) for (b = 0; b < n; b++) H2.data[i * H2.p + b + 1] = E.data[i * E.p + b + 2]; mx_check_same(Ho, H2, "H from B into other bands"); }
  mx_check_same(X, X0, "input unchanged"); sr_reach("end"); destroy_maxwell_data(d); return 0; }
