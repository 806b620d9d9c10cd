/* operator == reference composition; args: nx ny nz nbands maxfft mu kd epsmode fields(0 sym,1 const) */
#include "mx.h"
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), nb = A(v, 4), mf = A(v, 5), mu = A(v, 6), kd = A(v, 7), em = A(v, 8), fm = A(v, 9), i;
  mxs s = mx_new(nx, ny, nz, nb, mf, mu); evectmatrix X = mx_ev(s, nb), Y = mx_ev(s, nb), W = mx_ev(s, nb), R = mx_ev(s, nb), X0 = mx_ev(s, nb);
  mx_kdata(s.d, kd); mx_eps(s, em); if (fm) mx_fill_const(X, 3); else mx_fill(X, "X"); evectmatrix_copy(X0, X);
  maxwell_operator(X, Y, s.d, 0, W); ref_operator(s.d, X0, R); mx_check_same(Y, R, "operator");
  mx_check_same(X, X0, "operator leaves its input alone");
  if (mu) { maxwell_muinv_operator(X, Y, s.d, 0, W); ref_muinv(s.d, X0, R); mx_check_same(Y, R, "muinv operator"); }
  if (fm == 2) { /* Hermitian; quadratic form = eps^-1 weighted energy of the curl field */
    mx_fill(X, "X"); mx_fill_const(Y, 11); int i, b, c, e, x, y, z; maxwell_data *d = s.d; evectmatrix AX = mx_ev(s, nb), AY = mx_ev(s, nb); maxwell_operator(X, AX, d, 0, W); maxwell_operator(Y, AY, d, 0, W);
    for (b = 0; b < nb; b++) { cx u = {0, 0}, w = {0, 0}, q = {0, 0}, g = {0, 0}; for (i = 0; i < X.n; i++) { cx a = mx_get(Y, i / 2, i % 2, b), ax = mx_get(AX, i / 2, i % 2, b), ay = mx_get(AY, i / 2, i % 2, b), xx = mx_get(X, i / 2, i % 2, b); u = cxa(u, cxm(cxc(a), ax)); w = cxa(w, cxm(cxc(ay), xx)); q = cxa(q, cxm(cxc(xx), ax)); }
      sr_checkf_eq(u.re, w.re, "Hermitian: re band %d", b); sr_checkf_eq(u.im, w.im, "Hermitian: im band %d", b);
      cx *v[3]; ref_alloc(d, v); ref_curl(d, X, b, v); ref_fft(d, v, 1);
      for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { cx M[3][3]; i = (x * ny + y) * nz + z; mx_sq3(M, d, d->eps_inv, x, y, z); for (c = 0; c < 3; c++) for (e = 0; e < 3; e++) g = cxa(g, cxm(cxc(v[c][i]), cxm(M[c][e], v[e][i]))); }
      if (!mu) { sr_checkf_eq(q.re * d->N, g.re, "energy form band %d", b); sr_checkf_eq(q.im, 0, "energy form is real, band %d", b); } } }
  sr_reach("end"); return 0; }
