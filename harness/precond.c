/* preconditioners. args: nx ny nz nb maxfft which(0 simple,1 full,2 target simple,3 target full) kd kzero(1: null wave present) S(0 identity,1 symbolic Hermitian) eps(0 const,1 symbolic trace) inplace */
#include "mx.h"
static void dcurlinv(maxwell_data *d, evectmatrix X, int b, cx *v[3]) { int i, c; for (i = 0; i < d->N; i++) { k_data *k = d->k_plus_G + i; double m[3] = {k->mx, k->my, k->mz}, n[3] = {k->nx, k->ny, k->nz}, ki = k->kmag == 0 ? 1.0 : 1.0 / k->kmag; cx a = mx_get(X, i, 0, b), e = mx_get(X, i, 1, b); /* a with k x a = X: components along m: X.n/k, along n: -X.m/k */ for (c = 0; c < 3; c++) v[c][i] = cxs(ki, cxa(cxs(m[c], e), cxs(-n[c], a))); } }
static void full_ref(maxwell_data *d, evectmatrix X, evectmatrix Y) { int b, i, x, y, z, c; cx *v[3], *o0 = calloc(d->N, sizeof(cx)), *o1 = calloc(d->N, sizeof(cx)); ref_alloc(d, v);
  for (b = 0; b < X.p; b++) { dcurlinv(d, X, b, v); ref_fft(d, v, 1); for (x = 0; x < d->nx; x++) for (y = 0; y < d->ny; y++) for (z = 0; z < d->nz; z++) { int cj, q = mx_pidx(d, x, y, z, &cj); double e = 3.0 / (d->eps_inv[q].m00 + d->eps_inv[q].m11 + d->eps_inv[q].m22); i = (x * d->ny + y) * d->nz + z; for (c = 0; c < 3; c++) v[c][i] = cxs(e, v[c][i]); } ref_fft(d, v, 0);
    ref_proj(d, v, 1.0 / d->N, o0, o1); for (i = 0; i < d->N; i++) { double k = d->k_plus_G[i].kmag, ki = k == 0 ? 1.0 : 1.0 / k; cx a = o0[i]; o0[i] = cxs(-ki, o1[i]); o1[i] = cxs(ki, a); o0[i] = cxs(1, o0[i]); }
    ref_setband(Y, b, o0, o1, d->N); } ref_free(v); free(o0); free(o1); }
int harness_main(int argc, char **v) {
  int nb = A(v, 4), which = A(v, 6), kd = A(v, 7), kz = A(v, 8), sm = A(v, 9), ep = A(v, 10), inpl = A(v, 11), i, b, c, t;
  mxs s = mx_new(A(v, 1), A(v, 2), A(v, 3), nb, A(v, 5), 0); maxwell_data *d = s.d; evectmatrix X = mx_ev(s, nb), Y = mx_ev(s, nb), XS = mx_ev(s, nb), R = mx_ev(s, nb), T = mx_ev(s, nb); sqmatrix S = create_sqmatrix(nb); real ev[8]; for (b = 0; b < 8; b++) ev[b] = sr_varf(0.7 + b, "eig_%d", b);
  mx_kdata(d, kd); if (kd != 1) for (i = 0; i < d->N; i++) sr_assume_gt(d->k_plus_G[i].kmag, 0.0); if (kz) { d->k_plus_G[0].kmag = 0; d->k_plus_G_normsqr[0] = 0; }
  if (ep) { mx_eps(s, 1); for (i = 0; i < d->fft_output_size; i++) { sr_assume_gt(d->eps_inv[i].m00, 0.0); sr_assume_gt(d->eps_inv[i].m11, 0.0); sr_assume_gt(d->eps_inv[i].m22, 0.0); } } else mx_eps(s, 0);
  d->eps_inv_mean = sr_var("epsmean", 0.625); sr_assume_gt(d->eps_inv_mean, 0.0);
  mx_fill(X, "X"); evectmatrix X0 = mx_ev(s, nb); evectmatrix_copy(X0, X); for (i = 0; i < nb; i++) for (b = 0; b < nb; b++) ASSIGN_SCALAR(S.data[i * nb + b], i == b, 0.0);
  if (sm) for (i = 0; i < nb; i++) for (b = i; b < nb; b++) { double re = sr_varf(i == b ? 1.5 : 0.25, "S_%d_%d_r", i, b), im = 0; 
#ifdef SCALAR_COMPLEX
    if (i != b) im = sr_varf(-0.375, "S_%d_%d_i", i, b);
#endif
    ASSIGN_SCALAR(S.data[i * nb + b], re, im); ASSIGN_SCALAR(S.data[b * nb + i], re, -im); }
  for (i = 0; i < X.n; i++) for (b = 0; b < nb; b++) { cx z = {0, 0}; for (c = 0; c < nb; c++) { cx x = {SC_RE(X.data[i * nb + c]), SC_IM(X.data[i * nb + c])}, q = {SC_RE(S.data[c * nb + b]), SC_IM(S.data[c * nb + b])}; z = cxa(z, cxm(x, q)); } ASSIGN_SCALAR(XS.data[i * nb + b], z.re, z.im); }
  maxwell_target_data *td = create_maxwell_target_data(d, sr_var("wt", 0.375));
  if (inpl) { evectmatrix_copy(Y, X); evectmatrix_copy(XS, X); }
  sr_divzero_obligation(1);
  if (which == 0) { maxwell_preconditioner(X, Y, d, X, ev, S); } else if (which == 1) { if (inpl) maxwell_preconditioner2(Y, Y, d, X, ev, S); else maxwell_preconditioner2(X, Y, d, X, ev, S); }
  else if (which == 2) maxwell_target_preconditioner(X, Y, td, X, ev, S); else maxwell_target_preconditioner2(X, Y, td, X, ev, S);
  sr_divzero_obligation(0);
  if (which == 0 || which == 2) { for (i = 0; i < X.n; i++) for (b = 0; b < nb; b++) { double q = d->k_plus_G_normsqr[i / 2], f = q == 0 ? 1.0 : 1.0 / (q * d->eps_inv_mean); if (which == 2) f = f * f; ASSIGN_SCALAR(R.data[i * nb + b], f * SC_RE(XS.data[i * nb + b]), f * SC_IM(XS.data[i * nb + b])); sr_checkf_lt(0.0, f, "positive factor"); } }
  else { full_ref(d, XS, R); if (which == 3) { evectmatrix_copy(T, R); full_ref(d, T, R); } }
  mx_check_same(Y, R, "preconditioner"); if (!inpl) { mx_check_same(X, X0, "input unchanged"); }
  if (which == 1 && !sm && !ep) { /* Hermitian, non-negative */
    mx_fill_const(T, 5); maxwell_preconditioner2(T, R, d, X, ev, S); for (b = 0; b < nb; b++) { cx u = {0, 0}, w = {0, 0}; for (i = 0; i < X.n; i++) { cx x = mx_get(X, i / 2, i % 2, b), y = mx_get(Y, i / 2, i % 2, b), p = mx_get(T, i / 2, i % 2, b), q = mx_get(R, i / 2, i % 2, b); u = cxa(u, cxm(cxc(p), y)); w = cxa(w, cxm(cxc(q), x)); } sr_checkf_eq(u.re, w.re, "Hermitian re %d", b); sr_checkf_eq(u.im, w.im, "Hermitian im %d", b); } }
  if (which == 1 && !kz && kd != 0 && !sm) { /* homogeneous isotropic medium: exact inverse of the operator */
    double e = sr_var("ehom", 0.5); sr_assume_gt(e, 0.0); for (i = 0; i < d->fft_output_size; i++) { memset(d->eps_inv + i, 0, sizeof(symmetric_matrix)); d->eps_inv[i].m00 = d->eps_inv[i].m11 = d->eps_inv[i].m22 = e; }
    maxwell_preconditioner2(X, Y, d, X, ev, S); maxwell_operator(Y, R, d, 0, T); mx_check_same(R, X, "homogeneous medium: operator times preconditioner"); 
    d->eps_inv_mean = e; maxwell_preconditioner(X, Y, d, X, ev, S); maxwell_operator(Y, R, d, 0, T); mx_check_same(R, X, "homogeneous medium: operator times simple preconditioner"); }
  sr_reach("end"); return 0; }
