/* (A - w0^2)^2. args: nx ny nz nb maxfft mu kd eps distinctwork */
#include "mx.h"
int harness_main(int argc, char **v) {
  int nb = A(v, 4), mu = A(v, 6), i, e; mxs s = mx_new(A(v, 1), A(v, 2), A(v, 3), nb, A(v, 5), mu); maxwell_data *d = s.d;
  evectmatrix X = mx_ev(s, nb), X0 = mx_ev(s, nb), Y = mx_ev(s, nb), W = mx_ev(s, nb), R = mx_ev(s, nb), T = mx_ev(s, nb); mx_kdata(d, A(v, 7)); mx_eps(s, A(v, 8)); mx_fill(X, "X"); evectmatrix_copy(X0, X); mx_fill_const(W, 9);
  double w0 = sr_var("w0", 0.625); maxwell_target_data *t = create_maxwell_target_data(d, w0); double ev[8]; for (i = 0; i < 8; i++) ev[i] = sr_varf(0.5 + i, "ev%d", i);
  for (e = 0; e < 2; e++) { maxwell_target_operator1(X, Y, t, e, W); ref_operator(d, X0, R); for (i = 0; i < X.n * nb; i++) ASSIGN_SCALAR(R.data[i], SC_RE(R.data[i]) - w0 * w0 * SC_RE(X0.data[i]), SC_IM(R.data[i]) - w0 * w0 * SC_IM(X0.data[i])); mx_check_same(Y, R, "A - w0^2"); mx_check_same(X, X0, "A - w0^2 leaves its input alone");
    maxwell_target_operator(X, Y, t, e, W); ref_operator(d, R, T); for (i = 0; i < X.n * nb; i++) ASSIGN_SCALAR(T.data[i], SC_RE(T.data[i]) - w0 * w0 * SC_RE(R.data[i]), SC_IM(T.data[i]) - w0 * w0 * SC_IM(R.data[i])); mx_check_same(Y, T, "(A - w0^2)^2"); mx_check_same(X, X0, "(A - w0^2)^2 leaves its input alone"); }
  sr_reach("end"); return 0; }
