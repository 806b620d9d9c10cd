/* 3x3 tensor algebra. args: what (0 invert, 1 definiteness, 2 rotate, 3 rotation matrix, 4 eigenvalues) variant */
#include "mx.h"
static symmetric_matrix V, W;
static void inv(void *p) { maxwell_sym_matrix_invert(p ? (symmetric_matrix *)p : &W, &V); }
static void mat(cx M[3][3], const symmetric_matrix *t) { int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) M[i][j] = mx_el(t, i, j); }
static cx det3(cx M[3][3]) { int j; cx d = {0, 0}; for (j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3; cx m = cxa(cxm(M[1][a], M[2][b]), cxs(-1, cxm(M[1][b], M[2][a]))); d = cxa(d, cxm(M[0][j], m)); } return d; }
int harness_main(int argc, char **v) {
  int what = A(v, 1), var = A(v, 2), i, j, k; cx M[3][3], I[3][3]; mx_tensor(&V, "V", 0);
  if (what == 0) { int diag = 0, same = sr_choose("inplace", 0, 1); symmetric_matrix keep = V; mat(M, &V); cx d = det3(M);
    if (hx_try(inv, same ? &V : 0)) { sr_reach("singular"); sr_check_eq("only a singular tensor is refused", d.re, 0.0); return 0; }
    if (same) { W = V; V = keep; } (void)diag; mat(M, &V); mat(I, &W);
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { cx s = {0, 0}; for (k = 0; k < 3; k++) s = cxa(s, cxm(M[i][k], I[k][j])); sr_checkf_eq(s.re, i == j, "inverse, re %d %d", i, j); sr_checkf_eq(s.im, 0, "inverse, im %d %d", i, j); } sr_reach("end"); }
  else if (what == 1) { mat(M, &V); int r = maxwell_sym_matrix_positive_definite(&V); double d1 = V.m00, d2 = M[0][0].re * M[1][1].re - cxm(M[0][1], M[1][0]).re, d3 = det3(M).re;
    /* Lagrange reduction of the quadratic form: d1 d2 q = d2|d1 x + m01 y + m02 z|^2 + |d2 y + (m00 m12 - m10 m02) z|^2 + d1 d3 |z|^2 */
    cx x[3], q = {0, 0}, a, b; for (i = 0; i < 3; i++) { x[i].re = sr_varf(0.5 + i, "x%d", i); x[i].im = 0;
#ifdef WITH_HERMITIAN_EPSILON
      x[i].im = sr_varf(0.25 - i, "xi%d", i);
#endif
    }
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) q = cxa(q, cxm(cxc(x[i]), cxm(M[i][j], x[j])));
    a = cxa(cxs(d1, x[0]), cxa(cxm(M[0][1], x[1]), cxm(M[0][2], x[2]))); cx g = cxa(cxm(M[0][0], M[1][2]), cxs(-1, cxm(M[1][0], M[0][2]))); b = cxa(cxs(d2, x[1]), cxm(g, x[2]));
#define N2(z) ((z).re * (z).re + (z).im * (z).im)
    sr_check_eq("quadratic form in terms of the leading minors", d1 * d2 * q.re, d2 * N2(a) + N2(b) + d1 * d3 * N2(x[2])); sr_check_eq("quadratic form is real", q.im, 0);
    int pd = 1; if (!(d1 > 0)) pd = 0; if (!(d2 > 0)) pd = 0; if (!(d3 > 0)) pd = 0;
    sr_check_true("positive definite exactly when all leading minors are positive", (r != 0) == pd); sr_reach(r ? "yes" : "no"); }
  else if (what == 2) { double R[3][3]; symmetric_matrix B; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) R[i][j] = sr_varf(0.25 * (i + 1) - 0.5 * j + 0.125, "R%d%d", i, j); symmetric_matrix K = V; if (sr_choose("inplace", 0, 1)) { maxwell_sym_matrix_rotate(&V, &V, R); B = V; V = K; } else { memset(&B, 0, sizeof B); maxwell_sym_matrix_rotate(&B, &V, R); }
    mat(M, &V); mat(I, &B); for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { cx s = {0, 0}; int a, b; for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) s = cxa(s, cxs(R[a][i] * R[b][j], M[a][b])); sr_checkf_eq(I[i][j].re, s.re, "R^T A R re %d %d", i, j); sr_checkf_eq(I[i][j].im, s.im, "R^T A R im %d %d", i, j); } sr_reach("end"); }
  else if (what == 3) { double R[3][3], n[3]; static const double nn[3][3] = {{0.6, 0, 0.8}, {0, 0.6, -0.8}, {0, 0, 1}}; for (i = 0; i < 3; i++) n[i] = sr_varf(nn[var][i], "n%d", i); if (var == 2) { sr_assume_gt(0.009, n[0]); sr_assume_gt(n[0], -0.009); sr_assume_gt(0.009, n[1]); sr_assume_gt(n[1], -0.009); }
    sr_assume_eq(n[0] * n[0] + n[1] * n[1] + n[2] * n[2], 1.0); maxwell_rotation_matrix(R, n[0], n[1], n[2]);
    for (i = 0; i < 3; i++) { sr_checkf_eq(R[i][0], n[i], "first axis, component %d", i); for (j = i; j < 3; j++) { double s = 0; for (k = 0; k < 3; k++) s += R[k][i] * R[k][j]; sr_checkf_eq(s, i == j, "axes orthonormal %d %d", i, j); } }
    double d = 0; for (j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3; d += R[0][j] * (R[1][a] * R[2][b] - R[1][b] * R[2][a]); } sr_check_eq("proper rotation", d, 1.0); sr_reach("end"); }
  else { double e[3]; mat(M, &V); symmetric_matrix K = V; maxwell_sym_matrix_eigs(e, &V); sr_check_eq("eigenvalue sum", e[0] + e[1] + e[2], V.m00 + V.m11 + V.m22); sr_check_eq("eigenvalue product", e[0] * e[1] * e[2], det3(M).re); double mi = 0; for (i = 0; i < 3; i++) for (j = i + 1; j < 3; j++) mi += M[i][i].re * M[j][j].re - cxm(M[i][j], M[j][i]).re; sr_check_eq("second invariant", e[0] * e[1] + e[1] * e[2] + e[0] * e[2], mi); sr_check_le("ascending 0 1", e[0], e[1]); sr_check_le("ascending 1 2", e[1], e[2]); mat(I, &V); for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) sr_checkf_eq(I[i][j].re, M[i][j].re, "tensor unchanged %d %d", i, j); (void)K; sr_reach("end"); }
  return 0; }
