/* dense square matrices. args: what p extra */
#include "mx.h"
#include "blasglue.h"
#include "lap.h"
static int p;
static cx g(sqmatrix M, int i, int j) { scalar s = M.data[i * M.p + j]; cx r = {SC_RE(s), SC_IM(s)}; return r; }
static void put(sqmatrix M, int i, int j, cx z) { ASSIGN_SCALAR(M.data[i * M.p + j], z.re, z.im); (void)z; }
static void fill(sqmatrix M, const char *n) { int i, j; for (i = 0; i < M.p; i++) for (j = 0; j < M.p; j++) M.data[i * M.p + j] = mx_scalar(n, i, j, 0); }
static void herm(sqmatrix M, const char *n) { int i, j; for (i = 0; i < M.p; i++) for (j = i; j < M.p; j++) { cx z; scalar s = mx_scalar(n, i, j, 0); z.re = SC_RE(s); z.im = i == j ? 0 : SC_IM(s); put(M, i, j, z); put(M, j, i, cxc(z)); } }
static void eq(cx a, cx b, const char *w, int i, int j) { sr_checkf_eq(a.re, b.re, "%s re %d %d", w, i, j);
#ifdef SCALAR_COMPLEX
  sr_checkf_eq(a.im, b.im, "%s im %d %d", w, i, j);
#endif
}
static void same(sqmatrix M, sqmatrix N, const char *w) { int i, j; for (i = 0; i < M.p; i++) for (j = 0; j < M.p; j++) eq(g(M, i, j), g(N, i, j), w, i, j); }
static sqmatrix dup(sqmatrix M) { sqmatrix N = create_sqmatrix(M.p); memcpy(N.data, M.data, sizeof(scalar) * M.p * M.p); return N; }
static cx prod(sqmatrix B, int bd, sqmatrix C, int cd, int i, int j) { cx s = {0, 0}; int k; for (k = 0; k < B.p; k++) s = cxa(s, cxm(bd ? cxc(g(B, k, i)) : g(B, i, k), cd ? cxc(g(C, j, k)) : g(C, k, j))); return s; }
/* rational unitary V (columns) of size n, real in the real build */
static const double Q2[2][2] = {{0.6, -0.8}, {0.8, 0.6}};
static void unitary(int n, lapz *V, int salt) { int i, j; double R[9]; if (n == 1) R[0] = 1; else if (n == 2) for (i = 0; i < 4; i++) R[i] = Q2[i / 2][i % 2]; else { const int *q = quat[salt % 4]; double a = q[0], b = q[1], c = q[2], e = q[3], m = a * a + b * b + c * c + e * e; double T[9] = {(a * a + b * b - c * c - e * e) / m, 2 * (b * c - a * e) / m, 2 * (b * e + a * c) / m, 2 * (b * c + a * e) / m, (a * a - b * b + c * c - e * e) / m, 2 * (c * e - a * b) / m, 2 * (b * e - a * c) / m, 2 * (c * e + a * b) / m, (a * a - b * b - c * c + e * e) / m}; memcpy(R, T, sizeof T); }
  for (i = 0; i < n; i++) for (j = 0; j < n; j++) { V[i * n + j].re = R[i * n + j]; V[i * n + j].im = 0;
#ifdef SCALAR_COMPLEX
      static const double cr[3] = {0.8, 0, -0.28}, ci[3] = {0.6, 1, 0.96}; V[i * n + j].re = R[i * n + j] * cr[i % 3]; V[i * n + j].im = R[i * n + j] * ci[i % 3];
#endif
    } }
static sqmatrix Mx, Wk; static int okf, pd; static void finv(void *u) { okf = sqmatrix_invert(Mx, pd, Wk); (void)u; }
static void fres(void *u) { sqmatrix_resize(&Mx, Mx.alloc_p + 1, 1); (void)u; }
int harness_main(int argc, char **v) {
  int what = A(v, 1), ex = argc > 3 ? A(v, 3) : 0, i, j, k; p = A(v, 2); sqmatrix a = create_sqmatrix(p), b = create_sqmatrix(p), c = create_sqmatrix(p), a0, b0, c0;
  if (what == 0) { /* products and sums */
    double al = sr_var("alpha", 0.75), be = sr_var("beta", -1.5); int bd = sr_choose("bdagger", 0, 1), cd = sr_choose("cdagger", 0, 1); fill(a, "A"); fill(b, "B"); fill(c, "C"); a0 = dup(a); b0 = dup(b); c0 = dup(c);
    sqmatrix_AeBC(a, b, bd, c, cd); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(g(a, i, j), prod(b0, bd, c0, cd, i, j), "A = B C", i, j);
    memcpy(a.data, a0.data, sizeof(scalar) * p * p); sqmatrix_ApaBC(a, al, b, bd, c, cd); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(g(a, i, j), cxa(g(a0, i, j), cxs(al, prod(b0, bd, c0, cd, i, j))), "A += a B C", i, j);
    sqmatrix_copy(a, a0); same(a, a0, "copy"); sqmatrix_ApaB(a, al, b); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(g(a, i, j), cxa(g(a0, i, j), cxs(al, g(b0, i, j))), "A += a B", i, j);
    sqmatrix_copy(a, a0); sqmatrix_aApbB(al, a, be, b); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(g(a, i, j), cxa(cxs(al, g(a0, i, j)), cxs(be, g(b0, i, j))), "A = a A + b B", i, j);
    sqmatrix_copy(a, a0); sqmatrix_aApbB(1.0, a, be, b); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(g(a, i, j), cxa(g(a0, i, j), cxs(be, g(b0, i, j))), "A = A + b B", i, j);
    sqmatrix_copy(a, a0); sqmatrix_aApbB(al, a, be, a); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(g(a, i, j), cxs(al + be, g(a0, i, j)), "A = a A + b A", i, j);
    same(b, b0, "B unchanged"); same(c, c0, "C unchanged");
    { cx t = {0, 0}, u = {0, 0}; for (i = 0; i < p; i++) { t = cxa(t, g(b0, i, i)); for (j = 0; j < p; j++) u = cxa(u, cxm(cxc(g(b0, i, j)), g(c0, i, j))); } scalar s = sqmatrix_trace(b); cx r = {SC_RE(s), SC_IM(s)}; eq(r, t, "trace", 0, 0); s = sqmatrix_traceAtB(b, c); cx q = {SC_RE(s), SC_IM(s)}; eq(q, u, "trace of adjoint product", 0, 0); }
    sqmatrix_symmetrize(a, b); for (i = 0; i < p; i++) for (j = 0; j < p; j++) eq(g(a, i, j), cxs(0.5, cxa(g(b0, i, j), cxc(g(b0, j, i)))), "symmetrize", i, j);
    sqmatrix_copy(a, a0); herm(c, "H"); sqmatrix_copy(b, c); for (i = 0; i < p; i++) for (j = 0; j < i; j++) b.data[i * p + j] = a0.data[i * p + j]; sqmatrix_copy_upper2full(a, b); same(a, c, "fill lower triangle");
  } else if (what == 1) { /* resizing inside a larger allocation */
    int q = ex, r, m = p < q ? p : q, al = (p > q ? p : q); a = create_sqmatrix(al); for (i = 0; i < al * al; i++) a.data[i] = mx_scalar("st", i, 0, 9); sqmatrix_resize(&a, p, 0); sr_check_true("size", a.p == p); fill(a, "A"); a0 = dup(a);
    sqmatrix_resize(&a, q, 1); sr_check_true("new size", a.p == q); for (i = 0; i < m; i++) for (j = 0; j < m; j++) eq(g(a, i, j), g(a0, i, j), "kept entries", i, j);
    Mx = a; sr_check_true("growing beyond the allocation is refused", hx_try(fres, 0)); (void)r; sr_reach("end"); return 0;
  } else if (what == 2) { /* inversion */
    pd = ex; Mx = a; Wk = c; fill(c, "W"); herm(a, "H"); a0 = dup(a);
    { /* nonsingular */ cx d; if (p == 1) d = g(a, 0, 0); else if (p == 2) { d = cxm(g(a, 0, 0), g(a, 1, 1)); d.re -= cxm(g(a, 0, 1), g(a, 1, 0)).re; } else { d.re = 0; d.im = 0; for (i = 0; i < 3; i++) { cx t = cxm(g(a, 1, (i + 1) % 3), g(a, 2, (i + 2) % 3)), u = cxm(g(a, 1, (i + 2) % 3), g(a, 2, (i + 1) % 3)); t.re -= u.re; t.im -= u.im; d = cxa(d, cxm(g(a, 0, i), t)); } } sr_assume_ne(d.re, 0.0); }
    sr_check_true("inversion does not stop", !hx_try(finv, 0)); sr_check_true("success reported", okf == 1);
    for (i = 0; i < p; i++) for (j = 0; j < p; j++) { cx t = prod(a0, 0, a, 0, i, j), e = {i == j, 0}; eq(t, e, "U times its inverse", i, j); }
    lap_fail_potrf = 1; memcpy(a.data, a0.data, sizeof(scalar) * p * p); sr_check_true("failure does not stop", !hx_try(finv, 0)); sr_check_true("failure reported", okf == 0);
  } else if (what == 3 || what == 4) { /* eigenproblems, square root */
    lapz V[9], H[9], B[9], X[9]; double w[3], ev[3]; int gen = ex; unitary(p, V, 1); for (i = 0; i < p; i++) { double s = sr_varf(0.5 + 0.75 * i, "w%d", i); if (what == 4) { sr_assume_gt(s, 0.0); if (i) sr_assume_ge(s, sr_nominal(0) + w[i - 1]); } else if (i) sr_assume_ge(s, w[i - 1]); w[i] = s; }
    double w2[3]; for (i = 0; i < p; i++) w2[i] = what == 4 ? w[i] * w[i] : w[i];
    /* metric B = T^dagger T with T = D V^dagger, D rational diagonal; vectors X = V D^-1 */
    for (i = 0; i < p; i++) for (j = 0; j < p; j++) { cx h = {0, 0}, bb = {0, 0}; for (k = 0; k < p; k++) { cx x = {V[i * p + k].re, V[i * p + k].im}, y = {V[j * p + k].re, V[j * p + k].im}, t = cxm(x, cxc(y)); double D = gen ? (k + 2) * (k + 2) / 4.0 : 1; h = cxa(h, cxs(w2[k] * D, t)); bb = cxa(bb, cxs(D, t)); } H[i * p + j].re = h.re; H[i * p + j].im = h.im; B[i * p + j].re = bb.re; B[i * p + j].im = bb.im; double dd = gen ? 2.0 / (j + 2) : 1; X[i * p + j].re = V[i * p + j].re * dd; X[i * p + j].im = V[i * p + j].im * dd; put(a, i, j, h); put(b, i, j, bb); }
    fill(c, "W"); a0 = dup(a); b0 = dup(b); lap_expect_eig(p, H, gen ? B : 0, X, w2);
    if (what == 4) { sqmatrix r = create_sqmatrix(p); fill(r, "R"); sqmatrix_sqrt(r, a, c); for (i = 0; i < p; i++) for (j = 0; j < p; j++) { eq(prod(r, 0, r, 0, i, j), g(a0, i, j), "square of the square root", i, j); eq(g(r, i, j), cxc(g(r, j, i)), "Hermitian square root", i, j); cx t = {0, 0}; for (k = 0; k < p; k++) { cx x = {V[i * p + k].re, V[i * p + k].im}, y = {V[j * p + k].re, V[j * p + k].im}; t = cxa(t, cxs(w[k], cxm(x, cxc(y)))); } eq(g(r, i, j), t, "positive square root", i, j); } }
    else { if (gen) sqmatrix_gen_eigensolve(a, b, ev, c); else sqmatrix_eigensolve(a, ev, c);
      for (i = 0; i < p; i++) { sr_checkf_eq(ev[i], w2[i], "eigenvalue %d", i); if (i) sr_checkf_le(ev[i - 1], ev[i], "ascending %d", i); }
      for (k = 0; k < p; k++) for (i = 0; i < p; i++) { cx l = {0, 0}, r = {0, 0}, n = {0, 0}; int m; for (j = 0; j < p; j++) { cx x = cxc(g(a, k, j)); l = cxa(l, cxm(g(a0, i, j), x)); if (gen) r = cxa(r, cxm(g(b0, i, j), x)); else if (i == j) r = x; } eq(l, cxs(ev[k], r), "column of the adjoint is an eigenvector", i, k);
        for (j = 0; j < p; j++) for (m = 0; m < p; m++) { cx t = cxm(g(a, i, j), cxc(g(a, k, m))); n = gen ? cxa(n, cxm(t, g(b0, j, m))) : j == m ? cxa(n, t) : n; } cx e = {i == k, 0}; eq(n, e, "eigenvectors orthonormal", i, k); } }
    sr_check_true("one decomposition", lap_pending() == 0);
  } else if (what == 5) { /* general eigenvalues */
    scalar_complex ev[3]; fill(a, "A"); a0 = dup(a); sqmatrix_eigenvalues(a, ev); same(a, a0, "matrix unchanged"); cx tr = {0, 0}, s = {0, 0}, pr = {1, 0}, d = {0, 0}; for (i = 0; i < p; i++) { cx e = {ev[i].re, ev[i].im}; tr = cxa(tr, g(a, i, i)); s = cxa(s, e); pr = cxm(pr, e); }
    if (p == 1) d = g(a, 0, 0); if (p == 2) { d = cxm(g(a, 0, 0), g(a, 1, 1)); cx t = cxm(g(a, 0, 1), g(a, 1, 0)); d.re -= t.re; d.im -= t.im; } if (p == 3) for (i = 0; i < 3; i++) { cx t = cxm(g(a, 1, (i + 1) % 3), g(a, 2, (i + 2) % 3)), u = cxm(g(a, 1, (i + 2) % 3), g(a, 2, (i + 1) % 3)); t.re -= u.re; t.im -= u.im; d = cxa(d, cxm(g(a, 0, i), t)); }
    sr_check_eq("sum of eigenvalues re", s.re, tr.re); sr_check_eq("sum of eigenvalues im", s.im, tr.im); sr_check_eq("product of eigenvalues re", pr.re, d.re); sr_check_eq("product of eigenvalues im", pr.im, d.im);
  } else if (what == 6) { /* diagonal helpers on n x p blocks */
    int n = ex, m; scalar *X = malloc(sizeof(scalar) * n * p), *Y = malloc(sizeof(scalar) * n * p), *X0 = malloc(sizeof(scalar) * n * p), dg[3]; real rd[3], r2[3], al = sr_var("alpha", 0.75);
    for (i = 0; i < n * p; i++) { X0[i] = X[i] = mx_scalar("x", i, 0, 0); Y[i] = mx_scalar("y", i, 0, 0); } for (j = 0; j < p; j++) { rd[j] = sr_varf(0.5 + j, "d%d", j); r2[j] = sr_varf(1.5 - j, "e%d", j); dg[j] = mx_scalar("g", j, 0, 0); }
#define SX(a) ((cx){SC_RE(a), SC_IM(a)})
    matrix_XpaY_diag(X, al, Y, dg, n, p); for (i = 0; i < n; i++) for (j = 0; j < p; j++) eq(SX(X[i * p + j]), cxa(SX(X0[i * p + j]), cxs(al, cxm(SX(Y[i * p + j]), SX(dg[j])))), "X + a Y D", i, j);
    memcpy(X, X0, sizeof(scalar) * n * p); matrix_XpaY_diag_real(X, al, Y, rd, n, p); for (i = 0; i < n; i++) for (j = 0; j < p; j++) eq(SX(X[i * p + j]), cxa(SX(X0[i * p + j]), cxs(al * rd[j], SX(Y[i * p + j]))), "X + a Y D (real)", i, j);
    memcpy(X, X0, sizeof(scalar) * n * p); matrix_X_diag_real_pY_diag_real(X, rd, Y, r2, n, p); for (i = 0; i < n; i++) for (j = 0; j < p; j++) eq(SX(X[i * p + j]), cxa(cxs(rd[j], SX(X0[i * p + j])), cxs(r2[j], SX(Y[i * p + j]))), "X D1 + Y D2", i, j);
    fill(a, "A"); { double t = 0, u = 0; cx w = {0, 0}; for (j = 0; j < p; j++) { t += g(a, j, j).re * rd[j]; u += rd[j]; w = cxa(w, SX(dg[j])); } sr_check_eq("Re trace A D", matrix_re_trace_A_diag_real(a.data, rd, p), t); sr_check_eq("trace of a real diagonal", matrix_diag_real_trace(rd, p), u); scalar z = matrix_diag_trace(dg, p); eq(SX(z), w, "trace of a diagonal", 0, 0); } (void)m;
  }
  sr_reach("end"); return 0; }
