/* interface averaging on one pixel. args: rank normalid offset(in pixels*100) mesh0 mesh1 mesh2 kind(0 isotropic symbolic,1 anisotropic symbolic material A,2 anisotropic symbolic material B) swap lattice mu
   Structure: material A where n.x < c (Cartesian), B elsewhere; pixel = grid point 1,1,1 (or 0 on flat axes). */
#include "mx.h"
static int n[3], sw; static double c0, nn[3]; static real R[3][3], G[3][3]; static symmetric_matrix TA, TB, IA, IB; static double ctr[3];
static const double NRM[8][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.6, 0.8, 0}, {-0.6, 0, 0.8}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
static int sideof(const real r[3]) { int c; double s = 0; for (c = 0; c < 3; c++) { double x = 0; int j; for (j = 0; j < 3; j++) x += (r[j] - ctr[j]) * R[j][c]; s += nn[c] * x; } return s < c0; }
static void efun(symmetric_matrix *e, symmetric_matrix *ei, const real r[3], void *d) { int a = sideof(r) != sw; *e = a ? TA : TB; *ei = a ? IA : IB; }
static void full(symmetric_matrix *t, symmetric_matrix *ti, const char *nm, int kind, double trace) { /* eps with given trace; positive 00/11/22 assumed */
  memset(t, 0, sizeof *t); if (kind == 0) { t->m00 = t->m11 = t->m22 = trace / 3; } else { mx_tensor(t, nm, 0); t->m22 = trace - t->m00 - t->m11; }
  sr_assume_gt(t->m00, 0.0); sr_assume_gt(t->m11, 0.0); sr_assume_gt(t->m22, 0.0); mx_tensor(ti, nm[0] == 'A' ? "IA" : "IB", 0); }
static maxwell_data *d; static int mesh[3], mu;
static void doit(void *p) { if (mu) set_maxwell_mu(d, mesh, R, G, efun, 0, 0); else set_maxwell_dielectric(d, mesh, R, G, efun, 0, 0); }
int harness_main(int argc, char **v) {
  int rank = A(v, 1), ni = A(v, 2), kind = A(v, 7), lat = A(v, 9), i, j, k, c; sw = A(v, 8); mu = A(v, 10); for (c = 0; c < 3; c++) mesh[c] = A(v, 4 + c); for (c = 0; c < 3; c++) { n[c] = c < rank ? 2 + (c == 1) : 1; nn[c] = NRM[ni][c]; }
  memset(R, 0, sizeof R); R[0][0] = 1; R[1][1] = lat == 1 ? 1.6 : 1.5; R[2][2] = 1; if (lat == 1) R[1][0] = 1.2; /* length 2 */
  /* G = inverse transpose */ memset(G, 0, sizeof G); G[0][0] = 1 / R[0][0]; G[1][1] = 1 / R[1][1]; G[2][2] = 1 / R[2][2]; G[0][1] = -R[1][0] / (R[0][0] * R[1][1]);
  c0 = A(v, 3) / 100.0 / n[0]; mxs s = mx_new(n[0], n[1], n[2], 1, 1, 0); d = s.d; int gp[3]; for (c = 0; c < 3; c++) { gp[c] = n[c] > 1 ? 1 : 0; ctr[c] = gp[c] / (double)n[c]; }
  double tA, tB; if (kind == 0) { tA = 3 * sr_var("epsA", 2.0); tB = 3 * sr_var("epsB", 5.0); sr_assume_gt(tA, 0.3); sr_assume_gt(tB, 0.3); } else { tA = 7.5; tB = 12; }
  full(&TA, &IA, "A", kind == 1, tA); full(&TB, &IB, "B", kind == 2, tB);
  if (kind) { /* other material: concrete anisotropic */ symmetric_matrix *o = kind == 1 ? &TB : &TA; double tr = kind == 1 ? tB : tA; mx_tensor_const(o, 5); o->m22 = tr - o->m00 - o->m11; }
  /* only judge the case of a clear interface: |tr difference| well above the threshold */
  double df = tA - tB; if (kind == 0) { if (df > 0) sr_assume_gt(df, 0.3); else sr_assume_gt(-df, 0.3); }
  int inter = 0; { /* is the pixel cut? corners vs centre */ int q; double zero[3] = {ctr[0], ctr[1], ctr[2]}; int s0 = sideof(zero); for (q = 0; q < (1 << rank); q++) { double r[3]; for (c = 0; c < 3; c++) r[c] = ctr[c] + (c < rank ? ((q >> c & 1) - 0.5) / n[c] : 0); if (sideof(r) != s0) inter = 1; } }
  int died = hx_try(doit, 0);
  int cj, p = mx_pidx(d, gp[0], gp[1], gp[2], &cj); if (cj) { if (died) return 0; sr_reach("end"); return 0; } symmetric_matrix *E = (mu ? d->mu_inv : d->eps_inv) + p;
  int M = mesh[0] * mesh[1] * mesh[2];
  if (!inter || M == 1) { sr_check_true("uniform pixel accepted", !died); int a = sideof(ctr) != sw; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { cx w = mx_el(a ? &IA : &IB, i, j), g = mx_el(E, i, j); sr_checkf_eq(g.re, w.re, "uniform pixel %d %d", i, j); sr_checkf_eq(g.im, w.im, "uniform pixel im %d %d", i, j); } sr_reach("uniform"); sr_reach("end"); return 0; }
  /* fraction of the mesh in A */ int na = 0, u[3]; for (u[0] = 0; u[0] < mesh[0]; u[0]++) for (u[1] = 0; u[1] < mesh[1]; u[1]++) for (u[2] = 0; u[2] < mesh[2]; u[2]++) { double r[3]; for (c = 0; c < 3; c++) r[c] = ctr[c] + ((u[c] + 0.5) / mesh[c] - 0.5) / n[c]; na += sideof(r) != sw; }
  double fA = na / (double)M; 
  /* orthonormal frame n, t1, t2 with rational entries */ double T[3][3]; for (c = 0; c < 3; c++) T[0][c] = nn[c]; if (nn[2] == 0) { T[1][0] = -nn[1]; T[1][1] = nn[0]; T[1][2] = 0; T[2][0] = T[2][1] = 0; T[2][2] = 1; } else { T[1][0] = -nn[2]; T[1][1] = 0; T[1][2] = nn[0]; T[2][0] = T[2][2] = 0; T[2][1] = 1; }
  double S11 = 0, S22 = 0; cx S12 = {0, 0};
  for (k = 0; k < 3; k++) { /* common (D_n, E_t1, E_t2) = unit vectors */ cx Em = {0, 0}, D1 = {0, 0}, D2 = {0, 0}; double Dn = k == 0, E1 = k == 1, E2 = k == 2; int m;
    for (m = 0; m < 2; m++) { symmetric_matrix *t = m ? &TB : &TA; double f = m ? 1 - fA : fA; cx F[3][3]; int a, b, x, y; if (f == 0) continue; for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) { F[a][b].re = F[a][b].im = 0; for (x = 0; x < 3; x++) for (y = 0; y < 3; y++) F[a][b] = cxa(F[a][b], cxs(T[a][x] * T[b][y], mx_el(t, x, y))); }
      sr_assume_gt(F[0][0].re, 0.0); cx En = {Dn, 0}; En = cxa(En, cxs(-E1, F[0][1])); En = cxa(En, cxs(-E2, F[0][2])); En = cxs(1 / F[0][0].re, En);
      Em = cxa(Em, cxs(f, En)); D1 = cxa(D1, cxs(f, cxa(cxm(F[1][0], En), cxa(cxs(E1, F[1][1]), cxs(E2, F[1][2]))))); D2 = cxa(D2, cxs(f, cxa(cxm(F[2][0], En), cxa(cxs(E1, F[2][1]), cxs(E2, F[2][2]))))); }
    if (k == 1) { S11 = D1.re; S12 = D2; } if (k == 2) S22 = D2.re; if (died) continue;
    for (i = 0; i < 3; i++) { cx g = {0, 0}, w; for (j = 0; j < 3; j++) { cx Dj = cxa(cxs(T[1][j], D1), cxs(T[2][j], D2)); Dj.re += Dn * T[0][j]; g = cxa(g, cxm(mx_el(E, i, j), Dj)); } w = cxs(T[0][i], Em); w.re += T[1][i] * E1 + T[2][i] * E2; sr_checkf_eq(g.re, w.re, "mean E from mean D, re, case %d component %d", k, i); sr_checkf_eq(g.im, w.im, "mean E from mean D, im, case %d component %d", k, i); } }
  if (died) { sr_check_eq("only a singular mean tensor is refused", S11 * S22 - (S12.re * S12.re + S12.im * S12.im), 0.0); return 0; }
  sr_reach("interface"); sr_reach("end"); return 0; }
