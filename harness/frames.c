/* k+G and transverse frames. args: nx ny nz mode
   mode 0: everything symbolic (k, reciprocal vectors), one grid point at a time reachable branches
   mode 1: symbolic k (mode 4: symbolic lattice), all k+G assumed off the z axis
   mode 2: rational lattice, k = 0 ; mode 3: rational lattice, symbolic k along z */
#include "mx.h"
static int alias(int i, int n) { return 2 * i >= n && n > 1 ? i - n : i; }
static const double QG[3][3] = {{1, 0.25, 0}, {-0.5, 1.25, 0.5}, {0.125, 0, 0.75}};
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), mode = A(v, 4), x, y, z, i, j, c; mxs s = mx_new(nx, ny, nz, 1, 1, 0); maxwell_data *d = s.d;
  double k[3], G[3][3], kc[3];
  for (i = 0; i < 3; i++) { k[i] = mode == 2 || (mode == 3 && i < 2) ? 0.0 : mode == 4 ? (i + 1) / 7.0 : sr_varf(0.1 + 0.15 * i, "k_%d", i); for (j = 0; j < 3; j++) G[i][j] = mode == 0 || mode == 4 ? sr_varf(QG[i][j] + 0.0625, "G_%d_%d", i, j) : mode == 3 ? (i == j ? 1.0 + i * 0.5 : 0.0) : QG[i][j]; }
  for (c = 0; c < 3; c++) kc[c] = G[0][c] * k[0] + G[1][c] * k[1] + G[2][c] * k[2];
  if (mode == 3) sr_assume_gt(k[2], 0.0), sr_assume_gt(0.4, k[2]);
  if (mode == 1 || mode == 4) { sr_assume_ne(kc[0], 0.0); for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int a = alias(x, nx), b = alias(y, ny), e = alias(z, nz); sr_assume_ne(kc[0] - (G[0][0] * a + G[1][0] * b + G[2][0] * e), 0.0); } }
  update_maxwell_data_k(d, k, G[0], G[1], G[2]);
  for (c = 0; c < 3; c++) sr_checkf_eq(d->current_k[c], kc[c], "cartesian k component %d", c);
  if (mode == 2) sr_check_true("zero k is recognised", d->zero_k);
  if (mode == 1 || mode == 3 || mode == 4) sr_check_true("nonzero k is recognised", !d->zero_k);
  for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int a = alias(x, nx), b = alias(y, ny), e = alias(z, nz); double q[3], m[3], n[3], mm = 0, nn = 0, mn = 0, qq = 0; i = (x * ny + y) * nz + z; k_data K = d->k_plus_G[i];
    m[0] = K.mx; m[1] = K.my; m[2] = K.mz; n[0] = K.nx; n[1] = K.ny; n[2] = K.nz;
    for (c = 0; c < 3; c++) { q[c] = kc[c] - (G[0][c] * a + G[1][c] * b + G[2][c] * e); mm += m[c] * m[c]; nn += n[c] * n[c]; mn += m[c] * n[c]; qq += q[c] * q[c]; }
    sr_checkf_eq(d->k_plus_G_normsqr[i], qq, "|k+G|^2 of plane wave %d", i); sr_checkf_eq(K.kmag * K.kmag, qq, "|k+G| of plane wave %d", i); sr_checkf_le(0.0, K.kmag, "|k+G| not negative, plane wave %d", i);
    sr_checkf_eq(nn, 1.0, "n unit, plane wave %d", i); sr_checkf_eq(mm, 1.0, "m unit, plane wave %d", i); sr_checkf_eq(mn, 0.0, "m.n, plane wave %d", i);
    for (c = 0; c < 3; c++) { int c1 = (c + 1) % 3, c2 = (c + 2) % 3;
      /* (m x n)_c |k+G| == (k+G)_c */ sr_checkf_eq((m[c1] * n[c2] - m[c2] * n[c1]) * K.kmag, q[c], "right-handed frame, plane wave %d component %d", i, c); }
    if (mode == 2 && i == 0) { sr_checkf_true(m[0] == 0 && m[1] == 0 && m[2] == 1 && n[0] == 0 && n[1] == 1 && n[2] == 0, "null vector frame"); } }
  sr_reach("end"); return 0; }
