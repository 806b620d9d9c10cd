/* acceptance of dielectrics. args: nx ny nz point parity negok (all stored points valid except one arbitrary tensor) */
#include "mx.h"
int harness_main(int argc, char **v) { int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), pt = A(v, 4), par = A(v, 5), neg = A(v, 6), i; mxs s = mx_new(nx, ny, nz, 1, 1, 0); maxwell_data *d = s.d; static const int P[] = {NO_PARITY, EVEN_Z_PARITY, ODD_Z_PARITY, EVEN_Y_PARITY, EVEN_Z_PARITY | ODD_Y_PARITY, ODD_Z_PARITY | EVEN_Y_PARITY};
  d->parity = P[par]; int te = nz == 1 && (par == 1 || par == 2 || par == 4 || par == 5); if (pt >= d->fft_output_size) { sr_reach("end"); return 0; }
  for (i = 0; i < d->fft_output_size; i++) { mx_tensor_const(d->eps_inv + i, i * 3 + 1); if (te) { memset(&d->eps_inv[i].m02, 0, sizeof d->eps_inv[i].m02); memset(&d->eps_inv[i].m12, 0, sizeof d->eps_inv[i].m12); } }
  symmetric_matrix *t = d->eps_inv + pt; mx_tensor(t, "t", pt); cx M[3][3]; int j, k; for (j = 0; j < 3; j++) for (k = 0; k < 3; k++) M[j][k] = mx_el(t, j, k);
  symmetric_matrix K = *t; int r = check_maxwell_dielectric(d, neg);
  double d1 = K.m00, d2 = M[0][0].re * M[1][1].re - cxm(M[0][1], M[1][0]).re, d3 = cxm(M[0][2], cxa(cxm(M[1][0], M[2][1]), cxs(-1, cxm(M[1][1], M[2][0])))).re + M[1][2].re * 0; d3 = 0; for (j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3; d3 += cxm(M[0][j], cxa(cxm(M[1][a], M[2][b]), cxs(-1, cxm(M[1][b], M[2][a])))).re; }
  int bad = 0, cpl = 0; if (!neg) { if (!(d1 > 0)) bad = 1; if (!(d2 > 0)) bad = 1; if (!(d3 > 0)) bad = 1; } if (te) { if (M[0][2].re != 0) cpl = 1; if (M[0][2].im != 0) cpl = 1; if (M[1][2].re != 0) cpl = 1; if (M[1][2].im != 0) cpl = 1; }
  sr_check_true("valid structures are accepted, defective ones are not", (r != 0) == (bad || cpl)); if (r == 1) sr_check_true("reason: not positive definite", bad); if (r == 2) sr_check_true("reason: couples xy to z", cpl); sr_reach(r ? "rejected" : "accepted"); sr_reach("end"); return 0; }
