/* redundant half of real-transform output. args: nx ny nz kind(0 vector, 1 complex scalar, 2 real scalar) */
#include "mx.h"
int harness_main(int argc, char **v) {
  int nx = A(v, 1), ny = A(v, 2), nz = A(v, 3), kind = A(v, 4), c, i, x, y, z; mxs s = mx_new(nx, ny, nz, 1, 1, 0); maxwell_data *d = s.d;
  int rank = nz == 1 ? (ny == 1 ? 1 : 2) : 3, nl = rank == 1 ? nx : rank == 2 ? ny : nz, ls = nl / 2 + 1, ln = nl - ls, C = kind == 0 ? 3 : 1, no = nx * ny * nz / nl;
  double k[3]; for (i = 0; i < 3; i++) { k[i] = sr_varf(0.11 + 0.17 * i, "k%d", i); sr_angle(k[i], 1); }
  if (kind < 2) { scalar_complex *F = malloc(sizeof(scalar_complex) * (d->fft_output_size + 1) * C), *O = malloc(sizeof(scalar_complex) * (d->fft_output_size + 1) * C);
    for (i = 0; i < no * ls * C; i++) { F[i].re = sr_varf(nomv(i), "f%d_r", i); F[i].im = sr_varf(nomv(i + 99), "f%d_i", i); O[i] = F[i]; }
    if (kind == 0) maxwell_vectorfield_otherhalf(d, F, k[0], k[1], k[2]); else maxwell_cscalarfield_otherhalf(d, F, k[0], k[1], k[2]);
    for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int l = rank == 1 ? x : rank == 2 ? y : z, o = rank == 1 ? 0 : rank == 2 ? x : x * ny + y, cj, q; if (l < ls) continue; q = mx_pidx(d, x, y, z, &cj);
      double ph = (x ? k[0] : 0) + (y ? k[1] : 0) + (z ? k[2] : 0); cx e = {sr_cos2pi(ph), -sr_sin2pi(ph)};
      for (c = 0; c < C; c++) { scalar_complex a = F[(o * ln + l - ls) * C + c]; cx b = {O[q * C + c].re, O[q * C + c].im}; b = cxc(cxm(b, e)); sr_checkf_eq(a.re, b.re, "re of component %d at (%d,%d,%d)", c, x, y, z); sr_checkf_eq(a.im, b.im, "im of component %d at (%d,%d,%d)", c, x, y, z); } }
  } else { double *F = malloc(sizeof(double) * (d->fft_output_size + 1)), *O = malloc(sizeof(double) * (d->fft_output_size + 1)); for (i = 0; i < no * ls; i++) O[i] = F[i] = sr_varf(nomv(i), "f%d", i);
    maxwell_scalarfield_otherhalf(d, F);
    for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int l = rank == 1 ? x : rank == 2 ? y : z, o = rank == 1 ? 0 : rank == 2 ? x : x * ny + y, cj, q; if (l < ls) continue; q = mx_pidx(d, x, y, z, &cj); sr_checkf_eq(F[o * ln + l - ls], O[q], "value at (%d,%d,%d)", x, y, z); } }
  sr_reach("end"); return 0; }
