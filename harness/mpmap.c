/* resampling with arbitrary coordinates. args: n0 n1 n2 (input) m0 m1 m2 (output) nearest transpose complex shear */
#include <math.h>
#include "hx.h"
#include "config.h"
#include <ctlgeom.h>
#include <matrices.h>
#define A(v, i) atoi((v)[i])
void map_data(real *, real *, int *, real *, real *, int *, matrix3x3, real *, short, short);
int harness_main(int argc, char **v) { int n[3] = {A(v, 1), A(v, 2), A(v, 3)}, m[3] = {A(v, 4), A(v, 5), A(v, 6)}, near = A(v, 7), tr = A(v, 8), cm = A(v, 9), sh = A(v, 10), N = n[0] * n[1] * n[2], M = m[0] * m[1] * m[2], a, c, i, I[3]; double d[2][64], o[2][66], k[3], S[3][3], lim = cm ? 1.75 : 2.5;
  for (c = 0; c < 1 + cm; c++) for (i = 0; i < N; i++) { d[c][i] = sr_varf(((i * 7 + c * 5) % 11) * 0.5 - 2, "v%d_%d", c, i); sr_quiet(d[c][i]); } for (i = 0; i < M + 2; i++) o[0][i] = o[1][i] = 77;
  for (a = 0; a < 3; a++) { k[a] = cm ? sr_varf(0.1 + 0.13 * a, "k%d", a) : 0; if (cm) { sr_quiet(k[a]); sr_angle(k[a], 1); } for (c = 0; c < 3; c++) S[c][a] = a == c; }
  for (a = 0; a < 3; a++) if (m[a] > 1) { S[a][a] = sr_varf(1.3 - 0.2 * a, "scale%d", a); sr_assume_ge(S[a][a], -lim); sr_assume_ge(lim, S[a][a]); } if (sh) { S[1][0] = sr_var("shear", 0.4); sr_assume_ge(S[1][0], -1); sr_assume_ge(1, S[1][0]); }
  matrix3x3 C = {{S[0][0], S[0][1], S[0][2]}, {S[1][0], S[1][1], S[1][2]}, {S[2][0], S[2][1], S[2][2]}}; map_data(d[0], cm ? d[1] : 0, n, o[0], cm ? o[1] : 0, m, C, cm ? k : 0, near, tr);
  for (c = 0; c < 2; c++) for (i = cm || !c ? M : 0; i < M + 2; i++) sr_checkf_eq(o[c][i], 77, "memory after the output %d %d", c, i);
  for (I[0] = 0; I[0] < m[0]; I[0]++) for (I[1] = 0; I[1] < m[1]; I[1]++) for (I[2] = 0; I[2] < m[2]; I[2]++) { int q = tr ? (I[1] * m[0] + I[0]) * m[2] + I[2] : (I[0] * m[1] + I[1]) * m[2] + I[2], lo[3], b; double w[3], s[2] = {0, 0};
    for (a = 0; a < 3; a++) { double u = 0.5; for (b = 0; b < 3; b++) u += S[b][a] * (I[b] * (1.0 / m[b]) - 0.5); double t = u * n[a], f = floor(t); lo[a] = (int)f; w[a] = t - f; if (near) w[a] = w[a] <= 0.5 ? 0 : 1; }
    for (c = 0; c < 8; c++) { double W = 1, th = 0; int p = 0; for (a = 0; a < 3; a++) { int b2 = c >> a & 1, x = lo[a] + b2, r = ((x % n[a]) + n[a]) % n[a]; W = W * (b2 ? w[a] : 1 - w[a]); th += k[a] * ((x - r) / n[a]); p = p * n[a] + r; } if (!sr_symbolic(W) && W == 0) continue; if (cm) { double cs = sr_cos2pi(th), sn = sr_sin2pi(th); s[0] += W * (d[0][p] * cs - d[1][p] * sn); s[1] += W * (d[0][p] * sn + d[1][p] * cs); } else s[0] += W * d[0][p]; }
    sr_checkf_eq(o[0][q], s[0], "value at (%d,%d,%d)", I[0], I[1], I[2]); if (cm) sr_checkf_eq(o[1][q], s[1], "imaginary value at (%d,%d,%d)", I[0], I[1], I[2]); }
  sr_reach("end"); return 0; }
