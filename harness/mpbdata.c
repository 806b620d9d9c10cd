/* mpb-data on one file. args: rank d0 d1 d2 kind(d real, c complex, v vector, b x.r/x.i and y only, n no Bloch vector) lat copies(0/1) new(0: output file, 1: into the input file) options...
   option "-P": the angle is arbitrary; oracle in terms of cell fractions */
#include <math.h>
#include "hx.h"
#include "config.h"
#include <matrices.h>
#include "matrixio.h"
#include "h5mem.h"
#define A(v, i) atoi((v)[i])
typedef double V3[3]; int mpbdata_main(int, char **);
static int rank, nd[3], nsets, nearest, trans; static double *dat[6], kv[3], phs[2]; static V3 Ri[3], Ro[3];
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void cross(double *o, const double *a, const double *b) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
static double angle_; static int anglep;
double atof(const char *s) { return strcmp(s, "ANGLE") ? strtod(s, 0) : angle_; }
/* value of the periodic continuation at fractions u of the input cell */
static void at(const double *re, const double *im, const double *u, double *o) { int a, c, lo[3]; double w[3]; for (a = 0; a < 3; a++) { double t = u[a] * nd[a]; if (fabs(t - rint(t)) < 1e-9) t = rint(t); lo[a] = (int)floor(t); w[a] = t - lo[a]; if (nearest) w[a] = w[a] <= 0.5 ? 0 : 1; } o[0] = o[1] = 0;
  for (c = 0; c < 8; c++) { double W = 1, th = 0; int q = 0; for (a = 0; a < 3; a++) { int b = c >> a & 1, i = lo[a] + b, m; W *= b ? w[a] : 1 - w[a]; m = i % nd[a]; if (m < 0) m += nd[a]; th += kv[a] * ((i - m) / nd[a]); q = q * nd[a] + m; } if (W == 0) continue; if (!im) o[0] += W * re[q]; else { double cs = sr_cos2pi(th), sn = sr_sin2pi(th); o[0] += W * (re[q] * cs - im[q] * sn); o[1] += W * (re[q] * sn + im[q] * cs); } } }
static void put(matrixio_id f, const char *nm, double *v) { int st[3] = {0, 0, 0}; matrixio_id d = matrixio_create_dataset(f, nm, "", rank, nd); matrixio_write_real_data(d, nd, st, 1, v); matrixio_close_dataset(d); }
static double *arb(const char *nm, int off) { int i, n = nd[0] * nd[1] * nd[2]; double *v = malloc(n * sizeof(double)); for (i = 0; i < n; i++) { v[i] = sr_varf(((i * 7 + off * 5) % 11) * 0.5 - 2, "%s%d", nm, i); sr_quiet(v[i]); } return v; }
int harness_main(int argc, char **v) { int a, b, i, j, k; rank = A(v, 1); for (a = 0; a < 3; a++) nd[a] = A(v, 2 + a); char kind = v[5][0]; int lat = A(v, 6), copies = A(v, 7), into = A(v, 8), N = nd[0] * nd[1] * nd[2]; double mult[3] = {1, 1, 1}, res = 0, cp[3] = {2, 3, rank > 2 ? 2 : 1}; int rect = 0; double ve[3]; V3 L[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  if (lat == 1) { L[0][0] = 2; L[1][1] = 0.5; L[2][2] = 1.5; } if (lat == 3) { L[0][0] = 3; L[1][1] = 4; } if (lat == 2) { L[1][0] = 0.6; L[1][1] = 0.8; if (rank > 2) { L[2][0] = 0.25; L[2][1] = -0.5; } }
  for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) Ri[a][b] = L[a][b] * (copies ? cp[a] : 1);
  matrixio_id f = matrixio_create("in"); int d33[2] = {3, 3}, d3 = 3; matrixio_write_data_attr(f, "lattice vectors", &L[0][0], 2, d33); if (copies) matrixio_write_data_attr(f, "lattice copies", cp, 1, &d3);
  if (kind != 'd' && kind != 'n') { double q[3]; for (a = 0; a < 3; a++) { kv[a] = sr_varf(0.1 + 0.13 * a, "k%d", a); sr_quiet(kv[a]); sr_angle(kv[a], 1); q[a] = kv[a]; if (copies) kv[a] = kv[a] * cp[a]; } matrixio_write_data_attr(f, "Bloch wavevector", q, 1, &d3); }
  static const char *nmv[6] = {"x.r", "x.i", "y.r", "y.i", "z.r", "z.i"}; const char *nm[6] = {"data", "", "", "", "", ""}; if (kind == 'c' || kind == 'n') { nm[0] = "data.r"; nm[1] = "data.i"; nsets = 2; } else if (kind == 'd') { nsets = 2; nm[1] = "epsilon.xz"; } else { nsets = kind == 'v' ? 6 : 4; for (i = 0; i < 6; i++) nm[i] = nmv[i]; }
  for (i = 0; i < nsets; i++) { char t[9]; sprintf(t, "v%d_", i); dat[i] = arb(t, i); put(f, nm[i], dat[i]); } matrixio_close(f);
  char *av[24]; int ac = 0; av[ac++] = "mpb-data"; if (!into) { av[ac++] = "-o"; av[ac++] = "out"; } phs[0] = 1; phs[1] = 0; ve[0] = L[0][0]; ve[1] = L[0][1]; ve[2] = L[0][2];
  for (i = 9; i < argc; i++) { char *s = v[i], *o = i + 1 < argc ? v[i + 1] : 0; av[ac++] = s; switch (s[1]) { case 'r': rect = 1; break; case 'p': nearest = 1; break; case 'T': trans = 1; break; case 'x': mult[0] = strtod(o, 0); av[ac++] = v[++i]; break; case 'y': mult[1] = strtod(o, 0); av[ac++] = v[++i]; break; case 'z': mult[2] = strtod(o, 0); av[ac++] = v[++i]; break; case 'm': mult[0] = mult[1] = mult[2] = strtod(o, 0); av[ac++] = v[++i]; break; case 'n': res = strtod(o, 0); av[ac++] = v[++i]; break; case 'e': rect = 1; sscanf(o, "%lf,%lf,%lf", ve, ve + 1, ve + 2); av[ac++] = v[++i]; break; case 'P': angle_ = sr_var("angle", 30); sr_quiet(angle_); sr_angle(angle_, 360); phs[0] = sr_cos2pi(angle_ / 360); phs[1] = sr_sin2pi(angle_ / 360); av[ac++] = "ANGLE"; i++; break; } }
  av[ac++] = "in.h5"; av[ac] = 0; /* the output cell */
  memcpy(Ro, Ri, sizeof Ri); double hand = 1; if (rect) { V3 Rk[3]; memcpy(Rk, Ri, sizeof Ri); if (lat == 3 && ve[1] < 0) { for (a = 0; a < 3; a++) Ri[1][a] = -Ri[1][a]; hand = -1; } V3 e, c1, c2, x; double n = sqrt(dot(ve, ve)), V, t; cross(x, Ri[0], Ri[1]); V = dot(x, Ri[2]); for (a = 0; a < 3; a++) { e[a] = ve[a] / n; c1[a] = Ri[1][a] - Ri[0][a]; c2[a] = Ri[2][a] - Ri[0][a]; } cross(x, c1, c2); t = V / dot(x, e); double p1 = dot(e, c1), p2 = dot(e, c2); for (a = 0; a < 3; a++) { Ro[0][a] = t * e[a]; Ro[1][a] = c1[a] - p1 * e[a]; Ro[2][a] = c2[a] - p2 * e[a]; } t = dot(Ro[1], Ro[2]) / dot(Ro[1], Ro[1]); for (a = 0; a < 3; a++) Ro[2][a] -= t * Ro[1][a]; for (a = 0; a < 3; a++) Ro[1][a] *= hand; memcpy(Ri, Rk, sizeof Ri); }
  V3 ax[3]; for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) ax[a][b] = rect ? Ro[a][b] / sqrt(dot(Ro[a], Ro[a])) : a == b; 
  int od[3], on[3]; for (a = 0; a < 3; a++) { for (b = 0; b < 3; b++) Ro[a][b] *= mult[a]; od[a] = res > 0 ? (int)floor(sqrt(dot(Ro[a], Ro[a])) * res + 0.5) : (int)(nd[a] * mult[a]); if (od[a] < 1 || a >= rank) od[a] = 1; on[a] = od[a]; } if (trans) { on[0] = od[1]; on[1] = od[0]; }
  V3 x, r0, r1, r2; cross(r0, Ri[1], Ri[2]); cross(r1, Ri[2], Ri[0]); cross(r2, Ri[0], Ri[1]); double vol = dot(r0, Ri[0]);
  sr_check_true("ends well", mpbdata_main(ac, av) == 0); sr_check_true("everything closed", h5_open == 0); h5node *F = h5file(into ? "in.h5" : "out.h5"); sr_check_true("file", F != 0);
  h5node *O[6]; for (i = 0; i < nsets; i++) { char t[30]; sprintf(t, "%s%s", nm[i], into ? "-new" : ""); O[i] = h5sub(F, t); sr_checkf_true(O[i] != 0, "dataset %s", t); if (!O[i]) sr_done(); sr_checkf_true(O[i]->rank == rank, "rank %d", i); for (a = 0; a < rank; a++) sr_checkf_true(O[i]->dims[a] == on[a], "size %d of %d", a, i); for (j = 0; j < O[i]->n; j++) sr_checkf_true(O[i]->cnt[j] == 1, "pixel %d of %d written once", j, i); if (O[i]->n != on[0] * on[1] * on[2]) sr_done(); }
  h5node *I = h5file("in.h5"); for (i = 0; i < nsets; i++) { h5node *q = h5sub(I, nm[i]); for (j = 0; j < N; j++) sr_checkf_eq(q->d[j], dat[i][j], "input %d of %d kept", j, i); }
  for (i = 0; i < od[0]; i++) for (j = 0; j < od[1]; j++) for (k = 0; k < od[2]; k++) { double s[3] = {(double)i / od[0] - 0.5, (double)j / od[1] - 0.5, (double)k / od[2] - 0.5}, p[3], u[3], o[3][2]; for (b = 0; b < 3; b++) p[b] = s[0] * Ro[0][b] + s[1] * Ro[1][b] + s[2] * Ro[2][b]; u[0] = dot(r0, p) / vol + 0.5; u[1] = dot(r1, p) / vol + 0.5; u[2] = dot(r2, p) / vol + 0.5; int q = trans ? (j * od[0] + i) * od[2] + k : (i * od[1] + j) * od[2] + k, c, vec = kind == 'v';
    if (kind == 'd') { for (c = 0; c < nsets; c++) { at(dat[c], 0, u, o[0]); sr_checkf_eq(O[c]->d[q], o[0][0], "real %d at (%d,%d,%d)", c, i, j, k); } continue; }
    for (c = 0; c < nsets / 2; c++) at(dat[2 * c], dat[2 * c + 1], u, o[c]);
    for (c = 0; c < nsets / 2; c++) { double w[2]; int cc = vec && trans && c < 2 ? 1 - c : c; for (a = 0; a < 2; a++) { w[a] = 0; if (vec) for (b = 0; b < 3; b++) w[a] += ax[cc][b] * o[b][a]; else w[a] = o[c][a]; } sr_checkf_eq(O[2 * c]->d[q], w[0] * phs[0] - w[1] * phs[1], "re %d at (%d,%d,%d)", c, i, j, k); sr_checkf_eq(O[2 * c + 1]->d[q], w[0] * phs[1] + w[1] * phs[0], "im %d at (%d,%d,%d)", c, i, j, k); } }
  sr_reach("end"); return 0; }
