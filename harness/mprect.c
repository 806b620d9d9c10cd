/* the cell constructed by mpb-data. args: lattice(0 all nine entries arbitrary, 1 oblique in a plane, 2 diagonal) direction(- for none, or x,y,z; S arbitrary in the plane) T(0/1) copies(0/1) tips(1: direction parallel to the plane through the tips of the lattice vectors) */
#include <math.h>
#include "hx.h"
#include "config.h"
#include <ctlgeom.h>
#include <matrices.h>
#include "matrixio.h"
#include "h5mem.h"
#define A(v, i) atoi((v)[i])
typedef double V3[3]; int mpbdata_main(int, char **);
static matrix3x3 Ro, Cm, Kt; static double kk[3], mu[3]; static int calls, vcalls, hask, trp, pn; static double res_;
static void got(matrix3x3 r, matrix3x3 c, real *k, double res, real m[3], int p, int t) { int a; Ro = r; Cm = c; hask = k != 0; for (a = 0; a < 3; a++) { if (k) kk[a] = k[a]; mu[a] = m[a]; } trp = t; pn = p; res_ = res; calls++; }
void handle_dataset(matrixio_id i, matrixio_id o, const char *nr, const char *ni, matrix3x3 r, matrix3x3 c, real *k, double res, scalar_complex s, real m[3], int p, int t) { got(r, c, k, res, m, p, t); }
void handle_cvector_dataset(matrixio_id i, matrixio_id o, matrix3x3 r, matrix3x3 c, matrix3x3 ct, real *k, double res, scalar_complex s, real m[3], int p, int t) { got(r, c, k, res, m, p, t); Kt = ct; vcalls++; }
matrix3x3 matrix3x3_inverse(matrix3x3 m) { double d = 1 / vector3_dot(vector3_cross(m.c0, m.c1), m.c2); matrix3x3 t; t.c0 = vector3_scale(d, vector3_cross(m.c1, m.c2)); t.c1 = vector3_scale(d, vector3_cross(m.c2, m.c0)); t.c2 = vector3_scale(d, vector3_cross(m.c0, m.c1)); return matrix3x3_transpose(t); }
static double mv[3], sve[3]; static int symve, nat;
double atof(const char *s) { return s[0] == '@' ? mv[s[1] - '0'] : strtod(s, 0); }
int __isoc99_sscanf(const char *s, const char *f, double *x, double *y, double *z) { if (symve) { *x = sve[0]; *y = sve[1]; *z = sve[2]; return 3; } char *e; *x = strtod(s, &e); *y = strtod(e + 1, &e); *z = strtod(e + 1, &e); return 3; }
static double dot(const double *a, const double *b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static void cross(double *o, const double *a, const double *b) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
static void un(V3 *o, matrix3x3 m) { vector3 c[3] = {m.c0, m.c1, m.c2}; int a; for (a = 0; a < 3; a++) { o[a][0] = c[a].x; o[a][1] = c[a].y; o[a][2] = c[a].z; } }
int harness_main(int argc, char **v) { int lat = A(v, 1), rect = v[2][0] != 'n', dirg = rect && v[2][0] != '-', tr = A(v, 3), cpf = A(v, 4), a, b, c; double cp[3] = {2, 3, 1}, q[3]; V3 L[3] = {{1, 0.125, -0.25}, {0.25, 1.5, 0.125}, {-0.125, 0.375, 0.75}}, Ri[3], R[3], C[3], K[3], x, e;
  for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) { if (lat == 0 || a == b || (lat == 1 && a < 2 && b < 2)) { if (lat == 0 && a == 0 && !dirg && rect) { L[0][b] = b ? 0 : sr_var("l", 1.25); continue; } L[a][b] = (A(v, 5) && a ? L[a][b] : sr_varf(L[a][b], "l%d%d", a, b)); } else L[a][b] = 0; }
  if (A(v, 5) == 1) L[1][1] = L[0][0] * 4 / 3; if (A(v, 5) == 2) { L[1][1] = L[0][0]; L[2][2] = 2 * L[0][0]; }
  if (!dirg && rect) { L[0][1] = L[0][2] = 0; sr_assume_gt(L[0][0], 0); }
  for (a = 0; a < 3; a++) { q[a] = sr_varf(0.1 * a, "k%d", a); mv[a] = sr_varf(1 + a, "m%d", a); sr_assume_gt(mv[a], 0); for (b = 0; b < 3; b++) Ri[a][b] = L[a][b] * (cpf ? cp[a] : 1); }
  e[0] = 1; e[1] = e[2] = 0; symve = dirg && v[2][0] == 'S'; if (symve) { double s; sve[0] = sr_var("e0", 0.6); sve[1] = sr_var("e1", 0.7); sve[2] = 0; } else if (dirg) __isoc99_sscanf(v[2], "", e, e + 1, e + 2); if (symve) for (a = 0; a < 3; a++) e[a] = sve[a];
  cross(x, Ri[0], Ri[1]); double V = dot(x, Ri[2]); sr_assume_ne(V, 0); if (rect) { V3 d1, d2; for (a = 0; a < 3; a++) { d1[a] = Ri[1][a] - Ri[0][a]; d2[a] = Ri[2][a] - Ri[0][a]; } cross(x, d1, d2); if (lat == 0) { matrix3x3 m = {{Ri[0][0], Ri[0][1], Ri[0][2]}, {Ri[1][0], Ri[1][1], Ri[1][2]}, {Ri[2][0], Ri[2][1], Ri[2][2]}}; vector3 u = {e[0], e[1], e[2]}; u = unit_vector3(u); u = matrix3x3_vector3_mult(matrix3x3_inverse(m), u); double s = u.x + u.y + u.z; sr_assume_ge(s * s, 1e-12 * vector3_dot(u, u)); } }
  matrixio_id f = matrixio_create("in"); int d33[2] = {3, 3}, d3 = 3; matrixio_write_data_attr(f, "lattice vectors", &L[0][0], 2, d33); matrixio_write_data_attr(f, "Bloch wavevector", q, 1, &d3); if (cpf) matrixio_write_data_attr(f, "lattice copies", cp, 1, &d3); matrixio_close(f);
  char *av[24]; int ac = 0; av[ac++] = "mpb-data"; av[ac++] = "-x"; av[ac++] = "@0"; av[ac++] = "-y"; av[ac++] = "@1"; av[ac++] = "-z"; av[ac++] = "@2"; if (rect) { if (dirg) { av[ac++] = "-e"; av[ac++] = v[2]; } else av[ac++] = "-r"; } if (tr) av[ac++] = "-T"; av[ac++] = "-o"; av[ac++] = "out"; av[ac++] = "in.h5"; av[ac] = 0;
  sr_check_true("ends well", mpbdata_main(ac, av) == 0); sr_check_true("everything closed", h5_open == 0); sr_check_true("datasets and vectors handled", calls > 2 && vcalls == 1); sr_check_true("options passed on", trp == tr && !pn && res_ == 0); if (!calls) sr_done();
  sr_check_true("wavevector used", hask); for (a = 0; a < 3; a++) { sr_checkf_eq(kk[a], cpf ? q[a] * cp[a] : q[a], "wavevector %d", a); sr_checkf_eq(mu[a], mv[a], "periods %d", a); }
  un(R, Ro); un(C, Cm); un(K, Kt);
  for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) { double s = 0; for (c = 0; c < 3; c++) s += C[a][c] * Ri[c][b]; sr_checkf_eq(s, R[a][b], "coordinates of output axis %d component %d", a, b); }
  cross(x, R[0], R[1]); sr_check_eq("volume", dot(x, R[2]), V * mv[0] * mv[1] * mv[2]);
  if (rect) { for (a = 0; a < 3; a++) for (b = 0; b < a; b++) sr_checkf_eq(dot(R[a], R[b]), 0, "axes %d and %d at right angles", a, b); cross(x, R[0], e); for (a = 0; a < 3; a++) sr_checkf_eq(x[a], 0, "first axis along the direction %d", a); }
  else for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) sr_checkf_eq(R[a][b], Ri[a][b] * mv[a], "axis %d component %d", a, b);
  /* vectors are expressed along the axes of the output cell */
  for (a = 0; a < 3; a++) for (b = 0; b < 3; b++) { double s = 0; int t = tr && b < 2 ? 1 - b : b; for (c = 0; c < 3; c++) s += (b == 0 ? Kt.c0.x * 0 : 0) + K[c][b] * R[a][c]; if (!rect) { sr_checkf_eq(K[a][b], a == t, "map of vectors %d %d", a, b); } else if (a != t) sr_checkf_eq(s, 0, "axis %d has no component %d", a, b); }
  if (rect && !symve) for (b = 0; b < 3; b++) { double s = 0; for (c = 0; c < 3; c++) s += K[c][b] * K[c][b]; if (lat || !dirg || !b) sr_checkf_eq(s, 1, "map of vectors keeps lengths %d", b); double d = 0; int t = tr && b < 2 ? 1 - b : b; for (c = 0; c < 3; c++) d += K[c][b] * R[t][c]; if (lat || !dirg) sr_checkf_lt(0, d * mv[t], "map of vectors keeps the sense %d", b); }
  sr_reach("end"); return 0; }
