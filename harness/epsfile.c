/* gridded input data. args: mode nx ny nz axis [variant | gx gy gz sx sy sz]
   0 linear_interpolate, coordinate along axis arbitrary in [-1,2]; 1 epsilon file, coordinate along axis arbitrary in [-2,3];
   2 material grid loaded from a file of nx*ny*nz values onto a gx*gy*gz grid with the given supercell; 3 material grid saved and loaded back */
#include "mp.h"
#include "matrixio.h"
static double *file_; static int frank, fdims[3]; static char lastname[64];
matrixio_id matrixio_open(const char *fname, int ro) { matrixio_id i; memset(&i, 0, sizeof i); return i; }
matrixio_id matrixio_open_serial(const char *fname, int ro) { matrixio_id i; memset(&i, 0, sizeof i); return i; }
matrixio_id matrixio_create_serial(const char *fname) { matrixio_id i; memset(&i, 0, sizeof i); return i; }
void matrixio_close(matrixio_id id) {}
void matrixio_close_dataset(matrixio_id id) {}
matrixio_id matrixio_create_dataset(matrixio_id id, const char *name, const char *desc, int rank, const int *dims) { int a, n = 1; frank = rank; for (a = 0; a < rank; a++) { fdims[a] = dims[a]; n *= dims[a]; } file_ = calloc(n, sizeof(double)); return id; }
void matrixio_write_real_data(matrixio_id id, const int *ld, const int *ls, int stride, real *data) { int a, n = 1; for (a = 0; a < frank; a++) { sr_check_true("whole grid written", ld[a] == fdims[a] && ls[a] == 0); n *= fdims[a]; } for (a = 0; a < n; a++) file_[a] = data[a * stride]; }
real *matrixio_read_real_data(matrixio_id id, const char *name, int *rank, int *dims, int ln, int ld, int lo, real *data) { int a, n = 1; real *r; sr_check_true("enough dimensions", *rank >= frank); for (a = 0; a < frank; a++) { dims[a] = fdims[a]; n *= fdims[a]; } *rank = frank; r = malloc(n * sizeof *r); for (a = 0; a < n; a++) r[a] = file_[a]; return r; }
/* multilinear interpolation between samples at cell centres, mirrored at the ends; t in units of the extent, in [0,1] */
static double oracle(const double t[3], const double *f, const int n[3]) { int o[3], a, i[3]; double w[3], s = 0; int b[3]; for (a = 0; a < 3; a++) { double q = t[a] * n[a] - 0.5; b[a] = (int)floor(q); w[a] = q - b[a]; }
  for (o[0] = 0; o[0] < 2; o[0]++) for (o[1] = 0; o[1] < 2; o[1]++) for (o[2] = 0; o[2] < 2; o[2]++) { double g = 1; for (a = 0; a < 3; a++) { g = g * (o[a] ? w[a] : 1 - w[a]); i[a] = b[a] + o[a]; if (i[a] < 0) i[a] = -1 - i[a]; if (i[a] >= n[a]) i[a] = 2 * n[a] - 1 - i[a]; } s = s + g * f[(i[0] * n[1] + i[1]) * n[2] + i[2]]; } return s; }
static const double FX[4] = {0.1875, 0.5, 0.9375, 0.625};
int harness_main(int argc, char **v) { int mode = A(v, 1), n[3] = {A(v, 2), A(v, 3), A(v, 4)}, ax = A(v, 5), a, i, N = n[0] * n[1] * n[2], p;
  double *f = calloc(N, sizeof(double)); for (i = 0; i < N; i++) f[i] = mode == 2 || mode == 3 ? 0.1 + 0.8 * nomv(i) / 3 : sr_varf(2 + nomv(i), "f%d", i);
  if (mode == 0 || mode == 1) for (p = A(v, 6); p <= A(v, 6); p++) { double r[3], t[3]; double lo = mode ? -2 : -1, hi = mode ? 3 : 2;
    for (a = 0; a < 3; a++) { r[a] = FX[(a + p) % 4]; if (p && a == (ax + 1) % 3) r[a] = mode ? -0.0625 : 1.0625; }
    r[ax] = sr_varf(0.3, "r%d", p); sr_assume_ge(r[ax], lo); sr_assume_ge(hi, r[ax]);
    for (a = 0; a < 3; a++) { t[a] = r[a]; if (mode) t[a] = t[a] - floor(t[a]); else if (t[a] < 0) t[a] = -t[a]; else if (t[a] > 1) t[a] = 2 - t[a]; }
    if (!mode) { double g = linear_interpolate(r[0], r[1], r[2], f, n[0], n[1], n[2], 1); sr_checkf_eq(g, oracle(t, f, n), "interpolated value, %d", p);
      double *f3 = calloc(3 * N, sizeof(double)); for (i = 0; i < N; i++) f3[3 * i] = f[i]; sr_checkf_eq(linear_interpolate(r[0], r[1], r[2], f3, n[0], n[1], n[2], 3), g, "stride 3, %d", p); }
    else { maxwell_dielectric_function fn; void *fd; symmetric_matrix e, ei; double w = oracle(t, f, n); file_ = f; frank = n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1; for (a = 0; a < 3; a++) fdims[a] = n[a];
      get_epsilon_file_func("x.h5", &fn, &fd); sr_check_true("file used", fn != 0); mx_tensor_const(&e, 1); mx_tensor_const(&ei, 2); fn(&e, &ei, r, fd);
      for (i = 0; i < 3; i++) for (a = 0; a < 3; a++) { cx g = mx_el(&e, i, a), h = mx_el(&ei, i, a); sr_checkf_eq(g.re, i == a ? w : 0, "epsilon %d%d, %d", i, a, p); sr_checkf_eq(g.im, 0, "epsilon im %d%d, %d", i, a, p); if (i == a) { sr_assume_gt(w, 0); sr_checkf_eq(h.re * w, 1, "inverse %d%d, %d", i, a, p); } else sr_checkf_eq(h.re, 0, "inverse %d%d, %d", i, a, p); sr_checkf_eq(h.im, 0, "inverse im %d%d, %d", i, a, p); }
      destroy_epsilon_file_func_data(fd); get_epsilon_file_func("", &fn, &fd); sr_check_true("no file", !fn); } }
  else { int g[3] = {mode == 3 ? n[0] : A(v, 6), mode == 3 ? n[1] : A(v, 7), mode == 3 ? n[2] : A(v, 8)}, x, y, z, M = g[0] * g[1] * g[2]; double s[3] = {1, 1, 1}; material_grid m; memset(&m, 0, sizeof m); double *grid = calloc(M, sizeof(double));
    if (mode == 2) for (a = 0; a < 3; a++) s[a] = atof(v[9 + a]);
    m.size = mp_v(g[0], g[1], g[2]); m.matgrid = ctl_array(grid, 3, g); m.epsilon_min = 1; m.epsilon_max = 2;
    for (i = 0; i < N; i++) { f[i] = sr_varf(f[i], "f%d", i); if (mode == 3 || ax) { sr_assume_ge(f[i], 0); sr_assume_ge(1, f[i]); } }
    if (mode == 3) { for (i = 0; i < N; i++) grid[i] = f[i]; save_material_grid(m, "g.h5"); sr_check_true("rank of the file", frank == (n[2] > 1 ? 3 : n[1] > 1 ? 2 : 1)); for (i = 0; i < N; i++) { sr_checkf_eq(file_[i], f[i], "saved %d", i); grid[i] = 7; } load_material_gridB(m, "g.h5", mp_v(0, 0, 0)); for (i = 0; i < N; i++) sr_checkf_eq(grid[i], f[i], "loaded %d", i); }
    else { file_ = f; frank = 3; for (a = 0; a < 3; a++) fdims[a] = n[a]; load_material_gridB(m, "g.h5", mp_v(s[0], s[1], s[2]));
      for (x = 0; x < g[0]; x++) for (y = 0; y < g[1]; y++) for (z = 0; z < g[2]; z++) { double t[3] = {(x + 0.5) / g[0], (y + 0.5) / g[1], (z + 0.5) / g[2]}, w; for (a = 0; a < 3; a++) { t[a] *= s[a] > 0 ? s[a] : 1; t[a] -= floor(t[a]); } w = oracle(t, f, n); double q = grid[(x * g[1] + y) * g[2] + z];
        if (ax) sr_checkf_eq(q, w, "grid value %d %d %d", x, y, z); else { if (w > 1) w = 1; else if (w < 0) w = 0; sr_checkf_eq(q, w, "clamped grid value %d %d %d", x, y, z); } } } }
  sr_reach("end"); return 0; }
