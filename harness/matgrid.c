/* material grids. args: mode kind ax who [nx ny nz] ...
   objects are boxes listed in order of precedence; each material grid object's coordinates are the harness's
   0 derivative at one point with arbitrary object coordinates along axis ax; 1 gradient over the cell; 2 get/set; 3 gap objective and constraints;
   4 te/tm objective; 5 epsilon matching; 6 random perturbation */
#include "mps.h"
extern void material_grids_addgradient_point(double *v, vector3 p, double s, const material_grid *g, int n);
typedef struct { vector3 k; int b, ngrids; material_grid *grids; int iter; struct maxwell_data *m1, *m2; double *work; } mindiff_t;
typedef struct { boolean do_min; vector3_list ks; int b1, b2, ngrids; material_grid *grids; int iter, unsolved; double *f1s, *f2s, *work; } maxgap_t;
typedef struct { maxgap_t *d; int ik; int kind; } bandc_t;
typedef struct { int nx, ny, nz; double *eps, *work; material_grid *grids; int ngrids, iter; } match_t;
extern double mindiff_func(int, const double *, double *, void *), band_constraint(int, const double *, double *, void *), maxgap_func(int, const double *, double *, void *), match_eps_func(int, const double *, double *, void *);
#define MAXO 6
static geom_box_object ob[MAXO]; static geometric_object go[MAXO]; static vector3 oc[MAXO]; static int nob, usep, symu = 1; static struct geom_box_tree_struct tree; static geom_box inb[MAXO];
static int inside(vector3 p, int i) { double *q = (double *)&p, *l = (double *)&inb[i].low, *h = (double *)&inb[i].high; int a; if (!usep) return 1; for (a = 0; a < 3; a++) if (q[a] < l[a] || q[a] > h[a]) return 0; return 1; }
static geom_box_tree from(vector3 p, int i, int *oi) { for (; i < nob; i++) if (inside(p, i)) { *oi = i; return &tree; } return 0; }
geom_box_tree geom_tree_search(vector3 p, geom_box_tree t, int *oi) { return from(p, 0, oi); }
geom_box_tree geom_tree_search_next(vector3 p, geom_box_tree t, int *oi) { return from(p, *oi + 1, oi); }
vector3 to_geom_box_coords(vector3 p, geom_box_object *g) { int i = g - ob; vector3 r; if (!usep) return oc[i]; r.x = (p.x - inb[i].low.x) / (inb[i].high.x - inb[i].low.x); r.y = (p.y - inb[i].low.y) / (inb[i].high.y - inb[i].low.y); r.z = (p.z - inb[i].low.z) / (inb[i].high.z - inb[i].low.z); return r; }
static int rep(int i, int x, int y, int z) { int a = i / (y * z), b = i / z % y, c = i % z; if (a > x - 1 - a) a = x - 1 - a; if (b > y - 1 - b) b = y - 1 - b; if (c > z - 1 - c) c = z - 1 - c; return (a * y + b) * z + c; }
static material_type mgrid(int kind, int x, int y, int z, double lo, double hi, int sym) { material_type t; material_grid *m = calloc(1, sizeof *m); int n[3] = {x, y, z}, i, N = x * y * z; static int cnt; double *d = calloc(N, sizeof *d); for (i = 0; i < N; i++) if (sym && rep(i, x, y, z) < i) d[i] = d[rep(i, x, y, z)]; else if (!symu) d[i] = ((i * 37 + cnt * 11) % 23 + 4) / 32.0; else d[i] = sr_varf(0.2 + 0.6 * (nomv(i + 3 * cnt) * 0.1 + 0.5), "u%d_%d", cnt, i); cnt++;
  m->material_grid_kind = kind; m->epsilon_min = lo; m->epsilon_max = hi; m->mu_min = m->mu_max = 1; m->size = mp_v(x, y, z); m->matgrid = ctl_array(d, 3, n); t.which_subclass = MATERIAL_GRID; t.subclass.material_grid_data = m; return t; }
static double *dat(material_type t) { return ctl_val(t.subclass.material_grid_data->matgrid)->data; }
static void obj(material_type m, double lx, double ly, double lz, double hx, double hy, double hz) { int i = nob++; go[i].material = m; ob[i].o = &go[i]; inb[i].low = mp_v(lx, ly, lz); inb[i].high = mp_v(hx, hy, hz); tree.objects = ob; tree.nobjects = nob; geometry.items = go; geometry.num_items = nob; }
static double wt(double t, int n, int i) { /* weight of sample i of n at t */ double q = t * n - 0.5, w; int b = (int)floor(q), j, k; double s = 0; w = q - b; for (k = 0; k < 2; k++) { j = b + k; if (j < 0) j = -1 - j; if (j >= n) j = 2 * n - 1 - j; if (j == i) s = s + (k ? w : 1 - w); } return s; }
static int gidx(const material_grid *g, int ng, SCM a) { int i; for (i = 0; i < ng; i++) if (g[i].matgrid == a) return i; return -1; }
/* d eps / d u at p, added to v with factor s: the independent statement of the chain rule */
static void deps(double *v, vector3 p, double s, const material_grid *g, int ng) { int i, j, m, n = 0, id[MAXO + 1]; double val[MAXO + 1]; double t[MAXO + 1][3]; const material_grid *mg[MAXO + 1], *top; 
  for (i = 0; i < nob; i++) if (inside(p, i)) break; if (i < nob) { if (go[i].material.which_subclass != MATERIAL_GRID) return; top = go[i].material.subclass.material_grid_data; } else if (default_material.which_subclass == MATERIAL_GRID) top = default_material.subclass.material_grid_data; else return;
  for (; i <= nob; i++) { material_type *mt; vector3 q; if (i < nob && !inside(p, i)) continue; mt = i < nob ? &go[i].material : &default_material; if (mt->which_subclass != MATERIAL_GRID) break; mg[n] = mt->subclass.material_grid_data; if (mg[n]->material_grid_kind != top->material_grid_kind || mg[n]->epsilon_min != top->epsilon_min || mg[n]->epsilon_max != top->epsilon_max) break;
    if (i < nob) q = to_geom_box_coords(p, ob + i); else q = mp_v(dimensions < 1 ? 0 : p.x / geometry_lattice.size.x + 0.5, dimensions < 2 ? 0 : p.y / geometry_lattice.size.y + 0.5, dimensions < 3 ? 0 : p.z / geometry_lattice.size.z + 0.5); t[n][0] = q.x; t[n][1] = q.y; t[n][2] = q.z; id[n] = gidx(g, ng, mg[n]->matgrid); n++; }
  for (i = 0; i < n; i++) { int nx = mg[i]->size.x, ny = mg[i]->size.y, nz = mg[i]->size.z; double *u = ctl_val(mg[i]->matgrid)->data; val[i] = 0; for (j = 0; j < nx * ny * nz; j++) val[i] = val[i] + u[j] * (wt(t[i][0], nx, j / (ny * nz)) * wt(t[i][1], ny, j / nz % ny) * wt(t[i][2], nz, j % nz)); }
  m = 0; for (i = 1; i < n; i++) if (val[i] < val[m]) m = i;
  for (i = 0; i < n; i++) { int nx = mg[i]->size.x, ny = mg[i]->size.y, nz = mg[i]->size.z, off = 0; double f = s * (top->epsilon_max - top->epsilon_min); for (j = 0; j < id[i]; j++) off += (int)(g[j].size.x * g[j].size.y * g[j].size.z);
    if (top->material_grid_kind == U_MIN && i != m) continue; if (top->material_grid_kind == U_PROD) for (j = 0; j < n; j++) if (j != i) f = f * val[j]; if (top->material_grid_kind == U_SUM) f = f / n;
    for (j = 0; j < nx * ny * nz; j++) v[off + j] = v[off + j] + f * (wt(t[i][0], nx, j / (ny * nz)) * wt(t[i][1], ny, j / nz % ny) * wt(t[i][2], nz, j % nz)); } }
real mean_medium_from_matrix(const symmetric_matrix *e) { return 1.0 / e->m00; }
/* the gradient of a band's frequency, from the field now loaded: -freq/2 * Vol/N * sum over the whole cell of |E|^2 d eps/du */
static void dfreq(double *o, double f, const material_grid *g, int ng) { int n[3] = {mdata->nx, mdata->ny, mdata->nz}, x, y, z, c, cj; double sz[3] = {geometry_lattice.size.x, geometry_lattice.size.y, geometry_lattice.size.z}; 
  for (x = 0; x < n[0]; x++) for (y = 0; y < n[1]; y++) for (z = 0; z < n[2]; z++) { int q = mx_pidx(mdata, x, y, z, &cj); double E2 = 0; for (c = 0; c < 3; c++) E2 = E2 + curfield[3 * q + c].re * curfield[3 * q + c].re + curfield[3 * q + c].im * curfield[3 * q + c].im;
    deps(o, mp_v(n[0] > 1 ? ((double)x / n[0] - 0.5) * sz[0] : 0, n[1] > 1 ? ((double)y / n[1] - 0.5) * sz[1] : 0, n[2] > 1 ? ((double)z / n[2] - 0.5) * sz[2] : 0), f * E2 * (Vol / (n[0] * n[1] * n[2])), g, ng); } }
static int nsolve, spar[64]; static double sf[64][4], skx[64], se[64]; static scalar *sH[64];
static double evh(evectmatrix Y, int b) { int i; if (b == 0) { nsolve++; sH[nsolve] = calloc(H.n * H.p, sizeof(scalar)); for (i = 0; i < Y.n * Y.p; i++) { 
#ifdef SCALAR_COMPLEX
    Y.data[i].re = nomv(i * 3 + nsolve * 17); Y.data[i].im = nomv(i * 5 + nsolve * 29 + 1);
#else
    Y.data[i] = nomv(i * 3 + nsolve * 17);
#endif
    if (i % 5 == 1) {
#ifdef SCALAR_COMPLEX
      Y.data[i].re = sr_varf(nomv(i), "h%d_%d", nsolve, i);
#else
      Y.data[i] = sr_varf(nomv(i), "h%d_%d", nsolve, i);
#endif
    } sH[nsolve][i] = Y.data[i]; }
    skx[nsolve] = cur_kvector.x; spar[nsolve] = mdata->parity; se[nsolve] = mdata->eps_inv[0].m00; }
  sf[nsolve][b] = 0.5 + 0.25 * b + nsolve / 64.0; return sf[nsolve][b] * sf[nsolve][b]; }
static void geom(int kind, int who, int sym) { nob = 0; usep = 1; material_type B1 = mgrid(kind, 2, 1, 1, 1, 9, sym), A1 = mgrid(kind, 3, 2, 1, 1, 9, sym), C1 = mp_medium(3, 1);
  if (who == 0) default_material = A1; if (who == 1) { default_material = B1; obj(A1, -0.25, -1, -1, 0.5, 1, 1); } if (who == 2) { obj(C1, -0.125, -0.125, -1, 0.125, 0.125, 1); obj(A1, -0.5, -0.5, -1, 0.125, 0.5, 1); obj(B1, -0.25, -1, -1, 0.25, 1, 1); obj(A1, -0.375, -0.25, -1, 0.5, 1, 1); }
  if (who == 3) { obj(A1, -0.5, -1, -1, 0.25, 1, 1); obj(mgrid(kind, 2, 1, 1, 1, 8, sym), -0.25, -0.25, -1, 0.5, 1, 1); default_material = A1; } if (who == 4) { obj(A1, -0.5, -0.5, -0.5, 0.5, 0.5, 0.5); default_material = mp_medium(2, 1); } }
static void prep(int nx, int ny, int nz, int nb, int lat) { mp_globals(nx, ny, nz, nb, nb, lat, 0); }
static const int KINDS[3] = {U_MIN, U_PROD, U_SUM};
static int rnd_i = -1; int rand(void) { if (rnd_i < 0) return 12345 + 7919 * (rnd_i-- & 1023); static const int R[4] = {0, RAND_MAX, RAND_MAX / 2 + 1, RAND_MAX / 4}; char s[16]; sprintf(s, "rnd%d", rnd_i++); return R[sr_choose(s, 0, 3)]; }
int harness_main(int argc, char **v) { int mode = A(v, 1), kind = KINDS[A(v, 2)], ax = A(v, 3), who = A(v, 4), i, j, n, ng; material_grid *g; double *v0;
  if (mode == 0) { /* who: 0 one object, 1 two objects with two grids, 2 two objects with one grid, 3 object over default grid, 4 three grids, 5 object over an incompatible grid */
    int pt = A(v, 6); static const double PTS[6] = {0.0625, 0.28125, 0.5, 0.84375, 1, 0}; symu = pt >= 0; double t = symu ? sr_var("t", 0.01) : 0.015625, r[3] = {0.28125, 0.625, 0.875}, u0, u1; vector3 p; int m = A(v, 5); mp_globals(2, 2, 1, 1, 1, 0, 0); init_params(NO_PARITY, 1);
    usep = 0; nob = 0;
    material_type A1 = mgrid(kind, 3, 2, 1, 1, 9, 0), B1 = mgrid(kind, 2, 1, 1, 1, who == 5 ? 8 : 9, 0);
    obj(A1, 0, 0, 0, 1, 1, 1); if (who == 1 || who == 4 || who == 5) obj(B1, 0, 0, 0, 1, 1, 1); if (who == 2) obj(A1, 0, 0, 0, 1, 1, 1); if (who == 3) default_material = B1; if (who == 4) obj(mgrid(kind, 1, 2, 1, 1, 9, 0), 0, 0, 0, 1, 1, 1);
    for (i = 0; i < nob; i++) { double *q = (double *)&oc[i]; for (j = 0; j < 3; j++) q[j] = r[(i + j) % 3]; if (i == 0 && symu) q[ax] = PTS[pt]; else if (i == 0) { q[ax] = sr_var("c", 0.4); sr_assume_ge(q[ax], 0); sr_assume_ge(1, q[ax]); } } 
    p = mp_v(0.125, -0.25, 0); g = get_material_grids(geometry, &ng); n = material_grids_ntot(g, ng); sr_assume_gt(t, 0);
    double *u = calloc(n, sizeof *u), *w = calloc(n, sizeof *w); material_grids_get(u, g, ng); v0 = calloc(n, sizeof *v0); double sc = symu ? sr_var("scale", 1.5) : 1.5, *x0 = calloc(n, sizeof *x0); for (i = 0; i < n; i++) v0[i] = x0[i] = symu ? sr_varf(nomv(i), "v%d", i) : i * 0.25;
    for (i = 0; i < n; i++) { sr_assume_gt(u[i] - t, 0); sr_assume_gt(1, u[i] + t); }
    material_grid *top = A1.subclass.material_grid_data; 
    material_grids_addgradient_point(v0, p, sc, g, ng);
    for (i = 0; i < n; i++) { memcpy(w, u, n * sizeof *u); w[i] = u[i] + t; material_grids_set(w, g, ng); u1 = matgrid_val(p, &tree, 0, top); if (kind == U_MIN) { double a[MAXO]; int na = nob + (who == 3); for (j = 0; j < nob; j++) a[j] = material_grid_val(oc[j], go[j].material.subclass.material_grid_data); if (who == 3) a[nob] = material_grid_val(mp_v(p.x + 0.5, p.y + 0.5, 0), B1.subclass.material_grid_data); for (j = 0; j < na; j++) if (j != m && who != 5) sr_assume_gt(a[j], a[m]); sr_assume_gt(1, a[m]); }
      w[i] = u[i] - t; material_grids_set(w, g, ng); u0 = matgrid_val(p, &tree, 0, top); if (kind == U_MIN) { double a[MAXO]; int na = nob + (who == 3); for (j = 0; j < nob; j++) a[j] = material_grid_val(oc[j], go[j].material.subclass.material_grid_data); if (who == 3) a[nob] = material_grid_val(mp_v(p.x + 0.5, p.y + 0.5, 0), B1.subclass.material_grid_data); for (j = 0; j < na; j++) if (j != m && who != 5) sr_assume_gt(a[j], a[m]); sr_assume_gt(1, a[m]); }
      sr_checkf_eq((v0[i] - x0[i]) * (2 * t), sc * 8 * (u1 - u0), "derivative with respect to parameter %d", i); }
    }
  if (mode == 1) { int nx = A(v, 5), ny = A(v, 6), nz = A(v, 7), lat = A(v, 8), band = A(v, 9), c; symu = 0; mps_start(nx, ny, nz, 2, 2, lat, 0, band ? 6 : 0); geom(kind, who, 0); g = get_material_grids(geometry, &ng); n = material_grids_ntot(g, ng); double *w = calloc(n, sizeof *w); v0 = calloc(n, sizeof *v0); for (i = 0; i < n; i++) v0[i] = w[i] = sr_varf(nomv(i), "v%d", i); double sc = 1.5;
    get_efield(band ? band : 1); if (!band) for (i = 0; i < 3 * mdata->fft_output_size; i++) { curfield[i].re = sr_varf(nomv(i), "e%dr", i); curfield[i].im = sr_varf(nomv(i + 400), "e%di", i); } (void)c;
    double f = band ? -freqs.items[band - 1] / 2 : 1; dfreq(w, sc * f, g, ng); if (band) get_hfield(band); material_grids_addgradient(v0, sc, band, g, ng); for (i = 0; i < n; i++) sr_checkf_eq(v0[i], w[i], "gradient for parameter %d", i); }
  if (mode == 2) { prep(2, 2, 1, 1, 0); init_params(NO_PARITY, 1); geom(kind, who, 0); if (ax) geometry.num_items = nob = 1; g = get_material_grids(geometry, &ng); n = material_grids_ntot(g, ng); int k, t = 0, tot = 0; for (i = 0; i < ng; i++) { for (j = 0; j < i; j++) sr_check_true("each grid listed once", g[i].matgrid != g[j].matgrid); tot += (int)(g[i].size.x * g[i].size.y * g[i].size.z); } sr_check_true("number of parameters", n == tot);
    for (i = 0; i <= nob; i++) { material_type *m = i < nob ? &go[i].material : &default_material; if (m->which_subclass != MATERIAL_GRID) continue; sr_checkf_true(gidx(g, ng, m->subclass.material_grid_data->matgrid) >= 0, "grid of object %d listed", i); } for (i = 0; i < ng; i++) { for (j = 0; j <= nob; j++) { material_type *m = j < nob ? &go[j].material : &default_material; if (m->which_subclass == MATERIAL_GRID && m->subclass.material_grid_data->matgrid == g[i].matgrid) break; } sr_checkf_true(j <= nob, "listed grid %d is in use", i); }
    double *u = calloc(n + 1, sizeof *u), *u2 = calloc(n + 1, sizeof *u); u[n] = 77; material_grids_get(u, g, ng); sr_check_true("nothing beyond the parameters", u[n] == 77); for (k = i = 0; i < ng; i++) { double *d = ctl_val(g[i].matgrid)->data; for (j = 0; j < (int)(g[i].size.x * g[i].size.y * g[i].size.z); j++, k++) sr_checkf_eq(u[k], d[j], "parameter %d", k); }
    for (i = 0; i < n; i++) u2[i] = sr_varf(nomv(i) + 3, "w%d", i); material_grids_set(u2, g, ng); for (k = i = 0; i < ng; i++) { double *d = ctl_val(g[i].matgrid)->data; for (j = 0; j < (int)(g[i].size.x * g[i].size.y * g[i].size.z); j++, k++) sr_checkf_eq(d[j], u2[k], "value set %d", k); sr_check_true("array handle released", ctl_val(g[i].matgrid)->open == 0); } material_grids_get(u, g, ng); for (i = 0; i < n; i++) sr_checkf_eq(u[i], u2[i], "round trip %d", i); (void)t; }
  if (mode == 3) { int dm = A(v, 5), it, ik, kd, q; maxgap_t d; memset(&d, 0, sizeof d); symu = 0; prep(2, 2, 1, 3, 0); init_params(NO_PARITY, 1); geom(kind, who, 0); mps_ev = evh; vector3 ks[2] = {mp_v(0.25, 0.125, 0), mp_v(0.5, -0.25, 0)}; 
    d.grids = g = get_material_grids(geometry, &ng); d.ngrids = ng; n = material_grids_ntot(g, ng) + 2; d.ks.items = ks; d.ks.num_items = 2; d.b1 = 2; d.b2 = 3; d.do_min = dm; d.f1s = calloc(4, 8); d.f2s = d.f1s + 2; d.unsolved = 1; d.work = calloc(n, 8); double *gr = calloc(n, 8), *u = calloc(n, 8); material_grids_get(u, g, ng);
    for (it = 0; it < 2; it++) { for (i = 0; i < n; i++) d.work[i] = sr_varf(nomv(i), "work%d_%d", it, i), gr[i] = sr_varf(nomv(i + 5), "gr%d_%d", it, i); u[n - 1] = sr_varf(0.3, "lo%d", it); u[n - 2] = sr_varf(0.4, "hi%d", it); sr_assume_gt(u[n - 1], 0); sr_assume_gt(u[n - 2], 0); for (i = 0; i < n - 2; i++) u[i] = ((i * 13 + it * 7) % 29 + 1) / 32.0;
      double f1 = u[n - 1], f2 = u[n - 2], val = maxgap_func(n, u, gr, &d), sg = dm ? 1 : -1; sr_checkf_eq(val * (f1 + f2), sg * 2 * (f2 - f1), "objective %d", it); sr_checkf_eq(gr[n - 2] * (f1 + f2) * (f1 + f2), sg * 4 * f1, "gradient in the upper edge %d", it); sr_checkf_eq(gr[n - 1] * (f1 + f2) * (f1 + f2), -sg * 4 * f2, "gradient in the lower edge %d", it); for (i = 0; i < n - 2; i++) sr_checkf_eq(gr[i], 0, "objective does not depend on the grid, %d", i);
      double *now = calloc(n, 8); material_grids_get(now, g, ng); for (i = 0; i < n - 2; i++) sr_checkf_eq(now[i], u[i], "grid set %d", i); double e0 = mdata->eps_inv[0].m00;
      for (ik = 0; ik < 2; ik++) for (kd = 0; kd < 2; kd++) { bandc_t c = {&d, ik, kd}; double *w = calloc(n, 8); for (i = 0; i < n; i++) gr[i] = sr_varf(nomv(i + 5), "gr%d_%d_%d_%d", it, ik, kd, i), d.work[i] = sr_varf(nomv(i + 9), "wk%d_%d_%d_%d", it, ik, kd, i); val = band_constraint(n, u, gr, &c); q = nsolve; sr_checkf_true(skx[q] == ks[ik].x, "solved at its k-point, %d %d", ik, kd); sr_checkf_eq(se[q], e0, "solved for the present structure, %d %d", ik, kd);
        double f = sf[q][kd ? 2 : 1]; sr_checkf_eq(val, kd ? f2 - f : f - f1, "constraint %d %d", ik, kd); sr_checkf_eq((kd ? d.f2s : d.f1s)[ik], f, "frequency kept %d %d", ik, kd); sr_checkf_eq(gr[n - 1], kd ? 0 : -1, "constraint gradient in the lower edge %d %d", ik, kd); sr_checkf_eq(gr[n - 2], kd ? 1 : 0, "constraint gradient in the upper edge %d %d", ik, kd);
        get_efield(kd ? 3 : 2); dfreq(w, (kd ? 0.5 : -0.5) * f, g, ng); for (i = 0; i < n - 2; i++) sr_checkf_eq(gr[i], w[i], "constraint gradient %d %d, parameter %d", ik, kd, i); } } }
  if (mode == 4) { mindiff_t d; int it, b = A(v, 5); memset(&d, 0, sizeof d); symu = 0; prep(2, 2, 1, 2, 0); init_params(NO_PARITY, 1); geom(kind, who, 0); mps_ev = evh; d.k = mp_v(0.25, 0.125, 0); d.b = b; d.grids = g = get_material_grids(geometry, &ng); d.ngrids = ng; n = material_grids_ntot(g, ng); d.work = calloc(n, 8); double *gr = calloc(n, 8), *u = calloc(n, 8);
    for (it = 0; it < 2; it++) { int s0 = nsolve, q, e = 0, o = 0; double *w = calloc(n, 8), *now = calloc(n, 8); for (i = 0; i < n; i++) { d.work[i] = sr_varf(nomv(i), "work%d_%d", it, i); gr[i] = sr_varf(nomv(i + 5), "gr%d_%d", it, i); u[i] = ((i * 13 + it * 7) % 29 + 1) / 32.0; } double val = mindiff_func(n, u, gr, &d); material_grids_get(now, g, ng); for (i = 0; i < n; i++) sr_checkf_eq(now[i], u[i], "grid set %d", i);
      for (q = s0 + 1; q <= nsolve; q++) { if (spar[q] & EVEN_Z_PARITY) e = q; if (spar[q] & ODD_Z_PARITY) o = q; sr_checkf_true(skx[q] == d.k.x, "solved at its k-point %d", it); sr_checkf_eq(se[q], mdata->eps_inv[0].m00, "solved for the present structure %d", it); } sr_checkf_true(e && o, "both polarizations solved %d", it); if (!e || !o) break; sr_checkf_eq(val, sf[e][b - 1] - sf[o][b - 1], "difference %d", it);
      for (q = 0; q < 2; q++) { int z = q ? o : e; for (i = 0; i < H.n * H.p; i++) H.data[i] = sH[z][i]; freqs.items[b - 1] = sf[z][b - 1]; get_efield(b); dfreq(w, (q ? 0.5 : -0.5) * sf[z][b - 1], g, ng); } for (i = 0; i < n; i++) sr_checkf_eq(gr[i], w[i], "gradient %d, parameter %d", it, i); } }
  if (mode == 5) { int nx = A(v, 5), ny = A(v, 6), nz = A(v, 7), en[3] = {2, ny > 1 ? 3 : 1, 1}, E = en[0] * en[1] * en[2], x, y, z; match_t d; memset(&d, 0, sizeof d); prep(nx, ny, nz, 1, 0); init_params(NO_PARITY, 1); 
#ifdef SCALAR_COMPLEX
    int sym = 0;
#else
    int sym = 1;
#endif
    geom(kind, who, sym); d.nx = en[0]; d.ny = en[1]; d.nz = en[2]; d.eps = calloc(E, 8); for (i = 0; i < E; i++) d.eps[i] = sr_varf(3 + nomv(i), "eps%d", i); d.grids = g = get_material_grids(geometry, &ng); d.ngrids = ng; n = material_grids_ntot(g, ng); d.work = calloc(n, 8); double *u = calloc(n, 8), *w = calloc(n, 8), *gr = calloc(n, 8), t = 0.015625, val, tot = 0; for (i = 0; i < n; i++) d.work[i] = sr_varf(nomv(i), "work%d", i); material_grids_get(u, g, ng); for (i = 0; i < n; i++) { sr_assume_gt(u[i] - t, 0); sr_assume_gt(1, u[i] + t); }
    val = match_eps_func(n, u, gr, &d); for (x = 0; x < nx; x++) for (y = 0; y < ny; y++) for (z = 0; z < nz; z++) { int cj, q = mx_pidx(mdata, x, y, z, &cj); double e0 = 0, de; for (i = 0; i < E; i++) e0 = e0 + d.eps[i] * (wt((x + 0.5) / nx, en[0], i / (en[1] * en[2])) * wt((y + 0.5) / ny, en[1], i / en[2] % en[1]) * wt((z + 0.5) / nz, en[2], i % en[2])); de = 1.0 / mdata->eps_inv[q].m00 - e0; tot = tot + de * de; }
    sr_check_eq("mean squared difference", val * (nx * ny * nz), tot);
    for (i = 0; i < n; i++) { double a, b, gg = 0; int k; if (sym && rep(i, 3, 2, 1) != i) continue; for (k = 0; k < n; k++) if (k == i || (sym && rep(k, 3, 2, 1) == i)) gg = gg + gr[k];
#define STEP(h) for (k = 0; k < n; k++) w[k] = k == i || (sym && rep(k, 3, 2, 1) == i) ? u[k] + h : u[k]
      STEP(t); a = match_eps_func(n, w, 0, &d); STEP(-t); b = match_eps_func(n, w, 0, &d); sr_checkf_eq(gg * (2 * t), a - b, "gradient for parameter %d", i); } }
  if (mode == 6) { mp_globals(2, 2, 1, 1, 1, 0, 0); symu = 1; rnd_i = 0; material_type a = mgrid(kind, 2, 1, 1, 1, 9, 0); double *d = dat(a), o[2] = {d[0], d[1]}, nz = sr_var("noise", 0.5); sr_assume_gt(nz, 0); sr_assume_ge(2.5, nz); for (i = 0; i < 2; i++) { sr_assume_ge(o[i], 0); sr_assume_ge(1, o[i]); } randomize_material_gridB(*a.subclass.material_grid_data, nz);
    for (i = 0; i < 2; i++) { sr_checkf_le(d[i], 1, "at most 1, %d", i); sr_checkf_le(0, d[i], "at least 0, %d", i); sr_checkf_le(d[i] - o[i], nz, "moved up by at most the noise, %d", i); sr_checkf_le(o[i] - d[i], nz, "moved down by at most the noise, %d", i); } }
  sr_reach("end"); return 0; }
