/* from material definitions to tensors. args: mode ...
   0 tensor at a point: kind where file mu dim lat rsel;  1 when the permeability is used: kind where sel;  2 a pixel: arrangement dim lat normal kinds mu
   The grid set-up routines are replaced: they receive the program's point functions and the harness evaluates them. */
#include "mp.h"
typedef symmetric_matrix T3;
typedef void (*test_fn)(maxwell_dielectric_function, maxwell_dielectric_mean_function, void *);
static test_fn test; static int armed, neps, nmu, usemu, mode, dim; static double rr[3], pp[3];
static void grid_args(const int ms[3], real R_[3][3], real G_[3][3]) { int i, j; if (!armed) return; for (i = 0; i < 3; i++) sr_checkf_true(ms[i] == (i < dimensions ? mesh_size : 1), "mesh %d", i); for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { sr_checkf_eq(R_[i][j], ((double *)&Rm)[3 * i + j], "lattice vector %d %d", i, j); sr_checkf_eq(G_[i][j], ((double *)&Gm)[3 * i + j], "reciprocal vector %d %d", i, j); } }
void set_maxwell_dielectric(maxwell_data *d, const int ms[3], real R_[3][3], real G_[3][3], maxwell_dielectric_function e, maxwell_dielectric_mean_function m, void *data) { if (!armed) { int i; for (i = 0; i < d->fft_output_size; i++) { memset(d->eps_inv + i, 0, sizeof(T3)); d->eps_inv[i].m00 = d->eps_inv[i].m11 = d->eps_inv[i].m22 = 1; } } grid_args(ms, R_, G_); neps++; if (armed && !usemu) test(e, m, data); }
void set_maxwell_mu(maxwell_data *d, const int ms[3], real R_[3][3], real G_[3][3], maxwell_dielectric_function e, maxwell_dielectric_mean_function m, void *data) { grid_args(ms, R_, G_); nmu++; if (armed && usemu) test(e, m, data); }
/* ---- files ---- */
static T3 FT[2]; static int nfile; static char *fdat[2]; static int ndat, freed;
static void ffun(T3 *e, T3 *ei, const real r[3], void *d) { int i, w; nfile++; w = !strcmp((char *)d, "mufile"); sr_check_true("the file is the one asked for", w == usemu); for (i = 0; i < 3; i++) sr_checkf_eq(r[i], rr[i], "point looked up in the file, %d", i); *e = FT[w]; memset(ei, 0, sizeof *ei); ei->m00 = 7; }
void get_epsilon_file_func(const char *fn, maxwell_dielectric_function *f, void **d) { if (fn && fn[0]) { *f = ffun; *d = fdat[ndat++ & 1] = strdup(fn); } else { *f = 0; *d = 0; } }
void destroy_epsilon_file_func_data(void *d) { if (d) freed++; }
/* ---- materials ---- */
static medium_anisotropic *aniso(int who, int sym, int im) { medium_anisotropic *a = calloc(1, sizeof *a); int i; static const double D[3] = {3, 2.5, 4};
  double *e[2] = {(double *)&a->epsilon_diag, (double *)&a->mu_diag}, *o[2] = {(double *)&a->epsilon_offdiag, (double *)&a->mu_offdiag}, *q[2] = {(double *)&a->epsilon_offdiag_imag, (double *)&a->mu_offdiag_imag}; int k;
  for (k = 0; k < 2; k++) for (i = 0; i < 3; i++) { int s = sym && k == usemu; e[k][i] = s ? sr_varf(D[i], "d%d_%d_%d", who, k, i) : D[(i + who) % 3] + 0.5 * k; o[k][2 * i] = s ? sr_varf(0.25 * (i - 1) + 0.125, "o%d_%d_%d", who, k, i) : 0.125 * (i + who); o[k][2 * i + 1] = im & 1 ? (s ? sr_varf(0.375 - 0.25 * i, "oi%d_%d_%d", who, k, i) : 0.25 * (i - who)) : 0; q[k][i] = im & 2 ? (s ? sr_varf(0.125 + 0.0625 * i, "oj%d_%d_%d", who, k, i) : 0.0625 * (2 * i - who)) : 0; }
  return a; }
static double gpar[2]; static const double gt[3] = {0.3125, 0.25, 0.5};
/* kinds: 0 scalar, 1 real anisotropic, 2 off-diagonal with imaginary part, 3 imaginary part in the separate entry, 4 both, 5 grid */
static material_type mat(int kind, int who, int sym) { material_type t; if (kind == 0) return mp_medium(sym && !usemu ? sr_varf(2 + who, "e%d", who) : 2 + who, sym && usemu ? sr_varf(3 + who, "m%d", who) : 3.5 + who);
  if (kind < 5) { t.which_subclass = MEDIUM_ANISOTROPIC; t.subclass.medium_anisotropic_data = aniso(who, sym, kind - 1); return t; }
  { material_grid *m = calloc(1, sizeof *m); int n[3] = {2, 1, 1}; gpar[0] = sr_var("u0", 0.25); gpar[1] = sr_var("u1", 0.75); sr_assume_ge(gpar[0], 0); sr_assume_ge(1, gpar[0]); sr_assume_ge(gpar[1], 0); sr_assume_ge(1, gpar[1]); m->material_grid_kind = U_PROD; m->epsilon_min = sr_var("emin", 1.5); m->epsilon_max = sr_var("emax", 9); m->mu_min = sr_var("mmin", 1.25); m->mu_max = sr_var("mmax", 3); m->size = mp_v(2, 1, 1); double *d = malloc(2 * sizeof *d); d[0] = gpar[0]; d[1] = gpar[1]; m->matgrid = ctl_array(d, 3, n); t.which_subclass = MATERIAL_GRID; t.subclass.material_grid_data = m; return t; } }
static material_type self(void) { material_type t; t.which_subclass = MATERIAL_TYPE_SELF; t.subclass.medium_data = 0; return t; }
#define MAXF 8
static material_type fmat[MAXF]; static int nf, given[MAXF];
static material_type func(material_type m) { material_type t; t.which_subclass = MATERIAL_FUNCTION; material_function *f = calloc(1, sizeof *f); f->material_func = ctl_fn(nf); fmat[nf++] = m; t.subclass.material_function_data = f; return t; }
SCM ctl_apply(SCM f, int n, SCM *a) { int id = ctl_val(f)->id, i; vector3 p = ctl_convert_vector3_to_c(a[0]); sr_check_true("one argument", n == 1); for (i = 0; i < 3; i++) sr_checkf_eq(((double *)&p)[i], pp[i], "position given to the material function, %d", i); return ctl_fn(100 + id); }
void material_type_input(SCM s, material_type *o) { *o = fmat[ctl_val(s)->id - 100]; }
vector3 to_geom_box_coords(vector3 p, geom_box_object *o) { return mp_v(gt[0], gt[1], gt[2]); }
/* tensor of a material, as a user writes it down */
static cx tens(material_type m, int mu, int i, int j) { cx r = {0, 0}; if (m.which_subclass == MEDIUM) { if (i == j) r.re = mu ? m.subclass.medium_data->mu : m.subclass.medium_data->epsilon; return r; }
  if (m.which_subclass == MEDIUM_ANISOTROPIC) { medium_anisotropic *a = m.subclass.medium_anisotropic_data; double *e = mu ? (double *)&a->mu_diag : (double *)&a->epsilon_diag, *o = mu ? (double *)&a->mu_offdiag : (double *)&a->epsilon_offdiag, *q = mu ? (double *)&a->mu_offdiag_imag : (double *)&a->epsilon_offdiag_imag; int k = i + j - 1; if (i == j) { r.re = e[i]; return r; } r.re = o[2 * k]; r.im = o[2 * k + 1] + q[k]; if (i > j) r.im = -r.im; return r; }
  if (m.which_subclass == MATERIAL_GRID) { material_grid *g = m.subclass.material_grid_data; double t = gt[0] * 2 - 0.5, u = gpar[0] * (1 - t) + gpar[1] * t; if (i == j) { if (mu) r.re = g->mu_min + u * (g->mu_max - g->mu_min); else r.re = g->epsilon_min + u * (g->epsilon_max - g->epsilon_min); } return r; }
  sr_fatal("tensor of a variable material"); return r; }
static material_type resolve(material_type m) { while (m.which_subclass == MATERIAL_FUNCTION) m = fmat[ctl_val(m.subclass.material_function_data->material_func)->id]; return m; }
/* ---- geometry: boxes, later ones on top ---- */
#define MAXO 4
static geom_box_object bo[MAXO]; static geometric_object go[MAXO]; static geom_box bx[MAXO]; static int nob; static struct geom_box_tree_struct tree;
static vector3 nrm[MAXO]; static double fill[MAXO]; static double hw[3];
static double wrap(double x, double s) { if (s < 1e-10) return x; while (x >= 0.5 * s) x = x - s; while (x < -0.5 * s) x = x + s; return x; }
vector3 shift_to_unit_cell(vector3 p) { return mp_v(wrap(p.x, geometry_lattice.size.x), wrap(p.y, geometry_lattice.size.y), wrap(p.z, geometry_lattice.size.z)); }
static void obj(material_type m, double lx, double ly, double lz, double hx, double hy, double hz) { int i = nob++; go[i].material = m; go[i].center = mp_v(i, 0, 0); bo[i].o = &go[i]; bx[i].low = mp_v(lx, ly, lz); bx[i].high = mp_v(hx, hy, hz); geometry.items = go; geometry.num_items = nob; tree.objects = bo; tree.nobjects = nob; }
static int inbox(vector3 p, int i) { geom_box *b = &bx[i]; return p.x >= b->low.x && p.x < b->high.x && (dim < 2 || (p.y >= b->low.y && p.y < b->high.y)) && (dim < 3 || (p.z >= b->low.z && p.z < b->high.z)); }
static int find(vector3 p, vector3 *s) { int i, a, b, c; for (i = nob - 1; i >= 0; i--) for (a = -1; a <= 1; a++) for (b = -(dim > 1); b <= (dim > 1); b++) for (c = -(dim > 2); c <= (dim > 2); c++) { vector3 h = mp_v(a * geometry_lattice.size.x, b * geometry_lattice.size.y, c * geometry_lattice.size.z); if (inbox(vector3_minus(p, h), i)) { *s = h; return i; } } *s = mp_v(0, 0, 0); return -1; }
static int where_; geom_box_tree geom_tree_search(vector3 p, geom_box_tree t, int *oi) { int i; if (!armed) return 0; if (mode == 0) { for (i = 0; i < 3; i++) sr_checkf_eq(((double *)&p)[i], pp[i], "point looked up in the geometry, %d", i); *oi = nob - 1; return nob ? &tree : 0; } sr_fatal("search"); return 0; }
const geometric_object *object_of_point_in_tree(vector3 p, geom_box_tree t, vector3 *s, int *pr) { int i = find(p, s); *pr = i + 1; return i < 0 ? 0 : go + i; }
static int which(const geometric_object *o) { return (int)o->center.x; }
static vector3 pshift; static int top = -1;
vector3 normal_to_fixed_object(vector3 p, geometric_object o) { int i = which(&o), c; sr_check_true("normal of the uppermost object of the pixel", i == top); for (c = 0; c < 3; c++) sr_checkf_eq(((double *)&p)[c], pp[c] - ((double *)&pshift)[c], "point whose surface normal is asked for, %d", c); return nrm[i]; }
number box_overlap_with_object(geom_box b, geometric_object o, number tol, integer me) { int i = which(&o), c; sr_check_true("overlap with the uppermost object of the pixel", i == top); for (c = 0; c < 3; c++) { sr_checkf_eq(((double *)&b.low)[c], pp[c] - hw[c] - ((double *)&pshift)[c], "pixel, lower end %d", c); sr_checkf_eq(((double *)&b.high)[c], pp[c] + hw[c] - ((double *)&pshift)[c], "pixel, upper end %d", c); } return fill[i]; }
/* ---- tests ---- */
static int died, fileon; static maxwell_dielectric_function ef; static void *ed; static T3 e0, i0;
static void evalpt(void *p) { ef(&e0, &i0, rr, ed); }
static double det3(material_type r) { int i, j; cx M[3][3]; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) M[i][j] = tens(r, usemu, i, j); cx dt = cxa(cxm(M[0][0], cxa(cxm(M[1][1], M[2][2]), cxs(-1, cxm(M[1][2], M[2][1])))), cxa(cxs(-1, cxm(M[0][1], cxa(cxm(M[1][0], M[2][2]), cxs(-1, cxm(M[1][2], M[2][0]))))), cxm(M[0][2], cxa(cxm(M[1][0], M[2][1]), cxs(-1, cxm(M[1][1], M[2][0])))))); return dt.re; }
static material_type want; static int imag_in;
static void t_point(maxwell_dielectric_function e, maxwell_dielectric_mean_function m, void *d) { int i, j, k; ef = e; ed = d; ctl_destroyed = 0; died = hx_try(evalpt, 0); int nd = ctl_destroyed;
  int inobj = nob && go[nob - 1].material.which_subclass != MATERIAL_TYPE_SELF;
  if (fileon && !inobj) { sr_check_true("file used", nfile == 1 && !died); for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { cx a = mx_el(&e0, i, j), b = mx_el(&FT[usemu], i, j); sr_checkf_eq(a.re, b.re, "file value %d %d", i, j); sr_checkf_eq(a.im, b.im, "file value im %d %d", i, j); } sr_check_eq("inverse from the file", i0.m00, 7); sr_reach("file"); return; }
  sr_check_true("file not used", nfile == 0); material_type r = resolve(want);
#ifndef WITH_HERMITIAN_EPSILON
  if (r.which_subclass == MEDIUM_ANISOTROPIC) { double s = 0; for (k = 0; k < 3; k++) { cx o = tens(r, usemu, k == 2, k == 0 ? 1 : 2); s = s + o.im * o.im; } if (died) { if (s != 0) { sr_reach("imaginary"); return; } } else sr_check_eq("imaginary parts refused", s, 0); }
#endif
  if (died) { sr_check_eq("only a singular tensor is refused", det3(r), 0); return; }
  for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { cx w = tens(r, usemu, i, j), g = mx_el(&e0, i, j), s = {0, 0};
#ifndef WITH_HERMITIAN_EPSILON
    if (i != j) w.im = 0;
#endif
    sr_checkf_eq(g.re, w.re, "tensor %d %d", i, j); sr_checkf_eq(g.im, w.im, "tensor im %d %d", i, j); for (k = 0; k < 3; k++) s = cxa(s, cxm(mx_el(&e0, i, k), mx_el(&i0, k, j))); sr_checkf_eq(s.re, i == j, "inverse %d %d", i, j); sr_checkf_eq(s.im, 0, "inverse im %d %d", i, j); }
  { int nfn = 0; material_type m2 = want; while (m2.which_subclass == MATERIAL_FUNCTION) { nfn++; m2 = resolve(m2); break; } sr_check_true("the user's own material is not destroyed", nfn || m2.which_subclass == MATERIAL_GRID || nd == 0); }
  sr_reach("tensor"); }
static void p_of_r(int any) { int c; for (c = 0; c < 3; c++) { double sz = ((double *)&geometry_lattice.size)[c]; if (sz < 1e-10) { pp[c] = 0; continue; } pp[c] = wrap((rr[c] - 0.5) * sz, any ? sz : 0); } }
static int nomean; static maxwell_dielectric_mean_function mf; static double s_[3];
static T3 me, mi; static double nn[3]; static int got, refused; static void evalmean(void *p) { got = mf(&me, &mi, nn, s_[0], s_[1], s_[2], 0.25, rr, ed); }
static int arr, wantret; /* wantret: 1 interface/uniform analysed, 0 must be left to the mesh, 2 may be left to the mesh but must not be wrong */ static material_type mA, mB; /* mA: fills the fraction fill[top] */ static int uni; static double FA;
static void t_mean(maxwell_dielectric_function e, maxwell_dielectric_mean_function m, void *d) { int i, j, k, c; mf = m; ed = d; for (c = 0; c < 3; c++) nn[c] = 77; died = hx_try(evalmean, 0); if (died) { sr_check_eq("only singular tensors are refused", det3(mA) * det3(mB), 0); return; }
  if (wantret == 0) { sr_check_true("left to the averaging mesh", !got); sr_reach("mesh"); return; } if (wantret == 2 && !got) { sr_reach("mesh"); return; } sr_check_true("pixel analysed", got == 1); if (got != 1) return;
  if (uni) { for (i = 0; i < 3; i++) { sr_checkf_eq(nn[i], 0, "no normal %d", i); for (j = 0; j < 3; j++) { cx a = mx_el(&me, i, j), b = tens(mA, usemu, i, j); sr_checkf_eq(a.re, b.re, "uniform pixel %d %d", i, j); sr_checkf_eq(a.im, b.im, "uniform pixel im %d %d", i, j); } } sr_reach("uniform"); return; }
  vector3 N = nrm[top]; lattice *l = &geometry_lattice; double n[3], T[3][3], q = 0; for (c = 0; c < 3; c++) { double *b0 = (double *)&l->basis.c0, *b1 = (double *)&l->basis.c1, *b2 = (double *)&l->basis.c2; double sz = ((double *)&l->size)[c]; n[c] = N.x * b0[c] + (dim > 1 ? N.y * b1[c] : 0) + (dim > 2 ? N.z * b2[c] : 0); q += n[c] * n[c]; sr_checkf_eq(nn[c], c < dim ? ((double *)&N)[c] / sz : 0, "normal in lattice coordinates %d", c); }
  /* any frame with first axis n: t1 = n x a, t2 = n x t1 (not normalised) */
  int a = (n[0] == 0 && n[1] == 0) ? 0 : 2; double ax[3] = {a == 0, 0, a == 2}; for (c = 0; c < 3; c++) { T[0][c] = n[c]; T[1][c] = n[(c + 1) % 3] * ax[(c + 2) % 3] - n[(c + 2) % 3] * ax[(c + 1) % 3]; } for (c = 0; c < 3; c++) T[2][c] = n[(c + 1) % 3] * T[1][(c + 2) % 3] - n[(c + 2) % 3] * T[1][(c + 1) % 3];
  for (k = 0; k < 3; k++) { cx Em[3], Dm[3]; memset(Em, 0, sizeof Em); memset(Dm, 0, sizeof Dm); int s; for (s = 0; s < 2; s++) { material_type *mt = s ? &mB : &mA; double f = s ? 1 - FA : FA, tt = T[k][0] * T[k][0] + T[k][1] * T[k][1] + T[k][2] * T[k][2]; (void)tt; cx E[3], D[3], nen = {0, 0}, net = {0, 0}, al;
      /* E = t_k + al n for tangential k, normal D: n.D common */ for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { nen = cxa(nen, cxs(n[i] * n[j], tens(*mt, usemu, i, j))); net = cxa(net, cxs(n[i] * T[k][j], tens(*mt, usemu, i, j))); }
      if (k == 0) { al.re = 1 / nen.re; al.im = 0; } else al = cxs(-1 / nen.re, net); sr_assume_gt(nen.re, 0.0);
      for (c = 0; c < 3; c++) { E[c] = cxs(n[c], al); if (k) E[c].re = E[c].re + T[k][c]; } for (i = 0; i < 3; i++) { D[i].re = D[i].im = 0; for (j = 0; j < 3; j++) D[i] = cxa(D[i], cxm(tens(*mt, usemu, i, j), E[j])); }
      for (c = 0; c < 3; c++) { Em[c] = cxa(Em[c], cxs(f, E[c])); Dm[c] = cxa(Dm[c], cxs(f, D[c])); } }
    for (i = 0; i < 3; i++) { cx g = {0, 0}; for (j = 0; j < 3; j++) g = cxa(g, cxm(mx_el(&me, i, j), Em[j])); sr_checkf_eq(g.re, Dm[i].re, "mean D from mean E, case %d component %d", k, i); sr_checkf_eq(g.im, Dm[i].im, "mean D from mean E im, case %d component %d", k, i); } }
  sr_reach("interface"); }
static void t_none(maxwell_dielectric_function e, maxwell_dielectric_mean_function m, void *d) {}
static void go_reset(void *p) { armed = 1; neps = nmu = 0; reset_epsilon(); armed = 0; }
int harness_main(int argc, char **v) { int i, c; mode = A(v, 1);
  if (mode == 0) { int kind = A(v, 2), where = A(v, 3), file = A(v, 4), lat = A(v, 7), rs = A(v, 8); usemu = A(v, 5); dim = A(v, 6); mp_globals(2, dim > 1 ? 2 : 1, dim > 2 ? 2 : 1, 1, 1, lat, 0); mesh_size = 2; init_params(NO_PARITY, 1);
    material_type m = mat(kind, 0, 1), o = mp_medium(11, 13); memset(&tree, 0, sizeof tree); default_material = o; want = m;
    /* where: 0 object, 1 default, 2 hole over a default, 3 function in an object, 4 function returning a function, 5 default function, 6 object over the hole's place (two objects) */
    if (where == 0) obj(m, -1, -1, -1, 1, 1, 1); if (where == 1) default_material = m; if (where == 2) { default_material = m; obj(self(), -1, -1, -1, 1, 1, 1); } if (where == 3) { want = func(m); obj(want, -1, -1, -1, 1, 1, 1); } if (where == 4) { want = func(func(m)); obj(want, -1, -1, -1, 1, 1, 1); } if (where == 5) { want = func(m); default_material = want; } if (where == 6) { want = func(m); default_material = want; obj(self(), -1, -1, -1, 1, 1, 1); }
    for (i = 0; i < 2; i++) mx_tensor(&FT[i], i ? "FM" : "FE", 0); epsilon_input_file = file & 1 ? "epsfile" : ""; mu_input_file = file & 2 ? "mufile" : ""; fileon = file >> usemu & 1; force_mup = 1;
    for (c = 0; c < 3; c++) { rr[c] = rs == c ? sr_var("r", 0.3) : (c + 1 + rs) * 0.21 + (rs > 3) * 0.5; } if (rs < 3) { sr_assume_ge(rr[rs], -1); sr_assume_ge(2, rr[rs]); } if (kind == 5 && (where == 1 || where == 2 || where == 5 || where == 6)) { /* default grid: its coordinates are the point's own */ rr[0] = gt[0]; rr[1] = gt[1]; rr[2] = gt[2]; }
    p_of_r(1); test = t_point; go_reset(0); sr_check_true("both set up once", neps == 1 && nmu == 1); sr_check_true("file data released", freed == !!(file & 1) + !!(file & 2)); }
  if (mode == 1) { int kind = A(v, 2), where = A(v, 3), sel = A(v, 4), has = 0; dim = 2; usemu = 1; mp_globals(2, 2, 1, 1, 1, 0, 0); mesh_size = 3; init_params(NO_PARITY, 1); material_type m, o = mp_medium(2, 1);
    if (kind == 0) { m = mp_medium(5, sr_var("mu", 1)); has = m.subclass.medium_data->mu != 1; } else if (kind < 5) { m = mat(1, 0, 0); medium_anisotropic *a = m.subclass.medium_anisotropic_data; double *e = (double *)&a->mu_diag, *of = (double *)&a->mu_offdiag, *q = (double *)&a->mu_offdiag_imag; for (i = 0; i < 3; i++) { e[i] = 1; of[2 * i] = of[2 * i + 1] = q[i] = 0; } double x = sr_var("x", 0.5), y = sr_var("y", -0.5); if (kind == 1) { e[sel] = x; has = x != 1; } if (kind == 2) { of[2 * sel] = x; has = x != 0; } if (kind == 3) { of[2 * sel + 1] = x; q[sel] = y; has = x + y != 0; } if (kind == 4) has = 0; }
    else if (kind == 5) { m = mat(5, 0, 1); material_grid *g = m.subclass.material_grid_data; has = g->mu_min != 1 || g->mu_max != 1; } else m = mp_medium(3, 1);
    default_material = o; if (where == 0) default_material = m; if (where == 1) obj(m, -1, -1, -1, 0, 1, 1); if (where == 2) { obj(o, -1, -1, -1, 0, 1, 1); obj(o, -1, -1, -1, 0.5, 1, 1); obj(m, -1, -1, -1, 0, 1, 1); } if (where == 3) { obj(m, 0, 0, 0, 1, 1, 1); obj(o, -1, -1, -1, 0, 1, 1); }
    if (kind == 6 && sel == 1) { force_mup = 1; has = 1; } if (kind == 6 && sel == 2) { mu_input_file = "mufile"; has = 1; } if (kind == 6 && sel == 3) epsilon_input_file = "epsfile";
    test = t_none; go_reset(0); sr_check_true("dielectric set up once", neps == 1); sr_check_true("permeability set up exactly when some material can have mu", nmu == has); sr_reach(has ? "mu" : "nomu"); }
  if (mode == 2) { int lat = A(v, 4), ni = A(v, 5), kinds = A(v, 6); arr = A(v, 2); dim = A(v, 3); usemu = A(v, 7); mp_globals(4, dim > 1 ? 4 : 1, dim > 2 ? 4 : 1, 1, 1, lat, 0); mesh_size = 3; init_params(NO_PARITY, 1); int im = 0;
#ifdef WITH_HERMITIAN_EPSILON
    im = 1;
#endif
    int ka = kinds == 1 ? 1 + im : kinds == 2 ? 1 + im : 0, kb = kinds == 3 || kinds == 2 ? 1 + im : 0; material_type P = mat(ka, 0, kinds != 3), Q = mat(kb, 1, kinds == 0 || kinds == 3), O = mp_medium(6, 7); double X = geometry_lattice.size.x, h = X / 8, L = -0.5 * X, U = 0.5 * X, Y = 0.5 * geometry_lattice.size.y, Z = 0.5 * geometry_lattice.size.z; vector3 zs = {0, 0, 0};
    static const vector3 NR[8] = {{1, 0, 0}, {0.6, 0.8, 0}, {0, 1, 0}, {-0.8, 0.6, 0}, {0, 0, 1}, {2. / 3, -1. / 3, 2. / 3}, {0, -0.6, 0.8}, {-1, 0, 0}}; int nn0 = A(v, 8); force_mup = 1;
    for (i = 0; i < MAXO; i++) { nrm[i] = NR[(ni + i) % 8]; if (dim < 3) nrm[i].z = 0; if (dim < 2) nrm[i] = mp_v(1 - 2 * (i & 1), 0, 0); fill[i] = sr_varf(0.3 + 0.1 * i, "fill%d", i); sr_assume_ge(fill[i], 0); sr_assume_ge(1, fill[i]); } (void)nn0;
    for (c = 0; c < 3; c++) { rr[c] = 0.5; s_[c] = c < dim ? 0.25 : 1; hw[c] = c < dim ? ((double *)&geometry_lattice.size)[c] / 8 : 0; } default_material = Q; mA = P; mB = Q; pshift = zs; top = 0; FA = fill[0]; wantret = 1;
    switch (arr) {
    case 0: obj(P, L, -Y, -Z, 0.25 * h, Y, Z); break;                                         /* an object covers the centre */
    case 1: obj(P, L, -Y, -Z, -0.25 * h, Y, Z); break;                                        /* it does not */
    case 2: obj(P, L, -Y, -Z, U, Y, Z); uni = 1; break;                                       /* inside one object */
    case 3: uni = 1; mA = Q; obj(P, 3 * h, -Y, -Z, 3.5 * h, Y, Z); break;                      /* outside every object */
    case 4: obj(P, L, -Y, -Z, -0.25 * h, Y, Z); obj(O, 0.25 * h, -Y, -Z, 2 * h, Y, Z); wantret = 0; break; /* three materials */
    case 5: default_material = O; obj(Q, L, -Y, -Z, U, Y, Z); obj(P, L, -Y, -Z, 0.25 * h, Y, Z); top = 1; FA = fill[1]; break; /* object over object */
    case 6: default_material = O; obj(P, L, -Y, -Z, U, Y, Z); obj(Q, L, -Y, -Z, 0.25 * h, Y, Z); top = 1; FA = 1 - fill[1]; break;
    case 7: obj(P, L, -Y, -Z, U, Y, Z); obj(self(), L, -Y, -Z, -0.25 * h, Y, Z); top = 1; FA = 1 - fill[1]; break; /* a hole showing the default material */
    case 8: default_material = P; obj(P, L, -Y, -Z, 0.25 * h, Y, Z); uni = 1; break;           /* same material on both sides */
    case 9: rr[0] = 0; obj(P, 0.3 * X, -Y, -Z, 0.5 * X + 0.25 * h, Y, Z); pshift = mp_v(-X, 0, 0); break; /* across the cell boundary, image of an object */
    case 10: rr[0] = 0; obj(P, -0.5 * X - 0.25 * h, -Y, -Z, 0, Y, Z); break;
    case 11: obj(P, 0.25 * h, -Y, -Z, X - 0.25 * h, Y, Z); wantret = 0; break;                  /* both ends: two images of the same object */
    case 12: obj(func(P), L, -Y, -Z, 0.25 * h, Y, Z); wantret = 0; break;
    case 13: default_material = func(Q); obj(P, L, -Y, -Z, 0.25 * h, Y, Z); wantret = 0; break;
    case 14: default_material = mat(5, 0, 1); obj(P, L, -Y, -Z, 0.25 * h, Y, Z); wantret = 0; break;
    case 15: obj(P, L, -Y, -Z, 0.25 * h, Y, Z); if (usemu) mu_input_file = "mufile"; else epsilon_input_file = "epsfile"; wantret = 0; break;
    case 16: default_material = func(Q); obj(P, L, -Y, -Z, U, Y, Z); uni = 1; wantret = 2; break;
    case 17: default_material = func(Q); obj(P, L, -Y, -Z, U, Y, Z); obj(self(), L, -Y, -Z, -0.25 * h, Y, Z); wantret = 0; break;
    case 18: if (usemu) epsilon_input_file = "epsfile"; else mu_input_file = "mufile"; obj(P, L, -Y, -Z, 0.25 * h, Y, Z); break; /* the other quantity's file does not matter */
    case 19: obj(mat(5, 0, 1), L, -Y, -Z, U, Y, Z); wantret = 0; break;
    case 20: obj(P, L, -Y, -Z, U, Y, Z); obj(P, L, -Y, -Z, 0.25 * h, Y, Z); uni = 1; break;
    case 21: rr[0] = 0.25; rr[1] = dim > 1 ? 0.75 : 0.5; obj(P, L, -Y, -Z, -0.25 * X + 0.25 * h, Y, Z); break;
    case 22: obj(Q, L, -Y, -Z, -0.25 * h, Y, Z); obj(P, 0.25 * h, -Y, -Z, U, Y, Z); top = 1; FA = fill[1]; wantret = 2; break; /* two materials in three regions */
    case 23: obj(Q, L, -Y, -Z, 0.25 * h, Y, Z); obj(P, L, -Y, -Z, -0.25 * h, Y, Z); top = 1; FA = fill[1]; wantret = 2; break;
    case 24: obj(P, 0.25 * h, -Y, -Z, U, Y, Z); obj(Q, L, -Y, -Z, -0.25 * h, Y, Z); top = 0; wantret = 2; break;
    case 25: obj(P, L, -Y, -Z, -0.25 * h, Y, Z); obj(Q, L, 0.25 * h, -Z, U, Y, Z); wantret = 0; break; /* an upper object covers part of the other's share of the pixel */
    case 26: obj(P, 0.25 * h, -Y, -Z, U, Y, Z); obj(Q, L, L, -Z, U, -0.25 * h, Z); wantret = 0; break;
    case 27: obj(Q, L, 0.25 * h, -Z, U, Y, Z); obj(P, L, -Y, -Z, -0.25 * h, Y, Z); top = 1; FA = fill[1]; wantret = 2; break; /* a lower one does not matter */
    case 28: obj(P, L, -Y, -Z, 0.25 * h, Y, Z); obj(Q, L, 0.25 * h, -Z, U, Y, Z); wantret = 0; break;
    default: sr_fatal("arrangement"); }
    p_of_r(0); test = t_mean; go_reset(0); }
  sr_reach("end"); return 0; }
