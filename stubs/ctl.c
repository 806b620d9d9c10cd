/* libctl and Guile, as far as mpb/ uses them: vectors, values passed to and from Scheme
   functions, a geometry that the harness defines, and the input/output variables. */
#include <ctl.h>
#define extern
#include <ctl-io.h>
#undef extern
#include <ctlgeom.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "ctlstub.h"
#define WEAK __attribute__((weak))
int __attribute__((weak)) verbose = 0; char *program_name = "mpb"; int num_read_input_vars = 0, num_write_output_vars = 0;
/* ---- vectors ---- */
number vector3_dot(vector3 a, vector3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
number vector3_norm(vector3 v) { return sqrt(vector3_dot(v, v)); }
vector3 vector3_scale(number s, vector3 v) { vector3 r = {s * v.x, s * v.y, s * v.z}; return r; }
vector3 unit_vector3(vector3 v) { number n = vector3_norm(v); if (n == 0.0) return v; return vector3_scale(1.0 / n, v); }
vector3 vector3_cross(vector3 a, vector3 b) { vector3 r = {a.y * b.z - b.y * a.z, a.z * b.x - b.z * a.x, a.x * b.y - b.x * a.y}; return r; }
vector3 vector3_plus(vector3 a, vector3 b) { vector3 r = {a.x + b.x, a.y + b.y, a.z + b.z}; return r; }
vector3 vector3_minus(vector3 a, vector3 b) { vector3 r = {a.x - b.x, a.y - b.y, a.z - b.z}; return r; }
int vector3_equal(vector3 a, vector3 b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
vector3 matrix3x3_vector3_mult(matrix3x3 m, vector3 v) { return vector3_plus(vector3_scale(v.x, m.c0), vector3_plus(vector3_scale(v.y, m.c1), vector3_scale(v.z, m.c2))); }
vector3 matrix3x3_transpose_vector3_mult(matrix3x3 m, vector3 v) { vector3 r = {vector3_dot(m.c0, v), vector3_dot(m.c1, v), vector3_dot(m.c2, v)}; return r; }
matrix3x3 matrix3x3_mult(matrix3x3 a, matrix3x3 b) { matrix3x3 m; m.c0 = matrix3x3_vector3_mult(a, b.c0); m.c1 = matrix3x3_vector3_mult(a, b.c1); m.c2 = matrix3x3_vector3_mult(a, b.c2); return m; }
matrix3x3 matrix3x3_transpose(matrix3x3 m) { matrix3x3 t = {{m.c0.x, m.c1.x, m.c2.x}, {m.c0.y, m.c1.y, m.c2.y}, {m.c0.z, m.c1.z, m.c2.z}}; return t; }
number matrix3x3_determinant(matrix3x3 m) { return vector3_dot(m.c0, vector3_cross(m.c1, m.c2)); }
__attribute__((weak)) matrix3x3 matrix3x3_inverse(matrix3x3 m) { number d = matrix3x3_determinant(m); matrix3x3 t; if (d == 0.0) sr_fatal("singular matrix"); t.c0 = vector3_scale(1 / d, vector3_cross(m.c1, m.c2)); t.c1 = vector3_scale(1 / d, vector3_cross(m.c2, m.c0)); t.c2 = vector3_scale(1 / d, vector3_cross(m.c0, m.c1)); return matrix3x3_transpose(t); }
int matrix3x3_equal(matrix3x3 a, matrix3x3 b) { return vector3_equal(a.c0, b.c0) && vector3_equal(a.c1, b.c1) && vector3_equal(a.c2, b.c2); }
cnumber make_cnumber(number r, number i) { cnumber c; c.re = r; c.im = i; return c; }
cnumber cnumber_conj(cnumber c) { c.im = -c.im; return c; }
vector3 cvector3_re(cvector3 v) { vector3 r = {v.x.re, v.y.re, v.z.re}; return r; }
vector3 cvector3_im(cvector3 v) { vector3 r = {v.x.im, v.y.im, v.z.im}; return r; }
cvector3 make_cvector3(vector3 a, vector3 b) { cvector3 c; c.x = make_cnumber(a.x, b.x); c.y = make_cnumber(a.y, b.y); c.z = make_cnumber(a.z, b.z); return c; }
cmatrix3x3 make_hermitian_cmatrix3x3(number m00, number m11, number m22, cnumber m01, cnumber m02, cnumber m12) { cmatrix3x3 c; c.c0.x = make_cnumber(m00, 0); c.c1.y = make_cnumber(m11, 0); c.c2.z = make_cnumber(m22, 0); c.c1.x = m01; c.c0.y = cnumber_conj(m01); c.c2.x = m02; c.c0.z = cnumber_conj(m02); c.c2.y = m12; c.c1.z = cnumber_conj(m12); return c; }
matrix3x3 cmatrix3x3_re(cmatrix3x3 m) { matrix3x3 r = {cvector3_re(m.c0), cvector3_re(m.c1), cvector3_re(m.c2)}; return r; }
matrix3x3 cmatrix3x3_im(cmatrix3x3 m) { matrix3x3 r = {cvector3_im(m.c0), cvector3_im(m.c1), cvector3_im(m.c2)}; return r; }
/* ---- values ---- */
static SCM cell(int kind) { ctlval *v = 0; if (posix_memalign((void **)&v, 16, sizeof *v)) abort(); memset(v, 0, sizeof *v); v->w0 = 0x7f00 | 0x5; v->kind = kind; return (SCM)v; }
ctlval *ctl_val(SCM s) { ctlval *v = (ctlval *)s; if (((unsigned long)s & 7) || !s || v->w0 != (0x7f00 | 0x5)) sr_fatal("not a modelled Scheme value"); return v; }
SCM ctl_fn(int id) { SCM s = cell('f'); ctl_val(s)->id = id; return s; }
SCM ctl_array(double *d, int r, const int *n) { SCM s = cell('a'); ctlval *v = ctl_val(s); int i; v->data = d; v->rank = r; for (i = 0; i < r; i++) v->dims[i] = n[i]; return s; }
static ctlval *want(SCM s, int k) { ctlval *v = ctl_val(s); if (v->kind != k) sr_fatal("Scheme value of kind %c where %c is needed", v->kind, k); return v; }
SCM scm_from_double(double x) { SCM s = cell('n'); ctl_val(s)->d[0] = x; return s; }
double scm_to_double(SCM s) { ctlval *v = ctl_val(s); if (v->kind == 'c') { sr_check_eq("complex value used as a real one", v->d[1], 0); return v->d[0]; } return want(s, 'n')->d[0]; }
SCM vector32scm(vector3 a) { SCM s = cell('v'); ctlval *v = ctl_val(s); v->d[0] = a.x; v->d[1] = a.y; v->d[2] = a.z; return s; }
vector3 scm2vector3(SCM s) { ctlval *v = want(s, 'v'); vector3 r = {v->d[0], v->d[1], v->d[2]}; return r; }
SCM cnumber2scm(cnumber a) { SCM s = cell('c'); ctl_val(s)->d[0] = a.re; ctl_val(s)->d[1] = a.im; return s; }
cnumber scm2cnumber(SCM s) { ctlval *v = ctl_val(s); if (v->kind == 'n') return make_cnumber(v->d[0], 0); return make_cnumber(want(s, 'c')->d[0], v->d[1]); }
SCM cvector32scm(cvector3 a) { SCM s = cell('w'); memcpy(ctl_val(s)->d, &a, sizeof a); return s; }
cvector3 scm2cvector3(SCM s) { ctlval *v = ctl_val(s); cvector3 r; if (v->kind == 'v') { vector3 z = {0, 0, 0}; return make_cvector3(scm2vector3(s), z); } memcpy(&r, want(s, 'w')->d, sizeof r); return r; }
SCM scm_from_int32(int x) { SCM s = cell('i'); ctl_val(s)->id = x; return s; }
int scm_to_int32(SCM s) { return want(s, 'i')->id; }
SCM scm_cons(SCM a, SCM b) { SCM s = cell('p'); ctl_val(s)->a = a; ctl_val(s)->b = b; return s; }
WEAK SCM ctl_apply(SCM f, int n, SCM *a) { sr_fatal("call of a Scheme function"); return f; }
SCM scm_call_0(SCM f) { return ctl_apply(f, 0, 0); }
SCM scm_call_1(SCM f, SCM a) { return ctl_apply(f, 1, &a); }
SCM scm_call_2(SCM f, SCM a, SCM b) { SCM v[2] = {a, b}; return ctl_apply(f, 2, v); }
SCM scm_call_3(SCM f, SCM a, SCM b, SCM c) { SCM v[3] = {a, b, c}; return ctl_apply(f, 3, v); }
SCM scm_apply_0(SCM f, SCM l) { SCM v[16]; int n = 0; while (l != SCM_EOL) { if (n == 16) sr_fatal("long argument list"); v[n++] = want(l, 'p')->a; l = ctl_val(l)->b; } return ctl_apply(f, n, v); }
/* smobs */
static long nsmob = 0;
scm_t_bits scm_make_smob_type(char const *n, size_t s) { return 0x7f + 256 * ++nsmob; }
void scm_set_smob_free(scm_t_bits t, size_t (*f)(SCM)) {}
void scm_set_smob_print(scm_t_bits t, int (*f)(SCM, SCM, scm_print_state *)) {}
SCM scm_i_new_smob(scm_t_bits tc, scm_t_bits data) { scm_t_bits *c = 0; if (posix_memalign((void **)&c, 16, 64)) abort(); memset(c, 0, 64); c[0] = tc; c[1] = data; return (SCM)c; }
SCM scm_new_smob(scm_t_bits tc, scm_t_bits data) { return scm_i_new_smob(tc, data); }
SCM scm_c_define_gsubr(const char *n, int a, int b, int c, scm_t_subr f) { return SCM_BOOL_F; }
void *scm_gc_malloc(size_t n, const char *w) { return sr_malloc(n); }
/* arrays */
int scm_is_array(SCM s) { ctlval *v = (ctlval *)s; return !((unsigned long)s & 7) && s && v->w0 == (0x7f00 | 5) && v->kind == 'a'; }
void scm_array_get_handle(SCM s, scm_t_array_handle *h) { memset(h, 0, sizeof *h); h->array = s; want(s, 'a')->open++; }
double *scm_array_handle_f64_writable_elements(scm_t_array_handle *h) { return want(h->array, 'a')->data; }
void *scm_array_handle_uniform_writable_elements(scm_t_array_handle *h) { return want(h->array, 'a')->data; }
void scm_array_handle_release(scm_t_array_handle *h) { ctlval *v = want(h->array, 'a'); if (v->open <= 0) sr_check_true("array handle released without being held", 0); v->open--; }
/* ---- control-file variables ---- */
WEAK number ctl_get_number(const char *id) { if (!strcmp(id, "infinity")) return 1e20; sr_fatal("ctl_get_number %s", id); return 0; }
char *ctl_fix_path(const char *p) { return strdup(p); }
SCM destroy_output_vars(void) { return SCM_UNDEFINED; }
int ctl_n[3] = {1, 1, 1};
void get_grid_size_n(int *nx, int *ny, int *nz) { *nx = ctl_n[0]; *ny = ctl_n[1]; *nz = ctl_n[2]; }
/* ---- geometry: nothing but the default material unless the harness says otherwise ---- */
WEAK geom_box_tree geom_tree_search(vector3 p, geom_box_tree t, int *oi) { return 0; }
WEAK geom_box_tree geom_tree_search_next(vector3 p, geom_box_tree t, int *oi) { return 0; }
WEAK const geometric_object *object_of_point_in_tree(vector3 p, geom_box_tree t, vector3 *s, int *pr) { s->x = s->y = s->z = 0; *pr = 0; return 0; }
static double wrap1(double x, double s) { while (x >= 0.5 * s) x -= s; while (x < -0.5 * s) x += s; return x; }
WEAK vector3 shift_to_unit_cell(vector3 p) { return p; }
WEAK vector3 to_geom_box_coords(vector3 p, geom_box_object *o) { return p; }
WEAK vector3 normal_to_fixed_object(vector3 p, geometric_object o) { sr_fatal("normal_to_fixed_object"); return p; }
WEAK number box_overlap_with_object(geom_box b, geometric_object o, number tol, integer me) { sr_fatal("box_overlap_with_object"); return 0; }
WEAK boolean point_in_periodic_fixed_objectp(vector3 p, geometric_object o) { sr_fatal("point_in_periodic_fixed_objectp"); return 0; }
void geom_fix_objects(void) {}
void geom_fix_objects0(geometric_object_list l) {}
void geom_fix_object_list(geometric_object_list l) {}
void destroy_geom_box_tree(geom_box_tree t) {}
WEAK geom_box_tree create_geom_box_tree0(geometric_object_list g, geom_box b) { return 0; }
void geom_box_tree_stats(geom_box_tree t, int *d, int *n) { *d = *n = 0; }
void display_geom_box_tree(int i, geom_box_tree t) {}
void display_geometric_object_info(int i, geometric_object o) {}
boolean vec3eq(vector3 a, vector3 b) { return vector3_equal(a, b); }
WEAK boolean material_type_equal(const material_type *a, const material_type *b) {
  if (a->which_subclass != b->which_subclass) return 0;
  if (a->which_subclass == MEDIUM) return a->subclass.medium_data->epsilon == b->subclass.medium_data->epsilon && a->subclass.medium_data->mu == b->subclass.medium_data->mu;
  if (a->which_subclass == MEDIUM_ANISOTROPIC) { medium_anisotropic *p = a->subclass.medium_anisotropic_data, *q = b->subclass.medium_anisotropic_data; double *x = (double *)p, *y = (double *)q; unsigned i; for (i = 0; i < sizeof(*p) / sizeof(double); i++) if (!(x[i] == y[i])) return 0; return 1; }
  if (a->which_subclass == MATERIAL_GRID) return a->subclass.material_grid_data->matgrid == b->subclass.material_grid_data->matgrid;
  if (a->which_subclass == MATERIAL_FUNCTION) return a->subclass.material_function_data->material_func == b->subclass.material_function_data->material_func;
  return 1; }
WEAK boolean material_grid_equal(const material_grid *a, const material_grid *b) { return a->matgrid == b->matgrid; }
int ctl_destroyed = 0;
void material_type_destroy(material_type m) { ctl_destroyed++; }
WEAK void material_type_input(SCM so, material_type *o) { sr_fatal("material_type_input"); }
void register_nothing(void) {}
