/* Harness API of the symbolic-real engine.  The same harness is compiled twice:
   symbolically (IR-instrumented, linked with rt.cpp) and natively
   (SR_NATIVE, linked with native.c) for replay of counterexamples. */
#ifndef SYM_H
#define SYM_H
#ifdef __cplusplus
extern "C" {
#endif
double sr_var(const char *name, double nominal);            /* arbitrary real */
double sr_varf(double nominal, const char *fmt, ...);
void sr_angle(double k, int D);     /* k may occur in cos/sin(2 pi n k/D + const) */
void sr_assume_gt(double a, double b);
void sr_assume_ge(double a, double b);
void sr_assume_ne(double a, double b);
void sr_assume_eq(double a, double b);
void sr_define(double var, double value); /* var := value, defining equation (assumed) */
void sr_check_eq(const char *label, double a, double b);
void sr_check_le(const char *label, double a, double b);
void sr_check_lt(const char *label, double a, double b);
void sr_check_ne(const char *label, double a, double b);
void sr_check_true(const char *label, int cond);
void sr_checkf_eq(double a, double b, const char *fmt, ...);
void sr_checkf_le(double a, double b, const char *fmt, ...);
void sr_checkf_lt(double a, double b, const char *fmt, ...);
void sr_checkf_true(int cond, const char *fmt, ...);
int sr_choose(const char *name, int lo, int hi); /* arbitrary integer lo..hi */
void sr_infeasible(const char *why);  /* end the path: outside the claim */
void sr_reach(const char *label);
void sr_done(void);                   /* normal end of harness: dump and exit 0 */
int sr_is_native(void);
int sr_symbolic(double x);
double sr_sqrt_of(double x);          /* exact nonneg. square root */
void sr_expect_fail(int on);          /* 1: program stop (exit/abort/die) is an allowed, recorded outcome */
int sr_stopped(void);
void sr_fatal(const char *fmt, ...);  /* engine error */
double sr_fresh(const char *prefix, double nominal);
double sr_nominal(double x);
double sr_cos2pi(double k_num_over_D);/* cos(2*pi*x), sin(2*pi*x) for registered angles */
double sr_sin2pi(double x);
void sr_quiet(double x);             /* comparisons that depend on x follow the nominal values without splitting */
void sr_note(const char *fmt, ...);
void sr_divzero_obligation(int on);
void sr_cut_at_division(int on);      /* end the path at the next division of unknowns */
void sr_eigvals(int n, const double *re, const double *im, double *w); /* eigenvalues at the nominal point */
void *sr_malloc(unsigned long n);
#ifdef __cplusplus
}
#endif
#endif
