/* the line minimizer against an arbitrary function. args: maxevals tolset(0 usual 1 arbitrary 2 usual, concrete first values) sign */
#include "hx.h"
#include "config.h"
#include "linmin.h"
static int nev = 0, maxev, cls; static double f0, d0; static double xs[8], fs[8], ds[8], X0, X1; static int neg;
static double fn(double x, double *d, void *u) {
  if (u != (void *)xs) sr_check_true("user data passed on", 0);
  if (nev >= maxev) sr_infeasible("more evaluations than the bound");
  sr_checkf_le(neg ? -X1 : X0, x, "evaluation %d not below the interval", nev); sr_checkf_le(x, neg ? -X0 : X1, "evaluation %d not above the interval", nev);
  xs[nev] = x; if (cls && nev + 1 < maxev) { /* one of several concrete shapes of the first values */ static const double fa[6] = {0.5, 0.5, 0.5, -0.25, 0.03125, 0.5}, da[6] = {-0.5, 0.5, 1.5, 0.5, 0.25, -1}; int k = sr_choose("shape", 0, 5); fs[nev] = f0 + fa[k] * x * d0; ds[nev] = da[k] * d0; *d = ds[nev]; return fs[nev++]; }
  fs[nev] = sr_varf(0.7 - 0.2 * nev, "f%d", nev); ds[nev] = sr_varf(nev == 0 ? (neg ? -0.6 : 0.6) : 0.0, "d%d", nev); *d = ds[nev]; if (maxev > 1) sr_cut_at_division(nev + 1 == maxev); return fs[nev++]; }
static double xg, ft, dt, cf, cd, xr; static double xt = 1e-14;
static void go(void *u) { xr = linmin(&cf, &cd, xg, f0, d0, ft, dt, xt, neg ? -X0 : X0, neg ? -X1 : X1, fn, xs, 0); (void)u; }
int harness_main(int argc, char **v) { int i, ok = 0; (void)argc; maxev = atoi(v[1]); neg = atoi(v[3]); cls = atoi(v[2]) == 2;
  X0 = 0; X1 = 3.140625; f0 = sr_var("f_0", 1.0); d0 = sr_var("df_0", neg ? 1.0 : -1.0); if (neg) sr_assume_gt(d0, 0.0); else sr_assume_gt(0.0, d0);
  xg = sr_var("guess", neg ? -0.5 : 0.5); if (neg) { sr_assume_gt(0.0, xg); sr_assume_ge(xg, -X1); } else { sr_assume_gt(xg, 0.0); sr_assume_ge(X1, xg); }
  if (atoi(v[2]) == 1) { ft = sr_var("ftol", 0.1); dt = sr_var("dtol", 0.01); sr_assume_gt(ft, 0.0); sr_assume_gt(1.0, ft); sr_assume_gt(dt, 0.0); } else { ft = 0.1; dt = 1e-6; }
  i = hx_try(go, 0); sr_cut_at_division(0); if (i) { sr_check_true("the search does not give up on valid input", 0); return 0; }
  for (i = 0; i < nev; i++) { (void)ok; }
  sr_check_true("at least one evaluation", nev >= 1);
  sr_check_eq("reported value is the value at the returned point", cf, fs[nev - 1]); sr_check_eq("reported slope", cd, ds[nev - 1]); sr_check_eq("returned point is the last evaluated", xr, xs[nev - 1]);
  int rep = xr == 0; for (i = 0; i + 1 < nev && !rep; i++) rep = xr == xs[i];
  if (!rep) { sr_check_le("sufficient decrease", cf, f0 + xr * (ft * d0)); if (xr == (neg ? -X1 : X1)) sr_check_le(neg ? "still descending at the far end" : "still descending at far end", neg ? -cd : cd, 0.0 * ft + (neg ? dt * d0 : -dt * d0)); else { sr_check_le("slope tolerance", cd, dt * (neg ? d0 : -d0)); sr_check_le("slope tolerance (lower)", -cd, dt * (neg ? d0 : -d0)); } }
  sr_reach("returned");
  return 0; }
