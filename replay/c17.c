/* C17 replay: evaluations counted and limited, arguments refused, reverse communication against direct calls */
#include "h.h"
#include "optimpack.h"
#include "newuoa.h"
#include "dfo.h"
static long lim_; static double *xin_, *scl_;
static double fobj(const opk_index n, const double* x, void* data) {
  if (data != &token_) FAIL("the data of the caller is not passed");
  if (n != nvar_) FAIL("objective function called for %ld variables instead of %d", (long)n, nvar_);
  if (N_ >= lim_) FAIL("more than %ld evaluations", lim_);
  if (!scl_ && x != xin_) FAIL("objective function not given the variables");
  if (scl_) for (int i = 0; i < n; ++i) { double t = scl_[i] * xin_[i]; if (!samed(t, x[i])) FAIL("variable %d is not scaled", i); }
  return eval_(n, x);
}
static long wsize(long n, long npt, int s) { return (npt + 13) * (npt + n) + 3 * n * (n + 3) / 2 + (s ? n : 0); }
static int final(int st) { return st == NEWUOA_SUCCESS || st == NEWUOA_TOO_MANY_EVALUATIONS || st == NEWUOA_STEP_FAILED || st == NEWUOA_ROUNDING_ERRORS; }
/* x is (to rounding) a point where the best value was found */
static void best(const char* who, int n, const double* x, double f, int max, double rho) {
  double b = VAL_[0]; int ok = 0; long m = N_ < MAXEV ? N_ : MAXEV;
  for (long k = 0; k < m; ++k) if (!(fabs(VAL_[k]) < 1e50)) return; /* diverging */
  for (long k = 1; k < m; ++k) if (max ? VAL_[k] > b : VAL_[k] < b) b = VAL_[k];
  if (f != b) FAIL("%s: reported value %.17g, best one %.17g", who, f, b);
  for (long k = 0; k < m && !ok; ++k) if (VAL_[k] == b) { ok = 1; for (int i = 0; i < n; ++i) { double e = 1e-9 * (1 + fabs(x[i]) + rho); if (!(fabs(PT_[k][i] - x[i]) <= e)) ok = 0; } }
  if (!ok) FAIL("%s: final variables are not those of the best value (n=%d kind=%d max=%d scaled=%d x0=%g.. f=%g N=%ld)", who, n, kind_, max, scl_ != 0, x[0], f, N_);
}
static double (*PS)[8], *VS;
static void one(int t) {
  int n = 2 + rndi(5), lo = n + 2, hi = (n + 1) * (n + 2) / 2, npt = rndi(3) == 0 ? lo : rndi(3) == 0 ? hi : rndi(2) ? (2 * n + 1 < hi ? 2 * n + 1 : hi) : lo + rndi(hi - lo + 1), st, r2, i;
  long maxfun = rndi(4) == 0 ? rndi(npt + 3) : rndi(3) == 0 ? -rndi(3) : 20 + rndi(t ? 2000 : 400), ns;
  int max = rndi(3) == 0, sc = rndi(3), iprint = 0;
  double rb = pow(10, -rndi(3)), re = rb * pow(10, -rndi(7)), x0[8], f;
  double *x, *scl = NULL, *s0 = NULL, *w, *xr;
  newuoa_context* c;
  newproblem(); nvar_ = n; wild_ = rndi(12) == 0;
  for (i = 0; i < n; ++i) x0[i] = 3 * rndr();
  x = gdup(x0, n); xin_ = x;
  if (sc) { scl = gdup(NULL, n); for (i = 0; i < n; ++i) scl[i] = sc == 1 ? 1 : pow(2, rndi(9) - 4); s0 = gdup(scl, n); }
  scl_ = NULL; if (sc == 2) for (i = 0; i < n; ++i) if (scl[i] != 1) scl_ = scl;
  w = gdup(NULL, wsize(n, npt, scl_ != NULL)); /* exactly the documented size */
  lim_ = maxfun < 1 ? 1 : maxfun; ++cases_;
  uint64_t save = rs_;
  st = newuoa_optimize(n, npt, max, fobj, &token_, x, scl, rb, re, iprint, maxfun, w);
  if (!final(st)) FAIL("optimize: status %d for valid arguments", st);
  if (N_ < 1 || N_ > lim_) FAIL("optimize: %ld evaluations, limit %ld", N_, lim_);
  if (st == NEWUOA_TOO_MANY_EVALUATIONS && N_ != lim_) FAIL("optimize: too many evaluations reported after %ld of %ld", N_, lim_);
  if (scl && memcmp(scl, s0, n * sizeof(double))) FAIL("optimize: scales overwritten");
  if (!wild_) best("optimize", n, x, w[0], max, rb);
  /* same run by reverse communication */
  if (!scl_ && !max && maxfun >= 1) {
    double (*p)[8] = PT_; double* v = VAL_; PT_ = PS; VAL_ = VS; PS = p; VS = v;
    ns = N_;
    xr = gdup(x0, n);
    c = newuoa_create(n, npt, rb, re, iprint, maxfun);
    if (!c) FAIL("create: refused valid arguments");
    int turns = rndi(3) == 0 ? 2 : 1, cut = rndi(3) == 0;
    for (int k = 0; k < turns; ++k) {
      N_ = 0; rs_ = save; memcpy(xr, x0, n * sizeof(double));
      if (newuoa_get_status(c) != NEWUOA_ITERATE || newuoa_get_nevals(c) != 0 || newuoa_get_rho(c) != 0) FAIL("reverse communication: initial state %d %ld %g", newuoa_get_status(c), (long)newuoa_get_nevals(c), newuoa_get_rho(c));
      while ((r2 = newuoa_get_status(c)) == NEWUOA_ITERATE) {
        if (N_ >= maxfun) FAIL("reverse communication: evaluation %ld requested, limit %ld", N_ + 1, maxfun);
        f = eval_(n, xr);
        r2 = newuoa_iterate(c, f, xr);
        if (r2 != newuoa_get_status(c)) FAIL("reverse communication: returned status %d, recorded %d", r2, newuoa_get_status(c));
        if (newuoa_get_nevals(c) != N_) FAIL("reverse communication: %ld evaluations counted, %ld made", (long)newuoa_get_nevals(c), N_);
        if (!(newuoa_get_rho(c) > 0 && newuoa_get_rho(c) <= rb)) FAIL("reverse communication: radius %g", newuoa_get_rho(c));
        if (cut && k == 0 && turns > 1 && N_ > 3 && rndi(20) == 0) break;
      }
      if (k + 1 == turns) {
        if (r2 != st || N_ != ns) FAIL("reverse communication: status %d after %ld evaluations, direct: %d after %ld%s", r2, N_, st, ns, turns > 1 ? " (restarted)" : "");
        for (long q = 0; q < ns && q < MAXEV; ++q) for (i = 0; i < n; ++i) if (!samed(PT_[q][i], PS[q][i])) FAIL("reverse communication: point %ld differs from the direct call%s", q, turns > 1 ? " (restarted)" : "");
        for (i = 0; i < n; ++i) if (!samed(xr[i], x[i])) FAIL("reverse communication: final variables differ from the direct call");
        if (newuoa_iterate(c, 0, xr) != NEWUOA_CORRUPTED || newuoa_get_nevals(c) != N_) FAIL("iterate after the end not refused");
        for (i = 0; i < n; ++i) if (!samed(xr[i], x[i])) FAIL("iterate after the end changed the variables");
      }
      if (newuoa_restart(c) != NEWUOA_ITERATE) FAIL("restart refused");
    }
    if (rndi(2)) { if (newuoa_iterate(c, 0, NULL) != NEWUOA_BAD_ADDRESS || newuoa_get_status(c) != NEWUOA_BAD_ADDRESS || newuoa_get_nevals(c) != 0) FAIL("iterate without variables not refused"); }
    newuoa_delete(c); free(xr);
  }
  free(x); free(w); free(scl); free(s0);
}
static void refused(void) {
  int n = 2 + rndi(4), npt = 2 * n + 1, e, st, i;
  double rb = 1, re = 1e-3, x0[8], w0[4000];
  long maxfun = 50;
  static const double bad[] = {0, -1, NAN, INFINITY, -INFINITY};
  double *x, *w, *scl = NULL;
  newproblem(); nvar_ = n; lim_ = 0; wild_ = 0; ++cases_;
  x = gdup(NULL, 8); memcpy(x0, x, sizeof x0); xin_ = x;
  w = gdup(NULL, 4000); memcpy(w0, w, sizeof w0);
  int k = rndi(7), want = 0; opk_index nn = n, pp = npt;
  switch (k) {
  case 0: nn = 1 - rndi(4); pp = rndi(2) ? 3 : npt; want = NEWUOA_BAD_NVARS; break;
  case 1: pp = rndi(2) ? n + 1 - rndi(3) : (n + 1) * (n + 2) / 2 + 1 + rndi(3); want = NEWUOA_BAD_NPT; break;
  case 2: re = rndi(2) ? 0 : -rnd01(); want = NEWUOA_BAD_RHO_RANGE; break;
  case 3: re = rb * (1 + rnd01()) + 1e-9; want = NEWUOA_BAD_RHO_RANGE; break;
  case 4: if (rndi(2)) rb = NAN; else re = NAN; want = NEWUOA_BAD_RHO_RANGE; break;
  case 5: scl = gdup(NULL, n); for (i = 0; i < n; ++i) scl[i] = rndi(2) ? 1 : 1 + rnd01(); scl[rndi(n)] = bad[rndi(5)]; want = NEWUOA_BAD_SCALING; break;
  default: maxfun = -rndi(3); break;
  }
  if (k < 6) {
    st = newuoa_optimize(nn, pp, rndi(2), fobj, &token_, x, scl, rb, re, 0, maxfun, w);
    if (st != want) FAIL("optimize: status %d instead of %d (case %d)", st, want, k);
    if (N_) FAIL("optimize: evaluation with invalid arguments (case %d)", k);
    if (memcmp(x, x0, sizeof x0) || memcmp(w, w0, sizeof w0)) FAIL("optimize: refused with a change (case %d)", k);
  }
  if (k != 5) {
    errno = e = 0;
    newuoa_context* c = newuoa_create(nn, pp, rb, re, 0, maxfun);
    if (c) FAIL("create: invalid arguments accepted (case %d)", k);
    if (errno != EINVAL) FAIL("create: invalid arguments reported by errno %d (case %d)", errno, k);
  }
  errno = 0; if (newuoa_get_status(NULL) != NEWUOA_BAD_ADDRESS || errno != EFAULT) FAIL("status of nothing");
  errno = 0; if (newuoa_get_nevals(NULL) != -1 || errno != EFAULT) FAIL("count of nothing");
  errno = 0; if (newuoa_get_rho(NULL) != -1 || errno != EFAULT) FAIL("radius of nothing");
  errno = 0; if (newuoa_restart(NULL) != NEWUOA_BAD_ADDRESS || errno != EFAULT) FAIL("restart of nothing");
  if (newuoa_iterate(NULL, 0, x) != NEWUOA_BAD_ADDRESS) FAIL("iterate of nothing");
  newuoa_delete(NULL);
  free(x); free(w); free(scl);
}
int main(int argc, char** argv) {
  int t = thorough_(argc, argv), k;
  seed_(argc, argv);
  PT_ = malloc(MAXEV * sizeof *PT_); VAL_ = malloc(MAXEV * sizeof *VAL_); PS = malloc(MAXEV * sizeof *PS); VS = malloc(MAXEV * sizeof *VS);
  for (k = 0; k < 300; ++k) refused();
  for (k = 0; k < (t ? 4000 : 400); ++k) one(t);
  DONE();
}
