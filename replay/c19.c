/* C19 replay: evaluations counted and limited, arguments refused, reverse communication against direct calls */
#include "h.h"
#include "optimpack.h"
#include "cobyla.h"
#include "dfo.h"
#define MC 6
static long lim_; static int m_, ckind_; static double *xin_, *scl_, Q_[64], (*CT_)[MC], (*CS)[MC];
static void cons(int n, const double* x, double* c) {
  int i, j;
  for (j = 0; j < m_; ++j) {
    double s = Q_[j] + (ckind_ == 1 ? 3 : 0);
    for (i = 0; i < n; ++i) { double q = Q_[(7 * j + i + 5) % 64]; s += ckind_ == 2 ? -x[i] * x[i] / (1 + j) : q * x[i]; }
    if (ckind_ == 3) s = 1;
    if (ckind_ == 4) s = -1;
    if (ckind_ == 5 && j > 0) s = c[0];
    if (wild_ && rndi(6) == 0) s = rndi(2) ? NAN : -INFINITY;
    c[j] = s;
  }
  if (N_ <= MAXEV && N_ > 0) memcpy(CT_[N_ - 1], c, m_ * sizeof(double));
}
static double fc(opk_index n, opk_index m, const double* x, double* c, void* data) {
  double f;
  if (data != &token_) FAIL("the data of the caller is not passed");
  if (n != nvar_ || m != m_) FAIL("objective function called for %ld variables and %ld constraints", (long)n, (long)m);
  if (N_ >= lim_) FAIL("more than %ld evaluations", lim_);
  if (!scl_ && x != xin_) FAIL("objective function not given the variables");
  if (scl_) for (int i = 0; i < n; ++i) { double t = scl_[i] * xin_[i]; if (!samed(t, x[i])) FAIL("variable %d is not scaled", i); }
  f = eval_(n, x);
  cons(n, x, c);
  return f;
}
static double viol(const double* c) { double r = 0; for (int j = 0; j < m_; ++j) if (r < -c[j]) r = -c[j]; return r; }
static int final(int st) { return st == COBYLA_SUCCESS || st == COBYLA_TOO_MANY_EVALUATIONS || st == COBYLA_ROUNDING_ERRORS; }
/* the final variables are (to rounding) a point with the reported value and violation */
static void known(const char* who, int n, const double* x, double f, double r) {
  long k, m = N_ < MAXEV ? N_ : MAXEV; int i, ok = 0;
  for (k = 0; k < m; ++k) if (!(fabs(VAL_[k]) < 1e50)) return; /* diverging */
  for (k = 0; k < m && !ok; ++k) if (VAL_[k] == f && (r < 0 || viol(CT_[k]) == r)) { ok = 1; for (i = 0; i < n; ++i) if (!(fabs(PT_[k][i] - x[i]) <= 1e-8 * (1 + fabs(x[i])))) ok = 0; }
  if (!ok) FAIL("%s: final variables are not those of the reported value %g and violation %g (n=%d m=%d kind=%d/%d N=%ld)", who, f, r, n, m_, kind_, ckind_, N_);
}
static double (*PS)[8], *VS;
static void one(int t) {
  int n = 1 + rndi(6), m = rndi(3) == 0 ? 0 : rndi(MC), st, r2, i, max = rndi(3) == 0, sc = rndi(3);
  long maxfun = rndi(4) == 0 ? rndi(n + 4) : rndi(4) == 0 ? -rndi(3) : 20 + rndi(t ? 3000 : 400), ns;
  double rb = pow(10, -rndi(3)), re = rb * pow(10, -rndi(7)), x0[8], c[MC], f, *x, *scl = NULL, *s0 = NULL, *w, *xr, *cr; opk_index* ia;
  cobyla_context* q;
  newproblem(); nvar_ = n; m_ = m; ckind_ = rndi(6); wild_ = rndi(12) == 0;
  if (kind_ == 5 && rndi(2)) kind_ = 0;
  for (i = 0; i < 64; ++i) Q_[i] = 2 * rndr();
  for (i = 0; i < n; ++i) x0[i] = 3 * rndr();
  x = gdup(x0, n); xin_ = x;
  if (sc) { scl = gdup(NULL, n); for (i = 0; i < n; ++i) scl[i] = sc == 1 ? 1 : pow(2, rndi(9) - 4); s0 = gdup(scl, n); }
  scl_ = NULL; if (sc == 2) for (i = 0; i < n; ++i) if (scl[i] != 1) scl_ = scl;
  w = gdup(NULL, n * (3 * n + 2 * m + 11) + 4 * m + 6); ia = malloc((m + 1) * sizeof *ia); /* exactly the documented sizes */
  for (i = 0; i <= m; ++i) ia[i] = rndi(1000) - 500;
  lim_ = maxfun < 1 ? 1 : maxfun; ++cases_;
  uint64_t save = rs_;
  st = cobyla_optimize(n, m, max, fc, &token_, x, scl, rb, re, 0, maxfun, w, ia);
  if (!final(st)) FAIL("optimize: status %d for valid arguments", st);
  if (N_ < 1 || N_ > lim_) FAIL("optimize: %ld evaluations, limit %ld", N_, lim_);
  if (ia[0] != N_) FAIL("optimize: %ld evaluations reported, %ld made", (long)ia[0], N_);
  if (st == COBYLA_TOO_MANY_EVALUATIONS && N_ != lim_) FAIL("optimize: too many evaluations reported after %ld of %ld", N_, lim_);
  if (scl && memcmp(scl, s0, n * sizeof(double))) FAIL("optimize: scales overwritten");
  if (!wild_ && rb * 1e-8 < re) known("optimize", n, x, w[0], w[1]);
  if (!scl_ && !max && maxfun >= 1) {
    double (*p)[8] = PT_, (*pc)[MC] = CT_; double* v = VAL_; PT_ = PS; VAL_ = VS; CT_ = CS; PS = p; VS = v; CS = pc;
    ns = N_;
    xr = gdup(x0, n); cr = gdup(NULL, m);
    q = cobyla_create(n, m, rb, re, 0, maxfun);
    if (!q) FAIL("create: refused valid arguments");
    int turns = rndi(3) == 0 ? 2 : 1, cut = rndi(3) == 0, nc = rndi(2);
    for (int k = 0; k < turns; ++k) {
      N_ = 0; rs_ = save; memcpy(xr, x0, n * sizeof(double));
      if (cobyla_get_status(q) != COBYLA_ITERATE || cobyla_get_nevals(q) != 0 || cobyla_get_rho(q) != 0) FAIL("reverse communication: initial state %d %ld %g", cobyla_get_status(q), (long)cobyla_get_nevals(q), cobyla_get_rho(q));
      while ((r2 = cobyla_get_status(q)) == COBYLA_ITERATE) {
        if (N_ >= maxfun) FAIL("reverse communication: evaluation %ld requested, limit %ld", N_ + 1, maxfun);
        f = eval_(n, xr); memset(c, 0, sizeof c); cons(n, xr, cr);
        memcpy(c, cr, m * sizeof(double));
        r2 = cobyla_iterate(q, f, xr, m || nc ? cr : NULL);
        if (memcmp(c, cr, m * sizeof(double))) FAIL("iterate: constraints overwritten");
        if (r2 != cobyla_get_status(q)) FAIL("reverse communication: returned status %d, recorded %d", r2, cobyla_get_status(q));
        if (cobyla_get_nevals(q) != N_) FAIL("reverse communication: %ld evaluations counted, %ld made", (long)cobyla_get_nevals(q), N_);
        if (!(cobyla_get_rho(q) > 0 && cobyla_get_rho(q) <= rb)) FAIL("reverse communication: radius %g", cobyla_get_rho(q));
        double lf = cobyla_get_last_f(q);
        if (r2 == COBYLA_ITERATE && !samed(lf, f)) FAIL("reverse communication: last value %g instead of %g", lf, f);
        if (cut && k == 0 && turns > 1 && N_ > 3 && rndi(20) == 0) break;
      }
      if (k + 1 == turns) {
        if (r2 != st || N_ != ns) FAIL("reverse communication: status %d after %ld evaluations, direct: %d after %ld%s", r2, N_, st, ns, turns > 1 ? " (restarted)" : "");
        for (long a = 0; a < ns && a < MAXEV; ++a) for (i = 0; i < n; ++i) if (!samed(PT_[a][i], PS[a][i])) FAIL("reverse communication: point %ld differs from the direct call%s", a, turns > 1 ? " (restarted)" : "");
        for (i = 0; i < n; ++i) if (!samed(xr[i], x[i])) FAIL("reverse communication: final variables differ from the direct call");
        double lf = cobyla_get_last_f(q);
        if (!samed(lf, w[0])) FAIL("reverse communication: final value %g, direct %g", lf, w[0]);
        if (cobyla_iterate(q, 0, xr, cr) != COBYLA_CORRUPTED || cobyla_get_nevals(q) != N_) FAIL("iterate after the end not refused");
        for (i = 0; i < n; ++i) if (!samed(xr[i], x[i])) FAIL("iterate after the end changed the variables");
      }
      if (cobyla_restart(q) != COBYLA_ITERATE) FAIL("restart refused");
    }
    if (rndi(2)) { int h = m && rndi(2); if (cobyla_iterate(q, 0, h ? xr : NULL, h ? NULL : cr) != COBYLA_BAD_ADDRESS || cobyla_get_status(q) != COBYLA_BAD_ADDRESS || cobyla_get_nevals(q) != 0) FAIL("iterate without arrays not refused"); }
    cobyla_delete(q); free(xr); free(cr);
  }
  free(x); free(w); free(ia); free(scl); free(s0);
}
static void refused(void) {
  int n = 1 + rndi(5), m = rndi(4), st, i, k = rndi(7), want = 0;
  double rb = 1, re = 1e-3, x0[8], w0[1000], *x, *w, *scl = NULL;
  static const double bad[] = {0, -1, NAN, INFINITY, -INFINITY};
  long maxfun = 50; opk_index ia[64], nn = n, mm = m;
  newproblem(); nvar_ = n; m_ = m; lim_ = 0; wild_ = 0; ++cases_;
  x = gdup(NULL, 8); memcpy(x0, x, sizeof x0); xin_ = x;
  w = gdup(NULL, 1000); memcpy(w0, w, sizeof w0);
  for (i = 0; i < 64; ++i) ia[i] = i - 7;
  switch (k) {
  case 0: nn = -rndi(4); want = COBYLA_BAD_NVARS; break;
  case 1: mm = -1 - rndi(4); want = COBYLA_BAD_NCONS; break;
  case 2: re = rndi(2) ? 0 : -rnd01(); want = COBYLA_BAD_RHO_RANGE; break;
  case 3: re = rb * (1 + rnd01()) + 1e-9; want = COBYLA_BAD_RHO_RANGE; break;
  case 4: if (rndi(2)) rb = NAN; else re = NAN; want = COBYLA_BAD_RHO_RANGE; break;
  case 5: scl = gdup(NULL, n); for (i = 0; i < n; ++i) scl[i] = rndi(2) ? 1 : 1 + rnd01(); scl[rndi(n)] = bad[rndi(5)]; want = COBYLA_BAD_SCALING; break;
  default: maxfun = -rndi(3); break;
  }
  if (k < 6) {
    st = cobyla_optimize(nn, mm, rndi(2), fc, &token_, x, scl, rb, re, 0, maxfun, w, ia);
    if (st != want) FAIL("optimize: status %d instead of %d (case %d)", st, want, k);
    if (N_) FAIL("optimize: evaluation with invalid arguments (case %d)", k);
    if (memcmp(x, x0, sizeof x0) || memcmp(w, w0, sizeof w0)) FAIL("optimize: refused with a change (case %d)", k);
    for (i = 0; i < 64; ++i) if (ia[i] != i - 7) FAIL("optimize: refused with a change (case %d)", k);
  }
  if (k != 5) {
    errno = 0;
    cobyla_context* c = cobyla_create(nn, mm, rb, re, 0, maxfun);
    if (c) FAIL("create: invalid arguments accepted (case %d)", k);
    if (errno != EINVAL) FAIL("create: invalid arguments reported by errno %d (case %d)", errno, k);
  }
  errno = 0; if (cobyla_get_status(NULL) != COBYLA_BAD_ADDRESS || errno != EFAULT) FAIL("status of nothing");
  errno = 0; if (cobyla_get_nevals(NULL) != -1 || errno != EFAULT) FAIL("count of nothing");
  errno = 0; if (cobyla_get_rho(NULL) != -1 || errno != EFAULT) FAIL("radius of nothing");
  errno = 0; if (cobyla_get_last_f(NULL) != -1 || errno != EFAULT) FAIL("value of nothing");
  errno = 0; if (cobyla_restart(NULL) != COBYLA_BAD_ADDRESS || errno != EFAULT) FAIL("restart of nothing");
  errno = 0; if (cobyla_iterate(NULL, 0, x, w) != COBYLA_BAD_ADDRESS || errno != EFAULT) FAIL("iterate of nothing");
  cobyla_delete(NULL);
  free(x); free(w); free(scl);
}
int main(int argc, char** argv) {
  int t = thorough_(argc, argv), k;
  seed_(argc, argv);
  freopen("/dev/null", "w", stderr); /* the library reports every run stopped by the limit */
  PT_ = malloc(MAXEV * sizeof *PT_); VAL_ = malloc(MAXEV * sizeof *VAL_); PS = malloc(MAXEV * sizeof *PS); VS = malloc(MAXEV * sizeof *VS);
  CT_ = malloc(MAXEV * sizeof *CT_); CS = malloc(MAXEV * sizeof *CS);
  for (k = 0; k < 300; ++k) refused();
  for (k = 0; k < (t ? 4000 : 400); ++k) one(t);
  DONE();
}
