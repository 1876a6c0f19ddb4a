/* C18 replay: feasible points only, evaluations limited, arguments refused before any evaluation */
#include "h.h"
#include "optimpack.h"
#include "bobyqa.h"
#include "dfo.h"
static long lim_; static double *xin_, *scl_; static const double *lo_, *up_;
static double fobj(const opk_index n, const double* x, void* data) {
  if (data != &token_) FAIL("the data of the caller is not passed");
  if (n != nvar_) FAIL("objective function called for %ld variables instead of %d", (long)n, nvar_);
  if (N_ >= lim_) FAIL("more than %ld evaluations", lim_);
  for (int i = 0; i < n; ++i) if (x[i] < lo_[i] || x[i] > up_[i]) FAIL("evaluation %ld at variable %d = %.17g outside [%.17g, %.17g]%s", N_ + 1, i, x[i], lo_[i], up_[i], scl_ ? " (scaled)" : "");
  if (!wild_) for (int i = 0; i < n; ++i) if (x[i] != x[i]) FAIL("evaluation %ld at NaN", N_ + 1);
  return eval_(n, x);
}
static long wsize(long n, long npt, int s) { return (npt + 5) * (npt + n) + 3 * n * (n + 5) / 2 + (s ? 3 * n : 0); }
static int final(int st) { return st == BOBYQA_SUCCESS || st == BOBYQA_TOO_MANY_EVALUATIONS || st == BOBYQA_STEP_FAILED || st == BOBYQA_ROUNDING_ERRORS; }
static void one(int t) {
  int n = 2 + rndi(5), lo = n + 2, hi = (n + 1) * (n + 2) / 2, npt = rndi(3) == 0 ? lo : rndi(3) == 0 ? hi : rndi(2) ? (2 * n + 1 < hi ? 2 * n + 1 : hi) : lo + rndi(hi - lo + 1), st, i;
  long maxfun = rndi(4) == 0 ? rndi(npt + 3) : rndi(3) == 0 ? -rndi(3) : 20 + rndi(t ? 2000 : 300);
  int max = rndi(3) == 0, sc = rndi(3);
  double rb = pow(10, -rndi(3)), re = rb * pow(10, -rndi(7)), x0[8], xl[8], xu[8], scal[8];
  double *x, *scl = NULL, *w, *l, *u;
  newproblem(); nvar_ = n; wild_ = rndi(8) == 0;
  if (rndi(5) == 0) { rb *= 1 / 3.0; re *= 1 / 3.0; }
  for (i = 0; i < n; ++i) { scal[i] = sc == 2 ? (rndi(2) ? pow(2, rndi(9) - 4) : 1 + rndi(60)) : 1; }
  for (i = 0; i < n; ++i) {
    double wd = 2 * rb * (rndi(3) ? 1.0000001 : 1 + 3 * rnd01()) * scal[i];
    xl[i] = rndi(2) ? (rndi(100) - 50) : 3 * rndr(); xu[i] = xl[i] + wd;
    while (1 / scal[i] * xu[i] - 1 / scal[i] * xl[i] < 2 * rb) xu[i] += 1e-9 * (1 + fabs(xu[i])) * scal[i];
    if (rndi(8) == 0) xl[i] = -INFINITY; if (rndi(8) == 0) xu[i] = INFINITY;
    if (rndi(9) == 0) { xl[i] = -1e20; } if (rndi(9) == 0) xu[i] = 1e20;
    double a = xl[i] < -100 ? (xu[i] > 100 ? -1 : xu[i] - 1) : xl[i], b = xu[i] > 100 ? a + 1 : xu[i];
    switch (rndi(5)) { case 0: x0[i] = a; break; case 1: x0[i] = b; break; case 2: x0[i] = a - 1; break; case 3: x0[i] = b + rnd01(); break; default: x0[i] = a + rnd01() * (b - a); }
  }
  if (rndi(2)) for (i = 0; i < n; ++i) P_[i] = rndi(2) ? (xl[i] > -100 ? xl[i] : 0) + rndr() : (xu[i] < 100 ? xu[i] : 0) + rndr();
  x = gdup(x0, n); xin_ = x; l = gdup(xl, n); u = gdup(xu, n); lo_ = xl; up_ = xu;
  if (sc) scl = gdup(scal, n);
  scl_ = NULL; if (sc == 2) for (i = 0; i < n; ++i) if (scal[i] != 1) scl_ = scl;
  w = gdup(NULL, wsize(n, npt, scl_ != NULL)); /* exactly the documented size */
  lim_ = maxfun < 1 ? 1 : maxfun; ++cases_;
  st = scl || max || rndi(2) ? bobyqa_optimize(n, npt, max, fobj, &token_, x, l, u, scl, rb, re, 0, maxfun, w) : bobyqa(n, npt, fobj, &token_, x, l, u, rb, re, 0, maxfun, w);
  if (!final(st)) FAIL("status %d for valid arguments", st);
  if (N_ < 1 || N_ > lim_) FAIL("%ld evaluations, limit %ld", N_, lim_);
  if (st == BOBYQA_TOO_MANY_EVALUATIONS && N_ != lim_) FAIL("too many evaluations reported after %ld of %ld", N_, lim_);
  if ((scl && memcmp(scl, scal, n * sizeof(double))) || memcmp(l, xl, n * sizeof(double)) || memcmp(u, xu, n * sizeof(double))) FAIL("scales or bounds overwritten");
  for (i = 0; i < n; ++i) if (x[i] < xl[i] || x[i] > xu[i] || (!wild_ && x[i] != x[i])) FAIL("final variable %d = %.17g outside [%.17g, %.17g]%s", i, x[i], xl[i], xu[i], scl_ ? " (scaled)" : "");
  if (!wild_) { /* x is (to rounding) an evaluated point where the best value was found */
    double b = VAL_[0]; int ok = 0, big = 0; long m = N_ < MAXEV ? N_ : MAXEV;
    for (long k = 0; k < m; ++k) if (!(fabs(VAL_[k]) < 1e50)) big = 1;
    for (long k = 1; k < m; ++k) if (max ? VAL_[k] > b : VAL_[k] < b) b = VAL_[k];
    for (long k = 0; k < m && !ok; ++k) if (VAL_[k] == b) { ok = 1; for (i = 0; i < n; ++i) { double e = 1e-9 * (1 + fabs(x[i]) + rb) * (1 + scal[i]); if (!(fabs(PT_[k][i] - x[i]) <= e)) ok = 0; } }
    if (!big && !ok) FAIL("final variables are not those of the best value (n=%d kind=%d max=%d scaled=%d status=%d N=%ld)", n, kind_, max, scl_ != 0, st, N_);
    if (!big && st == BOBYQA_SUCCESS && w[0] != b) FAIL("reported value %.17g, best one %.17g", w[0], b);
  }
  free(x); free(w); free(scl); free(l); free(u);
}
static double never(const opk_index n, const double* x, void* data) { FAIL("objective function evaluated for invalid arguments"); return 0; }
static void refuse(void) {
  static const double R[] = { 0, -1, 1e-3, 1e-1, 1, NAN, INFINITY, -INFINITY };
  static const double B[] = { -INFINITY, -2, -1, 0, 0.5, 1, 2, INFINITY, NAN };
  long n = rndi(8) - 2, npt; int i, e = 0, st, close = 0, s_ = rndi(3) == 0, bads = 0;
  double rb = R[rndi(8)], re = R[rndi(8)], x[8], xl[8], xu[8], scl[8], x0[8];
  if (rndi(2)) n = 2 + rndi(4);
  npt = rndi(2) ? n + 2 + rndi(3) : (long)rndi(40) - 5;
  if (rndi(2)) { rb = 0.5; re = 0.1; }
  for (i = 0; i < 8; ++i) { x0[i] = x[i] = 2 * rndr(); xl[i] = rndi(3) ? -3 : B[rndi(9)]; xu[i] = rndi(3) ? 3 : B[rndi(9)]; scl[i] = rndi(8) ? 1 + rndi(3) : rndi(4) == 0 ? NAN : rndi(3) == 0 ? 0 : rndi(2) ? -1 : INFINITY; }
  if (n < 2) e = BOBYQA_BAD_NVARS;
  else if (npt < n + 2 || npt > (n + 1) * (n + 2) / 2) e = BOBYQA_BAD_NPT;
  else if (!(re > 0 && re <= rb)) e = BOBYQA_BAD_RHO_RANGE;
  else {
    for (i = 0; s_ && i < n; ++i) if (!(scl[i] > 0 && scl[i] < INFINITY)) bads = 1;
    for (i = 0; i < n; ++i) { double q = 1 / (s_ ? scl[i] : 1); if (!(q * xu[i] - q * xl[i] >= 2 * rb)) close = 1; }
    e = bads ? BOBYQA_BAD_SCALING : close ? BOBYQA_TOO_CLOSE : 0;
  }
  if (!e) return;
  double* w = gdup(NULL, n > 0 && npt > 0 ? wsize(n, npt, 1) : 1);
  ++cases_;
  st = bobyqa_optimize(n, npt, rndi(2), never, &token_, x, xl, xu, s_ ? scl : NULL, rb, re, 0, 50, w);
  if (st != e) FAIL("optimize: status %d instead of %d", st, e);
  for (i = 0; i < 8; ++i) if (!samed(x[i], x0[i])) FAIL("variables changed by a refused call (status %d)", st);
  free(w);
}
int main(int argc, char** argv) {
  int t = thorough_(argc, argv), k;
  seed_(argc, argv);
  PT_ = malloc(MAXEV * sizeof *PT_); VAL_ = malloc(MAXEV * sizeof *VAL_);
  for (k = 0; k < 3000; ++k) refuse();
  for (k = 0; k < (t ? 6000 : 800); ++k) one(t);
  DONE();
}
