/* C07 replay: random histories of function values and slopes given to each line search */
#include "h.h"
#include "optimpack.h"
#include "optimpack-private.h"
static void quiet(const char* m) { FAIL("error handler called: %s", m); }
/* a <= b, a > b, or too close to tell */
static int cmp(double a, double b, double scale) { if (a != a || b != b) return 0; double t = 8 * DBL_EPSILON * scale; if (!(t < INFINITY)) return 2; return a <= b - t ? 1 : a > b + t ? 0 : a == b && t == 0 ? 1 : 2; }
static double tol(void) { static const double t[] = {1e-4, 1e-3, 0.1, 0.5, 1e-10, 0.3, 0.9}; return t[rndi(7)]; }
static void history(int kind, int len) {
  double ftol = tol(), gtol = 0, xtol = 0, amin = 0, s1 = 0, s2 = 0, past[4096]; long m = 0, np = 0;
  opk_lnsrch* ls;
  if (kind == 0) { if (ftol > 0.5) ftol = 0.5; amin = rnd01() * 0.98 + 0.01; ls = opk_lnsrch_new_backtrack(ftol, amin); }
  else if (kind == 1) { gtol = rndi(8) ? tol() : 0; xtol = rndi(3) ? 1e-17 * rndi(3) : tol(); if (!rndi(20)) ftol = 0; ls = opk_lnsrch_new_csrch(ftol, gtol, xtol); }
  else { m = 1 + rndi(7); s1 = rnd01() * 0.5 + 0.001; s2 = s1 + (1 - s1) * (rnd01() * 0.9 + 0.01); ls = opk_lnsrch_new_nonmonotone(m, ftol, s1, s2); }
  if (ls == NULL) FAIL("valid parameters refused (kind %d)", kind);
  if (opk_lnsrch_get_status(ls) != OPK_NOT_STARTED || opk_lnsrch_get_task(ls) == OPK_LNSRCH_SEARCH) FAIL("new search not in the initial state");
  double s = 1;
  if (opk_lnsrch_iterate(ls, &s, 0, 0) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != OPK_NOT_STARTED || s != 1) FAIL("iterate before start must be refused");
  for (int k = 0; k < len; ++k) {
    int sp = rndi(4) == 0;
    double f0 = kind == 2 && rndi(3) ? rndr() * 3 : rndv(0), g0 = rndi(12) ? -fabs(rndv(sp)) : rndv(2), lo = rndi(3) ? 0 : fabs(rndv(sp)), hi = rndi(3) ? lo + fabs(rndv(sp)) * 10 : rndv(2), stp = rndi(8) ? lo + rnd01() * (hi - lo) : rndv(2);
    if (!rndi(6)) stp = lo; if (!rndi(6)) stp = hi; if (!rndi(15)) lo = rndv(2);
    if (stp != stp && rndi(2)) stp = lo;
    opk_lnsrch_task want = (lo >= 0) && (lo <= hi) && (stp >= lo) && (stp <= hi) && (g0 < 0) ? OPK_LNSRCH_SEARCH : OPK_LNSRCH_ERROR;
    opk_lnsrch_task t = opk_lnsrch_start(ls, f0, g0, stp, lo, hi);
    ++cases_;
    if (t != want || opk_lnsrch_get_task(ls) != t) FAIL("start(kind %d, f0=%g g0=%g stp=%g in [%g,%g]) = %d, expected %d", kind, f0, g0, stp, lo, hi, (int)t, (int)want);
    if (t == OPK_LNSRCH_ERROR) {
      int st = opk_lnsrch_get_status(ls);
      if (!((st == OPK_STPMIN_LT_ZERO && !(lo >= 0)) || (st == OPK_STPMIN_GT_STPMAX && !(lo <= hi)) || (st == OPK_STEP_LT_STPMIN && !(stp >= lo)) ||
            (st == OPK_STEP_GT_STPMAX && !(stp <= hi)) || (st == OPK_NOT_A_DESCENT && !(g0 < 0)))) FAIL("start refused with status %d for f0=%g g0=%g stp=%g in [%g,%g]", st, f0, g0, stp, lo, hi);
      s = stp;
      if (opk_lnsrch_iterate(ls, &s, f0, g0) != OPK_LNSRCH_ERROR) FAIL("iterate after a refused start");
      if (opk_lnsrch_get_status(ls) != OPK_NOT_STARTED) FAIL("status after a refused start");
      continue;
    }
    if (opk_lnsrch_get_status(ls) != OPK_SUCCESS) FAIL("status of a started search");
    double fref = f0;
    if (kind == 2) {
      past[np++ % m] = f0;
      fref = past[0];
      for (int j = 0; j < m && j < np; ++j) if (past[j] > fref) fref = past[j];
    }
    double cur = stp;
    int mode = rndi(6);
    for (int it = 0; it < 60; ++it) {
      double f, g;
      double lim = fref + ftol * cur * g0;
      double curv = rndr();
      switch (mode) {
      case 0: f = rndv(2); g = rndv(2); break;
      case 1: f = lim + fabs(rndr()); g = rndr(); break;                       /* never enough */
      case 2: f = f0 + g0 * cur + curv * cur * cur; g = g0 + 2 * curv * cur; break;
      case 3: f = f0 + rndr() * 1e-3; g = rndr() * 1e-3; break;
      case 4: f = lim - fabs(rndr()) * (rndi(2) ? 1e-9 : 1); g = rndi(2) ? -gtol * g0 * (1 + rndr()) : rndr(); break;
      default: f = lim; g = gtol * g0 * (rndi(2) ? 1 : -1); break;
      }
      if (!rndi(40)) {
        double o = cur, c = rndi(2) ? (isinf(cur) ? 1 : cur * 1.5 + 1e-3) : NAN;
        s = c;
        if (opk_lnsrch_iterate(ls, &s, f, g) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != OPK_STEP_CHANGED || !samed(s, c)) FAIL("a changed step must be refused");
        (void)o;
        break;
      }
      s = cur;
      t = opk_lnsrch_iterate(ls, &s, f, g);
      ++cases_;
      if (t != opk_lnsrch_get_task(ls)) FAIL("task");
      if (!(s >= lo && s <= hi)) FAIL("kind %d: step %.17g outside [%.17g,%.17g] (from %.17g, f=%g g=%g, f0=%g g0=%g)", kind, s, lo, hi, cur, f, g, f0, g0);
      double sc = fabs(fref) + fabs(ftol * cur * g0) + fabs(f);
      int dec = cmp(f, fref + ftol * cur * g0, sc), acc = dec;
      if (kind == 1) { int cu = cmp(fabs(g), -gtol * g0, fabs(g) + fabs(gtol * g0)); acc = dec == 0 || cu == 0 ? 0 : dec == 1 && cu == 1 ? 1 : 2; }
      if (isinf(fref) || isinf(g0) || isinf(cur)) acc = 2;
      if (acc == 1 && t != OPK_LNSRCH_CONVERGENCE) FAIL("kind %d: acceptable step %g not accepted (f=%.17g fref=%.17g g=%g g0=%g ftol=%g gtol=%g task %d status %d)", kind, cur, f, fref, g, g0, ftol, gtol, (int)t, (int)opk_lnsrch_get_status(ls));
      if (acc == 0 && t == OPK_LNSRCH_CONVERGENCE) FAIL("kind %d: step %g accepted (f=%.17g fref=%.17g g=%g g0=%g ftol=%g gtol=%g)", kind, cur, f, fref, g, g0, ftol, gtol);
      if (t == OPK_LNSRCH_CONVERGENCE && s != cur) FAIL("accepted step was changed");
      int st = opk_lnsrch_get_status(ls);
      if ((t == OPK_LNSRCH_SEARCH || t == OPK_LNSRCH_CONVERGENCE) ? st != OPK_SUCCESS : st == OPK_SUCCESS) FAIL("kind %d: task %d with status %d", kind, (int)t, st);
      if (t == OPK_LNSRCH_WARNING && st == OPK_STEP_EQ_STPMAX && s != hi) FAIL("warning about the upper bound elsewhere");
      if (t == OPK_LNSRCH_WARNING && st == OPK_STEP_EQ_STPMIN && kind != 2 && s != lo) FAIL("warning about the lower bound elsewhere");
      if ((opk_lnsrch_get_step(ls) != (t == OPK_LNSRCH_SEARCH ? s : -1))) FAIL("step accessor");
      if (!!opk_lnsrch_finished(ls) != (t != OPK_LNSRCH_SEARCH) || !!opk_lnsrch_converged(ls) != (t == OPK_LNSRCH_CONVERGENCE) || !!opk_lnsrch_has_warnings(ls) != (t == OPK_LNSRCH_WARNING) ||
          !!opk_lnsrch_has_errors(ls) != (t == OPK_LNSRCH_ERROR)) FAIL("predicates");
      cur = s;
      if (t != OPK_LNSRCH_SEARCH) {
        double q = cur;
        if (opk_lnsrch_iterate(ls, &q, f, g) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != OPK_NOT_STARTED || q != cur) FAIL("iterate after the end must be refused");
        break;
      }
    }
  }
  OPK_DROP(ls);
}
static void params(void) {
  static const double v[] = {0, -0.0, -1e-4, 1e-4, 0.1, 0.5, 0.9, 1, 1.5, INFINITY, -INFINITY, NAN, 0.5000001, -1};
  int n = sizeof v / sizeof v[0];
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    errno = 0;
    opk_lnsrch* l = opk_lnsrch_new_backtrack(v[i], v[j]);
    if ((l != NULL) != (v[i] > 0 && v[i] <= 0.5 && v[j] > 0 && v[j] < 1)) FAIL("new_backtrack(%g,%g)", v[i], v[j]);
    if (!l && errno != EINVAL) FAIL("errno"); if (l) { if (opk_lnsrch_use_deriv(l)) FAIL("use_deriv"); OPK_DROP(l); } ++cases_;
    for (int k = 0; k < n; ++k) {
      errno = 0; l = opk_lnsrch_new_csrch(v[i], v[j], v[k]);
      if ((l != NULL) != (v[i] >= 0 && v[j] >= 0 && v[k] >= 0)) FAIL("new_csrch(%g,%g,%g)", v[i], v[j], v[k]);
      if (!l && errno != EINVAL) FAIL("errno"); if (l) { if (!opk_lnsrch_use_deriv(l)) FAIL("use_deriv"); OPK_DROP(l); } ++cases_;
      for (int m = -1; m < 3; ++m) {
        errno = 0; l = opk_lnsrch_new_nonmonotone(m, v[i], v[j], v[k]);
        if ((l != NULL) != (m >= 1 && v[i] > 0 && v[i] <= DBL_MAX && v[j] > 0 && v[j] < v[k] && v[k] < 1)) FAIL("new_nonmonotone(%d,%g,%g,%g)", m, v[i], v[j], v[k]);
        if (!l && errno != EINVAL) FAIL("errno"); if (l) { if (opk_lnsrch_use_deriv(l)) FAIL("use_deriv"); OPK_DROP(l); } ++cases_;
      }
    }
  }
}
static void cstep(void) {
  double b[7], n[7], fp = rndv(2), dp = rndv(2), lo = rndi(8) ? 0 : rndv(1), hi = rndi(8) ? 10 : rndv(2);
  for (int i = 0; i < 7; ++i) b[i] = rndi(5) ? rndr() : rndv(2);
  if (rndi(3)) b[6] = b[0] + (b[3] - b[0]) * rnd01();
  if (rndi(4)) b[2] = (b[6] > b[0] ? -1 : 1) * fabs(rndr());
  if (rndi(8) == 0) fp = b[1];
  int br = rndi(2), bn = br;
  memcpy(n, b, sizeof b);
  int r = opk_cstep(&n[0], &n[1], &n[2], &n[3], &n[4], &n[5], &n[6], fp, dp, &bn, lo, hi);
  ++cases_;
  double stx = b[0], sty = b[3], stp = b[6];
  int out = br && (stx < sty ? (stp <= stx || stp >= sty) : (stp <= sty || stp >= stx)), nd = b[2] * (stp - stx) >= 0, bb = hi < lo;
  if ((r == OPK_SUCCESS) != !(out || nd || bb)) FAIL("cstep status %d for stx=%g sty=%g stp=%g dx=%g", r, stx, sty, stp, b[2]);
  if (r != OPK_SUCCESS) {
    if (!((r == OPK_STEP_OUTSIDE_BRACKET && out) || (r == OPK_NOT_A_DESCENT && nd) || (r == OPK_STPMIN_GT_STPMAX && bb))) FAIL("cstep refusal %d", r);
    for (int i = 0; i < 7; ++i) if (!samed(n[i], b[i])) FAIL("cstep modified its arguments on error");
    if (bn != br) FAIL("cstep modified the flag on error");
    return;
  }
  int worse = fp > b[1], opp = (dp < 0 && b[2] > 0) || (dp > 0 && b[2] < 0);
  if (fabs(dp) < 1e-250 || fabs(b[2]) < 1e-250) return;
  double t[3] = {stp, fp, dp}, *X = worse ? b : t, *Y = worse ? t : opp ? b : b + 3;
  for (int i = 0; i < 3; ++i) if (!samed(n[i], X[i]) || !samed(n[3 + i], Y[i])) FAIL("cstep interval update: stx=%g fx=%g dx=%g sty=%g stp=%g fp=%g dp=%g -> stx=%g sty=%g", stx, b[1], b[2], sty, stp, fp, dp, n[0], n[3]);
  if (!!bn != (br || worse || opp)) FAIL("cstep flag");
}
/* user-supplied search */
static int nst, nit, nfin; static opk_lnsrch_task ct; static double cs;
static void ufin(opk_lnsrch* l) { ++nfin; }
static opk_lnsrch_task ustart(opk_lnsrch* l) { ++nst; l->status = OPK_SUCCESS; return l->task = OPK_LNSRCH_SEARCH; }
static opk_lnsrch_task uiter(opk_lnsrch* l, double* p, double f, double g) { ++nit; *p = cs; l->status = OPK_SUCCESS; return l->task = ct; }
static void custom(void) {
  opk_lnsrch_operations op = {ufin, ustart, uiter, OPK_TRUE};
  opk_lnsrch* l = opk_allocate_line_search(&op, 0);
  if (!l) FAIL("custom search");
  for (int i = 0; i < 50; ++i) {
    double lo = rndi(2), hi = lo + rndi(3), st = rndi(2) ? lo : rndi(2) ? hi : (lo + hi) / 2, s = st;
    nst = nit = 0; ct = rndi(3) ? OPK_LNSRCH_SEARCH : rndi(4) - 1;
    cs = rndi(3) ? rndr() * 5 : rndi(2) ? lo : hi;
    if (opk_lnsrch_start(l, 1, -1, st, lo, hi) != OPK_LNSRCH_SEARCH || nst != 1) FAIL("custom start");
    int t = opk_lnsrch_iterate(l, &s, 1, 1);
    double c = cs < lo ? lo : cs > hi ? hi : cs;
    ++cases_;
    if (nit != 1 || s != c) FAIL("custom: step %g clamped to %g instead of %g", cs, s, c);
    int stuck = (st <= lo && c <= lo) || (st >= hi && c >= hi);
    if (ct != OPK_LNSRCH_SEARCH ? t != ct : lo < hi && t != (stuck ? OPK_LNSRCH_WARNING : OPK_LNSRCH_SEARCH)) FAIL("custom task %d (method %d)", t, (int)ct);
  }
  nfin = 0; OPK_DROP(l); if (nfin != 1) FAIL("finalize called %d times", nfin);
  op.start = NULL; if (opk_allocate_line_search(&op, 0)) FAIL("missing start"); op.start = ustart; op.iterate = NULL; if (opk_allocate_line_search(&op, 0) || opk_allocate_line_search(NULL, 0)) FAIL("missing iterate");
  double s = 1;
  if (opk_lnsrch_start(NULL, 1, -1, 1, 0, 2) != OPK_LNSRCH_ERROR || opk_lnsrch_iterate(NULL, &s, 1, 1) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(NULL) != OPK_ILLEGAL_ADDRESS || opk_lnsrch_get_step(NULL) != -1 || opk_lnsrch_get_task(NULL) != OPK_LNSRCH_ERROR) FAIL("missing search");
}
int main(int argc, char** argv) {
  int t = thorough_(argc, argv);
  seed_(argc, argv);
  opk_set_error_handler(quiet);
  params();
  for (int i = 0; i < (t ? 40 : 4); ++i) custom();
  for (int i = 0; i < (t ? 60000 : 6000); ++i) history(i % 3, 1 + rndi(12));
  for (int i = 0; i < (t ? 2000000 : 200000); ++i) cstep();
  DONE();
}
