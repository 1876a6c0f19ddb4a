/* a line search whose outcome is scripted by the harness, recording what it is given */
static opk_lnsrch_operations sl_ops;
static struct { int nstart, niter, warnok; double f0, g0, stp, smin, smax, s, f, g, next; opk_lnsrch_task ret; opk_status st; } L_;
static opk_lnsrch_task sl_start(opk_lnsrch* l) {
  ++L_.nstart; L_.f0 = l->finit; L_.g0 = l->ginit; L_.stp = l->stp; L_.smin = l->stpmin; L_.smax = l->stpmax;
  if (rndi(60) == 0) { l->status = OPK_NOT_A_DESCENT; L_.st = l->status; return L_.ret = l->task = OPK_LNSRCH_ERROR; }
  l->status = OPK_SUCCESS; return L_.ret = l->task = OPK_LNSRCH_SEARCH;
}
static opk_lnsrch_task sl_iterate(opk_lnsrch* l, double* s, double f, double g) {
  int k = rndi(40);
  ++L_.niter; L_.s = *s; L_.f = f; L_.g = g; L_.next = *s;
  l->status = OPK_SUCCESS;
  if (k < 16) { double w = l->stpmax - l->stpmin; *s = isfinite(w) ? l->stpmin + w * rnd01() * rnd01() * rnd01() : *s * (0.5 + rnd01()); if (!(*s > l->stpmin && *s < l->stpmax)) *s = l->stpmin + 0.5 * (L_.s - l->stpmin); L_.next = *s;
    if (!(*s > l->stpmin && *s < l->stpmax)) { *s = L_.s; l->status = OPK_STEP_EQ_STPMIN; L_.st = l->status; L_.next = *s; return L_.ret = OPK_LNSRCH_WARNING; }
    return L_.ret = OPK_LNSRCH_SEARCH; }
  if (k == 37) { l->status = OPK_XTOL_TEST_SATISFIED; L_.st = l->status; return L_.ret = OPK_LNSRCH_WARNING; }
  if (k == 38) { l->status = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS; L_.st = l->status; return L_.ret = OPK_LNSRCH_ERROR; }
  if (k == 39 || k == 36) { l->status = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS; L_.st = l->status; return L_.ret = OPK_LNSRCH_WARNING; }
  return L_.ret = OPK_LNSRCH_CONVERGENCE;
}
static opk_lnsrch* sl_new(int deriv) { sl_ops.start = sl_start; sl_ops.iterate = sl_iterate; sl_ops.finalize = NULL; sl_ops.use_deriv = deriv; return opk_allocate_line_search(&sl_ops, sizeof(opk_lnsrch)); }
static int dclose(double a, double b, double scale, double tol) { if (a == b || (a != a && b != b)) return 1; if (!isfinite(a) || !isfinite(b)) return !(scale < 1e30); return fabs(a - b) <= tol * scale || !(scale < 1e30) || scale < 1e-30; }
/* objective: quadratic, tilted, or arbitrary values */
static int fmode_; static double fa_[16], fb_[16];
static void fsetup(int n) { fmode_ = rndi(6); for (int i = 0; i < n; ++i) { fa_[i] = fmode_ == 5 ? rndr() : pow(10, 2 * rndr()); fb_[i] = rndr() * 3; } }
