/* R real type, NAME, SP, WRAP, TNAME, EPSR */
#define VN 8
static double NAME(fg)(int n, const R* x, R* g) {
  double f = 0;
  for (int i = 0; i < n; ++i) { double t = x[i] - fb_[i]; f += 0.5 * fa_[i] * t * t; g[i] = (R)(fa_[i] * t); }
  if (fmode_ == 3) { f = rndr() * 4; for (int i = 0; i < n; ++i) g[i] = (R)rndr(); }
  if (fmode_ == 4 && rndi(4) == 0) { f = rndv(2); for (int i = 0; i < n; ++i) g[i] = (R)rndv(2); }
  if (rndi(30) == 0) { f = 0; }
  if (fmode_ == 2 && rndi(8) == 0) for (int i = 0; i < n; ++i) g[i] = 0;
  return f;
}
static double NAME(dot)(int n, const double* a, const double* b, double* mag) { double s = 0; *mag = 0; for (int i = 0; i < n; ++i) { s += a[i] * b[i]; *mag += fabs(a[i] * b[i]); } return s; }
static void NAME(run)(int nit) {
  for (int it = 0; it < nit; ++it) {
    int n = 1 + rndi(VN), rule = 1 + rndi(8), pow_ = rndi(2), sp_ = rndi(2), ls = rndi(4), deriv = rndi(2), i, k;
    static R x[VN], g[VN], x0[VN], xs[VN], xp[VN], gg[VN], t1[VN];
    static double d[VN], dp[VN], g0[VN], y[VN], gv[VN];
    char desc[200];
    opk_nlcg_options o;
    snprintf(desc, sizeof desc, "%s rule=%d%s%s n=%d lnsrch=%d", TNAME, rule, pow_ ? "+Powell" : "", sp_ ? "+Shanno-Phua" : "", n, ls);
    opk_vspace* sp = SP(n);
    opk_vector *vx = WRAP(sp, x, NULL, NULL), *vg = WRAP(sp, g, NULL, NULL);
    fsetup(n);
    for (i = 0; i < n; ++i) { x[i] = (R)(rndr() * 4); if (rndi(80) == 0 && fmode_ == 4) x[i] = (R)rndv(2); }
    if (rndi(8) == 0) for (i = 0; i < n; ++i) x[i] = 0;
    opk_lnsrch* l = ls == 0 ? NULL : ls == 3 ? opk_lnsrch_new_nonmonotone(3, 1e-4, 0.1, 0.5) : sl_new(deriv);
    opk_get_nlcg_default_options(&o);
    if (opk_check_nlcg_options(&o) != OPK_SUCCESS) FAIL("default options are not valid");
    o.flags = rule + (pow_ ? OPK_NLCG_POWELL : 0) + (sp_ ? OPK_NLCG_SHANNO_PHUA : 0);
    if (rndi(2)) { o.gatol = rndi(2) ? 0 : rnd01() * 0.3; o.grtol = rndi(2) ? 0 : rnd01() * 0.5; }
    if (rndi(3) == 0) o.epsilon = rnd01() * 0.9;
    if (rndi(3) == 0) o.delta = rnd01() + 1e-4;
    if (rndi(3) == 0) { o.stpmin = rnd01() * 1e-3; o.stpmax = 1 + rnd01() * 10; }
    if (rndi(3) == 0) { o.fmin_given = 1; o.fmin = rndr() * 2; }
    int bad = rndi(24);
    if (bad < 10) {
      opk_nlcg_options b = o; double v; int chk = OPK_INVALID_ARGUMENT;
      switch (bad) { case 0: b.flags = rndi(2) ? 9 + rndi(247) : 256 + 256 * rndi(3); chk = OPK_SUCCESS; break; case 1: b.gatol = -1e-9; break; case 2: b.grtol = -1e-12; break; case 3: b.delta = -rnd01() * rndi(2); break; case 4: b.epsilon = 1; break; case 5: b.epsilon = -1e-9; break; case 6: b.stpmin = -1e-9; break; case 7: b.stpmax = b.stpmin; break; case 8: b.fmin_given = 1; b.fmin = rndi(2) ? NAN : -INFINITY; break;
        default: v = rndi(2) ? INFINITY : NAN; switch (rndi(6)) { case 0: b.gatol = v; break; case 1: b.grtol = v; break; case 2: b.delta = v; break; case 3: b.epsilon = v; break; case 4: b.stpmin = v; break; default: b.stpmax = v; } }
      errno = 0;
      if ((int)opk_check_nlcg_options(&b) != chk) FAIL("%s: check of invalid options gives %d (%d)", desc, (int)opk_check_nlcg_options(&b), bad);
      if (opk_new_nlcg_optimizer(&b, sp, l) != NULL || errno != EINVAL) FAIL("%s: optimizer created with invalid options (%d, flags %d)", desc, bad, b.flags);
    }
    opk_nlcg* opt = opk_new_nlcg_optimizer(&o, sp, l);
    if (!opt) FAIL("%s: valid options refused", desc);
    ++cases_;
    if (opk_get_nlcg_status(opt) != OPK_NOT_STARTED) FAIL("%s: status of a new optimizer", desc);
    memcpy(x0, x, sizeof x);
    if (opk_iterate_nlcg(opt, vx, 1, vg) != OPK_TASK_ERROR || memcmp(x0, x, n * sizeof(R))) FAIL("%s: iterate before start", desc);
    int runs = 1 + (rndi(3) == 0);
    for (int run = 0; run < runs; ++run) {
      memcpy(x0, x, sizeof x);
      opk_task t = opk_start_nlcg(opt, vx);
      long ev = 0, itn = 0, rs = 0; double ginit = 0, stp1 = 0, slope = 0, wstp = 0; int havedir = 0, wasdir = 0;
      if (t != OPK_TASK_COMPUTE_FG || memcmp(x0, x, n * sizeof(R))) FAIL("%s: start returns task %d", desc, (int)t);
      for (k = 0; k < 60; ++k) {
        if (opk_get_nlcg_evaluations(opt) != ev || opk_get_nlcg_iterations(opt) != itn || opk_get_nlcg_restarts(opt) != rs) FAIL("%s: evaluations %ld iterations %ld restarts %ld, expected %ld %ld %ld", desc, (long)opk_get_nlcg_evaluations(opt), (long)opk_get_nlcg_iterations(opt), (long)opk_get_nlcg_restarts(opt), ev, itn, rs);
        if (opk_get_nlcg_task(opt) != t || (t != OPK_TASK_ERROR && opk_get_nlcg_status(opt) != OPK_SUCCESS)) FAIL("%s: reported task or status", desc);
        if (t == OPK_TASK_COMPUTE_FG) {
          double f, stp = opk_get_nlcg_step(opt), oldg = opk_get_nlcg_gnorm(opt);
          f = NAME(fg)(n, x, g);
          memcpy(xp, x, sizeof x); memcpy(gg, g, sizeof g); memset(&L_, 0, sizeof L_);
          opk_task r = opk_iterate_nlcg(opt, vx, f, vg);
          ++ev;
          if (memcmp(g, gg, n * sizeof(R))) FAIL("%s: gradient modified", desc);
          if (r != OPK_TASK_COMPUTE_FG && memcmp(x, xp, n * sizeof(R))) FAIL("%s: delivered point is not the evaluated one (task %d)", desc, (int)r);
          int acc = r == OPK_TASK_NEW_X || r == OPK_TASK_FINAL_X;
          if (!acc && r != OPK_TASK_COMPUTE_FG && r != OPK_TASK_ERROR) FAIL("%s: unexpected task %d", desc, (int)r);
          if (ev == 1 && !acc) FAIL("%s: first evaluation gives task %d", desc, (int)r);
          if (L_.nstart || ((ls == 1 || ls == 2) && L_.niter != (ev > 1))) FAIL("%s: line search called %d times", desc, L_.niter);
          if (L_.niter) {
            int ok = L_.ret == OPK_LNSRCH_CONVERGENCE || (L_.ret == OPK_LNSRCH_WARNING && L_.st == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS);
            if (L_.ret == OPK_LNSRCH_SEARCH ? r != OPK_TASK_COMPUTE_FG : ok ? !acc : r != OPK_TASK_ERROR) FAIL("%s: line search gives task %d status %d but the optimizer %d", desc, (int)L_.ret, (int)L_.st, (int)r);
            if (r == OPK_TASK_ERROR && opk_get_nlcg_status(opt) != L_.st) FAIL("%s: status of a failed line search", desc);
            if (!samed(L_.f, f) || L_.s != stp) FAIL("%s: line search not given the function value or step", desc);
            if (r == OPK_TASK_COMPUTE_FG && opk_get_nlcg_step(opt) != L_.next) FAIL("%s: step is not the one of the line search", desc);
            double s = 0, a = 0; for (i = 0; i < n; ++i) { s -= d[i] * g[i]; a += fabs(d[i] * g[i]) + (fabs((double)xs[i]) + fabs(d[i] * stp1)) / stp1 * fabs((double)g[i]); }
            if (!dclose(L_.g, s, a, 64 * EPSR)) FAIL("%s: slope given to the line search %g, expected %g", desc, L_.g, s);
          }
          if (acc && ev > 1) ++itn;
          if (acc) {
            double s = 0, gn = opk_get_nlcg_gnorm(opt), thr;
            for (i = 0; i < n; ++i) s += (double)g[i] * g[i];
            s = sqrt(s);
            if (!dclose(gn, s, !(s < 1e15) || s < 1e-15 ? INFINITY : s, 64 * EPSR)) FAIL("%s: gradient norm %g, expected %g", desc, gn, s);
            if (ev == 1) ginit = gn;
            thr = o.gatol > o.grtol * ginit ? o.gatol : o.grtol * ginit;
            if ((gn <= 0 || gn <= o.gatol || gn <= o.grtol * ginit) != (r == OPK_TASK_FINAL_X)) FAIL("%s: gradient norm %g, threshold %g (gatol %g, grtol %g, initial %g) but task %d", desc, gn, thr, o.gatol, o.grtol, ginit, (int)r);
          } else if (!samed(oldg, opk_get_nlcg_gnorm(opt)) && ev > 1) FAIL("%s: gradient norm changed while searching", desc);
          if (r == OPK_TASK_COMPUTE_FG && havedir) {
            double s2 = opk_get_nlcg_step(opt);
            for (i = 0; i < n; ++i) {
              double w = xs[i] - s2 * d[i], err = 64 * EPSR * (fabs((double)xs[i]) + fabs(stp1 * d[i]) + 1e-300) * (1 + s2 / stp1) + 1e-35;
              if (s2 < 1e30 && fabs(w - xs[i]) > 1e-30 * (1 + s2 / stp1) && isfinite(w) && isfinite(err) && err < 1e30 && !(fabs(x[i] - w) <= err)) FAIL("%s: trial point x[%d]=%.9g is not on the search line (%.9g), start %.9g step %g, first step %g", desc, i, (double)x[i], w, (double)xs[i], s2, stp1);
            }
          }
          t = r;
        } else if (t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X) {
          double f = fmode_ == 4 || rndi(2) ? rndr() : rndi(4) ? 1.0 : 0.0, laststep = opk_get_nlcg_step(opt), gn = opk_get_nlcg_gnorm(opt);
          double lastslope = slope;
          if (rndi(10) == 0) break;
          wasdir = havedir; wstp = stp1; memcpy(dp, d, sizeof d);
          double xmag = 0, m; for (i = 0; i < n; ++i) { if (fabs((double)xs[i]) > xmag) xmag = fabs((double)xs[i]); y[i] = (double)(R)(g[i] - (R)g0[i]); gv[i] = g[i]; }
          memcpy(xs, x, sizeof x); memcpy(t1, g, sizeof g); memset(&L_, 0, sizeof L_);
          opk_task r = opk_iterate_nlcg(opt, vx, f, vg);
          stp1 = opk_get_nlcg_step(opt);
          if (memcmp(g, t1, n * sizeof(R))) FAIL("%s: gradient modified", desc);
          long drs = opk_get_nlcg_restarts(opt) - rs; double beta = opk_get_nlcg_beta(opt);
          if (r != OPK_TASK_COMPUTE_FG && r != OPK_TASK_ERROR) FAIL("%s: unexpected task %d", desc, (int)r);
          if (r == OPK_TASK_ERROR && memcmp(x, xs, n * sizeof(R))) FAIL("%s: variables modified by a refused search", desc);
          if (drs < 0 || drs > (ev > 1)) FAIL("%s: %ld restarts in one iteration", desc, drs);
          rs += drs;
          if (L_.nstart) {
            if (!samed(L_.f0, f) || L_.stp != stp1) FAIL("%s: line search started with other function value or step", desc);
            if (L_.smin != o.stpmin * stp1 || L_.smax != o.stpmax * stp1) FAIL("%s: step bounds [%g,%g] for step %g", desc, L_.smin, L_.smax, stp1);
            if (!(L_.g0 < 0)) FAIL("%s: slope %g", desc, L_.g0);
            if (r != (L_.ret == OPK_LNSRCH_SEARCH ? OPK_TASK_COMPUTE_FG : OPK_TASK_ERROR)) FAIL("%s: line search start", desc);
            slope = L_.g0;
          } else slope = NAN;
          int steep = drs || ev == 1;
          if (r == OPK_TASK_COMPUTE_FG) {
            double dm = 0, xm = 0; int fin = 1;
            for (i = 0; i < n; ++i) { d[i] = ((double)xs[i] - (double)x[i]) / stp1; fin &= isfinite(d[i]) && isfinite(xs[i]); if (!(fabs(d[i]) <= dm)) dm = fabs(d[i]); if (!(fabs((double)xs[i]) <= xm)) xm = fabs((double)xs[i]); }
            double de = 64 * EPSR * (dm + xm / stp1);
            if (!(fin && de < 1e-3 * dm && gn > 1e-10 && gn < 1e10 && dm > 1e-10 && dm < 1e10 && xm < 1e10 && (xm == 0 || xm > 1e-10) && stp1 > 1e-12 && stp1 < 1e12)) break; /* direction not recoverable from the trial point */
            havedir = 1;
            if (steep) {
              for (i = 0; i < n; ++i) if (!(fabs(d[i] - gv[i]) <= de)) FAIL("%s: direction %g differs from the gradient %g at a restart", desc, d[i], gv[i]);
              if (beta != 0) FAIL("%s: beta %g at a restart", desc, beta);
              if (L_.nstart && !dclose(L_.g0, -gn * gn, gn * gn, 1e-12)) FAIL("%s: slope %g at a restart, gradient norm %g", desc, L_.g0, gn);
              double w = o.fmin_given && o.fmin < f ? 2 * (f - o.fmin) / (gn * gn) : f != 0 ? 2 * fabs(f) / (gn * gn) : NAN;
              if (f == 0 && w != w) { double xn = 0; for (i = 0; i < n; ++i) xn += (double)xs[i] * xs[i]; xn = sqrt(xn); w = xn > 0 ? o.delta * xn / gn : o.delta / gn; }
              if (!dclose(stp1, w, w, 1e-5)) FAIL("%s: first step %g, expected %g (f=%g, fmin %d %g)", desc, stp1, w, f, o.fmin_given, o.fmin);
            } else {
              double m2, s = NAME(dot)(n, d, gv, &m2);
              if (L_.nstart && fabs(L_.g0 + s) > 256 * EPSR * m2 + de * n * gn) FAIL("%s: slope %g given at start, expected %g", desc, L_.g0, -s);
              if (pow_ && rule != 1 && rule != 4 && rule != 7 && !(beta > 0)) FAIL("%s: beta %g", desc, beta);
              if (sp_ && L_.nstart && lastslope < 0 && !dclose(stp1, laststep * lastslope / L_.g0, stp1, 1e-12)) FAIL("%s: first step %g, expected %g", desc, stp1, laststep * lastslope / L_.g0);
              if (!sp_ && stp1 != laststep) FAIL("%s: first step %g, expected the last one %g", desc, stp1, laststep);
              if (wasdir) {
                double gy, dy, yy, mgy, mdy, myy, dg, mdg, g00, mg, q, w = NAN, tol = 0;
                double dpe = 0, dpm = 0; for (i = 0; i < n; ++i) if (fabs(dp[i]) > dpm) dpm = fabs(dp[i]);
                dpe = 64 * EPSR * (dpm + xmag / wstp);
                gy = NAME(dot)(n, gv, y, &mgy); dy = -NAME(dot)(n, dp, y, &mdy); yy = NAME(dot)(n, y, y, &myy); dg = -NAME(dot)(n, dp, gv, &mdg); g00 = NAME(dot)(n, g0, g0, &mg);
                double ym = sqrt(yy) * sqrt(n), ey = 1e3 * EPSR, edy = dpe * ym + ey * mdy, edg = dpe * gn * sqrt(n) + ey * mdg;
                switch (rule) {
                case 1: w = gn * gn / g00; tol = ey * w; break;
                case 2: w = gy / dy; tol = fabs(w) * (edy / fabs(dy) + ey * mgy / fabs(gy)); break;
                case 3: w = gy / g00; tol = ey * mgy / g00; break;
                case 4: w = -gn * gn / lastslope; tol = ey * fabs(w); break;
                case 5: w = -gy / lastslope; tol = ey * mgy / fabs(lastslope); break;
                case 6: w = gn * gn / dy; tol = fabs(w) * (edy / fabs(dy) + ey); break;
                case 7: { double c1 = dy / yy, c2 = gy / yy - 2 * dg / dy, c3 = -dg / yy; tol = NAN;
                    double e2 = (ey * mgy / yy + 2 * fabs(dg / dy) * (edy / fabs(dy)) + 2 * edg / fabs(dy));
                    for (i = 0; i < n; ++i) { double e = c1 * gv[i] + c2 * dp[i] + c3 * y[i], er = de + (edy / yy) * fabs(gv[i]) + e2 * fabs(dp[i]) + fabs(c2) * dpe + edg / yy * fabs(y[i]) + ey * (fabs(c1 * gv[i]) + fabs(c2 * dp[i]) + fabs(c3 * y[i])); if (er < 1e-2 * dm && !(fabs(e - d[i]) <= er)) FAIL("%s: Perry & Shanno direction %g, expected %g", desc, d[i], e); }
                    break; }
                default: w = (gy - 2 * yy * dg / dy) / dy; tol = (ey * mgy + 2 * yy * edg / fabs(dy) + 4 * fabs(yy * dg / dy) * (edy / fabs(dy) + ey)) / fabs(dy) + fabs(w) * edy / fabs(dy); break;
                }
                if (rule != 7 && isfinite(w) && tol < 1e-2 * fabs(w)) {
                  if (!(fabs(beta - w) <= tol)) FAIL("%s: beta %.9g, expected %.9g (tolerance %g)", desc, beta, w, tol);
                  for (i = 0; i < n; ++i) { double e = gv[i] + beta * dp[i], er = de + fabs(beta) * dpe + 64 * EPSR * (fabs(gv[i]) + fabs(beta * dp[i])); if (er < 1e-2 * dm && !(fabs(d[i] - e) <= er)) FAIL("%s: direction %.9g, expected %.9g (beta %g)", desc, d[i], e, beta); }
                }
                q = 0; (void)q;
              }
            }
            memcpy(g0, gv, sizeof g0);
          }
          t = r;
        } else {
          memcpy(xp, x, sizeof x);
          opk_task r = opk_iterate_nlcg(opt, vx, 1.0, vg);
          if (r != t || memcmp(x, xp, n * sizeof(R)) || opk_get_nlcg_task(opt) != t || opk_get_nlcg_evaluations(opt) != ev) FAIL("%s: iterate with pending task %d", desc, (int)t);
          break;
        }
      }
    }
    OPK_DROP(opt); OPK_DROP(l); OPK_DROP(vx); OPK_DROP(vg); OPK_DROP(sp);
  }
}
