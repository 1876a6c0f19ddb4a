/* R real type, NAME, SP, WRAP, TNAME, EPSR; which 8 feasibility and trial points, 9 protocol and counters */
#define VN 8
static double NAME(fg)(int n, const R* x, R* g) {
  double f = 0;
  for (int i = 0; i < n; ++i) { double t = x[i] - fb_[i]; f += 0.5 * fa_[i] * t * t; g[i] = (R)(fa_[i] * t); }
  if (fmode_ == 3) { f = rndr() * 4; for (int i = 0; i < n; ++i) g[i] = (R)rndr(); }
  if (fmode_ == 4 && rndi(4) == 0) { f = rndv(2); for (int i = 0; i < n; ++i) g[i] = (R)rndv(2); }
  if (rndi(30) == 0) { f = 0; }
  if (fmode_ == 2 && rndi(8) == 0) for (int i = 0; i < n; ++i) g[i] = 0;
  return f;
}
static int NAME(feas)(R x, R lo, R hi) { return x != x || (x >= lo && x <= hi); }
static void NAME(run)(int nit, int which) {
  for (int it = 0; it < nit; ++it) {
    int n = 1 + rndi(VN), method = rndi(3), mem = 1 + rndi(rndi(2) ? 4 : n + 2), save = rndi(2), bl = method ? 1 + rndi(3) : 0, ls = rndi(4), deriv = rndi(2), i, j, k;
    static R x[VN], g[VN], lo[VN], hi[VN], x0[VN], xs[VN], gs[VN], xp[VN], dir[VN], gg[VN], HS[400][VN], HY[400][VN], t1[VN], t2[VN];
    double sl = -rnd01(), su = rnd01();
    static const char* mn[] = {"LBFGS", "VMLMB", "BLMVM"};
    char desc[200];
    opk_vmlmb_options o;
    snprintf(desc, sizeof desc, "%s %s n=%d mem=%d save=%d box=%d lnsrch=%d", TNAME, mn[method], n, mem, save, bl, ls);
    opk_vspace* sp = SP(n);
    opk_vector *vx = WRAP(sp, x, NULL, NULL), *vg = WRAP(sp, g, NULL, NULL), *vl = WRAP(sp, lo, NULL, NULL), *vu = WRAP(sp, hi, NULL, NULL);
    fsetup(n);
    for (i = 0; i < n; ++i) {
      x[i] = (R)(rndr() * 4); lo[i] = (R)(rndr() * 2); hi[i] = lo[i] + (R)(rndi(6) ? rnd01() * 3 : 0);
      if (bl == 2) lo[i] = -INFINITY; if (bl == 3) { lo[i] = (R)sl; hi[i] = (R)su; }
      if (!bl) { lo[i] = -INFINITY; hi[i] = INFINITY; }
      if (rndi(80) == 0 && fmode_ == 4) x[i] = (R)rndv(2);
    }
    opk_convexset* bx = bl == 1 ? opk_new_boxset(sp, OPK_BOUND_VECTOR, vl, OPK_BOUND_VECTOR, vu) : bl == 2 ? opk_new_boxset(sp, OPK_BOUND_NONE, NULL, OPK_BOUND_VECTOR, vu) : bl == 3 ? opk_new_boxset(sp, OPK_BOUND_SCALAR_DOUBLE, &sl, OPK_BOUND_SCALAR_DOUBLE, &su) : NULL;
    opk_lnsrch* l = ls == 0 ? NULL : ls == 3 ? opk_lnsrch_new_nonmonotone(3, 1e-4, 0.1, 0.5) : sl_new(deriv);
    opk_get_vmlmb_default_options(&o);
    if (opk_check_vmlmb_options(&o) != OPK_SUCCESS) FAIL("default options are not valid");
    o.mem = mem; o.save_memory = save; o.blmvm = method == 2;
    if (rndi(2)) { o.gatol = rndi(2) ? 0 : rnd01() * 0.3; o.grtol = rndi(2) ? 0 : rnd01() * 0.5; }
    if (rndi(3) == 0) o.epsilon = rnd01() * 0.9;
    if (rndi(3) == 0) o.delta = rnd01() + 1e-4;
    if (rndi(3) == 0) { o.stpmin = rnd01() * 1e-3; o.stpmax = 1 + rnd01() * 10; }
    int bad = rndi(24);
    if (bad < 9 && which == 9) {
      opk_vmlmb_options b = o; double v;
      switch (bad) { case 0: b.mem = -rndi(3); break; case 1: b.gatol = -1e-9; break; case 2: b.grtol = NAN; break; case 3: b.delta = 0; break; case 4: b.epsilon = 1; break; case 5: b.epsilon = -1e-9; break; case 6: b.stpmin = -1e-9; break; case 7: b.stpmax = b.stpmin; break; default: v = rndi(2) ? INFINITY : NAN; switch (rndi(6)) { case 0: b.gatol = v; break; case 1: b.grtol = v; break; case 2: b.delta = v; break; case 3: b.epsilon = v; break; case 4: b.stpmin = v; break; default: b.stpmax = v; } }
      errno = 0;
      if (opk_check_vmlmb_options(&b) != OPK_INVALID_ARGUMENT) FAIL("%s: invalid options accepted (%d)", desc, bad);
      if (opk_new_vmlmb_optimizer(&b, sp, l, bx) != NULL || errno != EINVAL) FAIL("%s: optimizer created with invalid options (%d)", desc, bad);
    }
    opk_vmlmb* opt = opk_new_vmlmb_optimizer(&o, sp, l, bx);
    if (!opt) FAIL("%s: valid options refused", desc);
    int M = mem < n ? mem : n;
    ++cases_;
    if (opk_get_vmlmb_status(opt) != OPK_NOT_STARTED) FAIL("%s: status of a new optimizer", desc);
    memcpy(x0, x, sizeof x);
    if (opk_iterate_vmlmb(opt, vx, 1, vg) != OPK_TASK_ERROR || memcmp(x0, x, n * sizeof(R))) FAIL("%s: iterate before start", desc);
    int runs = 1 + (rndi(3) == 0);
    for (int run = 0; run < runs; ++run) {
      if (run && rndi(2)) for (i = 0; i < n; ++i) x[i] = (R)(rndr() * 4);
      memcpy(x0, x, sizeof x);
      opk_task t = opk_start_vmlmb(opt, vx);
      long ev = 0, itn = 0, rs = 0, up = 0; double ginit = 0, stp1 = 0; int insearch = 0;
      if (t != OPK_TASK_COMPUTE_FG) FAIL("%s: start returns task %d", desc, (int)t);
      for (i = 0; i < n; ++i) { R c = x0[i] < lo[i] ? lo[i] : x0[i] > hi[i] ? hi[i] : x0[i]; if (!(x[i] == c || c != c)) FAIL("%s: starting point %g becomes %g, bounds [%g,%g]", desc, (double)x0[i], (double)x[i], (double)lo[i], (double)hi[i]); }
      for (k = 0; k < 60; ++k) {
        if (which == 9) {
          if (opk_get_vmlmb_evaluations(opt) != ev || opk_get_vmlmb_iterations(opt) != itn || opk_get_vmlmb_restarts(opt) != rs) FAIL("%s: evaluations %ld iterations %ld restarts %ld, expected %ld %ld %ld", desc, (long)opk_get_vmlmb_evaluations(opt), (long)opk_get_vmlmb_iterations(opt), (long)opk_get_vmlmb_restarts(opt), ev, itn, rs);
          if (opk_get_vmlmb_task(opt) != t || (t != OPK_TASK_ERROR && opk_get_vmlmb_status(opt) != OPK_SUCCESS)) FAIL("%s: reported task or status", desc);
          if (opk_get_vmlmb_mp(opt) > M || opk_get_vmlmb_mp(opt) < 0 || opk_get_vmlmb_mp(opt) > up) FAIL("%s: %ld pairs memorized", desc, (long)opk_get_vmlmb_mp(opt));
        }
        if (t == OPK_TASK_COMPUTE_FG) {
          double f, stp = opk_get_vmlmb_step(opt), oldg = opk_get_vmlmb_gnorm(opt);
          if (which == 8) for (i = 0; i < n; ++i) if (!NAME(feas)(x[i], lo[i], hi[i])) FAIL("%s: point to evaluate not feasible: x[%d]=%.17g not in [%.17g,%.17g]", desc, i, (double)x[i], (double)lo[i], (double)hi[i]);
          f = NAME(fg)(n, x, g);
          memcpy(xp, x, sizeof x); memcpy(gg, g, sizeof g);
          memset(&L_, 0, sizeof L_);
          opk_task r = opk_iterate_vmlmb(opt, vx, f, vg);
          ++ev;
          if (memcmp(g, gg, n * sizeof(R))) FAIL("%s: gradient modified", desc);
          if (r != OPK_TASK_COMPUTE_FG && memcmp(x, xp, n * sizeof(R))) FAIL("%s: delivered point is not the evaluated one (task %d)", desc, (int)r);
          int acc = r == OPK_TASK_NEW_X || r == OPK_TASK_FINAL_X;
          if (which == 9) {
            if (!acc && r != OPK_TASK_COMPUTE_FG && r != OPK_TASK_ERROR) FAIL("%s: unexpected task %d", desc, (int)r);
            if (ev == 1 && !acc) FAIL("%s: first evaluation gives task %d", desc, (int)r);
            if (L_.nstart || (ls == 1 || ls == 2) != 0 && L_.niter != (ev > 1)) FAIL("%s: line search called %d times", desc, L_.niter);
            if (L_.niter) {
              int ok = L_.ret == OPK_LNSRCH_CONVERGENCE || (L_.ret == OPK_LNSRCH_WARNING && L_.st == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS);
              if (L_.ret == OPK_LNSRCH_SEARCH ? r != OPK_TASK_COMPUTE_FG : ok ? !acc : r != OPK_TASK_ERROR) FAIL("%s: line search gives task %d status %d but the optimizer %d", desc, (int)L_.ret, (int)L_.st, (int)r);
              if (r == OPK_TASK_ERROR && opk_get_vmlmb_status(opt) != L_.st) FAIL("%s: status of a failed line search", desc);
              if (!samed(L_.f, f) || L_.s != stp) FAIL("%s: line search not given the function value or step", desc);
              if (r == OPK_TASK_COMPUTE_FG && opk_get_vmlmb_step(opt) != L_.next) FAIL("%s: step is not the one of the line search", desc);
              if (deriv && !bl) { double s = 0, a = 0; for (i = 0; i < n; ++i) { double q = (xs[i] - dir[i]) / stp1 * g[i]; s -= q; a += fabs(q) + (fabs((double)xs[i]) + fabs((double)dir[i])) / stp1 * fabs((double)g[i]); } if (!dclose(L_.g, s, a, 64 * EPSR)) FAIL("%s: slope given to the line search %g, expected %g", desc, L_.g, s); }
            }
            if (acc && ev > 1) ++itn;
            if (acc) {
              double s = 0, gn = opk_get_vmlmb_gnorm(opt), thr;
              for (i = 0; i < n; ++i) if (!(bl && ((g[i] > 0 && x[i] <= lo[i] && lo[i] > -INFINITY) || (g[i] < 0 && x[i] >= hi[i])))) s += (double)g[i] * g[i];
              s = sqrt(s);
              int fin = 1; for (i = 0; i < n; ++i) fin &= isfinite(g[i]) && isfinite(x[i]);
              if (fin && !dclose(gn, s, !(s < 1e15) || s < 1e-15 ? INFINITY : s, 64 * EPSR)) FAIL("%s: gradient norm %g, expected %g", desc, gn, s);
              if (ev == 1) ginit = gn;
              thr = o.gatol > o.grtol * ginit ? o.gatol : o.grtol * ginit; if (!(thr > 0)) thr = 0;
              if ((gn <= 0 || gn <= o.gatol || gn <= o.grtol * ginit) != (r == OPK_TASK_FINAL_X)) FAIL("%s: gradient norm %g, threshold %g (gatol %g, grtol %g, initial %g) but task %d", desc, gn, thr, o.gatol, o.grtol, ginit, (int)r);
            } else if (!samed(oldg, opk_get_vmlmb_gnorm(opt)) && ev > 1) FAIL("%s: gradient norm changed while searching", desc);
          } else if (acc && ev > 1) ++itn;
          if (r == OPK_TASK_COMPUTE_FG && which == 8 && insearch) {
            double s2 = opk_get_vmlmb_step(opt);
            for (i = 0; i < n; ++i) {
              double p = ((double)dir[i] - xs[i]) / stp1, w = xs[i] + s2 * p, err = 64 * EPSR * (fabs((double)xs[i]) + fabs((double)dir[i]) + 1e-300) * (1 + s2 / stp1) + 1e-35;
              if (bl && (dir[i] == lo[i] || dir[i] == hi[i])) continue; /* first trial was cut */
              if (w < lo[i]) w = lo[i]; if (w > hi[i]) w = hi[i];
              if (s2 < 1e30 && fabs(w - xs[i]) > 1e-30 * (1 + s2 / stp1) && isfinite(w) && isfinite(err) && err < 1e30 && !(fabs(x[i] - w) <= err)) FAIL("%s: trial point x[%d]=%.9g is not on the search line (%.9g), start %.9g step %g, first step %g", desc, i, (double)x[i], w, (double)xs[i], s2, stp1);
            }
          }
          if (acc) insearch = 0;
          t = r;
        } else if (t == OPK_TASK_NEW_X || t == OPK_TASK_FINAL_X) {
          double f = fmode_ == 4 || rndi(2) ? rndr() : 1.0; long mp0 = opk_get_vmlmb_mp(opt);
          if (which == 8) for (i = 0; i < n; ++i) if (!NAME(feas)(x[i], lo[i], hi[i])) FAIL("%s: iterate not feasible: x[%d]=%.17g not in [%.17g,%.17g]", desc, i, (double)x[i], (double)lo[i], (double)hi[i]);
          if (rndi(10) == 0) break;
          for (i = 0; i < n; ++i) gg[i] = method == 2 && ((g[i] > 0 && x[i] <= lo[i] && lo[i] > -INFINITY) || (g[i] < 0 && x[i] >= hi[i])) ? 0 : g[i];
          if (itn >= 1 && up < 400) { for (i = 0; i < n; ++i) { HS[up][i] = x[i] - xs[i]; HY[up][i] = gg[i] - gs[i]; } ++up; }
          memcpy(xs, x, sizeof x); memcpy(gs, gg, sizeof g); memcpy(t1, g, sizeof g);
          memset(&L_, 0, sizeof L_);
          opk_task r = opk_iterate_vmlmb(opt, vx, f, vg);
          stp1 = opk_get_vmlmb_step(opt); memcpy(dir, x, sizeof x); insearch = 1;
          if (memcmp(g, t1, n * sizeof(R))) FAIL("%s: gradient modified", desc);
          long mp = opk_get_vmlmb_mp(opt), drs = opk_get_vmlmb_restarts(opt) - rs;
          if (which == 9) {
            if (r != OPK_TASK_COMPUTE_FG && r != OPK_TASK_ERROR) FAIL("%s: unexpected task %d", desc, (int)r);
            if (r == OPK_TASK_ERROR && memcmp(x, xs, n * sizeof(R))) FAIL("%s: variables modified by a refused search", desc);
            if (drs < 0 || drs > 1 || (drs && mp != 0)) FAIL("%s: %ld restarts in one iteration, %ld pairs kept", desc, drs, mp);
            if (itn >= 1 && mp > mp0 + 1) FAIL("%s: too many pairs", desc);
            if (!drs && itn >= 1 && mp != (mp0 < M ? mp0 + 1 : M) && !(save && mp == M - 1) && r == OPK_TASK_COMPUTE_FG) FAIL("%s: %ld pairs memorized after %ld", desc, mp, mp0);
            if (L_.nstart) {
              if (!samed(L_.f0, f) || L_.stp != stp1) FAIL("%s: line search started with other function value or step", desc);
              if (!(L_.g0 < 0)) FAIL("%s: slope %g", desc, L_.g0);
              if (r != (L_.ret == OPK_LNSRCH_SEARCH ? OPK_TASK_COMPUTE_FG : OPK_TASK_ERROR)) FAIL("%s: line search start", desc);
              if (r == OPK_TASK_COMPUTE_FG && !bl) { double s = 0, a = 0; for (i = 0; i < n; ++i) { double q = (xs[i] - (double)x[i]) / stp1 * g[i]; s -= q; a += fabs(q) + (fabs((double)xs[i]) + fabs((double)x[i])) / stp1 * fabs((double)g[i]); } if (!dclose(L_.g0, s, a, 256 * EPSR)) FAIL("%s: slope %g given at start, expected %g (step %g)", desc, L_.g0, s, stp1);
                double gn = opk_get_vmlmb_gnorm(opt); if (drs && !dclose(L_.g0, -gn * gn, gn * gn, 1e-9)) FAIL("%s: restart not along the gradient", desc); }
            }
            rs += drs;
            if (r == OPK_TASK_COMPUTE_FG) for (j = 1; j <= mp && j <= up; ++j) {
              opk_vector *s = opk_get_vmlmb_s(opt, j), *y = opk_get_vmlmb_y(opt, j);
              if (!s || !y) FAIL("%s: missing pair %d of %ld", desc, j, mp);
              opk_vexport(t1, REAL, n, s); opk_vexport(t2, REAL, n, y);
              for (i = 0; i < n; ++i) if (up < 400 && !((t1[i] == HS[up - j][i] || t1[i] != t1[i]) && (t2[i] == HY[up - j][i] || t2[i] != t2[i]))) FAIL("%s: pair %d[%d] is (%g,%g), expected (%g,%g) after %ld updates", desc, j, i, (double)t1[i], (double)t2[i], (double)HS[up - j][i], (double)HY[up - j][i], up);
            }
            if (opk_get_vmlmb_s(opt, -1) || opk_get_vmlmb_y(opt, -1) || opk_get_vmlmb_s(opt, mp + 1) || opk_get_vmlmb_y(opt, mp + 1)) FAIL("%s: pair out of range", desc);
          }
          t = r;
        } else {
          memcpy(xp, x, sizeof x);
          opk_task r = opk_iterate_vmlmb(opt, vx, 1.0, vg);
          if (r != t || memcmp(x, xp, n * sizeof(R)) || opk_get_vmlmb_task(opt) != t || opk_get_vmlmb_evaluations(opt) != ev) FAIL("%s: iterate with pending task %d", desc, (int)t);
          if (which == 8) for (i = 0; i < n; ++i) if (!NAME(feas)(x[i], lo[i], hi[i])) FAIL("%s: point not feasible", desc);
          break;
        }
      }
    }
    OPK_DROP(opt); OPK_DROP(l); OPK_DROP(bx); OPK_DROP(vx); OPK_DROP(vg); OPK_DROP(vl); OPK_DROP(vu); OPK_DROP(sp);
  }
}
