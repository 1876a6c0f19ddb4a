/* R real type, NAME, SP, WRAP, TNAME, RMAX; OP 0 project variables, 1 project direction, 2 free variables, 3 step limits */
#define BN 12
static R NAME(vals)(int q) {
  static const R t[] = {0, 1, -1, 2, 0.5, -2, -0.0, 3};
  return q && rndi(3) ? t[rndi(8)] : (R)(rndr() * (rndi(8) ? 1 : pow(10, rndi(30) - 15)));
}
static void NAME(run)(int thorough, int opsel) {
  int it, nit = thorough ? 500000 : 60000;
  for (it = 0; it < nit; ++it) {
    int n = 1 + rndi(BN), i, tl = rndi(8), tu = rndi(8), q = rndi(3), orient = rndi(2) ? 1 + rndi(3) : -1 - rndi(3), st;
    static float fl[BN], fu[BN]; static double dl[BN], du[BN]; static R vl[BN], vu[BN], x[BN], x0[BN], d[BN], d0[BN], y[BN], lo[BN], hi[BN], w[BN];
    static const opk_bound_type ty[] = {OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_STATIC_FLOAT, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE, OPK_BOUND_VECTOR};
    static const char* nm[] = {"none", "scalar float", "scalar double", "static float", "static double", "volatile float", "volatile double", "vector"};
    char desc[256];
    opk_vspace* sp = SP(n); opk_convexset* bx; opk_vector *vx, *vd, *vy, *blv = NULL, *buv = NULL; void *pl = NULL, *pu = NULL;
    if (rndi(8) == 0) tl = 0;
    if (rndi(8) == 0) tu = 0;
    double s = rndi(4) ? 1 : 0; int wide = rndi(6) == 0;
    for (i = 0; i < n; ++i) {
      float a = (float)NAME(vals)(q), b = (float)NAME(vals)(q), c;
      if (a > b) { c = a; a = b; b = c; }
      if (rndi(6) == 0) b = a;
      if (wide && rndi(3) == 0) a = -INFINITY;
      if (wide && rndi(3) == 0) b = INFINITY;
      if (tl == 1 || tl == 2) { a = i ? fl[0] : a; if (a == INFINITY) a = 0; }
      if (tu == 1 || tu == 2) b = i ? fu[0] : b;
      if (a > b) { if (tl == 1 || tl == 2) b = (tu == 1 || tu == 2) ? b : a; else a = b; }
      fl[i] = a; fu[i] = b;
    }
    if ((tl == 1 || tl == 2) && (tu == 1 || tu == 2)) for (i = 0; i < n; ++i) { if (fl[0] > fu[0]) fu[0] = fl[0]; fl[i] = fl[0]; fu[i] = fu[0]; }
    else if (tl == 1 || tl == 2) for (i = 0; i < n; ++i) { if (fu[i] < fl[0]) fu[i] = fl[0]; }
    else if (tu == 1 || tu == 2) for (i = 0; i < n; ++i) { if (fl[i] > fu[0]) fl[i] = fu[0]; }
    for (i = 0; i < n; ++i) {
      dl[i] = fl[i]; du[i] = fu[i];
      /* doubles that are not floats, keeping the order */
      if (rndi(2) && tl != 1 && tl != 2 && dl[i] < du[i] && isfinite(dl[i])) dl[i] -= fabs(dl[i]) * 1e-12;
      vl[i] = (R)dl[i]; vu[i] = (R)du[i];
      lo[i] = tl == 0 ? -INFINITY : (tl == 1 || tl == 3 || tl == 5) ? (R)fl[i] : tl == 7 ? vl[i] : (R)dl[i];
      hi[i] = tu == 0 ? INFINITY : (tu == 1 || tu == 3 || tu == 5) ? (R)fu[i] : tu == 7 ? vu[i] : (R)du[i];
    }
    if (tl == 7) pl = blv = WRAP(sp, vl, NULL, NULL); else if (tl == 1 || tl == 3 || tl == 5) pl = fl; else if (tl) pl = dl;
    if (tu == 7) pu = buv = WRAP(sp, vu, NULL, NULL); else if (tu == 1 || tu == 3 || tu == 5) pu = fu; else if (tu) pu = du;
    snprintf(desc, sizeof desc, "%s n=%d lower=%s upper=%s orient=%d op=%d", TNAME, n, nm[tl], nm[tu], orient, opsel);
    bx = opk_new_boxset(sp, ty[tl], pl, ty[tu], pu);
    if (!bx) FAIL("%s: box not created", desc);
    for (i = 0; i < n; ++i) {
      int c = rndi(8);
      x[i] = c == 0 && isfinite(lo[i]) ? lo[i] : c == 1 && isfinite(hi[i]) ? hi[i] : NAME(vals)(q);
      if (opsel == 3) { /* feasible */
        if (x[i] < lo[i]) x[i] = lo[i];
        if (x[i] > hi[i]) x[i] = hi[i];
        if (!isfinite(x[i])) x[i] = lo[i] > -INFINITY ? lo[i] : hi[i];
      }
      d[i] = rndi(5) == 0 ? 0 : NAME(vals)(q);
      x0[i] = x[i]; d0[i] = d[i]; y[i] = 77;
    }
    vx = WRAP(sp, x, NULL, NULL); vd = WRAP(sp, d, NULL, NULL);
    ++cases_;
    if (opsel == 0) {
      int m = rndi(3); R* o = m ? x : y;
      vy = m == 1 ? vx : m == 2 ? WRAP(sp, x, NULL, NULL) : WRAP(sp, y, NULL, NULL);
      st = opk_project_variables(vy, vx, bx);
      if (st != OPK_SUCCESS) FAIL("%s: status %d", desc, st);
      for (i = 0; i < n; ++i) {
        w[i] = x0[i] < lo[i] ? lo[i] : x0[i] > hi[i] ? hi[i] : x0[i];
        if (o[i] != w[i]) FAIL("%s in-place=%d: x[%d]=%.17g in [%.17g,%.17g] projected to %.17g, expected %.17g", desc, m, i, (double)x0[i], (double)lo[i], (double)hi[i], (double)o[i], (double)w[i]);
        if (m == 0 && x[i] != x0[i]) FAIL("%s: input modified", desc);
      }
      if (m != 1) OPK_DROP(vy);
    } else if (opsel < 3) {
      int m = rndi(4); R* o = m == 0 ? y : m == 1 || m == 3 ? d : x;
      vy = m == 0 ? WRAP(sp, y, NULL, NULL) : m == 1 ? vd : m == 2 ? vx : WRAP(sp, d, NULL, NULL);
      st = opsel == 1 ? opk_project_direction(vy, vx, bx, vd, orient) : opk_get_free_variables(vy, vx, bx, vd, orient);
      if (st != OPK_SUCCESS) FAIL("%s: status %d", desc, st);
      for (i = 0; i < n; ++i) {
        R e = orient > 0 ? d0[i] : -d0[i];
        int bl = (e < 0 && x0[i] <= lo[i] && tl) || (e > 0 && x0[i] >= hi[i] && tu);
        w[i] = bl ? 0 : opsel == 1 ? d0[i] : 1;
        if (opsel == 2 && e == 0) { if (o[i] != 0 && o[i] != 1) FAIL("%s: mask[%d]=%g", desc, i, (double)o[i]); continue; }
        if (o[i] != w[i]) FAIL("%s in-place=%d: x[%d]=%.17g in [%.17g,%.17g] d=%.17g: result %.17g, expected %.17g", desc, m, i, (double)x0[i], (double)lo[i], (double)hi[i], (double)d0[i], (double)o[i], (double)w[i]);
        if (o != x && x[i] != x0[i]) FAIL("%s: variables modified", desc);
        if (o != d && d[i] != d0[i]) FAIL("%s: direction modified", desc);
      }
      if (m == 0 || m == 3) OPK_DROP(vy);
    } else {
      R s1 = RMAX, s2 = RMAX, s3 = (tl || tu) ? 0 : RMAX;
      double g[3] = {-5, -5, -5}; int m = rndi(4) ? 7 : rndi(8);
      double want[3];
      for (i = 0; i < n; ++i) {
        R e = orient > 0 ? d[i] : -d[i], t;
        if (e == 0) continue;
        if (e < 0) { if (!tl) { s3 = RMAX; continue; } t = (lo[i] - x[i]) / e; }
        else { if (!tu) { s3 = RMAX; continue; } t = (hi[i] - x[i]) / e; }
        if (t < s1) s1 = t;
        if (t > 0 && t < s2) s2 = t;
        if (t > s3) s3 = t;
      }
      st = opk_get_step_limits(m & 1 ? &g[0] : NULL, m & 2 ? &g[1] : NULL, m & 4 ? &g[2] : NULL, vx, bx, vd, orient);
      if (st != OPK_SUCCESS) FAIL("%s: status %d", desc, st);
      want[0] = s1; want[1] = s2; want[2] = s3;
      for (i = 0; i < 3; ++i) {
        double a = g[i], b = want[i];
        if (!(m & (1 << i))) { if (a != -5) FAIL("%s: output %d written", desc, i); continue; }
        if (a > RMAX) a = RMAX;
        if (b > RMAX) b = RMAX;
        if (!(fabs(a - b) <= 4 * REPS * fabs(b))) FAIL("%s: step limit %d is %.17g, expected %.17g (x[0]=%g d[0]=%g box[0]=[%g,%g])", desc, i + 1, a, b, (double)x[0], (double)d[0], (double)lo[0], (double)hi[0]);
      }
      for (i = 0; i < n; ++i) if (x[i] != x0[i] || d[i] != d0[i]) FAIL("%s: inputs modified", desc);
    }
    (void)s;
    OPK_DROP(vx); OPK_DROP(vd); OPK_DROP(bx);
    if (blv) OPK_DROP(blv);
    if (buv) OPK_DROP(buv);
    OPK_DROP(sp);
  }
}
