/* included with R (real type), SFX, SAME, SP, WRAP, ABSR, SQRTR */
#define MAXN 70
static void NAME(run)(int thorough) {
  static R a[4][MAXN], o[4][MAXN];
  static const char* ops[] = {"vzero", "vfill", "vcopy", "vscale", "vswap", "vproduct", "vaxpby", "vaxpbypcz", "vdot", "vdot3", "vnorm1", "vnorm2", "vnorminf", "vimport", "vexport", "vpeek", "vpoke"};
  int it, nit = thorough ? 400000 : 60000;
  for (it = 0; it < nit; ++it) {
    int n = rndi(10) == 0 ? 1 + rndi(MAXN - 2) : 1 + rndi(9), i, j, op = it % 17, map[4], same[4], sp = rndi(3);
    opk_vspace* vs = SP(n);
    opk_vector* v[4];
    double c[3], got = 0;
    R e[MAXN], e2[MAXN]; int d = 0, d2 = -1, red = 0; double want = 0;
    char desc[300];
    for (i = 0; i < 4; ++i) {
      map[i] = (i > 0 && rndi(3) == 0) ? map[rndi(i)] : i;
      for (j = 0; j < MAXN; ++j) o[i][j] = a[i][j] = (R)rndv(sp);
    }
    for (i = 0; i < 4; ++i) {
      same[i] = rndi(2);
      if (map[i] != i && same[i]) { v[i] = v[map[i]]; OPK_HOLD_VECTOR(v[i]); }
      else v[i] = WRAP(vs, a[map[i]], NULL, NULL);
    }
    for (i = 0; i < 3; ++i) { static const double t[] = {0, 1, -1, -0.0, 2, 0.5}; c[i] = rndi(2) ? t[rndi(6)] : (rndi(9) == 0 ? rndv(2) : rndr() * 3); }
#define X(q) o[map[q]]
    snprintf(desc, sizeof desc, "opk_%s(%s) n=%d share=[%d %d %d %d] coef=[%g %g %g]", ops[op], TNAME, n, map[0], map[1], map[2], map[3], c[0], c[1], c[2]);
    for (j = 0; j < n; ++j) e[j] = X(0)[j];
    ++cases_;
    switch (op) {
    case 0: opk_vzero(v[0]); for (j = 0; j < n; ++j) e[j] = 0; break;
    case 1: opk_vfill(v[0], c[0]); for (j = 0; j < n; ++j) e[j] = c[0] == 0 ? (R)0 : (R)c[0]; break;
    case 2: opk_vcopy(v[0], v[1]); for (j = 0; j < n; ++j) e[j] = X(1)[j]; break;
    case 3: opk_vscale(v[0], c[0], v[1]); for (j = 0; j < n; ++j) e[j] = c[0] == 0 ? (R)0 : (R)((R)c[0] * X(1)[j]); break;
    case 4: opk_vswap(v[0], v[1]); d2 = 1; for (j = 0; j < n; ++j) { e[j] = X(1)[j]; e2[j] = X(0)[j]; } break;
    case 5: opk_vproduct(v[0], v[1], v[2]); for (j = 0; j < n; ++j) e[j] = X(1)[j] * X(2)[j]; break;
    case 6: opk_vaxpby(v[0], c[0], v[1], c[1], v[2]); break;
    case 7: opk_vaxpbypcz(v[0], c[0], v[1], c[1], v[2], c[2], v[3]); break;
    case 8: red = 1; d = -1; got = opk_vdot(v[0], v[1]); { R s = 0; for (j = 0; j < n; ++j) s += X(0)[j] * X(1)[j]; want = s; } break;
    case 9: red = 1; d = -1; got = opk_vdot3(v[0], v[1], v[2]); { R s = 0; for (j = 0; j < n; ++j) s += X(0)[j] * X(1)[j] * X(2)[j]; want = s; } break;
    case 10: red = 1; d = -1; got = opk_vnorm1(v[0]); { R s = 0; for (j = 0; j < n; ++j) s += ABSR(X(0)[j]); want = s; } break;
    case 11: red = 1; d = -1; got = opk_vnorm2(v[0]); { R s = 0; for (j = 0; j < n; ++j) s += X(0)[j] * X(0)[j]; want = SQRTR(s); } break;
    case 12: red = 1; d = -1; got = opk_vnorminf(v[0]); { R s = 0; for (j = 0; j < n; ++j) if (ABSR(X(0)[j]) > s) s = ABSR(X(0)[j]); want = s; } break;
    case 13: { float f[MAXN]; double g[MAXN]; int t = rndi(2); int st;
        for (j = 0; j < n; ++j) { g[j] = rndv(sp); f[j] = (float)g[j]; e[j] = t ? (R)g[j] : (R)f[j]; }
        st = t ? opk_vimport(v[0], g, OPK_DOUBLE, n) : opk_vimport(v[0], f, OPK_FLOAT, n);
        if (st != OPK_SUCCESS) FAIL("%s: status %d", desc, st); } break;
    case 14: { float f[MAXN + 1]; double g[MAXN + 1]; int t = rndi(2), st; d = -1;
        f[n] = 42; g[n] = 42;
        st = t ? opk_vexport(g, OPK_DOUBLE, n, v[0]) : opk_vexport(f, OPK_FLOAT, n, v[0]);
        if (st != OPK_SUCCESS) FAIL("%s: status %d", desc, st);
        for (j = 0; j < n; ++j) if (t ? !samed(g[j], (double)X(0)[j]) : !samef(f[j], (float)X(0)[j])) FAIL("%s: element %d exported wrongly", desc, j);
        if (f[n] != 42 || g[n] != 42) FAIL("%s: wrote past the end of the destination", desc); } break;
    case 15: { double r = 7; d = -1; j = rndi(n); if (opk_vpeek(v[0], j, &r) != OPK_SUCCESS || !samed(r, (double)X(0)[j])) FAIL("%s: peek(%d)", desc, j); } break;
    case 16: { j = rndi(n); double x = rndv(sp); e[j] = (R)x; if (opk_vpoke(v[0], j, x) != OPK_SUCCESS) FAIL("%s: poke", desc); } break;
    }
    if (op == 6 || op == 7) {
      for (j = 0; j < n; ++j) {
        int q, first = 1; R s = 0;
        for (q = 0; q < (op == 6 ? 2 : 3); ++q) if (c[q] != 0) { R t = (R)c[q] * X(q + 1)[j]; s = first ? t : (R)(s + t); first = 0; }
        e[j] = s;
      }
    }
    if (red && !samed(got, want)) FAIL("%s: returned %.17g instead of %.17g", desc, got, want);
    for (i = 0; i < 4; ++i) {
      R *ex = NULL;
      if (map[i] != i) continue;
      if (d >= 0 && map[d] == i) ex = e;
      if (d2 >= 0 && map[d2] == i) ex = e2;
      for (j = 0; j < MAXN; ++j) {
        R w = (ex && j < n) ? ex[j] : o[i][j];
        if (!SAME(a[i][j], w)) FAIL("%s: %s %d element %d is %.17g instead of %.17g", desc, ex ? "result" : "operand", i, j, (double)a[i][j], (double)w);
      }
    }
    for (i = 0; i < 4; ++i) OPK_DROP(v[i]);
    OPK_DROP(vs);
  }
}
#undef MAXN
#undef X
