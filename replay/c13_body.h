/* one precision: T, TN, FN(name), NM(name), EPS */
#define MAXN 12
typedef struct { T p[MAXN + 2], q[MAXN + 2], r[MAXN + 2], x[MAXN + 2], z[MAXN + 2], rho[7]; opk_cg_state st; } NM(S);
#define GUARD ((T)1234567)
static void NM(guard)(NM(S)* s, int n) {
  T* v[] = {s->p, s->q, s->r, s->x, s->z};
  for (int k = 0; k < 5; ++k) v[k][0] = v[k][n + 1] = GUARD;
  s->rho[0] = s->rho[6] = GUARD;
}
static double NM(dot)(int n, const T* a, const T* b) { double s = 0; for (int i = 1; i <= n; ++i) s += (double)a[i] * b[i]; return s; }
static double NM(nrm)(int n, const T* a) { return sqrt(NM(dot)(n, a, a)); }
static int NM(near)(double a, double b, double sc) { return a == b || fabs(a - b) <= 200 * EPS * (sc + fabs(a) + fabs(b)); }
enum { P_PLCG, P_LCG, P_TRCG };
static const char* const NM(nm)[] = {"plcg", "lcg", "trcg"};
static void NM(call)(int f, int n, NM(S)* s, T* z, T delta) {
  if (f == P_PLCG) FN(plcg)(n, s->p + 1, s->q + 1, s->r + 1, s->x + 1, z ? z + 1 : NULL, s->rho + 1, &s->st);
  else if (f == P_LCG) FN(lcg)(n, s->p + 1, s->q + 1, s->r + 1, s->x + 1, s->rho + 1, &s->st);
  else FN(trcg)(n, s->p + 1, s->q + 1, s->r + 1, s->x + 1, z ? z + 1 : NULL, delta, s->rho + 1, &s->st);
}
static char NM(w)[300];
#define BAD(...) do { char m_[300]; sprintf(m_, __VA_ARGS__); FAIL("%s: %s", NM(w), m_); } while (0)
#define CHKV(v, e, what) do { for (int i_ = 0; i_ <= n + 1; ++i_) if (!NM(near)((v)[i_], (e)[i_], vs)) BAD("%s: element %d is %.17g instead of %.17g", what, i_ - 1, (double)(v)[i_], (double)(e)[i_]); } while (0)
/* one call from an arbitrary state: returns 0 when a comparison is too close to decide */
static int NM(step)(int f, int n, int st, int zc, int exact) {
  NM(S) a, e;
  T* v[] = {a.p, a.q, a.r, a.x, a.z};
  for (int k = 0; k < 5; ++k) for (int i = 0; i < MAXN + 2; ++i) v[k][i] = exact ? (T)(rndi(7) - 3) : (T)(rndr() * 3);
  for (int i = 0; i < 7; ++i) a.rho[i] = exact ? (T)(rndi(5) - 1) : (T)(rndr() * 2 + 0.7);
  T delta = exact ? (T)(rndi(9) - 1) : (T)(rnd01() * 6 - 0.3);
  int tr = f == P_TRCG;
  T* R = a.rho + 1;
  if (tr) R[4] = (T)NM(nrm)(n, a.x);
  if (rndi(6) == 0) for (int i = 1; i <= n; ++i) a.p[i] = 0;
  if (rndi(6) == 0) for (int i = 1; i <= n; ++i) a.r[i] = 0;
  if (tr && rndi(4) == 0) R[4] = (T)(delta * rnd01());
  if (tr && rndi(12) == 0) R[4] = delta;
  if (rndi(3) == 0) for (int i = 1; i <= n; ++i) a.q[i] = (T)(2 * a.p[i]);
  if (rndi(3) == 0) for (int i = 1; i <= n; ++i) a.z[i] = (T)(2 * a.r[i]);
  NM(guard)(&a, n);
  a.st = st;
  T* z = f == P_LCG ? NULL : zc == 1 ? a.z : zc == 2 && f == P_PLCG ? a.q : NULL;
  if (st == OPK_CG_PRECOND && z == NULL) return 0;
  sprintf(NM(w), "%s %s n=%d state=%d z=%d", TN, NM(nm)[f], n, st, zc);
  e = a;
  T* E = e.rho + 1;
  double vs = 10, tiny = exact ? 0 : 1e3 * EPS;
#define CLOSE(u, w) (!exact && fabs((double)(u) - (double)(w)) <= 1e3 * EPS * (fabs((double)(u)) + fabs((double)(w)) + 1))
  int trunc = 0;
  (void)tiny;
  if (tr && delta <= 0) { e.st = OPK_CG_ERROR; goto go; }
  switch (st) {
  case OPK_CG_START:
    for (int i = 1; i <= n; ++i) e.x[i] = 0;
    for (int i = 0; i < 4 + tr; ++i) E[i] = 0;
    e.st = OPK_CG_NEWX; break;
  case OPK_CG_RESTART:
    for (int i = 0; i < 4; ++i) E[i] = 0;
    if (tr) {
      double xn = NM(nrm)(n, a.x);
      if (xn != 0 && (CLOSE(xn, delta) || fabs(xn - delta) < 1e3 * EPS * xn)) return 0;
      if (xn > delta) { for (int i = 1; i <= n; ++i) e.x[i] = (T)(a.x[i] * (delta / xn)); E[4] = delta; e.st = OPK_CG_TRUNCATED; break; }
      E[4] = (T)xn;
    }
    for (int i = 1; i <= n; ++i) e.p[i] = a.x[i];
    e.st = OPK_CG_AP; break;
  case OPK_CG_NEWX:
    if (z) { e.st = OPK_CG_PRECOND; break; }
    /* fall through */
  case OPK_CG_PRECOND: {
    const T* zz = z ? z : a.r;
    double r1 = NM(dot)(n, a.r, zz);
    if (CLOSE(r1, 0) && r1 != 0) return 0;
    E[1] = (T)r1;
    if (r1 <= 0) { e.st = r1 < 0 ? OPK_CG_NON_CONVEX : OPK_CG_FINISH; break; }
    double be = R[0] > 0 ? r1 / R[0] : 0;
    if (R[0] > 0 && R[0] < 0.01) return 0;
    for (int i = 1; i <= n; ++i) e.p[i] = (T)(R[0] > 0 ? zz[i] + be * a.p[i] : zz[i]);
    vs *= 1 + fabs(be);
    E[3] = (T)be; e.st = OPK_CG_AP; break; }
  case OPK_CG_AP:
    if (!(R[1] > 0)) {
      for (int i = 1; i <= n; ++i) e.r[i] = a.r[i] - a.q[i];
      if (tr) E[2] = E[3] = 0;
      e.st = OPK_CG_NEWX; break;
    } else {
      double pq = NM(dot)(n, a.p, a.q);
      if (CLOSE(pq, 0) && pq != 0) return 0;
      if (pq > 0 && pq < 0.01) return 0;
      if (pq <= 0 && !tr) { e.st = OPK_CG_NON_CONVEX; break; }
      double al = R[1] / pq;
      vs *= 1 + fabs(al);
      if (pq > 0) {
        T y[MAXN + 2];
        for (int i = 1; i <= n; ++i) y[i] = (T)(a.x[i] + al * a.p[i]);
        double xn = NM(nrm)(n, y);
        E[2] = (T)al;
        if (tr && fabs(xn - delta) < 1e3 * EPS * (1 + xn)) return 0;
        if (!tr || xn < delta) {
          for (int i = 1; i <= n; ++i) { e.x[i] = y[i]; e.r[i] = (T)(a.r[i] - al * a.q[i]); }
          E[0] = R[1];
          if (tr) E[4] = (T)xn;
          e.st = OPK_CG_NEWX; break;
        }
      }
      double A = NM(dot)(n, a.p, a.p), B = NM(dot)(n, a.x, a.p), C = ((double)R[4] + delta) * ((double)R[4] - delta);
      if (A <= 0) { e.st = OPK_CG_FINISH; break; }
      if (R[4] >= delta) { e.st = OPK_CG_ERROR; break; }
      if (A < 0.05 || C > -0.05) return 0;
      double D = sqrt(B * B - A * C);
      al = B >= 0 ? -C / (B + D) : (D - B) / A;
      vs = 100 * (1 + fabs(al));
      for (int i = 1; i <= n; ++i) { e.x[i] = (T)(a.x[i] + al * a.p[i]); e.r[i] = (T)(a.r[i] - al * a.q[i]); }
      E[0] = R[1]; E[2] = (T)al; E[4] = delta; e.st = OPK_CG_TRUNCATED; trunc = 1;
    }
    break;
  case OPK_CG_FINISH: case OPK_CG_NON_CONVEX: break;
  case OPK_CG_TRUNCATED: if (tr) break; /* fall through */
  default: e.st = OPK_CG_ERROR;
  }
go:
  { double xn0 = NM(nrm)(n, a.x);
    int cons = tr && NM(near)(xn0, R[4], 1);
    NM(call)(f, n, &a, z, delta);
    ++cases_;
    if (a.st != e.st) BAD("state is %d instead of %d", (int)a.st, (int)e.st);
    CHKV(a.p, e.p, "p"); CHKV(a.q, e.q, "q"); CHKV(a.r, e.r, "r"); CHKV(a.x, e.x, "x"); CHKV(a.z, e.z, "z");
    for (int i = 0; i < 7; ++i) if (!NM(near)(a.rho[i], e.rho[i], vs)) BAD("rho[%d] is %.17g instead of %.17g", i - 1, (double)a.rho[i], (double)e.rho[i]);
    if (trunc && cons && !NM(near)(NM(nrm)(n, a.x), delta, 100 * vs)) BAD("norm of x is %g instead of %g", NM(nrm)(n, a.x), (double)delta);
  }
  return 1;
}
/* full solution of a system; kind: 0 positive definite, 1 indefinite operator, 2 indefinite preconditioner */
static void NM(solve)(int f, int n, int kind, int zc, int restart, T delta) {
  double A[MAXN][MAXN], x0[MAXN], b[MAXN], xs[MAXN];
  NM(S) s;
  for (int i = 0; i < n; ++i) { xs[i] = rndi(9) - 4; x0[i] = rndi(5) - 2; for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = rndr() * 0.3; }
  for (int i = 0; i < n; ++i) A[i][i] = (kind == 1 && i == n - 1 ? -1 : 1) * (1.5 + 0.3 * n + rnd01());
  for (int i = 0; i < n; ++i) { b[i] = 0; for (int j = 0; j < n; ++j) b[i] += A[i][j] * xs[j]; }
  sprintf(NM(w), "%s %s n=%d kind=%d z=%d restart=%d delta=%g", TN, NM(nm)[f], n, kind, zc, restart, (double)delta);
  memset(&s, 0, sizeof s);
  NM(guard)(&s, n);
  for (int i = 0; i < n; ++i) { s.r[i + 1] = (T)b[i]; s.x[i + 1] = (T)(restart ? x0[i] : 77); }
  s.st = restart ? OPK_CG_RESTART : OPK_CG_START;
  T* z = f == P_LCG ? NULL : zc == 1 ? s.z : zc == 2 && f == P_PLCG ? s.q : NULL;
  int tr = f == P_TRCG, it = 0, news = 0;
  double bn = 0; for (int i = 0; i < n; ++i) bn += b[i] * b[i]; bn = sqrt(bn);
  for (;; ++it) {
    if (it > 12 * n + 40) BAD("no end");
    int before = s.st;
    NM(call)(f, n, &s, z, delta);
    ++cases_;
    T* v[] = {s.p, s.q, s.r, s.x, s.z};
    for (int k = 0; k < 5; ++k) if (v[k][0] != GUARD || v[k][n + 1] != GUARD) BAD("array %d written outside", k);
    if (s.rho[0] != GUARD || s.rho[6] != GUARD) BAD("rho written outside");
    if (tr && NM(nrm)(n, s.x) > delta * (1 + 100 * EPS)) BAD("norm of x is %g", NM(nrm)(n, s.x));
    if (s.st == OPK_CG_AP) { for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) t += A[i][j] * s.p[j + 1]; s.q[i + 1] = (T)t; } }
    else if (s.st == OPK_CG_PRECOND) { if (!z) BAD("preconditioning requested"); for (int i = 0; i < n; ++i) z[i + 1] = (T)((kind == 2 ? -1 : 1) * (i % 3 + 1) * 0.5 * s.r[i + 1]); }
    else if (s.st == OPK_CG_NEWX) {
      double rr = 0;
      for (int i = 0; i < n; ++i) { double t = b[i]; for (int j = 0; j < n; ++j) t -= A[i][j] * s.x[j + 1]; rr += t * t; if (fabs(t - s.r[i + 1]) > 1e4 * EPS * (1 + bn)) BAD("residual %d is %g instead of %g", i, (double)s.r[i + 1], t); }
      ++news;
      if (sqrt(rr) < 2e4 * EPS * (1 + bn)) break;
      if (kind != 1 && news > 3 * n + 20) BAD("not converged: residual %g", sqrt(rr));
    } else {
      if (before == OPK_CG_START || before == OPK_CG_RESTART) { if (!(tr && s.st == OPK_CG_TRUNCATED && before == OPK_CG_RESTART)) BAD("initial call ends in state %d", (int)s.st); }
      if (s.st == OPK_CG_TRUNCATED && tr) { if (fabs(NM(nrm)(n, s.x) - delta) > 1e3 * EPS * delta) BAD("truncated with norm %g", NM(nrm)(n, s.x)); break; }
      if (s.st == OPK_CG_NON_CONVEX && (kind == 2 || (kind == 1 && !tr))) break;
      if (s.st == OPK_CG_FINISH) break;
      BAD("state %d", (int)s.st);
    }
  }
}
static void NM(all)(int thorough) {
  for (int rep = 0; rep < (thorough ? 40 : 8); ++rep)
    for (int f = 0; f < 3; ++f)
      for (int n = 0; n <= MAXN; ++n)
        for (int st = -2; st <= 9; ++st)
          for (int zc = 0; zc < 3; ++zc)
            for (int k = 0; k < 4; ++k) NM(step)(f, n, st, zc, k & 1);
  for (int rep = 0; rep < (thorough ? 200 : 30); ++rep)
    for (int f = 0; f < 3; ++f)
      for (int n = 1; n <= MAXN; ++n)
        for (int kind = 0; kind < 3; ++kind)
          for (int zc = 0; zc < 3; ++zc) NM(solve)(f, n, kind, zc, rep & 1, (T)(rep % 3 == 0 ? 1000 : 0.5 + 4 * rnd01()));
}
#undef MAXN
#undef GUARD
#undef BAD
#undef CHKV
#undef CLOSE
