/* one precision: T, TN, FN(name), NM(name), EPS */
#define GUARD ((T)7654321)
static T* NM(gmk)(long n) { T* p = malloc((n + 4) * sizeof(T)); for (long i = 0; i < n + 4; ++i) p[i] = GUARD; return p + 2; }
static int NM(gok)(const T* p, long n) { return p[-2] == GUARD && p[-1] == GUARD && p[n] == GUARD && p[n + 1] == GUARD; }
static char NM(w)[400];
#define BAD(...) do { char m_[300]; snprintf(m_, sizeof m_, __VA_ARGS__); FAIL("%s: %s", NM(w), m_); } while (0)
/* exact solution by the eigenvalues: minimum of b'x + x'Ax/2 over norm(x) <= delta */
static void NM(jacobi)(int n, double A[NMAX][NMAX], double V[NMAX][NMAX]) {
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V[i][j] = i == j;
  for (int sw = 0; sw < 60; ++sw)
    for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
      if (A[p][q] == 0) continue;
      double th = 0.5 * atan2(2 * A[p][q], A[q][q] - A[p][p]), c = cos(th), s = sin(th);
      for (int k = 0; k < n; ++k) { double u = A[k][p], v = A[k][q]; A[k][p] = c * u - s * v; A[k][q] = s * u + c * v; }
      for (int k = 0; k < n; ++k) { double u = A[p][k], v = A[q][k]; A[p][k] = c * u - s * v; A[q][k] = s * u + c * v; }
      for (int k = 0; k < n; ++k) { double u = V[k][p], v = V[k][q]; V[k][p] = c * u - s * v; V[k][q] = s * u + c * v; }
    }
}
static double NM(fmin_)(int n, double A0[NMAX][NMAX], const T* b, double delta) {
  double A[NMAX][NMAX], V[NMAX][NMAX], g[NMAX], l[NMAX], lm = INFINITY, sc = 0;
  memcpy(A, A0, sizeof A);
  NM(jacobi)(n, A, V);
  for (int i = 0; i < n; ++i) { l[i] = A[i][i]; g[i] = 0; for (int k = 0; k < n; ++k) g[i] += V[k][i] * b[k]; if (l[i] < lm) lm = l[i]; sc += fabs(l[i]) + fabs(g[i]); }
  double lo = lm > 0 ? 0 : -lm, hi = lo + 1;
#define NX(par) ({ double s_ = 0; for (int i = 0; i < n; ++i) if (g[i] != 0) { double d_ = l[i] + (par); s_ += d_ > 0 ? g[i] * g[i] / (d_ * d_) : INFINITY; } sqrt(s_); })
  double f = 0;
  if (lm > 0 && NX(0) <= delta) { for (int i = 0; i < n; ++i) f -= 0.5 * g[i] * g[i] / l[i]; return f; }
  while (NX(hi) > delta) hi = lo + 2 * (hi - lo);
  for (int k = 0; k < 300; ++k) { double m = 0.5 * (lo + hi); if (NX(m) > delta) lo = m; else hi = m; }
  /* dual value at the multiplier: a lower bound, reached at the solution */
  double q = 0;
  for (int i = 0; i < n; ++i) if (g[i] != 0) q += g[i] * g[i] / (l[i] + hi);
  return -0.5 * (q + hi * delta * delta);
}
static void NM(one)(int kind) {
  int n = 1 + rndi(NMAX - 1), lda = n + rndi(3), itmax = rndi(4) == 0 ? 1 + rndi(2) : 60;
  double M[NMAX][NMAX], sc = 0;
  double delta = exp(rndr() * 3), rtol = rndi(2) ? 0.1 : EPS < 1e-10 ? 1e-4 : 0.01, atol = rndi(3) ? 0 : 0.5;
  T *a = NM(gmk)((long)lda * n), *a2 = NM(gmk)((long)lda * n), *b = NM(gmk)(n), *x = NM(gmk)(n), *z = NM(gmk)(n), *w1 = NM(gmk)(n), *w2 = NM(gmk)(n), *x2 = NM(gmk)(n);
  T b0[NMAX];
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) {
    double v = kind == 3 ? (i == j ? rndi(5) - 2 : 0) : kind == 4 ? rndi(5) - 2 : rndr();
    if (kind == 0 && i == j) v += n;
    if (kind == 5) v = 0;
    M[i][j] = M[j][i] = (double)(T)v; sc += fabs(v);
  }
  for (int i = 0; i < n; ++i) b[i] = b0[i] = (T)(kind == 2 || rndi(8) == 0 ? 0 : kind >= 3 ? rndi(3) - 1 : rndr()), x[i] = z[i] = w1[i] = w2[i] = (T)NAN;
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { a[i + lda * j] = i <= j ? (T)M[i][j] : (T)NAN; a2[i + lda * j] = (T)M[i][j]; }
  int np = rndi(4) == 0, nf = rndi(4) == 0, ni = rndi(4) == 0;
  T par0 = (T)(rndi(3) ? 0 : rnd01() * 3), par = par0, f = (T)NAN;
  opk_index it = -1;
  snprintf(NM(w), sizeof NM(w), "%sgqt n=%d lda=%d kind=%d delta=%g rtol=%g atol=%g itmax=%d par0=%g", TN, n, lda, kind, delta, rtol, atol, itmax, (double)par0);
  int info = FN(gqt)(n, a, lda, b, (T)delta, (T)rtol, (T)atol, itmax, np ? NULL : &par, nf ? NULL : &f, x, ni ? NULL : &it, z, w1, w2);
  ++cases_;
  if (info < 1 || info > 4) BAD("status %d", info);
  if (!ni && (it < 1 || it > itmax)) BAD("%ld iterations", (long)it);
  if (!ni && info == 4 && it != itmax) BAD("too many iterations reported after %ld", (long)it);
  if (!NM(gok)(a, (long)lda * n) || !NM(gok)(b, n) || !NM(gok)(x, n) || !NM(gok)(z, n) || !NM(gok)(w1, n) || !NM(gok)(w2, n)) BAD("written outside an array");
  for (int i = 0; i < n; ++i) if (!(b[i] == b0[i])) BAD("linear term modified");
  for (int j = 0; j < n; ++j) for (int i = 0; i < lda; ++i) {
    T v = a[i + lda * j];
    if (i >= n ? v != GUARD : v != (T)M[i][j]) BAD("matrix element %d,%d is %g instead of %g", i, j, (double)v, i < n ? M[i][j] : (double)GUARD);
  }
  double xn = 0, fx = 0, fs = 0;
  for (int i = 0; i < n; ++i) { if (!(fabs(x[i]) <= MAXV)) BAD("x[%d] is %g", i, (double)x[i]); xn += (double)x[i] * x[i]; fx += (double)b[i] * x[i]; fs += fabs(b[i] * x[i]); for (int j = 0; j < n; ++j) { fx += 0.5 * x[i] * M[i][j] * x[j]; fs += fabs(x[i] * M[i][j] * x[j]); } }
  xn = sqrt(xn);
  double tol = 1e3 * EPS * n;
  if (info <= 2 && xn > (1 + rtol + tol) * delta) BAD("status %d with norm %g", info, xn);
  if (!np && !(par >= 0)) BAD("multiplier %g", (double)par);
  if (info == 1) {
    if (!np && par > 0 && fabs(xn - delta) > (rtol + tol) * delta) {
      /* interior near-solutions are accepted on the function value only */
      double best = NM(fmin_)(n, M, b, delta);
      if (fx > (1 - rtol) * (1 - rtol) * best + 1e2 * tol * (fs + 1)) BAD("positive multiplier %g, norm %g and value %g for a minimum of %g", (double)par, xn, fx, best);
    }
    if (itmax > 2) {
      double best = NM(fmin_)(n, M, b, delta);
      if (fx > (1 - rtol) * (1 - rtol) * best + 1e2 * tol * (fs + 1)) BAD("status 1 with value %g for a minimum of %g", fx, best);
    }
  }
  if (!nf && info <= 2 && fabs(f - fx) > 1e3 * tol * (fs + fabs(f) + sc * EPS)) BAD("value %g reported for %g", (double)f, fx);
  /* the other triangle is not read: same result with a symmetric matrix */
  T par2 = par0;
  int info2 = FN(gqt)(n, a2, lda, b, (T)delta, (T)rtol, (T)atol, itmax, &par2, NULL, x2, NULL, z, w1, w2);
  if (!np) { if (info2 != info || !(par2 == par)) BAD("the result depends on the lower triangle"); for (int i = 0; i < n; ++i) if (!(x2[i] == x[i])) BAD("the result depends on the lower triangle"); }
  free(a - 2); free(a2 - 2); free(b - 2); free(x - 2); free(x2 - 2); free(z - 2); free(w1 - 2); free(w2 - 2);
}
static void NM(est)(void) {
  int n = 1 + rndi(NMAX - 1), ld = n + rndi(3), kind = rndi(4);
  T *r = NM(gmk)((long)ld * n), *r0 = NM(gmk)((long)ld * n), *z = NM(gmk)(n);
  for (int j = 0; j < n; ++j) for (int i = 0; i < ld; ++i) r[i + ld * j] = i > j ? (T)NAN : (T)(kind == 0 ? rndi(7) - 3 : rndr() + (i == j ? 2 : 0));
  if (kind == 1) for (int j = 0; j < n; ++j) if (rndi(3) == 0) r[j + ld * j] = (T)1e-3;
  if (kind == 2) r[(n / 2) * (ld + 1)] = 0;
  memcpy(r0, r, sizeof(T) * ld * n);
  for (int i = 0; i < n; ++i) z[i] = (T)NAN;
  snprintf(NM(w), sizeof NM(w), "%sestsv n=%d ldr=%d kind=%d", TN, n, ld, kind);
  double sv = FN(estsv)(n, r, ld, z);
  ++cases_;
  if (memcmp(r, r0, sizeof(T) * ld * n) || !NM(gok)(r, (long)ld * n) || !NM(gok)(z, n)) BAD("written outside the vector");
  double nz = 0, nr = 0, fr = 0; int sing = 0;
  for (int i = 0; i < n; ++i) { double t = 0; nz += (double)z[i] * z[i]; if (r[i + ld * i] == 0) sing = 1; for (int j = i; j < n; ++j) { t += (double)r[i + ld * j] * z[j]; fr += fabs(r[i + ld * j]); } nr += t * t; }
  if (!(fabs(sqrt(nz) - 1) < 1e3 * EPS)) BAD("norm of z is %g", sqrt(nz));
  if (!sing && !(fabs(sqrt(nr) - sv) <= 1e4 * EPS * fr)) BAD("norm of R.z is %g and the estimate %g", sqrt(nr), sv);
  if (sv < 0) BAD("estimate %g", sv);
  free(r - 2); free(r0 - 2); free(z - 2);
}
static void NM(all)(int thorough) {
  for (int k = 0; k < (thorough ? 60000 : 6000); ++k) NM(one)(rndi(6));
  for (int k = 0; k < (thorough ? 60000 : 6000); ++k) NM(est)();
}
#undef GUARD
#undef BAD
#undef NX
