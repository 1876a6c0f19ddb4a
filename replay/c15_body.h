/* one precision: T, FN(name), IAMAX, NM(name) */
typedef struct { T *b, *e; long n; } NM(buf);  /* storage and its expected final content */
static NM(buf) NM(mk)(long n) { NM(buf) r; r.n = n; r.b = malloc((n ? n : 1) * sizeof(T)); r.e = malloc((n ? n : 1) * sizeof(T)); for (long i = 0; i < n; ++i) r.b[i] = r.e[i] = (T)NAN; return r; }
static void NM(set)(NM(buf) v, long i, T x) { v.b[i] = v.e[i] = x; }
static void NM(done)(const char* w, NM(buf) v) {
  ++cases_;
  for (long i = 0; i < v.n; ++i) if (!(v.b[i] == v.e[i] || (v.b[i] != v.b[i] && v.e[i] != v.e[i]))) FAIL("%s: position %ld holds %g instead of %g", w, i, (double)v.b[i], (double)v.e[i]);
  free(v.b); free(v.e);
}
static char NM(w)[300];
static T NM(ri)(int m) { return (T)(rndi(2 * m + 1) - m); }
/* vector of n elements with increment inc: every other position is NaN */
static NM(buf) NM(vec)(long n, long inc) { long a = labs(inc); NM(buf) v = NM(mk)((n > 0 ? (n - 1) * a + 1 : 1) + rndi(3)); for (long k = 0; k < n; ++k) NM(set)(v, k * a, NM(ri)(4)); return v; }
static long NM(ix)(long k, long n, long inc) { return inc >= 0 ? k * inc : (k - n + 1) * inc; }
#define X(k) (x.e[NM(ix)(k, n, incx)])
#define Y(k) (y.e[NM(ix)(k, n, incy)])
static void NM(level1)(long n, long incx, long incy) {
  T al = NM(ri)(3);
  sprintf(NM(w), "%s n=%ld incx=%ld incy=%ld alpha=%g", TN, n, incx, incy, (double)al);
  char w[400];
#define ON(nm) sprintf(w, "%s %s", #nm, NM(w))
#define RET(nm, r, want) do { T r_ = (r), w_ = (want); ++cases_; if (!(r_ == w_)) FAIL("%s: returned %g instead of %g", w, (double)r_, (double)w_); } while (0)
  NM(buf) x, y;
  x = NM(vec)(n, incx); y = NM(vec)(n, incy);
  ON(copy); FN(copy)(n, x.b, incx, y.b, incy); for (long k = 0; k < n; ++k) Y(k) = X(k); NM(done)(w, x); NM(done)(w, y);
  x = NM(vec)(n, incx); y = NM(vec)(n, incy);
  ON(swap); FN(swap)(n, x.b, incx, y.b, incy); for (long k = 0; k < n; ++k) { T t = Y(k); Y(k) = X(k); X(k) = t; } NM(done)(w, x); NM(done)(w, y);
  x = NM(vec)(n, incx); y = NM(vec)(n, incy);
  ON(axpy); FN(axpy)(n, al, x.b, incx, y.b, incy); for (long k = 0; k < n; ++k) Y(k) += al * X(k); NM(done)(w, x); NM(done)(w, y);
  x = NM(vec)(n, incx); y = NM(vec)(n, incy);
  T s = 0; for (long k = 0; k < n; ++k) s += X(k) * Y(k);
  ON(dot); RET(dot, FN(dot)(n, x.b, incx, y.b, incy), s); NM(done)(w, x); NM(done)(w, y);
  int on = incx >= 1;
  x = NM(vec)(n, incx);
  ON(scal); FN(scal)(n, al, x.b, incx); if (on) for (long k = 0; k < n; ++k) X(k) *= al; NM(done)(w, x);
  x = NM(vec)(n, incx);
  ON(zero); FN(zero)(n, x.b, incx); if (on) for (long k = 0; k < n; ++k) X(k) = 0; NM(done)(w, x);
  x = NM(vec)(n, incx);
  T m = 0, su = 0, as = 0; long im = 0; double q = 0;
  if (on) for (long k = 0; k < n; ++k) { T v = X(k), a = v < 0 ? -v : v; if (a > m || k == 0) { m = a; im = k + 1; } su += v; as += a; q += (double)v * v; }
  ON(amax); RET(amax, FN(amax)(n, x.b, incx), m);
  ON(asum); RET(asum, FN(asum)(n, x.b, incx), as);
  ON(sum); RET(sum, FN(sum)(n, x.b, incx), su);
  ON(iamax); { long i = IAMAX(n, x.b, incx); if (i != im) FAIL("%s: returned %ld instead of %ld", w, i, im); }
  ON(nrm2); { T r = FN(nrm2)(n, x.b, incx); if (!(fabs(r - sqrt(q)) <= 16 * EPS * sqrt(q))) FAIL("%s: returned %g instead of %g", w, (double)r, sqrt(q)); }
  /* norm of very large and very small vectors */
  if (on && n > 0) {
    static const int sh[] = {EMAX, EMAX - 40, EMIN, EMIN + 30};
    int e = sh[rndi(4)];
    int tiny = e == EMIN;
    for (long k = 0; k < n; ++k) X(k) = x.b[NM(ix)(k, n, incx)] = (T)ldexp((double)X(k), e);
    double want = ldexp(sqrt(q), e);
    T r = FN(nrm2)(n, x.b, incx);
    ON(nrm2 extreme);
    if (want <= MAXV && !(fabs(r - want) <= (tiny ? DENORM : 0) + 32 * EPS * want)) FAIL("%s (2^%d): returned %g instead of %g", w, e, (double)r, want);
  }
  NM(done)(w, x);
}
#undef X
#undef Y
/* matrices: rows x cols with leading dimension ld; unused positions are NaN */
static NM(buf) NM(mat)(long r, long c, long ld) { NM(buf) v = NM(mk)((c > 0 ? (c - 1) * ld + r : 0) + rndi(3)); for (long j = 0; j < c; ++j) for (long i = 0; i < r; ++i) NM(set)(v, i + j * ld, NM(ri)(3)); return v; }
/* triangular, unit: the diagonal is not referenced */
static NM(buf) NM(tri)(long n, long ld, int up, int unit) {
  NM(buf) v = NM(mk)((n > 0 ? (n - 1) * ld + n : 0) + rndi(3));
  static const T d[] = {1, -1, 2, (T)0.5};
  for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i)
    if (i == j) { if (!unit) NM(set)(v, i + j * ld, d[rndi(4)]); }
    else if ((i < j) == up) NM(set)(v, i + j * ld, NM(ri)(1));
  return v;
}
static void NM(rc)(const char* w, long r, long want) { ++cases_; if (r != want) FAIL("%s: returned %ld instead of %ld", w, r, want); }
static const opk_blas_trans NM(tr)[3] = {OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, OPK_BLAS_CONJ_TRANS};
static T NM(scalar)(void) { int k = rndi(4); return k == 0 ? 0 : k == 1 ? 1 : NM(ri)(3); }
static void NM(gemv)(long m, long n, long incx, long incy, int t) {
  long lda = m + rndi(3); if (lda < 1) lda = 1;
  long lx = t ? m : n, ly = t ? n : m;
  T al = NM(scalar)(), be = NM(scalar)();
  char w[300]; sprintf(w, "gemv %s trans=%d m=%ld n=%ld lda=%ld incx=%ld incy=%ld alpha=%g beta=%g", TN, t, m, n, lda, incx, incy, (double)al, (double)be);
  NM(buf) a = NM(mat)(m, n, lda), x = NM(vec)(lx, incx), y = NM(vec)(ly, incy);
  int run = m > 0 && n > 0;
  if (run && al == 0 && rndi(2)) for (long i = 0; i < a.n; ++i) NM(set)(a, i, (T)NAN);
  for (long i = 0; run && i < ly; ++i) {
    T s = 0;
    if (al != 0) for (long k = 0; k < lx; ++k) s += (t ? a.e[k + i * lda] : a.e[i + k * lda]) * x.e[NM(ix)(k, lx, incx)];
    long p = NM(ix)(i, ly, incy);
    if (be == 0 && al != 0 && rndi(3) == 0) y.b[p] = (T)NAN, y.e[p] = 0;
    y.e[p] = (be == 0 ? 0 : be * y.e[p]) + al * s;
  }
  NM(rc)(w, FN(gemv)(NM(tr)[t], m, n, al, a.b, lda, x.b, incx, be, y.b, incy), 0);
  NM(done)(w, a); NM(done)(w, x); NM(done)(w, y);
}
static void NM(trxv)(long n, long incx, int up, int t, int unit, int solve) {
  long lda = n + rndi(3); if (lda < 1) lda = 1;
  char w[300]; sprintf(w, "%s %s uplo=%s trans=%d unit=%d n=%ld lda=%ld incx=%ld", solve ? "trsv" : "trmv", TN, up ? "upper" : "lower", t, unit, n, lda, incx);
  NM(buf) a = NM(tri)(n, lda, up, unit), x = NM(vec)(n, incx);
  T z[64], r[64];
  for (long i = 0; i < n; ++i) z[i] = rndi(4) == 0 ? 0 : NM(ri)(4);
  for (long i = 0; i < n; ++i) {
    r[i] = 0;
    for (long k = 0; k < n; ++k) {
      long p = t ? k : i, q = t ? i : k;
      if (p == q) r[i] += (unit ? 1 : a.e[p + p * lda]) * z[k];
      else if ((p < q) == up) r[i] += a.e[p + q * lda] * z[k];
    }
  }
  for (long i = 0; i < n; ++i) { long p = NM(ix)(i, n, incx); x.b[p] = solve ? r[i] : z[i]; x.e[p] = solve ? z[i] : r[i]; }
  opk_blas_uplo u = up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER;
  opk_blas_diag d = unit ? OPK_BLAS_UNIT : OPK_BLAS_NON_UNIT;
  NM(rc)(w, solve ? FN(trsv)(u, NM(tr)[t], d, n, a.b, lda, x.b, incx) : FN(trmv)(u, NM(tr)[t], d, n, a.b, lda, x.b, incx), 0);
  NM(done)(w, a); NM(done)(w, x);
}
static void NM(gemm)(long m, long n, long k, int ta, int tb) {
  long ra = ta ? k : m, ca = ta ? m : k, rb = tb ? n : k, cb = tb ? k : n;
  long lda = ra + rndi(3), ldb = rb + rndi(3), ldc = m + rndi(3);
  if (lda < 1) lda = 1; if (ldb < 1) ldb = 1; if (ldc < 1) ldc = 1;
  T al = NM(scalar)(), be = NM(scalar)();
  char w[300]; sprintf(w, "gemm %s transa=%d transb=%d m=%ld n=%ld k=%ld lda=%ld ldb=%ld ldc=%ld alpha=%g beta=%g", TN, ta, tb, m, n, k, lda, ldb, ldc, (double)al, (double)be);
  NM(buf) a = NM(mat)(ra, ca, lda), b = NM(mat)(rb, cb, ldb), c = NM(mat)(m, n, ldc);
  for (long j = 0; j < n; ++j) for (long i = 0; i < m; ++i) {
    T s = 0;
    for (long l = 0; l < k; ++l) s += (ta ? a.e[l + i * lda] : a.e[i + l * lda]) * (tb ? b.e[j + l * ldb] : b.e[l + j * ldb]);
    long p = i + j * ldc;
    if (be == 0 && rndi(3) == 0) c.b[p] = (T)NAN, c.e[p] = 0;
    c.e[p] = (be == 0 ? 0 : be * c.e[p]) + al * s;
  }
  NM(rc)(w, FN(gemm)(NM(tr)[ta], NM(tr)[tb], m, n, k, al, a.b, lda, b.b, ldb, be, c.b, ldc), 0);
  NM(done)(w, a); NM(done)(w, b); NM(done)(w, c);
}
static void NM(syrk)(long n, long k, int up, int t) {
  long ra = t ? k : n, ca = t ? n : k, lda = ra + rndi(3), ldc = n + rndi(3);
  if (lda < 1) lda = 1; if (ldc < 1) ldc = 1;
  T al = NM(scalar)(), be = NM(scalar)();
  char w[300]; sprintf(w, "syrk %s uplo=%s trans=%d n=%ld k=%ld lda=%ld ldc=%ld alpha=%g beta=%g", TN, up ? "upper" : "lower", t, n, k, lda, ldc, (double)al, (double)be);
  NM(buf) a = NM(mat)(ra, ca, lda), c = NM(mat)(n, n, ldc);
  for (long j = 0; j < n; ++j) for (long i = 0; i < n; ++i) {
    long p = i + j * ldc;
    if (i != j && (i < j) != up) { if (rndi(2)) NM(set)(c, p, (T)NAN); continue; }
    T s = 0;
    for (long l = 0; l < k; ++l) s += (t ? a.e[l + i * lda] : a.e[i + l * lda]) * (t ? a.e[l + j * lda] : a.e[j + l * lda]);
    if (be == 0 && rndi(3) == 0) c.b[p] = (T)NAN, c.e[p] = 0;
    c.e[p] = (be == 0 ? 0 : be * c.e[p]) + al * s;
  }
  NM(rc)(w, FN(syrk)(up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, NM(tr)[t], n, k, al, a.b, lda, be, c.b, ldc), 0);
  NM(done)(w, a); NM(done)(w, c);
}
static void NM(potf2)(long n, int up, long bad) {
  long lda = n + rndi(3); if (lda < 1) lda = 1;
  char w[300]; sprintf(w, "potf2 %s uplo=%s n=%ld lda=%ld, fails at %ld", TN, up ? "upper" : "lower", n, lda, bad);
  NM(buf) a = NM(mk)((n > 0 ? (n - 1) * lda + n : 0) + rndi(3));
  T f[16][16];   /* f[i][j], i <= j: upper factor */
  static const T d[] = {1, 2, (T)0.5, 4};
  for (long j = 0; j < n; ++j) for (long i = 0; i <= j; ++i) f[i][j] = i == j ? d[rndi(4)] : NM(ri)(2);
  T piv = bad ? (rndi(2) ? 0 : NM(ri)(1) - 2) : 0;
  for (long j = 0; j < n; ++j) for (long i = 0; i <= j; ++i) {
    T s = 0;
    for (long k = 0; k <= i; ++k) s += f[k][i] * f[k][j];
    if (i == j && j == bad - 1) s += piv - f[i][i] * f[i][i];
    long p = up ? i + j * lda : j + i * lda;
    a.b[p] = s;
    a.e[p] = f[i][j];
  }
  long r = FN(potf2)(up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, n, a.b, lda);
  NM(rc)(w, r, bad);
  if (bad) for (long j = 0; j < n; ++j) for (long i = 0; i <= j; ++i) {
    /* rows of the factor before the failing one are final, the rest is left to the routine */
    long p = up ? i + j * lda : j + i * lda;
    if (i >= bad - 1) a.e[p] = a.b[p];
  }
  NM(done)(w, a);
}
/* every illegal argument is reported and nothing is written */
static void NM(illegal)(void) {
  T a[16], b[16], c[16];
  for (int i = 0; i < 16; ++i) a[i] = b[i] = c[i] = i + 1;
  opk_blas_trans N = OPK_BLAS_NO_TRANS, Tr = OPK_BLAS_TRANS; opk_blas_uplo U = OPK_BLAS_UPPER, L = OPK_BLAS_LOWER; opk_blas_diag D = OPK_BLAS_NON_UNIT, Un = OPK_BLAS_UNIT;
#define ILL(call, want) do { long r_ = (long)(call); ++cases_; if (r_ != (want)) FAIL("%s: returned %ld instead of %ld", #call, r_, (long)(want)); for (int i_ = 0; i_ < 16; ++i_) if (a[i_] != i_ + 1 || b[i_] != i_ + 1 || c[i_] != i_ + 1) FAIL("%s: something was written", #call); } while (0)
  int be[] = {0, 110, 114, 120, 125, 130, 135, -1, 1, 2, 999};
  for (int q = 0; q < 11; ++q) {
    int v = be[q];
    if (v != N && v != Tr && v != OPK_BLAS_CONJ_TRANS) {
      ILL(FN(gemv)((opk_blas_trans)v, 2, 2, 2, a, 2, b, 1, 3, c, 1), 1);
      ILL(FN(trmv)(U, (opk_blas_trans)v, D, 2, a, 2, b, 1), 2);
      ILL(FN(trsv)(U, (opk_blas_trans)v, D, 2, a, 2, b, 1), 2);
      ILL(FN(gemm)((opk_blas_trans)v, N, 2, 2, 2, 2, a, 2, b, 2, 3, c, 2), 1);
      ILL(FN(gemm)(N, (opk_blas_trans)v, 2, 2, 2, 2, a, 2, b, 2, 3, c, 2), 2);
      ILL(FN(syrk)(U, (opk_blas_trans)v, 2, 2, 2, a, 2, 3, c, 2), 2);
    }
    if (v != U && v != L) {
      ILL(FN(trmv)((opk_blas_uplo)v, N, D, 2, a, 2, b, 1), 1);
      ILL(FN(trsv)((opk_blas_uplo)v, N, D, 2, a, 2, b, 1), 1);
      ILL(FN(syrk)((opk_blas_uplo)v, N, 2, 2, 2, a, 2, 3, c, 2), 1);
      ILL(FN(potf2)((opk_blas_uplo)v, 2, a, 2), -1);
    }
    if (v != D && v != Un) {
      ILL(FN(trmv)(U, N, (opk_blas_diag)v, 2, a, 2, b, 1), 3);
      ILL(FN(trsv)(U, N, (opk_blas_diag)v, 2, a, 2, b, 1), 3);
    }
  }
  for (int t = 0; t < 3; ++t) {
    opk_blas_trans R = NM(tr)[t];
    ILL(FN(gemv)(R, -1, 2, 2, a, 2, b, 1, 3, c, 1), 2);
    ILL(FN(gemv)(R, 2, -1, 2, a, 2, b, 1, 3, c, 1), 3);
    ILL(FN(gemv)(R, 3, 2, 2, a, 2, b, 1, 3, c, 1), 6);
    ILL(FN(gemv)(R, 0, 2, 2, a, 0, b, 1, 3, c, 1), 6);
    ILL(FN(gemv)(R, 2, 2, 2, a, 2, b, 0, 3, c, 1), 8);
    ILL(FN(gemv)(R, 2, 2, 2, a, 2, b, 1, 3, c, 0), 11);
    for (int u = 0; u < 2; ++u) for (int d = 0; d < 2; ++d) {
      opk_blas_uplo V = u ? U : L; opk_blas_diag E = d ? D : Un;
      ILL(FN(trmv)(V, R, E, -1, a, 2, b, 1), 4); ILL(FN(trmv)(V, R, E, 3, a, 2, b, 1), 6); ILL(FN(trmv)(V, R, E, 0, a, 0, b, 1), 6); ILL(FN(trmv)(V, R, E, 2, a, 2, b, 0), 8);
      ILL(FN(trsv)(V, R, E, -1, a, 2, b, 1), 4); ILL(FN(trsv)(V, R, E, 3, a, 2, b, 1), 6); ILL(FN(trsv)(V, R, E, 0, a, 0, b, 1), 6); ILL(FN(trsv)(V, R, E, 2, a, 2, b, 0), 8);
      ILL(FN(syrk)(V, R, -1, 2, 2, a, 3, 3, c, 3), 3); ILL(FN(syrk)(V, R, 2, -1, 2, a, 3, 3, c, 3), 4);
      ILL(FN(syrk)(V, R, 3, 3, 2, a, 2, 3, c, 3), 7); ILL(FN(syrk)(V, R, 0, 0, 2, a, 0, 3, c, 3), 7);
      ILL(FN(syrk)(V, R, t ? 2 : 3, t ? 3 : 2, 2, a, 2, 3, c, 3), 7);
      ILL(FN(syrk)(V, R, 3, 2, 2, a, 3, 3, c, 2), 10); ILL(FN(syrk)(V, R, 0, 1, 2, a, 1, 3, c, 0), 10);
      if (t == 0 && d == 0) { ILL(FN(potf2)(V, -1, a, 2), -2); ILL(FN(potf2)(V, 3, a, 2), -4); ILL(FN(potf2)(V, 0, a, 0), -4); }
    }
    for (int s = 0; s < 3; ++s) {
      opk_blas_trans S = NM(tr)[s];
      ILL(FN(gemm)(R, S, -1, 2, 2, 2, a, 3, b, 3, 3, c, 3), 3); ILL(FN(gemm)(R, S, 2, -1, 2, 2, a, 3, b, 3, 3, c, 3), 4); ILL(FN(gemm)(R, S, 2, 2, -1, 2, a, 3, b, 3, 3, c, 3), 5);
      ILL(FN(gemm)(R, S, t ? 2 : 3, 2, t ? 3 : 2, 2, a, 2, b, 3, 3, c, 3), 8); ILL(FN(gemm)(R, S, 0, 1, 0, 2, a, 0, b, 3, 3, c, 3), 8);
      ILL(FN(gemm)(R, S, 1, s ? 3 : 1, s ? 1 : 3, 2, a, 3, b, 2, 3, c, 3), 10); ILL(FN(gemm)(R, S, 1, 0, 0, 2, a, 3, b, 0, 3, c, 3), 10);
      ILL(FN(gemm)(R, S, 3, 2, 2, 2, a, 3, b, 3, 3, c, 2), 13); ILL(FN(gemm)(R, S, 0, 2, 2, 2, a, 3, b, 3, 3, c, 0), 13);
    }
  }
}
static void NM(all)(int th) {
  NM(illegal)();
  for (int rep = 0; rep < (th ? 8 : 2); ++rep) for (long n = -1; n <= 20; ++n) for (long ix = -3; ix <= 3; ++ix) for (long iy = -3; iy <= 3; ++iy) if (ix && iy) NM(level1)(n, ix, iy);
  for (int rep = 0; rep < (th ? 20 : 4); ++rep) {
    for (long m = 0; m <= 6; ++m) for (long n = 0; n <= 6; ++n) for (int t = 0; t < 3; ++t) {
      for (long ix = -2; ix <= 3; ++ix) for (long iy = -2; iy <= 3; ++iy) if (ix && iy && ((ix == 1 || ix == -1 || iy == 1) || rndi(3) == 0)) NM(gemv)(m, n, ix, iy, t);
      for (long k = 0; k <= 5; ++k) for (int s = 0; s < 3; ++s) NM(gemm)(m, n, k, t, s);
      for (int u = 0; u < 2; ++u) NM(syrk)(n, m, u, t);
    }
    for (long n = 0; n <= 8; ++n) for (int f = 0; f < 2 * 3 * 2 * 2; ++f) for (long ix = -2; ix <= 3; ++ix) if (ix) NM(trxv)(n, ix, f & 1, (f >> 1) % 3 , (f / 6) & 1, f / 12);
    for (long n = 0; n <= 7; ++n) for (int u = 0; u < 2; ++u) for (long b = 0; b <= n; ++b) NM(potf2)(n, u, b);
  }
}
