/* C12 replay: histories of values given to the one-dimensional minimizer, both interfaces */
#include "h.h"
#include "optimpack.h"
typedef struct fc_ fc;
fc* opk_fmin_new(int); void opk_fmin_destroy(fc*); opk_status opk_fmin_set_precision(fc*, double); double opk_fmin_get_precision(fc*);
unsigned opk_fmin_get_flags(fc*); opk_fmin_task opk_fmin_get_status(fc*); opk_status opk_fmin_start(fc*, double, double, unsigned);
opk_status opk_fmin_get_initial(fc*, double*, double*, unsigned*);
opk_status opk_fmin_get_final(fc*, double*, double*, double*, double*, double*, double*, long*);
opk_fmin_task opk_fmin_next(fc*, double*, double);
/* a function: piecewise combination given by random parameters */
static double P[8]; static int kind; static double X[100000], Y[100000]; static long N;
static double val(double x) {
  switch (kind) {
  case 0: return (x - P[0]) * (x - P[0]) + P[1];
  case 1: return fabs(x - P[0]);
  case 2: return floor(4 * (x - P[0]) * (x - P[0])) / 4;
  case 3: return cos(P[2] * x) + P[1] * x * x * 0.01;
  case 4: return fabs(x - P[0]) * (x + P[1]) * (x - P[2]) + 0.01 * x * x * x * x;
  case 5: return x < P[0] ? 1 : 0.5 + 0.1 * sin(50 * x);
  case 6: return 1;
  default: return rndi(3) ? rndr() : rndi(3);
  }
}
static int seen(double x, double f) { for (long i = N; i-- > 0;) if (X[i] == x && Y[i] == f) return 1; return 0; }
static double ev(double x) { double y = val(x); if (N < 100000) { X[N] = x; Y[N] = y; ++N; } return y; }
static char token;
static double f1(double x) { return ev(x); }
static double f2(void* d, double x) { if (d != &token) FAIL("the data of the caller is not passed"); return ev(x); }
static double best(void) { double b = INFINITY; for (long i = 0; i < N; ++i) if (Y[i] < b) b = Y[i]; return b; }
static int in(double x, double u, double w) { return (u <= x && x <= w) || (w <= x && x <= u); }
static void setup(void) { kind = rndi(8); for (int i = 0; i < 8; ++i) P[i] = rndr() * 5; if (rndi(3) == 0) P[2] = 10 * P[2]; N = 0; }
static void check(const char* who, double* o, double a, double b, unsigned fl, long n) {
  if (n != N) FAIL("%s: %ld evaluations counted, %ld made", who, n, N);
  if (!(o[1] <= o[2])) FAIL("%s: interval [%g,%g]", who, o[1], o[2]);
  if (!seen(o[0], o[3])) FAIL("%s: reported minimum (%g,%g) was never computed", who, o[0], o[3]);
  for (int i = 1; i < 3; ++i) if (!seen(o[i], o[3 + i]) && !(o[3 + i] == INFINITY && ((o[i] == a && (fl & 1)) || (o[i] == b && (fl & 2))))) FAIL("%s: end %g with value %g was never computed", who, o[i], o[3 + i]);
}
static void brackets(const char* who, double* o) {
  if (!in(o[0], o[1], o[2])) FAIL("%s: minimum %g outside [%g,%g]", who, o[0], o[1], o[2]);
  if (!(o[3] <= o[4] && o[3] <= o[5])) FAIL("%s: minimum %g above the ends %g %g", who, o[3], o[4], o[5]);
  if (o[3] != best()) FAIL("%s: minimum %g is not the smallest value %g", who, o[3], best());
}
static void ends(double* a, double* b) { do { *a = rndr() * (rndi(4) ? 5 : 1e-3); *b = rndi(8) ? rndr() * 5 : *a * (1 + 1e-15); if (rndi(10) == 0) *a = 0; } while (*a == *b); }
static int conv(double* o, double prec) {
  /* width between the minimum and the far end is not available separately: use both */
  double r = fmax(fabs(o[0]), fmax(fabs(o[1]), fabs(o[2])));
  return fabs(o[1] - o[0]) <= prec * r || fabs(o[2] - o[0]) <= prec * r;
}
static void direct(void) {
  double a, b, o[7], prec = rndi(5) ? pow(10, -rndi(16)) : rndi(2) ? -1 : 0; unsigned fl = rndi(8); long mx = rndi(3) ? rndi(60) : prec == 0 ? 50 : -1;
  setup(); ends(&a, &b);
  if (mx < 0 && kind != 0 && kind != 3 || kind == 0 && fabs(P[0]) < 1e-3 || fl & 3 && 1) mx = mx < 0 ? 200 : mx;
  if (prec < 1e-12 && prec >= 0) mx = mx < 0 ? 90 : mx;
  int w = rndi(2);
  for (int i = 0; i < 7; ++i) o[i] = NAN;
  errno = 0;
  if (rndi(50) == 0) {
    if ((w ? opk_fmin_with_context(f2, a, a, fl, mx, prec, o, &token) : opk_fmin(f1, a, a, fl, mx, prec, o)) != -1 || N || errno != EINVAL) FAIL("empty interval");
    return;
  }
  int st = w ? opk_fmin_with_context(f2, a, b, fl, mx, prec, o, &token) : opk_fmin(f1, a, b, fl, mx, prec, o);
  ++cases_;
  long mn = 1 + !(fl & 1) + !(fl & 2);
  if (st < 0 || st > 2) FAIL("fmin returned %d", st);
  if (isinf(o[0]) || isinf(o[1]) || isinf(o[2])) return;
  check("fmin", o, a, b, fl, (long)o[6]);
  if (mx >= 0 && N > mx && N != mn) FAIL("fmin: %ld evaluations with a limit of %ld", N, mx);
  if (st > 0 && (mx < 0 || N < mx)) FAIL("fmin: stopped with %d after %ld evaluations (limit %ld)", st, N, mx);
  if (st < 2) brackets("fmin", o);
  if (st == 0 && !conv(o, prec < 0 ? sqrt(DBL_EPSILON) : prec)) FAIL("fmin: converged too early");
  for (long i = 0; i < N; ++i) { if ((fl & 1) && X[i] == a && i < mn - 1) FAIL("fmin: exclusive bound evaluated"); }
  if (!(fl & 1) && X[0] != a) FAIL("fmin: first abscissa");
  if (!(fl & 2) && X[!(fl & 1)] != b) FAIL("fmin: second abscissa");
}
static void revcom(void) {
  double a, b, x, fx = NAN, prec = rndi(5) ? pow(10, -rndi(15)) : 0, o[6], p[6]; unsigned fl = rndi(8); long n = 0;
  fc* c = opk_fmin_new(0);
  setup(); ends(&a, &b);
  if (opk_fmin_get_status(c) != OPK_FMIN_ERROR || opk_fmin_get_precision(c) != sqrt(DBL_EPSILON)) FAIL("initial state");
  if (opk_fmin_next(c, &x, 0) != OPK_FMIN_ERROR) FAIL("next before start");
  if (opk_fmin_get_final(c, o, o, o, o, o, o, 0) != OPK_INVALID_ARGUMENT) FAIL("final before start");
  if (opk_fmin_set_precision(c, -1) != OPK_INVALID_ARGUMENT || opk_fmin_get_precision(c) != sqrt(DBL_EPSILON)) FAIL("negative precision");
  if (opk_fmin_set_precision(c, prec) != OPK_SUCCESS || opk_fmin_get_precision(c) != prec) FAIL("precision");
  if (opk_fmin_start(c, a, a, fl) != OPK_INVALID_ARGUMENT) FAIL("empty interval");
  if (opk_fmin_start(c, a, b, fl | 8 * rndi(4)) != OPK_SUCCESS) FAIL("start");
  if (opk_fmin_get_flags(c) != fl) FAIL("flags");
  { double a2, b2; unsigned f2; if (opk_fmin_get_initial(c, &a2, &b2, &f2) || a2 != a || b2 != b || f2 != fl) FAIL("initial interval"); }
  int bracketed = 0;
  int mode = rndi(3);
  for (int k = 0; k < 120; ++k) {
    opk_fmin_task t = opk_fmin_next(c, &x, fx);
    ++cases_;
    if (t != opk_fmin_get_status(c)) FAIL("status");
    if (N >= 3 || (N >= 1 && t == OPK_FMIN_CONVERGENCE)) {
      if (opk_fmin_get_final(c, o, o + 1, o + 2, o + 3, o + 4, o + 5, &n)) FAIL("final");
      if (n != N) FAIL("next: %ld evaluations counted, %ld made", n, N);
      int br = o[3] <= o[4] && o[3] <= o[5] && in(o[0], o[1], o[2]) && (x != (o[4] == o[4] ? x + 1 : 0));
      if (isinf(o[1]) || isinf(o[2])) break;
      if (bracketed) {
        brackets("next", o); check("next", o, a, b, fl, n);
        if (!(in(o[1], p[1], p[2]) && in(o[2], p[1], p[2]))) FAIL("next: bracket grew from [%.17g,%.17g] to [%.17g,%.17g]", p[1], p[2], o[1], o[2]);
        if (t == OPK_FMIN_FX && !in(x, o[1], o[2])) FAIL("next: %g proposed outside [%g,%g]", x, o[1], o[2]);
        if (t == OPK_FMIN_CONVERGENCE && !conv(o, opk_fmin_get_precision(c))) FAIL("next: converged too early");
      } else if (br && in(x, o[1], o[2]) && x != o[1] && x != o[2] && N > 3) bracketed = 1;
      memcpy(p, o, sizeof p);
    }
    if (t == OPK_FMIN_ERROR) FAIL("next: error");
    if (t == OPK_FMIN_CONVERGENCE) {
      if (mode == 0) break;
      opk_fmin_set_precision(c, opk_fmin_get_precision(c) / 10);
      if (opk_fmin_get_precision(c) < 1e-15) break;
      continue;
    }
    if (t != OPK_FMIN_FX) FAIL("task %d", t);
    if (N == 0 && x != (fl & 1 ? (fl & 2 ? x : b) : a)) FAIL("first abscissa");
    fx = ev(x);
    if (rndi(200) == 0) {
      double y = x + 1 + fabs(x);
      if (opk_fmin_next(c, &y, fx) != OPK_FMIN_ERROR || opk_fmin_get_status(c) != OPK_FMIN_ERROR) FAIL("a changed abscissa must be refused");
      if (opk_fmin_next(c, &x, fx) != OPK_FMIN_ERROR) FAIL("next after an error");
      break;
    }
  }
  opk_fmin_destroy(c);
}
int main(int argc, char** argv) {
  seed_(argc, argv);
  double x; unsigned u; errno = 0;
  if (opk_fmin_next(NULL, &x, 0) != OPK_FMIN_ERROR || errno != EFAULT) FAIL("missing context");
  fc* c = opk_fmin_new(0); errno = 0; opk_fmin_start(c, 0, 1, 0);
  if (opk_fmin_next(c, NULL, 0) != OPK_FMIN_ERROR || errno != EFAULT || opk_fmin_get_status(c) != OPK_FMIN_ERROR) FAIL("missing variable");
  opk_fmin_destroy(c); opk_fmin_destroy(NULL);
  if (opk_fmin_start(NULL, 0, 1, 0) != OPK_ILLEGAL_ADDRESS || opk_fmin_set_precision(NULL, 0) != OPK_ILLEGAL_ADDRESS || opk_fmin_get_initial(NULL, &x, &x, &u) != OPK_ILLEGAL_ADDRESS || opk_fmin_get_final(NULL, &x, &x, &x, &x, &x, &x, NULL) != OPK_ILLEGAL_ADDRESS) FAIL("missing context");
  errno = 0; if (opk_fmin_get_status(NULL) != OPK_FMIN_ERROR || errno != EFAULT || opk_fmin_get_flags(NULL) != 0 || opk_fmin_get_precision(NULL) != sqrt(DBL_EPSILON)) FAIL("missing context");
  int n = thorough_(argc, argv) ? 1000000 : 60000;
  for (int i = 0; i < n; ++i) { direct(); revcom(); }
  DONE();
}
