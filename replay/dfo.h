/* objective functions and recorder shared by the derivative-free solvers' harnesses */
static int kind_, nvar_, wild_; static double P_[64]; static char token_;
#define MAXEV 60000
static double (*PT_)[8]; static double* VAL_; static long N_;
static double pattern(int n, const double* x) {
  double s = 0, t; int i, j;
  switch (kind_) {
  case 0: for (i = 0; i < n; ++i) { t = x[i] - P_[i]; s += (1 + i) * t * t; } return s;
  case 1: for (i = 0; i + 1 < n; ++i) { t = x[i + 1] - x[i] * x[i]; s += 10 * t * t + (1 - x[i]) * (1 - x[i]); } return s;
  case 2: for (i = 0; i < n; ++i) s += fabs(x[i] - P_[i]); return s;
  case 3: for (i = 0; i < n; ++i) s += cos(3 * x[i] + P_[i]); return s;
  case 4: for (i = 0; i < n; ++i) { t = 0; for (j = 0; j < n; ++j) t += P_[(i * n + j) % 64] * x[j]; s += i % 2 ? -t * t : t * t; } return s / (1 + fabs(s));
  case 5: for (i = 0; i < n; ++i) s += P_[i] * x[i]; return s;
  case 6: return 1;
  case 7: for (i = 0; i < n; ++i) s += floor(4 * fabs(x[i] - P_[i])); return s;
  default: return rndi(3) ? rndr() : rndi(3);
  }
}
static double eval_(int n, const double* x) {
  double f = pattern(n, x);
  if (wild_ && rndi(4) == 0) f = rndi(3) == 0 ? NAN : rndi(2) ? INFINITY : -INFINITY;
  if (N_ < MAXEV) { memcpy(PT_[N_], x, n * sizeof(double)); VAL_[N_] = f; }
  ++N_;
  return f;
}
static void newproblem(void) { int i; kind_ = rndi(9); for (i = 0; i < 64; ++i) P_[i] = 2 * rndr(); N_ = 0; }
static double* gdup(const double* a, long n) { double* p = malloc((n ? n : 1) * sizeof(double)); if (a) memcpy(p, a, n * sizeof(double)); else for (long i = 0; i < n; ++i) p[i] = rndr(); return p; }
