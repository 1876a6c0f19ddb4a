H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <math.h>\n#include <errno.h>\n#include "optimpack.h"\n'
SEEDS = [
 dict(id='b15', property='C13',
      edits=[('src/lcg.c', '''      if (alpha > zero) {
        AXPY(n,  alpha, p, x);
        AXPY(n, -alpha, q, r);
      }''', '''      if (alpha > zero) {
        AXPY(n,  alpha, p, x);
        if (pq > zero) {
          AXPY(n, -alpha, q, r);
        }
      }''')],
      needs='a direction of negative curvature met inside the trust region',
      breaks='the residuals returned with the truncated step are not those of the returned variables',
      demo=H + '#include "optimpack-linalg.h"\n' + '''int main() {
  double a[3] = {2, -3, 1}, b[3] = {1, 1, 0.5}, p[3], q[3], r[3], x[3], rho[5]; int i, k;
  opk_cg_state s = OPK_CG_START;
  memcpy(r, b, sizeof r);
  for (k = 0; k < 20; ++k) {
    opk_dtrcg(3, p, q, r, x, NULL, 0.7, rho, &s);
    if (s == OPK_CG_AP) for (i = 0; i < 3; ++i) q[i] = a[i]*p[i];
    else if (s != OPK_CG_NEWX) break;
  }
  if (s != OPK_CG_TRUNCATED) return 2;
  for (i = 0; i < 3; ++i) if (fabs(b[i] - a[i]*x[i] - r[i]) > 1e-12) return 1;
  return 0;
}
'''),
 dict(id='b16', property='C14',
      edits=[('src/gqtpar.c', '''      /* Restore the upper triangle of A. */
      for (j = 1 ; j < n ; ++j) {
        OPK_COPY(n-j, &a(j+1,j), 1, &a(j,j+1), lda);
      }
      OPK_COPY(n, wa1_, 1, a_, lda+1);''', '''      /* Restore the upper triangle of A. */
      if (iter > 1 || indef == 0) {
        for (j = 1 ; j < n ; ++j) {
          OPK_COPY(n-j, &a(j+1,j), 1, &a(j,j+1), lda);
        }
      }
      OPK_COPY(n, wa1_, 1, a_, lda+1);''')],
      needs='an indefinite matrix and a single iteration allowed',
      breaks='the upper triangle of the matrix is not given back',
      demo=H + '#include "optimpack-linalg.h"\n' + '''int main() {
  double a[9], a0[9], b[3] = {1, -2, 1}, x[3], z[3], w1[3], w2[3], par = 0, f; opk_index it; unsigned q = 1;
  for (int k = 0; k < 2000; ++k) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) { q = q*1103515245u + 12345u; a[i + 3*j] = a[j + 3*i] = (int)((q >> 16) % 19) - 9; }
    memcpy(a0, a, sizeof a); par = 0;
    opk_dgqt(3, a, 3, b, 1.0, 1e-3, 1e-6, 1 + k % 2, &par, &f, x, &it, z, w1, w2);
    if (memcmp(a, a0, sizeof a)) return 1;
  }
  return 0;
}
'''),
 dict(id='b17', property='C15',
      edits=[('src/linalg.c', '''    /* Form  C := alpha*A'*A + beta*C. */
    if (upper) {
      for (j = 0; j < n; ++j) {
        for (i = 0; i <= j; ++i) {
          temp = ZERO;
          for (l = 0; l < k; ++l) {
            temp += a(l,i)*a(l,j);
          }
          if (beta == ZERO) {
            c(i,j) = alpha*temp;''', '''    /* Form  C := alpha*A'*A + beta*C. */
    if (upper) {
      for (j = 0; j < n; ++j) {
        temp = ZERO;
        for (i = 0; i <= j; ++i) {
          if (k > 0) {
            temp = ZERO;
          }
          for (l = (i == j && i >= lda ? 1 : 0); l < k; ++l) {
            temp += a(l,i)*a(l,j);
          }
          if (beta == ZERO) {
            c(i,j) = alpha*temp;''')],
      needs='the upper triangle of the transposed rank-k update with more columns than the leading dimension of A',
      breaks='wrong diagonal elements in the last columns',
      demo=H + '#include "optimpack-linalg.h"\n' + '''int main() {
  double a[2*5], c[25], e; int i, j, l;
  for (i = 0; i < 10; ++i) a[i] = 1 + i*0.5;
  for (i = 0; i < 25; ++i) c[i] = i;
  opk_dsyrk(OPK_BLAS_UPPER, OPK_BLAS_TRANS, 5, 2, 2.0, a, 2, 0.0, c, 5);
  for (j = 0; j < 5; ++j) for (i = 0; i <= j; ++i) {
    for (e = l = 0; l < 2; ++l) e += 2*a[l + 2*i]*a[l + 2*j];
    if (fabs(c[i + 5*j] - e) > 1e-9) return 1;
  }
  return 0;
}
'''),
 dict(id='b18', property='C17',
      edits=[('src/newuoa.c', '''  if (nf > MAX(maxfun,1)) {
    --nf;''', '''  if (nf > MAX(maxfun,1) && knew >= 0) {
    --nf;''')],
      needs='the limit reached just before the final Newton-Raphson step',
      breaks='one evaluation more than the limit',
      demo=H + '#include "newuoa.h"\n' + '''static long cnt;
static double f(const opk_index n, const double* x, void* d) { double s = 0; ++cnt; for (int i = 0; i < n; ++i) { double t = x[i] - 0.3*i; s += (1 + i)*t*t; } return s + 0.1*x[0]*x[1]; }
int main() {
  static double w[2000];
  for (int v = 0; v < 40; ++v) {
    double x[3] = {1 + 0.1*v, 2, 3 - 0.05*v}; long n, m;
    cnt = 0; newuoa_optimize(3, 7, 0, f, NULL, x, NULL, 0.5, 1e-3, 0, 1000, w); n = cnt;
    for (m = 7; m < n; ++m) {
      x[0] = 1 + 0.1*v; x[1] = 2; x[2] = 3 - 0.05*v;
      cnt = 0; newuoa_optimize(3, 7, 0, f, NULL, x, NULL, 0.5, 1e-3, 0, m, w);
      if (cnt > m) return 1;
    }
  }
  return 0;
}
''', lib='"$PWD"/src/newuoa.c'),
 dict(id='b19', property='C18',
      edits=[('src/bobyqa.c', '''  if (nf >= maxfun) {
    goto too_many_evaluations;
  }
  ++nf;
  f = CALL_OBJFUN(ctx, &x[1]);''', '''  if (nf >= maxfun && ntrits >= 0) {
    goto too_many_evaluations;
  }
  ++nf;
  f = CALL_OBJFUN(ctx, &x[1]);''')],
      needs='the limit reached just before the final Newton-Raphson step',
      breaks='one evaluation more than the limit',
      demo=H + '#include "bobyqa.h"\n' + '''static long cnt;
static double f(const opk_index n, const double* x, void* d) { double s = 0; ++cnt; for (int i = 0; i < n; ++i) { double t = x[i] - 0.3*i; s += (1 + i)*t*t; } return s + 0.1*x[0]*x[1]; }
int main() {
  static double w[2000]; double lo[3] = {-5, -5, -5}, up[3] = {9, 9, 9};
  for (int v = 0; v < 40; ++v) {
    double x[3] = {1 + 0.1*v, 2, 3 - 0.05*v}; long n, m;
    cnt = 0; bobyqa_optimize(3, 7, 0, f, NULL, x, lo, up, NULL, 0.5, 1e-3, 0, 1000, w); n = cnt;
    for (m = 7; m < n; ++m) {
      x[0] = 1 + 0.1*v; x[1] = 2; x[2] = 3 - 0.05*v;
      cnt = 0; bobyqa_optimize(3, 7, 0, f, NULL, x, lo, up, NULL, 0.5, 1e-3, 0, m, w);
      if (cnt > m) return 1;
    }
  }
  return 0;
}
''', lib='"$PWD"/src/bobyqa.c'),
 dict(id='b21', property='C19',
      edits=[('src/cobyla.c', '''  if (nfvals >= maxfun && nfvals > 0) {''', '''  if (nfvals >= maxfun && nfvals > n) {''')],
      needs='a limit smaller than the number of variables',
      breaks='more evaluations than allowed, values asked for beyond the limit',
      demo=H + '#include "cobyla.h"\n' + '''int main() {
  double x[4] = {1, 2, 3, 4}, c[1] = {1}; int k = 0;
  cobyla_context* t = cobyla_create(4, 1, 0.5, 1e-3, 0, 3);
  while (cobyla_get_status(t) == COBYLA_ITERATE && k < 50) { double f = x[0]*x[0] + x[1]*x[1] + x[2] * x[2] + x[3]; ++k; cobyla_iterate(t, f, x, c); }
  return k == 3 && cobyla_get_status(t) == COBYLA_TOO_MANY_EVALUATIONS ? 0 : 1;
}
''', lib='"$PWD"/src/cobyla.c'),
]
SEEDS = [s for s in SEEDS if s['demo']]
