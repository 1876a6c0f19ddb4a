H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <float.h>\n#include <math.h>\n#include <errno.h>\n#include "optimpack.h"\n'
SEEDS = [
 dict(id='b07', property='C03',
      edits=[('src/simple_vector.c', '''      && (old_free_client_data != new_free_client_data
          || old_client_data != new_client_data)) {''', '''      && (old_free_client_data != new_free_client_data
          || (old_client_data != new_client_data
              && sv->data != new_data))) {''')],
      needs='a vector re-wrapped on the same elements with the same callback but other client data',
      breaks='the previous client data is never released',
      demo=H + '''static int n1, n2;
static void cb(void* p) { ++*(int*)p; }
int main() {
  double a[3] = {1,2,3};
  opk_vspace* s = opk_new_simple_double_vector_space(3);
  opk_vector *x = opk_wrap_simple_double_vector(s, a, cb, &n1);
  opk_rewrap_simple_double_vector(x, a, cb, &n2);
  OPK_DROP(x); OPK_DROP(s);
  return n1 == 1 && n2 == 1 ? 0 : 1;
}
'''),
 dict(id='b08', property='C09',
      edits=[('src/vmlmb.c', '''  opt->updates = 0;
  opt->mp = 0;
  if (opt->box != NULL) {''', '''  opt->updates = 0;
  if (opt->mp > 0 && opt->task == OPK_TASK_ERROR) {
    opt->mp = 0;
  }
  if (opt->box != NULL) {''')],
      needs='an optimizer started again after a complete run without error',
      breaks='the second run uses the pairs memorized by the first one',
      demo=H + '''static double fg(double* x, double* g) { double f = 0; for (int i = 0; i < 4; ++i) { double t = x[i] - i; f += (i+1)*t*t; g[i] = 2*(i+1)*t; } return f; }
int main() {
  double x[4], g[4];
  opk_vspace* s = opk_new_simple_double_vector_space(4);
  opk_vector *vx = opk_wrap_simple_double_vector(s, x, NULL, NULL), *vg = opk_wrap_simple_double_vector(s, g, NULL, NULL);
  opk_vmlmb* o = opk_new_vmlmb_optimizer(NULL, s, NULL, NULL);
  for (int run = 0; run < 2; ++run) {
    for (int i = 0; i < 4; ++i) x[i] = 10;
    opk_task t = opk_start_vmlmb(o, vx);
    if (opk_get_vmlmb_mp(o) != 0) return 1;
    for (int k = 0; k < 200 && t != OPK_TASK_FINAL_X && t != OPK_TASK_ERROR; ++k) t = opk_iterate_vmlmb(o, vx, t == OPK_TASK_COMPUTE_FG ? fg(x, g) : fg(x, g), vg);
  }
  return 0;
}
'''),
 dict(id='b09', property='C08',
      edits=[('src/vmlmb.c', '''  opt->iterations = 0;
  opt->evaluations = 0;
  opt->restarts = 0;
  opt->updates = 0;
  opt->mp = 0;
  if (opt->box != NULL) {''', '''  opk_bool feasible = (opt->task == OPK_TASK_FINAL_X);
  opt->iterations = 0;
  opt->evaluations = 0;
  opt->restarts = 0;
  opt->updates = 0;
  opt->mp = 0;
  if (opt->box != NULL && ! feasible) {''')],
      needs='a bound constrained optimizer started again, after convergence, from another point that is not feasible',
      breaks='the objective function is evaluated at a point outside the box',
      demo=H + '''int main() {
  double x[2] = {3, 3}, g[2], lo = 0, hi = 1;
  opk_vspace* s = opk_new_simple_double_vector_space(2);
  opk_vector *vx = opk_wrap_simple_double_vector(s, x, NULL, NULL), *vg = opk_wrap_simple_double_vector(s, g, NULL, NULL);
  opk_convexset* b = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &hi);
  opk_vmlmb* o = opk_new_vmlmb_optimizer(NULL, s, NULL, b);
  for (int run = 0; run < 3; ++run) {
    opk_task t = opk_start_vmlmb(o, vx);
    for (int k = 0; k < 100 && t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X; ++k) {
      if (x[0] < 0 || x[0] > 1 || x[1] < 0 || x[1] > 1) return 1;
      g[0] = 2*(x[0] - 0.5); g[1] = 2*(x[1] - 2);
      t = opk_iterate_vmlmb(o, vx, (x[0]-0.5)*(x[0]-0.5) + (x[1]-2)*(x[1]-2), vg);
    }
    x[0] = -5; x[1] = 7;
  }
  return 0;
}
'''),
 dict(id='b10', property='C10',
      edits=[('src/nlcg.c', '''  if ((opt->flags & OPK_NLCG_POWELL) == OPK_NLCG_POWELL && beta < 0) {
    beta = 0;
  }''', '''  if ((opt->flags & OPK_NLCG_POWELL) == OPK_NLCG_POWELL && beta < 0
      && opt->beta > 0) {
    beta = 0;
  }''')],
      needs='Powell restarts selected and two consecutive negative update parameters, or one just after a restart',
      breaks='a negative update parameter is used although restarts were requested',
      demo=H + '''int main() {
  double x[2] = {0, 0}, g[2];
  opk_vspace* s = opk_new_simple_double_vector_space(2);
  opk_vector *vx = opk_wrap_simple_double_vector(s, x, NULL, NULL), *vg = opk_wrap_simple_double_vector(s, g, NULL, NULL);
  opk_nlcg_options p;
  opk_get_nlcg_default_options(&p);
  p.flags = OPK_NLCG_POLAK_RIBIERE_POLYAK | OPK_NLCG_POWELL;
  p.epsilon = 0; p.gatol = p.grtol = 0;
  opk_lnsrch* l = opk_lnsrch_new_backtrack(1e-4, 0.5);
  opk_nlcg* o = opk_new_nlcg_optimizer(&p, s, l);
  opk_task t = opk_start_nlcg(o, vx);
  double f = 100, m = 1;
  for (int k = 0; k < 20; ++k) {
    if (t == OPK_TASK_COMPUTE_FG) { f -= 10; m *= 0.8; g[0] = m; g[1] = m*0.01; }
    else if (t != OPK_TASK_NEW_X) break;
    t = opk_iterate_nlcg(o, vx, f, vg);
    if (k > 2 && opk_get_nlcg_beta(o) < 0) return 1;
  }
  return 0;
}
'''),
 dict(id='b11', property='C11',
      edits=[('src/driver.c', '''    status = REWRAP_FLOAT(opt->x, x);
    if (status == OPK_SUCCESS) {
      status = REWRAP_FLOAT(opt->g, g);
    }''', '''    status = REWRAP_FLOAT(opt->x, x);
    if (status == OPK_SUCCESS && opt->ops->get_evaluations(opt) < 1) {
      status = REWRAP_FLOAT(opt->g, g);
    }''')],
      needs='single precision driver and a caller that gives another gradient array on a later call',
      breaks='the gradient is read from an array given by a former call',
      demo=H + '''int main() {
  float x[2] = {4, -3}, y[2] = {4, -3}, g1[2], g2[2], h[2];
  opk_optimizer *a = opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, OPK_FLOAT, 2, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  opk_optimizer *b = opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, OPK_FLOAT, 2, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  opk_start(a, x); opk_start(b, y);
  for (int k = 0; k < 20; ++k) {
    float *g = k & 1 ? g1 : g2;
    g1[0] = g1[1] = g2[0] = g2[1] = 1e6f;
    g[0] = 2*x[0]; g[1] = 8*x[1]; h[0] = 2*y[0]; h[1] = 8*y[1];
    opk_task s = opk_iterate(a, x, x[0]*x[0] + 4*x[1]*x[1], g), t = opk_iterate(b, y, y[0]*y[0] + 4*y[1]*y[1], h);
    if (s != t || x[0] != y[0] || x[1] != y[1]) return 1;
    if (s != OPK_TASK_COMPUTE_FG && s != OPK_TASK_NEW_X) break;
  }
  return 0;
}
'''),
 dict(id='b12', property='C12',
      edits=[('src/fmin.c', '''    w = b;
    fw = FMIN_INFINITY;
  } else {''', '''    w = b;
    fw = fu;
  } else {''')],
      needs='reverse communication with the upper end only given as a bound, and a function larger inside the interval than at the other end',
      breaks='the function is evaluated beyond the bound',
      demo=H + '''typedef struct fc_ fc;
fc* opk_fmin_new(int); opk_status opk_fmin_start(fc*, double, double, unsigned); opk_fmin_task opk_fmin_next(fc*, double*, double);
int main() {
  double x, f = 0;
  fc* c = opk_fmin_new(0);
  opk_fmin_start(c, 0.0, 1.0, OPK_FMIN_BOUNDED_BY_B);
  for (int k = 0; k < 100; ++k) {
    int t = opk_fmin_next(c, &x, f);
    if (t != OPK_FMIN_FX) break;
    if (x > 1.0) return 1;
    f = x <= 0 ? 0 : x < 0.5 ? 2 : 1;
  }
  return 0;
}
'''),
 dict(id='b13', property='C16',
      edits=[('src/utils.c', '''    if (size > length) {
      if (length > 0) {
        memcpy(dst, src, length + 1);
      } else {''', '''    if (size >= length) {
      if (length > 0) {
        memcpy(dst, src, length + 1);
      } else {''')],
      needs='a destination with exactly the number of characters of the text, without room for the final null',
      breaks='one byte after the destination is overwritten and the destination is not terminated',
      demo=H + '''int main() {
  char b[8]; memset(b, 'z', 8);
  opk_copy_string(b, 4, "abcd");
  return b[3] == 0 && b[4] == 'z' ? 0 : 1;
}
'''),
 dict(id='b14', property='C07',
      edits=[('src/lnsrch.c', '''  nmls->fmax = nmls->fsav[0];
  for (j = 1; j < n; ++j) {''', '''  if (nmls->mp <= nmls->m || nmls->fmax < nmls->fsav[0]) {
    nmls->fmax = nmls->fsav[0];
  }
  for (j = 1; j < n; ++j) {''')],
      needs='a non-monotone line search started more times than its memory, with decreasing function values',
      breaks='a step is accepted against a function value that is no longer remembered',
      demo=H + '''int main() {
  opk_lnsrch* l = opk_lnsrch_new_nonmonotone(2, 1e-4, 0.1, 0.5);
  double f[5] = {100, 50, 20, 10, 5};
  for (int k = 0; k < 5; ++k) {
    double s = 1;
    if (opk_lnsrch_start(l, f[k], -1.0, 1.0, 0.0, 10.0) != OPK_LNSRCH_SEARCH) return 2;
    if (k > 2 && opk_lnsrch_iterate(l, &s, 60.0, 1.0) == OPK_LNSRCH_CONVERGENCE) return 1;
  }
  return 0;
}
'''),
]
