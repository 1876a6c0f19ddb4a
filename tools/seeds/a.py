H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <float.h>\n#include <math.h>\n#include <errno.h>\n#include "optimpack.h"\n'
SEEDS = [
 dict(id='b01', property='C01',
      edits=[('src/algebra.c', '''        if (gamma == 0.0) {
          vspace->ops->scale(vspace, dst, alpha, x);
        } else {
          vspace->ops->axpby(vspace, dst, alpha, x, gamma, z);
        }''', '''        if (gamma == 0.0) {
          vspace->ops->scale(vspace, dst, alpha, x);
        } else {
          if (dst != x) {
            vspace->ops->scale(vspace, dst, alpha, x);
            vspace->ops->axpby(vspace, dst, 1.0, dst, gamma, z);
          } else {
            vspace->ops->axpby(vspace, dst, alpha, x, gamma, z);
          }
        }''')],
      needs='three-term combination with middle coefficient zero and the destination equal to the third operand',
      breaks='the third operand is overwritten before it is used',
      demo=H + '''int main() {
  double a[3] = {1,2,3}, b[3] = {10,20,30}, c[3] = {100,200,300};
  opk_vspace* s = opk_new_simple_double_vector_space(3);
  opk_vector *x = opk_wrap_simple_double_vector(s, a, NULL, NULL), *y = opk_wrap_simple_double_vector(s, b, NULL, NULL), *z = opk_wrap_simple_double_vector(s, c, NULL, NULL);
  opk_vaxpbypcz(z, 2.0, x, 0.0, y, 3.0, z);
  for (int i = 0; i < 3; ++i) if (c[i] != 2*a[i] + 300*(i+1)) { printf("wrong\\n"); return 1; }
  return 0;
}
'''),
 dict(id='b02', property='C01',
      edits=[('src/simple_vector.c', '''  if (dst != src) {
    memcpy(dst, src, vspace->size*sizeof(REAL));
  }''', '''  if (dst != src) {
    unsigned int nbytes = vspace->size*sizeof(REAL);
    memcpy(dst, src, nbytes);
  }''')],
      needs='vectors of 4 gigabytes or more',
      breaks='only part of a large vector is copied',
      demo=H + '''#include <sys/mman.h>
int main() {
  opk_index n = ((opk_index)1 << 30) + 3;
  float *a = mmap(0, n*4, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0), *b = mmap(0, n*4, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (a == MAP_FAILED || b == MAP_FAILED) return 0;
  opk_vspace* s = opk_new_simple_float_vector_space(n);
  opk_vector *x = opk_wrap_simple_float_vector(s, a, NULL, NULL), *y = opk_wrap_simple_float_vector(s, b, NULL, NULL);
  a[n-1] = 3;
  opk_vcopy(y, x);
  return b[n-1] == 3 ? 0 : 1;
}
'''),
 dict(id='b03', property='C04',
      edits=[('src/simple_vector.c', '''  case 7:
    a = VALUE(lower);
    xu = DATA(upper);
    for (i = 0; i < n; ++i) {
      t = x[i];
      b = xu[i];
      if (t < a) t = a;
      if (t > b) t = b;
      dst[i] = t;
    }
    break;''', '''  case 7:
    a = VALUE(lower);
    xu = DATA(upper);
    for (i = 0; i < n; ++i) {
      t = x[i];
      b = xu[i];
      dst[i] = (t < a ? a : (t < b ? t : (b < a ? a : xu[i > 0 && x == dst ? i - 1 : i])));
    }
    break;''')],
      needs='in-place projection with a scalar lower bound and a vector of upper bounds that are not all equal',
      breaks='a component above its upper bound gets the neighbouring upper bound',
      demo=H + '''int main() {
  double a[3] = {5,5,5}, lo = 0, b[3] = {1,2,3};
  opk_vspace* s = opk_new_simple_double_vector_space(3);
  opk_vector *x = opk_wrap_simple_double_vector(s, a, NULL, NULL), *u = opk_wrap_simple_double_vector(s, b, NULL, NULL);
  opk_convexset* box = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_VECTOR, u);
  if (!box || opk_project_variables(x, x, box) != OPK_SUCCESS) return 2;
  for (int i = 0; i < 3; ++i) if (a[i] != b[i]) return 1;
  return 0;
}
'''),
 dict(id='b04', property='C05',
      edits=[('src/simple_vector.c', '''    for (i = 0; i < n; ++i) {                           \\
      dst[i] = d[i] > 0 ? (x[i] > lo ? 1 : 0) :         \\
        (      d[i] < 0 ? 1 : 0);                       \\
    }                                                   \\''', '''    for (i = 0; i < n; ++i) {                           \\
      dst[i] = d[i] > 0 ? (x[i] != lo ? 1 : 0) :        \\
        (      d[i] < 0 ? 1 : 0);                       \\
    }                                                   \\''')],
      needs='only lower bounds, backward orientation, a variable strictly below its bound',
      breaks='a blocked variable outside the feasible set is reported free',
      demo=H + '''int main() {
  float a[2] = {-1, 1}, g[2] = {1, 1}, f[2] = {7, 7}; double lo = 0;
  opk_vspace* s = opk_new_simple_float_vector_space(2);
  opk_vector *x = opk_wrap_simple_float_vector(s, a, NULL, NULL), *d = opk_wrap_simple_float_vector(s, g, NULL, NULL), *w = opk_wrap_simple_float_vector(s, f, NULL, NULL);
  opk_convexset* box = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_NONE, NULL);
  if (!box || opk_get_free_variables(w, x, box, d, OPK_ASCENT) != OPK_SUCCESS) return 2;
  return f[0] == 0 && f[1] == 1 ? 0 : 1;
}
'''),
 dict(id='b05', property='C02',
      edits=[('src/algebra.c', '''  if (dst->owner != space || x->owner != space || d->owner != space) {
    return OPK_BAD_SPACE;
  }
  if (set->projdir == NULL) {''', '''  if ((dst != x && dst->owner != space) || (x->owner != space && x->owner->size != space->size) || d->owner != space) {
    return OPK_BAD_SPACE;
  }
  if (set->projdir == NULL) {''')],
      needs='direction projected with variables that belong to another space of the same size',
      breaks='a vector of a foreign space is accepted instead of being refused',
      demo=H + '''int main() {
  double lo = 0;
  opk_vspace *s = opk_new_simple_double_vector_space(2), *f = opk_new_simple_double_vector_space(2);
  opk_vector *x = opk_vcreate(f), *d = opk_vcreate(s), *w = opk_vcreate(s);
  opk_vfill(x, 0.0); opk_vfill(d, 1.0); opk_vfill(w, 2.0);
  opk_convexset* box = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_NONE, NULL);
  return opk_project_direction(w, x, box, d, OPK_ASCENT) == OPK_BAD_SPACE ? 0 : 1;
}
'''),
 dict(id='b06', property='C06',
      edits=[('src/simple_vector.c', '''#define UPPER(hi)                               \\
  if (orient > 0) {                             \\
    for (i = 0; i < n; ++i) {                   \\
      REAL p = d[i];                            \\
      if (p > 0) {                              \\
        s = (hi - x[i])/p;                      \\
        if (s < s1) s1 = s;                     \\
        if (s < s2 && s > 0) s2 = s;            \\
        if (s > s3) s3 = s;                     \\''', '''#define UPPER(hi)                               \\
  if (orient > 0) {                             \\
    for (i = 0; i < n; ++i) {                   \\
      REAL p = d[i];                            \\
      if (p > 0) {                              \\
        s = (hi - x[i])/p;                      \\
        if (s < s1) { if (s1 < s2) s2 = s1; s1 = s; }  \\
        else if (s < s2 && s > 0) s2 = s;       \\
        if (s > s3) s3 = s;                     \\''')],
      needs='only upper bounds, forward orientation, no variable at its bound',
      breaks='the smallest non-zero limit is not the smallest hitting step',
      demo=H + '''int main() {
  double hi = 4, a[3] = {3, 2, 1}, g[3] = {1, 1, 1}, s1, s2, s3;
  opk_vspace *s = opk_new_simple_double_vector_space(3);
  opk_vector *x = opk_wrap_simple_double_vector(s, a, NULL, NULL), *d = opk_wrap_simple_double_vector(s, g, NULL, NULL);
  opk_convexset* box = opk_new_boxset(s, OPK_BOUND_NONE, NULL, OPK_BOUND_SCALAR_DOUBLE, &hi);
  for (int k = 0; k < 3; ++k) {
    if (opk_get_step_limits(&s1, &s2, &s3, x, box, d, OPK_DESCENT) != OPK_SUCCESS) return 2;
    if (s1 != 1 || s2 != 1 || s3 != 3) return 1;
    double t = a[0]; a[0] = a[1]; a[1] = a[2]; a[2] = t;
  }
  return 0;
}
'''),
]
