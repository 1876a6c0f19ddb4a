/* C08, C09 replay: random histories of objective values, gradients and line search outcomes */
#include "h.h"
#include "optimpack.h"
#include "optimpack-private.h"
#ifndef WHICH
#define WHICH 9
#endif
#include "opt_ls.h"
#define R double
#define NAME(x) d_##x
#define SP(n) opk_new_simple_double_vector_space(n)
#define WRAP opk_wrap_simple_double_vector
#define TNAME "double"
#define EPSR 2.3e-16
#define REAL OPK_DOUBLE
#include "vm_body.h"
#undef R
#undef NAME
#undef SP
#undef WRAP
#undef TNAME
#undef EPSR
#undef REAL
#define R float
#define NAME(x) f_##x
#define SP(n) opk_new_simple_float_vector_space(n)
#define WRAP opk_wrap_simple_float_vector
#define TNAME "float"
#define EPSR 1.2e-7
#define REAL OPK_FLOAT
#include "vm_body.h"
int main(int argc, char** argv) {
  int k = thorough_(argc, argv) ? 100000 : 12000;
  seed_(argc, argv);
  if (opk_get_vmlmb_step(NULL) != -1 || opk_get_vmlmb_gnorm(NULL) != -1 || opk_get_vmlmb_mp(NULL) != 0 || opk_get_vmlmb_s(NULL, 0) || opk_get_vmlmb_y(NULL, 0) || opk_iterate_vmlmb(NULL, NULL, 0, NULL) != OPK_TASK_ERROR) FAIL("missing optimizer");
  d_run(k, WHICH);
  f_run(k, WHICH);
  DONE();
}
