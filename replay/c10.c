/* C10 replay: random histories of objective values, gradients and line search outcomes */
#include "h.h"
#include "optimpack.h"
#include "optimpack-private.h"
#include "opt_ls.h"
#define R double
#define NAME(x) d_##x
#define SP(n) opk_new_simple_double_vector_space(n)
#define WRAP opk_wrap_simple_double_vector
#define TNAME "double"
#define EPSR 2.3e-16
#define REAL OPK_DOUBLE
#include "nl_body.h"
#undef R
#undef NAME
#undef SP
#undef WRAP
#undef TNAME
#undef EPSR
#undef REAL
#define R float
#define NAME(x) f_##x
#define SP(n) opk_new_simple_float_vector_space(n)
#define WRAP opk_wrap_simple_float_vector
#define TNAME "float"
#define EPSR 1.2e-7
#define REAL OPK_FLOAT
#include "nl_body.h"
int main(int argc, char** argv) {
  int k = thorough_(argc, argv) ? 100000 : 12000;
  seed_(argc, argv);
  if (opk_get_nlcg_step(NULL) != -1 || opk_get_nlcg_gnorm(NULL) != -1) FAIL("missing optimizer");
  d_run(k);
  f_run(k);
  DONE();
}
