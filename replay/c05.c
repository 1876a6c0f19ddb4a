/* C05 replay: random boxes of every kind of bound, both precisions, against a direct oracle */
#include "h.h"
#include "optimpack.h"
#define R double
#define NAME(x) x##_d
#define TNAME "double"
#define SP opk_new_simple_double_vector_space
#define WRAP opk_wrap_simple_double_vector
#define RMAX DBL_MAX
#define REPS DBL_EPSILON
#include "box_body.h"
#undef R
#undef NAME
#undef TNAME
#undef SP
#undef WRAP
#undef RMAX
#undef REPS
#undef BN
#define R float
#define NAME(x) x##_f
#define TNAME "float"
#define SP opk_new_simple_float_vector_space
#define WRAP opk_wrap_simple_float_vector
#define RMAX FLT_MAX
#define REPS FLT_EPSILON
#include "box_body.h"
static void quiet(const char* m) { FAIL("error handler called: %s", m); }
int main(int argc, char** argv) {
  int t = thorough_(argc, argv);
  seed_(argc, argv);
  opk_set_error_handler(quiet);
  run_d(t, 1); run_f(t, 1); run_d(t, 2); run_f(t, 2);
  DONE();
}
