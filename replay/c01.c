/* C01 replay: concrete search for an input on which a vector operation deviates from its formula */
#include "h.h"
#include "optimpack.h"
#define R double
#define NAME(x) x##_d
#define TNAME "double"
#define SAME samed
#define SP opk_new_simple_double_vector_space
#define WRAP opk_wrap_simple_double_vector
#define ABSR fabs
#define SQRTR sqrt
#include "c01_body.h"
#undef R
#undef NAME
#undef TNAME
#undef SAME
#undef SP
#undef WRAP
#undef ABSR
#undef SQRTR
#define R float
#define NAME(x) x##_f
#define TNAME "float"
#define SAME samef
#define SP opk_new_simple_float_vector_space
#define WRAP opk_wrap_simple_float_vector
#define ABSR fabsf
#define SQRTR sqrtf
#include "c01_body.h"
static void quiet(const char* m) { FAIL("error handler called: %s", m); }
int main(int argc, char** argv) {
  seed_(argc, argv);
  opk_set_error_handler(quiet);
  run_d(thorough_(argc, argv));
  run_f(thorough_(argc, argv));
  DONE();
}
