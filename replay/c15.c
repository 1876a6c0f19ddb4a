/* C15 replay: every kernel against the defining formulas on exactly representable data; unused positions hold NaN */
#include "h.h"
#include "optimpack-linalg.h"
#define T double
#define TN "double"
#define NM(x) d_##x
#define FN(x) opk_d##x
#define IAMAX opk_idamax
#define EPS DBL_EPSILON
#define EMAX 1019
#define EMIN (-1074)
#define MAXV DBL_MAX
#define DENORM 0x1p-1073
#include "c15_body.h"
#undef T
#undef TN
#undef NM
#undef FN
#undef IAMAX
#undef EPS
#undef EMAX
#undef EMIN
#undef MAXV
#undef DENORM
#define T float
#define TN "float"
#define NM(x) s_##x
#define FN(x) opk_s##x
#define IAMAX opk_isamax
#define EPS FLT_EPSILON
#define EMAX 122
#define EMIN (-149)
#define MAXV FLT_MAX
#define DENORM 0x1p-148
#include "c15_body.h"
int main(int argc, char** argv) {
  int t = thorough_(argc, argv);
  seed_(argc, argv);
  d_all(t);
  s_all(t);
  DONE();
}
