/* C13 replay: every stage against the documented recurrences, complete solutions, guard elements around the arrays */
#include "h.h"
#include "optimpack-linalg.h"
#define T double
#define TN "double"
#define NM(x) d_##x
#define FN(x) opk_d##x
#define EPS DBL_EPSILON
#include "c13_body.h"
#undef T
#undef TN
#undef NM
#undef FN
#undef EPS
#define T float
#define TN "float"
#define NM(x) s_##x
#define FN(x) opk_s##x
#define EPS FLT_EPSILON
#define P_PLCG S_PLCG
#define P_LCG S_LCG
#define P_TRCG S_TRCG
#include "c13_body.h"
int main(int argc, char** argv) {
  int t = thorough_(argc, argv);
  seed_(argc, argv);
  d_all(t);
  s_all(t);
  DONE();
}
