/* C14 replay: trust-region subproblems against the exact solution by eigenvalues; guard elements; unread triangle */
#include "h.h"
#include "optimpack.h"
#define NMAX 9
#define T double
#define TN "d"
#define NM(x) d_##x
#define FN(x) opk_d##x
#define EPS DBL_EPSILON
#define MAXV DBL_MAX
#include "c14_body.h"
#undef T
#undef TN
#undef NM
#undef FN
#undef EPS
#undef MAXV
#define T float
#define TN "s"
#define NM(x) s_##x
#define FN(x) opk_s##x
#define EPS FLT_EPSILON
#define MAXV FLT_MAX
#include "c14_body.h"
int main(int argc, char** argv) {
  int t = thorough_(argc, argv);
  seed_(argc, argv);
  d_all(t);
  s_all(t);
  DONE();
}
