/* C02 replay: refused arguments, both precisions */
#include "h.h"
#include "optimpack.h"
#include "optimpack-private.h"
static int nerr = 0;
static void onerr(const char* m) { (void)m; ++nerr; }
static int ncall = 0; static const void* cargs[8];
static opk_status pv(opk_vector* a, const opk_vector* b, const opk_convexset* c) { ++ncall; cargs[0] = a; cargs[1] = b; cargs[2] = c; return (opk_status)7; }
static opk_status pd(opk_vector* a, const opk_vector* b, const opk_convexset* c, const opk_vector* d, opk_orientation o) { ++ncall; cargs[0] = a; cargs[1] = b; cargs[2] = c; cargs[3] = d; return (opk_status)(o > 0 ? 8 : 9); }
static opk_status sl(double* a, double* b, double* c, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { ++ncall; cargs[0] = a; cargs[1] = b; cargs[2] = c; cargs[3] = x; cargs[4] = s; cargs[5] = d; return (opk_status)(o > 0 ? 8 : 9); }
static opk_status ap0(opk_operator* o, opk_vector* a, const opk_vector* b) { ncall += 1; cargs[0] = o; cargs[1] = a; cargs[2] = b; return (opk_status)11; }
static opk_status ap1(opk_operator* o, opk_vector* a, const opk_vector* b) { ncall += 1; cargs[0] = o; cargs[1] = a; cargs[2] = b; return (opk_status)12; }
static opk_status ap2(opk_operator* o, opk_vector* a, const opk_vector* b) { ncall += 1; cargs[0] = o; cargs[1] = a; cargs[2] = b; return (opk_status)13; }
#define CK(c, ...) do { ++cases_; if (!(c)) FAIL(__VA_ARGS__); } while (0)
#define R double
#define NAME(x) x##_d
#define TN(x) opk_##x##double
#define J2(a, b, c) a##b##c
#define F(a, b) J2(a, double, b)
#include "c02_body.h"
#undef R
#undef NAME
#undef F
#define R float
#define NAME(x) x##_f
#define F(a, b) J2(a, float, b)
#include "c02_body.h"
int main(int argc, char** argv) {
  int i, t = thorough_(argc, argv);
  seed_(argc, argv);
  opk_set_error_handler(onerr);
  for (i = 0; i < (t ? 20000 : 1500); ++i) { run_d(); run_f(); }
  DONE();
}
