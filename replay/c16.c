/* C16 replay: bounded copies, explanations, names */
#include "h.h"
#include "optimpack.h"
#include "newuoa.h"
#include "bobyqa.h"
#include "cobyla.h"
#include "c16_tables.h"
static void quiet(const char* m) { FAIL("error handler called: %s", m); }
typedef size_t getter(char* buf, size_t size, void* o);
static void rule(const char* what, getter* g, void* o, const char* want) {
  size_t len = strlen(want);
  for (size_t size = 0; size <= len + 3; ++size) {
    char* b = malloc(size ? size : 1); /* exact size: overruns are caught */
    memset(b, 'Z', size ? size : 1);
    char keep = b[0];
    size_t r = g(b, size, o);
    ++cases_;
    if (r != len + 1) FAIL("%s: size %zu: returned %zu instead of %zu", what, size, r, len + 1);
    if (size == 0) { if (b[0] != keep) FAIL("%s: wrote into an empty buffer", what); }
    else {
      size_t n = len < size ? len : size - 1;
      if (memcmp(b, want, n) != 0 || b[n] != 0) FAIL("%s: size %zu: got \"%.*s\" instead of \"%.*s\"", what, size, (int)size, b, (int)n, want);
    }
    free(b);
    r = g(NULL, size, o);
    if (r != len + 1) FAIL("%s: no buffer, size %zu: returned %zu instead of %zu", what, size, r, len + 1);
  }
}
static size_t gcopy(char* b, size_t s, void* o) { return opk_copy_string(b, s, o); }
static size_t gnlcg(char* b, size_t s, void* o) { return opk_get_nlcg_description(b, s, o); }
static size_t gnlcgn(char* b, size_t s, void* o) { return opk_get_nlcg_name(b, s, o); }
static size_t gvm(char* b, size_t s, void* o) { return opk_get_vmlmb_description(b, s, o); }
static size_t gdrv(char* b, size_t s, void* o) { return opk_get_description(b, s, o); }
static size_t gdrvn(char* b, size_t s, void* o) { return opk_get_name(b, s, o); }
static void own(const char* (*f)(int), const int* c, int n, const char* what) {
  for (int i = 0; i < n; ++i) {
    if (!f(c[i]) || !f(c[i])[0]) FAIL("%s(%d) has no text", what, c[i]);
    for (int j = 0; j < i; ++j) if (strcmp(f(c[i]), f(c[j])) == 0) FAIL("%s(%d) and (%d) have the same text", what, c[i], c[j]);
  }
  for (int k = -100; k <= 100; ++k) {
    int known = 0;
    for (int i = 0; i < n; ++i) known |= c[i] == k;
    ++cases_;
    if (!known && strncmp(f(k), "unknown", 7) != 0) FAIL("%s(%d) = \"%s\"", what, k, f(k));
  }
}
int main(int argc, char** argv) {
  int t = thorough_(argc, argv);
  seed_(argc, argv);
  opk_set_error_handler(quiet);
  char s[64];
  rule("copy of nothing", gcopy, NULL, "");
  for (int k = 0; k < (t ? 400 : 100); ++k) {
    int n = k < 45 ? k : rndi(45);
    char* q = malloc(n + 1);
    for (int i = 0; i < n; ++i) q[i] = 1 + rndi(127) * 2;
    q[n] = 0;
    rule("copy", gcopy, q, q);
    free(q);
  }
  for (int k = -100; k <= 100; ++k) {
    const char* r = opk_get_reason(k), *w = k >= 0 && k < 29 ? reasons[k] : "";
    ++cases_;
    if (!r || strcmp(r, w) != 0) FAIL("reason of %d: \"%s\" instead of \"%s\"", k, r ? r : "(null)", w);
    int g = opk_guess_status(k), e = k == ENOMEM ? OPK_INSUFFICIENT_MEMORY : k == EFAULT ? OPK_ILLEGAL_ADDRESS : k == EINVAL ? OPK_INVALID_ARGUMENT : -1;
    if (g != e) FAIL("guess_status(%d) = %d", k, g);
  }
  static const int nc[] = {NEWUOA_ITERATE, NEWUOA_SUCCESS, NEWUOA_BAD_NVARS, NEWUOA_BAD_NPT, NEWUOA_BAD_RHO_RANGE, NEWUOA_BAD_SCALING, NEWUOA_ROUNDING_ERRORS, NEWUOA_TOO_MANY_EVALUATIONS, NEWUOA_STEP_FAILED, NEWUOA_BAD_ADDRESS, NEWUOA_CORRUPTED};
  static const int bc[] = {BOBYQA_SUCCESS, BOBYQA_BAD_NVARS, BOBYQA_BAD_NPT, BOBYQA_BAD_RHO_RANGE, BOBYQA_BAD_SCALING, BOBYQA_TOO_CLOSE, BOBYQA_ROUNDING_ERRORS, BOBYQA_TOO_MANY_EVALUATIONS, BOBYQA_STEP_FAILED};
  static const int cc[] = {COBYLA_ITERATE, COBYLA_SUCCESS, COBYLA_BAD_NVARS, COBYLA_BAD_NCONS, COBYLA_BAD_RHO_RANGE, COBYLA_BAD_SCALING, COBYLA_ROUNDING_ERRORS, COBYLA_TOO_MANY_EVALUATIONS, COBYLA_BAD_ADDRESS, COBYLA_CORRUPTED};
  own((const char* (*)(int))newuoa_reason, nc, 11, "newuoa_reason");
  own((const char* (*)(int))bobyqa_reason, bc, 9, "bobyqa_reason");
  own((const char* (*)(int))cobyla_reason, cc, 10, "cobyla_reason");
  for (size_t i = 0; i < sizeof consts / sizeof consts[0]; ++i) {
    long v = -12345;
    ++cases_;
    if (opk_get_integer_constant(consts[i].n, &v) != OPK_SUCCESS || v != consts[i].v) FAIL("constant %s = %ld", consts[i].n, v);
    if (opk_get_integer_constant(consts[i].n, NULL) != OPK_SUCCESS) FAIL("constant %s with no destination", consts[i].n);
    for (int k = 0; k < 4; ++k) {
      strcpy(s, consts[i].n);
      size_t n = strlen(s);
      if (k == 0) s[n - 1] = 0; else if (k == 1) strcat(s, "X"); else if (k == 2) s[rndi(n)] = '#'; else s[0] = 'o';
      int known = 0;
      for (size_t j = 0; j < sizeof consts / sizeof consts[0]; ++j) known |= strcmp(s, consts[j].n) == 0;
      if (known) continue;
      v = -12345;
      if (opk_get_integer_constant(s, &v) == OPK_SUCCESS || v != -12345) FAIL("unknown name %s found (%ld)", s, v);
    }
  }
  long v = -7;
  if (opk_get_integer_constant("", &v) == OPK_SUCCESS || opk_get_integer_constant(NULL, &v) == OPK_SUCCESS || v != -7) FAIL("empty name");
  opk_vspace* sp = opk_new_simple_double_vector_space(50);
  for (int m = 0; m < 8; ++m) for (int f = 0; f < 4; ++f) {
    opk_nlcg_options o;
    opk_get_nlcg_default_options(&o);
    o.flags = methods[m].m | (f & 1 ? OPK_NLCG_POWELL : 0) | (f & 2 ? OPK_NLCG_SHANNO_PHUA : 0);
    opk_nlcg* g = opk_new_nlcg_optimizer(&o, sp, NULL);
    if (!g) FAIL("method %s flags %d refused", methods[m].n, f);
    char w[256];
    sprintf(w, "%s updates%s%s", methods[m].n, f & 1 ? " with Powell restarts" : "", f == 3 ? " and Shanno & Phua step size" : f & 2 ? " with Shanno & Phua step size" : "");
    rule("nlcg description", gnlcg, g, w);
    rule("nlcg name", gnlcgn, g, "NLCG");
    OPK_DROP(g);
  }
  if (opk_get_nlcg_description(s, sizeof s, NULL) != 0) FAIL("description of nothing");
  double lo = 0;
  for (int c = 0; c < 3; ++c) for (int m = 1; m <= 50; m = m < 12 ? m + 1 : m * 2) {
    opk_vmlmb_options o;
    opk_get_vmlmb_default_options(&o);
    o.mem = m; o.blmvm = c == 2;
    opk_convexset* b = c ? opk_new_boxset(sp, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_NONE, NULL) : NULL;
    opk_vmlmb* q = opk_new_vmlmb_optimizer(&o, sp, NULL, b);
    if (!q) FAIL("vmlmb refused");
    char w[256];
    sprintf(w, "variable metric method with %d memorized step(s)%s", m, c ? " and bounds" : "");
    rule("vmlmb description", gvm, q, w);
    if (strcmp(opk_get_vmlmb_method_name(q), c == 0 ? "VMLM/L-BFGS" : c == 1 ? "VMLMB" : "BLMVM") != 0) FAIL("method name");
    OPK_DROP(q); if (b) OPK_DROP(b);
    opk_optimizer* d = opk_new_optimizer(OPK_ALGORITHM_VMLMB, &o, OPK_DOUBLE, 50, c ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, c ? &lo : NULL, OPK_BOUND_NONE, NULL, NULL);
    if (!d) FAIL("driver refused");
    rule("driver description", gdrv, d, w);
    rule("driver name", gdrvn, d, c == 0 ? "VMLM/L-BFGS" : c == 1 ? "VMLMB" : "BLMVM");
    opk_destroy_optimizer(d);
  }
  rule("description of no driver", gdrv, NULL, "");
  rule("name of no driver", gdrvn, NULL, "");
  OPK_DROP(sp);
  DONE();
}
