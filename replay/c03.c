/* C03 replay: constructors with every allocation failing in turn, releases in every order.
   compiled with -Dmalloc=h_malloc -Dfree=h_free -Dcalloc=h_calloc -Drealloc=h_realloc */
#include "h.h"
#include "optimpack.h"
#include "optimpack-private.h"
#undef malloc
#undef free
#undef calloc
#undef realloc
extern void free(void*);
extern void* realloc(void*, size_t);
extern void* malloc(size_t);
extern void* calloc(size_t, size_t);
static long live_ = 0, nalloc_ = 0, failat_ = -1;
void* h_malloc(size_t n) { void* p; if (nalloc_++ == failat_) { errno = ENOMEM; return NULL; } p = malloc(n ? n : 1); if (p) { memset(p, 0xA5, n); ++live_; } return p; }
void* h_calloc(size_t n, size_t m) { void* p; if (nalloc_++ == failat_) { errno = ENOMEM; return NULL; } p = calloc(n ? n : 1, m ? m : 1); if (p) ++live_; return p; }
void* h_realloc(void* q, size_t n) { void* p; if (nalloc_++ == failat_) { errno = ENOMEM; return NULL; } p = realloc(q, n ? n : 1); if (p && !q) ++live_; return p; }
void h_free(void* p) { if (p) --live_; free(p); }
#define REF(o) opk_get_object_references((opk_object*)(o))
enum { NOP = 8, NM = 400 };
static struct { const char* name; void* obj; } op_[NOP]; static int nop_;
static int ncb_, nfin_; static void* cbarg_;
static void cb(void* p) { ++ncb_; cbarg_ = p; }
static void cb2(void* p) { ncb_ += 100; cbarg_ = p; }
static void finspace(opk_vspace* s) { (void)s; ++nfin_; }
static void finvec(opk_vspace* s, opk_vector* v) { if (REF(s) < 1) FAIL("space released before its vector"); (void)v; ++nfin_; }
static void finset(opk_convexset* c) { (void)c; ++nfin_; }
static void finop(opk_operator* c) { (void)c; ++nfin_; }
static void finls(opk_lnsrch* c) { (void)c; ++nfin_; }
static opk_status pv(opk_vector* a, const opk_vector* b, const opk_convexset* c) { return OPK_SUCCESS; }
static opk_status pd(opk_vector* a, const opk_vector* b, const opk_convexset* c, const opk_vector* d, opk_orientation o) { return OPK_SUCCESS; }
static opk_status sl(double* a, double* b, double* c, const opk_vector* x, const opk_convexset* s, const opk_vector* d, opk_orientation o) { return OPK_SUCCESS; }
static opk_status ap(opk_operator* o, opk_vector* a, const opk_vector* b) { return OPK_SUCCESS; }
static opk_lnsrch_task lst(opk_lnsrch* l) { return OPK_LNSRCH_SEARCH; }
static opk_vspace_operations vops;
static opk_operator_operations oops;
static opk_lnsrch_operations lops;
static double dd_[64]; static float ff_[64];

/* the constructor described by (kind, par); operands are created by prep */
static int kind_, par_[8]; static opk_vspace *sp_, *sp2_; static opk_vector *v1_, *v2_; static opk_lnsrch* ls_; static opk_convexset* box_;
static opk_vmlmb_options vo_; static opk_nlcg_options no_;
static const int BT[] = {OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_STATIC_FLOAT, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE, OPK_BOUND_VECTOR};
static void opnd(const char* n, void* o) { int i; for (i = 0; i < nop_; ++i) if (op_[i].obj == o) return; op_[nop_].name = n; op_[nop_++].obj = o; }
static void* barg(int k, int which) {
  switch (k) {
  case 0: return NULL;
  case 1: case 3: case 5: return ff_ + (which ? 32 : 0);
  case 2: case 4: case 6: return dd_ + (which ? 32 : 0);
  default: return which ? v2_ : v1_; }
}
static opk_vspace* space(int s, int n) { return s ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n); }
static int maysame_ = 0;
static void prep(void) {
  int n = par_[0], s = par_[1];
  nop_ = 0; sp_ = sp2_ = NULL; v1_ = v2_ = NULL; ls_ = NULL; box_ = NULL;
  if (kind_ == 0 || kind_ == 4 || kind_ == 8 || kind_ == 9 || kind_ == 10 || kind_ == 11) return;
  if (kind_ == 5) { sp_ = opk_allocate_vector_space(&vops, n, 0); opnd("space", sp_); return; }
  if (kind_ != 14) { sp_ = space(s, n); opnd("space", sp_); }
  if (kind_ == 7) { sp2_ = par_[2] ? sp_ : space(s, n + 1); opnd("second space", sp2_); }
  if (kind_ == 3) { v1_ = opk_vcreate(sp_); v2_ = par_[4] ? v1_ : opk_vcreate(sp_); 
    if (par_[2] == 7) opnd("lower bound", v1_); if (par_[3] == 7) opnd("upper bound", v2_); }
  if (kind_ == 12 && par_[3]) { float b = 0; box_ = opk_new_boxset(sp_, OPK_BOUND_SCALAR_FLOAT, &b, OPK_BOUND_NONE, NULL); opnd("box", box_); }
  if ((kind_ == 12 || kind_ == 13 || kind_ == 14) && par_[4]) { ls_ = opk_lnsrch_new_backtrack(0.25, 0.125); opnd("line search", ls_); }
}
static void unprep(void) { if (kind_ == 3) { OPK_DROP(v1_); if (v2_ != v1_) OPK_DROP(v2_); OPK_DROP(sp_); } else { int i; for (i = nop_ - 1; i >= 0; --i) OPK_DROP(op_[i].obj); } }
static void* build(void) {
  int n = par_[0], s = par_[1];
  switch (kind_) {
  case 0: return space(s, n);
  case 1: return opk_vcreate(sp_);
  case 2: return s ? opk_wrap_simple_float_vector(sp_, ff_, par_[2] ? cb : NULL, &cbarg_) : opk_wrap_simple_double_vector(sp_, dd_, par_[2] ? cb : NULL, &cbarg_);
  case 3: return opk_new_boxset(sp_, BT[par_[2]], barg(par_[2], 0), BT[par_[3]], par_[4] && par_[3] == 7 ? (void*)v1_ : barg(par_[3], 1));
  case 4: return opk_allocate_vector_space(&vops, n, par_[2] * 7);
  case 5: return opk_allocate_vector(sp_, par_[2] * 11);
  case 6: return opk_allocate_convexset(sp_, par_[2] ? finset : NULL, pv, pd, pd, sl, par_[3] * 13);
  case 7: oops.finalize = par_[3] ? finop : NULL; return opk_allocate_operator(&oops, sp_, sp2_, par_[4] * 17);
  case 8: return opk_allocate_line_search(&lops, par_[2] * 19);
  case 9: return opk_lnsrch_new_backtrack(0.25, 0.125);
  case 10: return opk_lnsrch_new_nonmonotone(n, 0.125, 0.25, 0.5);
  case 11: return opk_lnsrch_new_csrch(0.25, 0.5, 0.125);
  case 12: opk_get_vmlmb_default_options(&vo_); vo_.mem = par_[2]; vo_.blmvm = par_[5]; vo_.save_memory = par_[6]; return opk_new_vmlmb_optimizer(&vo_, sp_, ls_, box_);
  case 13: opk_get_nlcg_default_options(&no_); no_.flags = par_[2]; return opk_new_nlcg_optimizer(&no_, sp_, ls_);
  default: opk_get_vmlmb_default_options(&vo_); vo_.mem = par_[5];
    return opk_new_optimizer(par_[6] ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, par_[6] ? NULL : &vo_, s ? OPK_FLOAT : OPK_DOUBLE, n,
                             BT[par_[6] ? 0 : par_[2]], par_[6] ? NULL : barg(par_[2], 0), BT[par_[6] ? 0 : par_[3]], par_[6] ? NULL : barg(par_[3], 1), ls_);
  }
}
static const char* KN[] = {"vector space", "vcreate", "wrap", "boxset", "allocate_vector_space", "allocate_vector", "allocate_convexset", "allocate_operator", "allocate_line_search", "backtrack", "nonmonotone", "csrch", "vmlmb", "nlcg", "driver"};
#define WHO KN[kind_], par_[0], par_[1], par_[2], par_[3], par_[4], par_[5], par_[6]
#define WF "%s(n=%d,prec=%d,%d,%d,%d,%d,%d): "
static int expectfin(void) { return kind_ == 4 || kind_ == 5 || kind_ == 8 || (kind_ == 6 && par_[2]) || (kind_ == 7 && par_[3]); }
static void one(void) {
  long k, base, live0; opk_index r0[NOP], r1[NOP]; int i, j; void* o;
  failat_ = -1; live0 = live_;
  prep();
  base = live_;
  for (i = 0; i < nop_; ++i) r0[i] = REF(op_[i].obj);
  for (k = 0; ; ++k) {
    nalloc_ = 0; failat_ = k; ncb_ = nfin_ = 0; errno = 0;
    o = build();
    ++cases_;
    if (nalloc_ > k) {
      failat_ = -1;
      if (o) FAIL(WF "object returned although allocation %ld failed", WHO, k);
      if (live_ != base) FAIL(WF "%ld blocks leaked when allocation %ld fails", WHO, live_ - base, k);
      for (i = 0; i < nop_; ++i) if (REF(op_[i].obj) != r0[i]) FAIL(WF "references of the %s: %ld instead of %ld when allocation %ld fails", WHO, op_[i].name, (long)REF(op_[i].obj), (long)r0[i], k);
      continue;
    }
    failat_ = -1;
    if (!o) FAIL(WF "nothing returned", WHO);
    break;
  }
  if (REF(o) != 1) FAIL(WF "new object has %ld references", WHO, (long)REF(o));
  for (i = 0; i < nop_; ++i) { r1[i] = REF(op_[i].obj); if (r1[i] <= r0[i]) FAIL(WF "no reference held on the %s", WHO, op_[i].name); }
  k = live_;
  /* random holds and drops */
  { int h = 1; for (j = rndi(12); j > 0 || h > 1; --j) { if (j > 0 && (h == 1 || rndi(2))) { if (opk_hold_object(o) != o) FAIL("hold result"); ++h; } else { opk_drop_object(o); --h; }
      if (REF(o) != h || live_ != k) FAIL(WF "%ld references instead of %d", WHO, (long)REF(o), h);
      for (i = 0; i < nop_; ++i) if (REF(op_[i].obj) != r1[i]) FAIL(WF "references of the %s changed by hold/drop", WHO, op_[i].name); } }
  if (ncb_ || nfin_) FAIL(WF "finalized while referenced", WHO);
  opk_drop_object(o);
  if (live_ != base) FAIL(WF "%ld blocks left after the last reference is dropped", WHO, live_ - base);
  for (i = 0; i < nop_; ++i) if (REF(op_[i].obj) != r0[i]) FAIL(WF "references of the %s: %ld instead of %ld after release", WHO, op_[i].name, (long)REF(op_[i].obj), (long)r0[i]);
  if (nfin_ != expectfin()) FAIL(WF "finalizer called %d times", WHO, nfin_);
  if (ncb_ != (kind_ == 2 && par_[2])) FAIL(WF "callback called %d times", WHO, ncb_);
  /* operands dropped before the object */
  nfin_ = ncb_ = 0;
  o = build(); if (!o) FAIL(WF "nothing returned", WHO);
  for (i = 0; i < nop_; ++i) op_[i].obj = opk_hold_object(op_[i].obj), opk_drop_object(op_[i].obj);
  unprep();
  if (nfin_ || ncb_) FAIL(WF "finalized while referenced", WHO);
  opk_drop_object(o);
  if (live_ != live0) FAIL(WF "%ld blocks left after everything is dropped", WHO, live_ - live0);
}
static void rewraps(int s) {
  int oc, nc, sd, el;
  for (el = 0; el <= 8; el += 8) for (oc = 0; oc < 3; ++oc) for (nc = 0; nc < 3; ++nc) for (sd = 0; sd < 2; ++sd) {
    void (*f[3])(void*) = {NULL, cb, cb2}; static int A, B; static const int w[] = {0, 1, 100};
    opk_vspace* sp = space(s, 4); opk_vector* v; int st, e; long lv = live_;
    ncb_ = 0; cbarg_ = NULL;
    v = s ? opk_wrap_simple_float_vector(sp, ff_, f[oc], &A) : opk_wrap_simple_double_vector(sp, dd_, f[oc], &A);
    st = s ? opk_rewrap_simple_float_vector(v, ff_ + el, f[nc], sd ? &A : &B) : opk_rewrap_simple_double_vector(v, dd_ + el, f[nc], sd ? &A : &B);
    ++cases_;
    e = oc == nc && sd ? 0 : w[oc];
    if (st != OPK_SUCCESS) FAIL("rewrap: status %d", st);
    if (ncb_ != e || (e && cbarg_ != (void*)&A)) FAIL("rewrap (callbacks %d->%d, same data %d): previous callback count %d instead of %d", oc, nc, sd, ncb_, e);
    ncb_ = 0; cbarg_ = NULL;
    OPK_DROP(v);
    if (ncb_ != w[nc] || (w[nc] && cbarg_ != (void*)(sd ? &A : &B))) FAIL("rewrap: callback count %d at release instead of %d", ncb_, w[nc]);
    OPK_DROP(sp); (void)lv;
  }
}
int main(int argc, char** argv) {
  int t = thorough_(argc, argv), n, s, i, j, k, l, m, q; static const int NS[] = {1, 2, 3, 7, 24};
  seed_(argc, argv);
  vops.finalize_space = finspace; vops.finalize_vector = finvec;
  oops.apply_direct = oops.apply_adjoint = oops.apply_inverse = ap;
  lops.finalize = finls; lops.start = lst; lops.iterate = (void*)lst;
#define RUN(K, ...) do { int p_[8] = {__VA_ARGS__}; kind_ = K; memcpy(par_, p_, sizeof p_); one(); } while (0)
  for (q = 0; q < 5; ++q) for (n = NS[q], s = 0; s < 2; ++s) {
    RUN(0, n, s); RUN(1, n, s);
    for (i = 0; i < 2; ++i) RUN(2, n, s, i);
    for (i = 0; i < 8; ++i) for (j = 0; j < 8; ++j) for (k = 0; k < (i == 7 && j == 7 ? 2 : 1); ++k) RUN(3, n, s, i, j, k);
    for (i = 0; i < 14; ++i) { RUN(4, n, s, i); RUN(5, n, s, i); RUN(8, n, s, i); }
    for (i = 0; i < 2; ++i) for (j = 0; j < 10; ++j) RUN(6, n, s, i, j);
    for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) for (k = 0; k < 10; ++k) RUN(7, n, s, i, j, k);
    RUN(9, n, s); RUN(10, n, s); RUN(11, n, s);
    for (m = 1; m < 9; m += 1 + m / 4) for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) for (k = 0; k < 2; ++k) for (l = 0; l < 2; ++l) RUN(12, n, s, m, i, j, k, l);
    for (m = 0; m < 9; ++m) for (j = 0; j < 2; ++j) for (k = 0; k < (m ? 4 : 1); ++k) RUN(13, n, s, m | (k << 8), 0, j);
    for (i = 0; i < 7; ++i) for (j = 0; j < 7; ++j) for (k = 0; k < 2; ++k) RUN(14, n, s, i, j, k, 1 + rndi(4), 0);
    for (k = 0; k < 2; ++k) RUN(14, n, s, 0, 0, k, 1, 1);
  }
  rewraps(0); rewraps(1);
  opk_drop_object(NULL);
  if (opk_get_object_references(NULL) != 0) FAIL("references of a missing object");
  { /* sizes that no memory can hold */
    static const opk_index big[] = {PTRDIFF_MAX, PTRDIFF_MAX / 2, PTRDIFF_MAX / 4, PTRDIFF_MAX / 8, PTRDIFF_MAX / 8 + 1, ((opk_index)1 << 61), ((opk_index)1 << 62), ((opk_index)1 << 61) + 1};
    for (i = 0; i < 8; ++i) for (s = 0; s < 2; ++s) { opk_vspace* sp = s ? opk_new_simple_float_vector_space(big[i]) : opk_new_simple_double_vector_space(big[i]);
      opk_vector* v; opk_optimizer* o; long lv = live_; if (!sp) FAIL("space"); v = opk_vcreate(sp); ++cases_;
      if (v) FAIL("vector of %ld elements created", (long)big[i]);
      if (live_ != lv || REF(sp) != 1) FAIL("leak");
      OPK_DROP(sp);
      lv = live_;
      o = opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, s ? OPK_FLOAT : OPK_DOUBLE, big[i], 0, NULL, 0, NULL, NULL);
      if (o) FAIL("optimizer for %ld variables created", (long)big[i]);
      if (live_ != lv) FAIL("leak after an optimizer for %ld variables is refused", (long)big[i]);
      if (opk_lnsrch_new_nonmonotone(big[i], 1e-4, 0.1, 0.5)) FAIL("line search with %ld past values created", (long)big[i]); } }
  (void)t;
  if (live_) FAIL("%ld blocks left", live_);
  DONE();
}
