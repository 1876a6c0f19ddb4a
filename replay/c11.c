/* C11 replay: drivers against the optimizers they select, on the same data */
#include "h.h"
#include "optimpack.h"
#include "optimpack-private.h"
#define VN 8
#define G 3
static int fmode_; static double fa_[VN], fb_[VN];
static double fgd(int n, const double* x, double* g) { double f = 0; for (int i = 0; i < n; ++i) { double t = x[i] - fb_[i]; f += 0.5 * fa_[i] * t * t; g[i] = fa_[i] * t; if (fmode_ == 1) { f += 0.1 * x[i] * x[i] * x[i]; g[i] += 0.3 * x[i] * x[i]; } } if (fmode_ == 2) f = rndr() * 3; return f; }
static double fgf(int n, const float* x, float* g) { double a[VN], b[VN], f; for (int i = 0; i < n; ++i) a[i] = x[i]; f = fgd(n, a, b); for (int i = 0; i < n; ++i) g[i] = (float)b[i]; return f; }
static opk_lnsrch* mkls(int k) { return k == 1 ? opk_lnsrch_new_backtrack(1e-4, 0.5) : k == 2 ? opk_lnsrch_new_csrch(1e-4, 0.1, 1e-17) : k == 3 ? opk_lnsrch_new_nonmonotone(3, 1e-4, 0.1, 0.5) : NULL; }
int main(int argc, char** argv) {
  int nit = thorough_(argc, argv) ? 200000 : 30000;
  seed_(argc, argv);
  { char b[4] = "xxx"; double d[2] = {1, 2};
    if (opk_start(NULL, d) != OPK_TASK_ERROR || opk_iterate(NULL, d, 1, d) != OPK_TASK_ERROR || opk_get_task(NULL) != OPK_TASK_ERROR || opk_get_status(NULL) != OPK_ILLEGAL_ADDRESS || opk_get_evaluations(NULL) || opk_get_iterations(NULL) || opk_get_restarts(NULL) || opk_get_step(NULL) != -1 || opk_get_gnorm(NULL) != 0 || opk_get_name(b, 4, NULL) != 1 || b[0] || opk_get_description(b, 4, NULL) > 1) FAIL("queries without driver"); }
  for (int it = 0; it < nit; ++it) {
    int n = 1 + rndi(VN), single = rndi(2), algo = rndi(2), ls = rndi(4), kl = rndi(7), ku = rndi(7), wopts = rndi(3), i, k;
    double fv, dl[VN], du[VN]; float fl[VN], fu[VN]; double ld, ud; float lf, uf; void *la, *ua;
    char desc[160];
    if (algo == 0) kl = ku = 0;
    ld = -rnd01(); ud = rnd01(); lf = (float)ld; uf = (float)ud;
    fmode_ = rndi(3);
    for (i = 0; i < VN; ++i) { fa_[i] = pow(10, rndr()); fb_[i] = rndr() * 2; dl[i] = rndr() - 1.5; du[i] = dl[i] + rnd01() * 3; fl[i] = (float)dl[i]; fu[i] = (float)du[i]; }
    snprintf(desc, sizeof desc, "%s %s n=%d lnsrch=%d bounds %d,%d", algo ? "vmlmb" : "nlcg", single ? "float" : "double", n, ls, kl, ku);
    { void* t[] = {NULL, &lf, &ld, fl, dl, fl, dl}; la = t[kl]; }
    { void* t[] = {NULL, &uf, &ud, fu, du, fu, du}; ua = t[ku]; }
    opk_nlcg_options on; opk_vmlmb_options ov; void* opts = NULL;
    opk_get_nlcg_default_options(&on); opk_get_vmlmb_default_options(&ov);
    if (wopts) { opts = algo ? (void*)&ov : (void*)&on; ov.mem = 1 + rndi(6); ov.blmvm = rndi(2); ov.gatol = on.gatol = rnd01() * 0.1; ov.grtol = on.grtol = rnd01() * 0.01; ov.save_memory = rndi(2); ov.delta = on.delta = 1e-3 + rnd01(); if (rndi(3) == 0) on.flags = 1 + rndi(8); if (rndi(8) == 0) ov.epsilon = on.epsilon = 2; if (rndi(8) == 0) ov.gatol = on.gatol = -1; }
    opk_eltype ty = single ? OPK_FLOAT : OPK_DOUBLE;
    opk_algorithm al = algo ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG;
    opk_lnsrch *l1 = mkls(ls), *l2 = mkls(ls);
    ++cases_;
    /* refusals */
    if (rndi(4) == 0) {
      int c = rndi(7), bad = EINVAL; opk_optimizer* o; errno = 0;
      switch (c) {
      case 0: o = opk_new_optimizer(al, opts, ty, -rndi(2), kl, la, ku, ua, l1); break;
      case 1: { static const int w[] = {0, 1, -1, 8, 100}; int t = w[rndi(5)]; if (t == OPK_FLOAT || t == OPK_DOUBLE) t = -7; o = opk_new_optimizer(al, opts, t, n, kl, la, ku, ua, l1); break; }
      case 2: o = opk_new_optimizer(al, opts, ty, n, rndi(2) ? -1 : 8, la, ku, ua, l1); break;
      case 3: o = opk_new_optimizer(al, opts, ty, n, kl, la, rndi(2) ? -1 : 8, ua, l1); break;
      case 4: bad = EFAULT; o = opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, ty, n, kl, kl ? NULL : dl, ku, ua, l1); break;
      case 5: bad = EFAULT; o = opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, ty, n, kl, la, ku, ku ? NULL : du, l1); break;
      default: { int a = 2 + rndi(9); if (a == (int)OPK_ALGORITHM_NLCG || a == (int)OPK_ALGORITHM_VMLMB) a = -3; o = rndi(2) ? opk_new_optimizer((opk_algorithm)a, NULL, ty, n, 0, NULL, 0, NULL, l1) : opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, ty, n, kl ? kl : 2, kl ? la : &ld, ku, ua, l1); } }
      if (o || errno != bad) FAIL("%s: invalid arguments (case %d) give %p, errno %d", desc, c, (void*)o, errno);
    }
    opk_vspace* sp = single ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n);
    opk_convexset* bx = NULL;
    double kdl[VN], kdu[VN]; float kfl[VN], kfu[VN]; memcpy(kdl, dl, sizeof dl); memcpy(kdu, du, sizeof du); memcpy(kfl, fl, sizeof fl); memcpy(kfu, fu, sizeof fu);
    { void* a[] = {NULL, &lf, &ld, kfl, kdl, kfl, kdl}; void* b[] = {NULL, &uf, &ud, kfu, kdu, kfu, kdu}; 
      int t1 = kl, t2 = ku; opk_vector *v1 = NULL, *v2 = NULL; void *p1 = a[kl], *p2 = b[ku];
      if (kl == (single ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE)) { p1 = v1 = single ? opk_wrap_simple_float_vector(sp, kfl, NULL, NULL) : opk_wrap_simple_double_vector(sp, kdl, NULL, NULL); t1 = OPK_BOUND_VECTOR; }
      if (ku == (single ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE)) { p2 = v2 = single ? opk_wrap_simple_float_vector(sp, kfu, NULL, NULL) : opk_wrap_simple_double_vector(sp, kdu, NULL, NULL); t2 = OPK_BOUND_VECTOR; }
      if (kl || ku) bx = opk_new_boxset(sp, t1, p1, t2, p2);
      OPK_DROP(v1); OPK_DROP(v2); }
    opk_vmlmb* V = NULL; opk_nlcg* N = NULL;
    if (!(kl || ku) || bx) { if (algo) V = opk_new_vmlmb_optimizer(opts, sp, l2, bx); else N = opk_new_nlcg_optimizer(opts, sp, l2); }
    opk_optimizer* D = opk_new_optimizer(al, opts, ty, n, kl, la, ku, ua, l1);
    OPK_DROP(l1);
    if ((D != NULL) != (V || N)) FAIL("%s: driver %s but the optimizer itself %s", desc, D ? "created" : "refused", V || N ? "created" : "refused");
    if (D) {
      double xd[2][VN + 2 * G], gd[2][VN + 2 * G], Xd[VN], Gd[VN]; float xf[2][VN + 2 * G], gf[2][VN + 2 * G], Xf[VN], Gf[VN];
      opk_vector *vx = single ? opk_wrap_simple_float_vector(sp, Xf, NULL, NULL) : opk_wrap_simple_double_vector(sp, Xd, NULL, NULL), *vg = single ? opk_wrap_simple_float_vector(sp, Gf, NULL, NULL) : opk_wrap_simple_double_vector(sp, Gd, NULL, NULL);
      int w = 0, calls = 40, vol = kl == OPK_BOUND_VOLATILE_FLOAT || kl == OPK_BOUND_VOLATILE_DOUBLE || ku == OPK_BOUND_VOLATILE_FLOAT || ku == OPK_BOUND_VOLATILE_DOUBLE;
      opk_task t1 = 0, t2; int forget = -1;
      if (vol) { for (i = 0; i < VN; ++i) { if (kl == OPK_BOUND_VOLATILE_FLOAT) fl[i] = 1e9f; if (kl == OPK_BOUND_VOLATILE_DOUBLE) dl[i] = 1e9; if (ku == OPK_BOUND_VOLATILE_FLOAT) fu[i] = -1e9f; if (ku == OPK_BOUND_VOLATILE_DOUBLE) du[i] = -1e9; } }
      for (k = 0; k < 2; ++k) for (i = 0; i < VN + 2 * G; ++i) { xd[k][i] = gd[k][i] = 77; xf[k][i] = gf[k][i] = 77; }
      for (i = 0; i < n; ++i) { Xd[i] = rndr() * 2; Xf[i] = (float)Xd[i]; Gd[i] = 0; Gf[i] = 0; }
      if (rndi(20) == 0) forget = 0;
      for (k = 0; k < calls; ++k) {
        int start = k == 0 && forget, bad = rndi(40) == 0 ? 1 + rndi(3) : 0;
        if (k && rndi(60) == 0) start = 1;
        if (rndi(3) == 0) w = !w;
        for (i = 0; i < n; ++i) { xd[w][G + i] = Xd[i]; xf[w][G + i] = Xf[i]; xd[!w][G + i] = 55; xf[!w][G + i] = 55; gd[!w][G + i] = 44; gf[!w][G + i] = 44; }
        void *px = single ? (void*)(xf[w] + G) : (void*)(xd[w] + G), *pg = single ? (void*)(gf[w] + G) : (void*)(gd[w] + G);
        if (bad) {
          t1 = start ? opk_start(D, NULL) : opk_iterate(D, bad & 1 ? NULL : px, 1, bad & 2 ? NULL : pg);
          if (algo) opk__set_vmlmb_status(V, OPK_ILLEGAL_ADDRESS); else opk__set_nlcg_status(N, OPK_ILLEGAL_ADDRESS);
          t2 = OPK_TASK_ERROR;
          if (opk_get_status(D) != OPK_ILLEGAL_ADDRESS) FAIL("%s: missing array not reported (status %d)", desc, (int)opk_get_status(D));
        } else if (start) {
          t1 = opk_start(D, px);
          t2 = algo ? opk_start_vmlmb(V, vx) : opk_start_nlcg(N, vx);
        } else {
          fv = single ? fgf(n, Xf, Gf) : fgd(n, Xd, Gd);
          for (i = 0; i < n; ++i) { gd[w][G + i] = Gd[i]; gf[w][G + i] = Gf[i]; }
          t1 = opk_iterate(D, px, fv, pg);
          t2 = algo ? opk_iterate_vmlmb(V, vx, fv, vg) : opk_iterate_nlcg(N, vx, fv, vg);
          for (i = 0; i < n; ++i) if (single ? !samef(gf[w][G + i], Gf[i]) : !samed(gd[w][G + i], Gd[i])) FAIL("%s: call %d: gradient differs", desc, k);
        }
        if (t1 != t2) FAIL("%s: call %d: task %d but the optimizer itself gives %d", desc, k, (int)t1, (int)t2);
        for (i = 0; i < n; ++i) if (single ? !samef(xf[w][G + i], Xf[i]) : !samed(xd[w][G + i], Xd[i])) FAIL("%s: call %d: x[%d] = %.17g but the optimizer itself gives %.17g", desc, k, i, single ? xf[w][G + i] : xd[w][G + i], single ? Xf[i] : Xd[i]);
        for (i = 0; i < VN + 2 * G; ++i) {
          int in = i >= G && i < G + n;
          if (single ? (xf[!w][i] != (in ? 55 : 77) || gf[!w][i] != (in ? 44 : 77) || (!in && (xf[w][i] != 77 || gf[w][i] != 77))) : (xd[!w][i] != (in ? 55 : 77) || gd[!w][i] != (in ? 44 : 77) || (!in && (xd[w][i] != 77 || gd[w][i] != 77)))) FAIL("%s: call %d: an array not given by the caller is modified", desc, k);
        }
#define Q(nm) if (opk_get_##nm(D) != (algo ? opk_get_vmlmb_##nm(V) : opk_get_nlcg_##nm(N))) FAIL("%s: call %d: %s differs", desc, k, #nm)
        Q(task); Q(status); Q(evaluations); Q(iterations); Q(restarts);
#define QD(nm) if (!samed(opk_get_##nm(D), (algo ? opk_get_vmlmb_##nm(V) : opk_get_nlcg_##nm(N)))) FAIL("%s: call %d: %s differs", desc, k, #nm)
        QD(step); QD(gnorm);
        if (rndi(10) == 0) {
          char a[200], b[200]; size_t s1, s2; int sz = 1 + rndi(100);
          memset(a, 'z', 200); memset(b, 'z', 200);
          s1 = opk_get_description(a, sz, D); s2 = algo ? opk_get_vmlmb_description(b, sz, V) : opk_get_nlcg_description(b, sz, N);
          if (s1 != s2 || memcmp(a, b, 200)) FAIL("%s: description differs", desc);
          memset(a, 'z', 200); memset(b, 'z', 200);
          s1 = opk_get_name(a, sz, D); s2 = algo ? opk_copy_string(b, sz, opk_get_vmlmb_method_name(V)) : opk_get_nlcg_name(b, sz, N);
          if (s1 != s2 || memcmp(a, b, 200)) FAIL("%s: name differs", desc);
        }
        if (t1 == OPK_TASK_ERROR && !bad && rndi(3) == 0) break;
      }
      OPK_DROP(vx); OPK_DROP(vg);
      opk_destroy_optimizer(D);
    }
    OPK_DROP(V); OPK_DROP(N); OPK_DROP(bx); OPK_DROP(sp); OPK_DROP(l2);
  }
  DONE();
}
