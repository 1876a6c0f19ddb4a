From b02383545be429aa10c647750b3cfc1c79cbe9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 01/36] fix: print a missing vector to the standard output when
 no stream is given

---
 src/algebra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..22b5938 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -229,6 +229,9 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
   opk_vspace* vspace;
   opk_index i, n;
 
+  if (file == NULL) {
+    file = stdout;
+  }
   if (vect == NULL) {
     if (name != NULL) {
       fputs(name, file);
@@ -238,9 +241,6 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
     }
     return;
   }
-  if (file == NULL) {
-    file = stdout;
-  }
   if (name != NULL) {
     fputs(name, file);
     fputs(" = {", file);
-- 
2.43.0


From 46906fe017a939011fc8bd5bacfc683969afe3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 02/36] fix: refuse to create vectors whose size in bytes
 overflows

---
 src/simple_vector.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simple_vector.c b/src/simple_vector.c
index d305ba7..b6065dd 100644
--- a/src/simple_vector.c
+++ b/src/simple_vector.c
@@ -84,8 +84,12 @@ static opk_vector*
 create(opk_vspace* vspace)
 {
   const size_t offset = ROUND_UP(sizeof(simple_vector), sizeof(REAL));
-  size_t size = offset + vspace->size*sizeof(REAL);
-  opk_vector* v = opk_allocate_vector(vspace, size);
+  opk_vector* v;
+  if ((size_t)vspace->size > (((size_t)-1) - offset)/sizeof(REAL)) {
+    errno = ENOMEM;
+    return NULL;
+  }
+  v = opk_allocate_vector(vspace, offset + vspace->size*sizeof(REAL));
   if (v != NULL) {
     simple_vector* sv = (simple_vector*)v;
     sv->data = (REAL*)(((char*)v) + offset);
-- 
2.43.0


From 1528c693ebe8d22594c5e2144d39ecf872a5b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 03/36] fix: check that the optimizer object could be allocated

---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..6fee9a9 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From 8e109903fd16d5aab688808e8a76a80369ba2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 04/36] fix: refuse NaN parameters in line search constructors

---
 src/lnsrch.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..6003d02 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -307,7 +307,7 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  if (! (ftol > 0 && ftol <= 0.5 && amin > 0 && amin < 1)) {
     errno = EINVAL;
     return NULL;
   }
@@ -425,7 +425,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
@@ -651,15 +651,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (! (ftol >= 0)) {
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (! (gtol >= 0)) {
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (! (xtol >= 0)) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From 7e3af9ac510a74a1659f5ee3cf83e32d6d357dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 05/36] fix: refuse nonmonotone line searches whose size in
 bytes overflows

---
 src/lnsrch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 6003d02..0d60bcb 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -432,6 +432,10 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
     return NULL;
   }
   offset = ROUND_UP(sizeof(nonmonotone_lnsrch), sizeof(double));
+  if ((size_t)m > (((size_t)-1) - offset)/sizeof(double)) {
+    errno = ENOMEM;
+    return NULL;
+  }
   size = offset + m*sizeof(double);
   ls = opk_allocate_line_search(&nonmonotone_operations, size);
   if (ls != NULL) {
-- 
2.43.0


From e517c7b3cd72cf7e9b9a074b8fe944b2e9af6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 06/36] fix: refuse to start a line search with a NaN step,
 bound or slope

---
 src/lnsrch.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 0d60bcb..83ce749 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -128,19 +128,19 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
   if (ls == NULL) {
     return OPK_ILLEGAL_ADDRESS;
   }
-  if (stpmin < 0) {
+  if (! (stpmin >= 0)) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
   }
-  if (stpmin > stpmax) {
+  if (! (stpmin <= stpmax)) {
     return failure(ls, OPK_STPMIN_GT_STPMAX);
   }
-  if (stp < stpmin) {
+  if (! (stp >= stpmin)) {
     return failure(ls, OPK_STEP_LT_STPMIN);
   }
-  if (stp > stpmax) {
+  if (! (stp <= stpmax)) {
     return failure(ls, OPK_STEP_GT_STPMAX);
   }
-  if (g0 >= 0) {
+  if (! (g0 < 0)) {
     return failure(ls, OPK_NOT_A_DESCENT);
   }
   ls->stp = stp;
-- 
2.43.0


From 19da48e1d239a3683a5e4dc003ed9085f58832be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 07/36] fix: backtrack by bisection when the function value is
 not a number

---
 src/lnsrch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 83ce749..488442a 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -276,7 +276,7 @@ backtrack_iterate(opk_lnsrch* ls,
   } else {
     double q = -stp*ls->ginit;
     double r = (f - (ls->finit - q))*2;
-    if (r <= 0) {
+    if (! (r > 0)) {
       /* Bisection step. */
       stp *= 0.5;
     } else if (q <= bls->amin*r) {
-- 
2.43.0


From 6d05c05ee0e5d74b6349f94d8bf59382165c977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 08/36] fix: keep the outcome of a line search which ends at a
 step bound

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 488442a..aaf3bb8 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -175,12 +175,12 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
   if (*stp_ptr <= ls->stpmin) {
-    if (bound < 0) {
+    if (bound < 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMIN);
     }
     *stp_ptr = ls->stpmin;
   } else if (*stp_ptr >= ls->stpmax) {
-    if (bound > 0) {
+    if (bound > 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMAX);
     }
     *stp_ptr = ls->stpmax;
-- 
2.43.0


From 0089a907ca5c2daf43fda9148281cb6199a4810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 09/36] fix: return a line search task for a missing line
 search

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index aaf3bb8..bd0a273 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -126,7 +126,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (! (stpmin >= 0)) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
@@ -158,7 +158,7 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   int bound;
 
   if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From a5db783f08e8a3894bdf6d12d4802622f5db04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 10/36] fix: refuse VMLMB workspaces whose size in bytes
 overflows

---
 src/vmlmb.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..ec4e67b 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -275,6 +275,10 @@ opk_new_vmlmb_optimizer(const opk_vmlmb_options* opts,
   }
 
   /* Allocate enough memory for the workspace and its arrays. */
+  if ((size_t)m > (((size_t)-1)/4)/(sizeof(opk_vector*) + sizeof(double))) {
+    errno = ENOMEM;
+    return NULL;
+  }
   s_offset = ROUND_UP(sizeof(opk_vmlmb), sizeof(opk_vector*));
   y_offset = s_offset + m*sizeof(opk_vector*);
   alpha_offset = ROUND_UP(y_offset + m*sizeof(opk_vector*), sizeof(double));
-- 
2.43.0


From a12f9fd0f071527b185e0ce200ce925d1673903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 11/36] fix: always project VMLMB trial points so that rounding
 cannot violate the bounds

---
 src/vmlmb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index ec4e67b..ec45cd6 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -736,7 +736,7 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From 05a9f44cf147973814207f0131f684534f875051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 12/36] fix: initialize the description of an unknown VMLMB
 method

---
 src/vmlmb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index ec45cd6..0814658 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -781,7 +781,7 @@ opk_get_vmlmb_description(char* buf, size_t size, const opk_vmlmb* opt)
     break;
 
   default:
-    strcat(str, "*** unknown method ***");
+    strcpy(str, "*** unknown method ***");
   }
 
   return opk_copy_string(buf, size, str);
-- 
2.43.0


From e8e452bbd667c13eaf2e7d875714d68597ee2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 13/36] fix: take into account the minimal function value given
 in NLCG options

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..d9990df 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From d18ff43fcf51236aa31c2bd3f527b239e4331a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 14/36] fix: enlarge the buffer for the longest NLCG
 description

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index d9990df..e866f1d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,7 +595,7 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[128];
   int and;
 
   if (opt == NULL || (buf == NULL && size > 0)) {
-- 
2.43.0


From 493a44d173e54d234ab6c0919c8c66b8d87d1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 15/36] fix: describe a missing optimizer by an empty text

---
 src/driver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.c b/src/driver.c
index 6fee9a9..9464b12 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -526,7 +526,11 @@ opk_get_name(char* buf, size_t size, const opk_optimizer* opt)
 size_t
 opk_get_description(char* buf, size_t size, const opk_optimizer* opt)
 {
-  return opt->ops->get_description(buf, size, opt);
+  if (opt == NULL) {
+    return opk_copy_string(buf, size, "");
+  } else {
+    return opt->ops->get_description(buf, size, opt);
+  }
 }
 
 double
-- 
2.43.0


From 77e3275012ff398d76f3b1fe18a562546d673afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 16/36] fix: report both ends of the final bracket of the
 univariate minimizer

---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..c18c387 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From 30edec7a99c935f504a1d0d6f0335d04032fc891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 17/36] fix: do not reuse the last evaluation when continuing
 after convergence

---
 src/fmin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmin.c b/src/fmin.c
index c18c387..4e44dbc 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -232,6 +232,7 @@ opk_fmin_get_final(opk_fmin_context* ctx,
  *    ctx->stage =  3    evaluation of f(x) for x inside (a,b)
  *    ctx->stage =  4    evaluation of f(x) while trying to bracket
  *    ctx->stage =  5    evaluation of f(x) while converging
+ *    ctx->stage =  6    convergence (precision may be changed to continue)
  */
 
 opk_fmin_task
@@ -293,6 +294,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
       JUMP(3);
       JUMP(4);
       JUMP(5);
+      JUMP(6);
     default:
       return (ctx->status = OPK_FMIN_ERROR);
     }
@@ -346,7 +348,10 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
     if ((t = fabs(v)) > r) r = t;
     if ((t = fabs(w)) > r) r = t;
     if (fabs(w - v) <= prec*r) {
+      ctx->stage = 6;
       return (ctx->status = OPK_FMIN_CONVERGENCE);
+    stage_6:
+      continue;
     }
 
     /* Take a golden section interpolation step. */
-- 
2.43.0


From 167d0abb151e0913797b8a903342102965cf0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 18/36] fix: honour a maximum of zero evaluations in the
 univariate minimizer

---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 4e44dbc..9b0ea2e 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -531,7 +531,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -553,7 +553,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From d66d540bb1d42c005a81a850a8ca5d354e8a8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 19/36] fix: report the right argument for an invalid second
 flag of GEMM

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2564a31..4c499d4 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1324,7 +1324,7 @@ OPK_GEMM(opk_blas_trans transa,
     notb = 0;
     nrowb = n;
   } else {
-    return 1;
+    return 2;
   }
   if (m < 0) return 3;
   if (n < 0) return 4;
-- 
2.43.0


From 3c591d166783384b6fb2a57648302350a82d837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 20/36] fix: use the leading dimension of the input matrix in
 SYRK

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 4c499d4..8cb8fb9 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1475,7 +1475,7 @@ OPK_SYRK(opk_blas_uplo uplo,
 #undef c
 #define c(a1,a2) c_[(a2)*ldc + a1]
 #undef a
-#define a(a1,a2) a_[(a2)*ldc + a1]
+#define a(a1,a2) a_[(a2)*lda + a1]
 
   /* Local constants and variables. */
   const real_t ZERO = OPK_REALCONST(0.0);
-- 
2.43.0


From 4535a0fd6915831da71845609d4160bdf5e6e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 21/36] fix: description of a conjugate gradient optimizer with
 no buffer returns the needed size

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index e866f1d..e16610d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -598,7 +598,7 @@ opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
   char str[128];
   int and;
 
-  if (opt == NULL || (buf == NULL && size > 0)) {
+  if (opt == NULL) {
     return 0;
   }
   switch (opt->flags & 0xff) {
-- 
2.43.0


From 1325809032ab669a8b4798cde6bb95a6e5f91461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 22/36] fix: explanations of the function, gradient and step
 tolerance statuses were permuted

---
 src/optimpack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimpack.h b/src/optimpack.h
index 7167da8..3485671 100644
--- a/src/optimpack.h
+++ b/src/optimpack.h
@@ -303,11 +303,11 @@ OPK_BEGIN_C_DECLS
   OPK_STATUS_(14, OPK_STEP_LT_STPMIN, "Step lesser than lower bound")   \
   OPK_STATUS_(15, OPK_STEP_GT_STPMAX, "Step greater than upper bound")  \
   OPK_STATUS_(16, OPK_FTOL_TEST_SATISFIED,                              \
-              "Convergence within variable tolerance")                  \
+              "Convergence within function tolerance")                  \
   OPK_STATUS_(17, OPK_GTOL_TEST_SATISFIED,                              \
-                "Convergence within function tolerance")                \
-  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
                 "Convergence within gradient tolerance")                \
+  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
+                "Convergence within variable tolerance")                \
   OPK_STATUS_(19, OPK_STEP_EQ_STPMAX, "Step blocked at upper bound")    \
   OPK_STATUS_(20, OPK_STEP_EQ_STPMIN, "Step blocked at lower bound")    \
   OPK_STATUS_(21, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS,                 \
-- 
2.43.0


From bf2caad5e78f3d5309db13175d524964d7d78b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 23/36] fix: the Euclidean norm of vectors of subnormal numbers
 is not infinite

The reciprocal of the largest absolute value overflows when this value is
subnormal; divide by the value instead.
---
 src/linalg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index 8cb8fb9..4bb55db 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -550,7 +550,6 @@ OPK_NRM2(opk_index n, const real_t x[],
          opk_index incx)
 {
   const real_t ZERO = OPK_REALCONST(0.0);
-  const real_t ONE = OPK_REALCONST(1.0);
   real_t a, b, s, t;
   opk_index i, m;
 
@@ -581,16 +580,15 @@ OPK_NRM2(opk_index n, const real_t x[],
 
   /* Compute sum of squares avoiding overflows. */
   s = ZERO;
-  b = ONE/a;
   if (incx == 1) {
     for (i = 0; i < n; ++i) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   } else {
     m = n*incx;
     for (i = 0; i < m; i += incx) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   }
-- 
2.43.0


From da1c84ae98b59c0857a68e9131131af9ee5d63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 24/36] fix: trust-region subproblem with a null linear term
 reported an accuracy it did not have

---
 src/gqtpar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gqtpar.c b/src/gqtpar.c
index 7f749c9..c284123 100644
--- a/src/gqtpar.c
+++ b/src/gqtpar.c
@@ -239,7 +239,7 @@ OPK_GQT(const opk_index n, real_t a_[], const opk_index lda,
           info = 1;
         } else if (info == 0 && HALF*temp2 <= (atol/delta)/delta) {
           info = 2;
-        } else if (xnorm == ZERO) {
+        } else if (xnorm == ZERO && par == ZERO) {
           info = 1;
         }
       }
-- 
2.43.0


From aafa4aa68f897e544dec9a5ba3a3bd507fadc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 25/36] fix: newuoa_create accepted less than 2 variables

---
 src/newuoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..bb8cf81 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,7 +532,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
       print_error("invalid number of variables N");
     }
-- 
2.43.0


From 327a7ba07663581b6ab683025d74eeeba156d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 26/36] fix: newuoa_create did not set errno for a bad number
 of interpolation points

---
 src/newuoa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index bb8cf81..ea738d3 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -543,6 +543,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
   if (rhoend <= 0 || rhoend > rhobeg) {
-- 
2.43.0


From 1ea9a12e650532b5f3801567486fbe275332871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 27/36] fix: NEWUOA accepted NaN trust region radii

---
 src/newuoa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index ea738d3..caf3eb0 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -546,7 +546,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     errno = EINVAL;
     return NULL;
   }
-  if (rhoend <= 0 || rhoend > rhobeg) {
+  if (! (rhoend > 0 && rhoend <= rhobeg)) {
     if (iprint > 0) {
       print_error("invalid RHOBEG and/or RHOEND");
     }
@@ -848,7 +848,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     }
     return NEWUOA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return NEWUOA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From 8cbc2ceff0350b1bc67d98450728414399c175fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 28/36] fix: newuoa_get_rho was not 0 after a restart nor
 positive during the initialization

---
 src/newuoa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index caf3eb0..d1ac1d2 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -619,6 +619,7 @@ newuoa_restart(newuoa_context* ctx)
     return NEWUOA_BAD_ADDRESS;
   }
   ctx->nevals = 0;
+  ctx->rho = 0;
   ctx->status = NEWUOA_ITERATE;
   return ctx->status;
 }
@@ -1009,6 +1010,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   rhosq = rhobeg*rhobeg;
   recip = one/rhosq;
   reciq = SQRT(half)/rhosq;
+  rho = rhobeg;
   nf = 0;
  L50:
   nfm = nf;
-- 
2.43.0


From fd42bb61a1c55afc0411876833e98322e1413381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 29/36] fix: NEWUOA returned unset variables when MAXFUN is
 less than NPT

---
 src/newuoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index d1ac1d2..03279cb 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1635,8 +1635,9 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   status = NEWUOA_SUCCESS;
  done:
   if (fopt <= f) {
+    /* XOPT is only set when the initial model is complete. */
     LOOP(i,n) {
-      X(i) = XBASE(i) + XOPT(i);
+      X(i) = XBASE(i) + (nf < npt ? XPT(kopt,i) : XOPT(i));
     }
     f = fopt;
   }
-- 
2.43.0


From babbb8ffe07b2e0eaef93daf2b94dabb761423d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 30/36] fix: COBYLA accepted NaN trust region radii

---
 src/cobyla.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..2f67eb2 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -208,7 +208,7 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
   size_t size, offset1, offset2;
 
   /* Check arguments. */
-  if (n < 1 || m < 0 || rhobeg < rhoend || rhoend <= 0 || maxfun < 1) {
+  if (n < 1 || m < 0 || !(rhobeg >= rhoend && rhoend > 0) || maxfun < 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -424,7 +424,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   if (m < 0) {
     return COBYLA_BAD_NCONS;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return COBYLA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From ee70b37870f8f0c4e3d42bf6a78b0b26a3dd0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 31/36] fix: cobyla_get_rho was not 0 after a restart

---
 src/cobyla.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cobyla.c b/src/cobyla.c
index 2f67eb2..e94c0d2 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -266,6 +266,7 @@ cobyla_restart(cobyla_context* ctx)
     return COBYLA_BAD_ADDRESS;
   }
   ctx->nfvals = 0;
+  ctx->rho = 0;
   ctx->status = COBYLA_ITERATE;
   return ctx->status;
 }
-- 
2.43.0


From 3c26e42a1b703b8aa4b6a53332e740c0a25052fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:53 +0000
Subject: [PATCH 32/36] fix: COBYLA did not return when the model has NaN
 coefficients

---
 src/cobyla.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index e94c0d2..55f2dc0 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -1525,7 +1525,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   /* If the full step is not acceptable then begin another iteration.
      Otherwise switch to stage two or end the calculation. */
   if (icon > 0) goto L_70;
-  if (step == stpful) goto L_500;
+  if (mcon > m || step == stpful) goto L_500;
  L_480:
   mcon = m + 1;
   icon = mcon;
-- 
2.43.0


From dbdc92b5a16018cb474abbf690b4eaedf400f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:50 +0000
Subject: [PATCH 33/36] fix: BOBYQA accepted NaN trust region radii

---
 src/bobyqa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..6c9d73d 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -362,7 +362,7 @@ bobyqa_status bobyqa_optimize(
     }
     return BOBYQA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return BOBYQA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From 8711899048e2a08501fe16cc4abe02e7d3359014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:50 +0000
Subject: [PATCH 34/36] fix: BOBYQA accepted NaN bounds and changed the
 variables before refusing too close bounds

---
 src/bobyqa.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 6c9d73d..54f4b5b 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -366,6 +366,25 @@ bobyqa_status bobyqa_optimize(
     return BOBYQA_BAD_RHO_RANGE;
   }
 
+  /* Check scaling factors and return if there is insufficient space between the
+     bounds.  This is done before changing anything. */
+  if (scl != NULL) {
+    for (j = 0; j < n; ++j) {
+      if (scl[j] - scl[j] != zero || scl[j] <= zero) {
+        return BOBYQA_BAD_SCALING;
+      }
+    }
+  }
+  for (j = 0; j < n; ++j) {
+    REAL s = (scl == NULL ? one : one/scl[j]);
+    if (!(s*xu[j] - s*xl[j] >= rhobeg + rhobeg)) {
+      if (iprint > 0) {
+        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
+      }
+      return BOBYQA_TOO_CLOSE;
+    }
+  }
+
   /* Initialize context. */
   ctx.objfun = objfun;
   ctx.data = data;
@@ -380,9 +399,6 @@ bobyqa_status bobyqa_optimize(
     for (j = 0; j < n; ++j) {
       REAL s = scl[j];
       if (s != one) {
-        if (s - s != zero || s <= zero) {
-          return BOBYQA_BAD_SCALING;
-        }
         scaling = TRUE;
       }
     }
@@ -428,20 +444,13 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
+  /* Modify the initial X if necessary in order to avoid conflicts between the bounds and
      the construction of the first quadratic model.  The lower and upper bounds
      on moves from the updated X are set now, in the ISL and ISU partitions of
      W, in order to provide useful and exact information about components of X
      that become within distance RHOBEG from their bounds. */
   for (j = 0; j < n; ++j) {
     temp = xu[j] - xl[j];
-    if (temp < rhobeg + rhobeg) {
-      if (iprint > 0) {
-        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
-      }
-      return BOBYQA_TOO_CLOSE;
-    }
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From 88b7c214a6c397393721e6e05784d8931350822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:50 +0000
Subject: [PATCH 35/36] fix: with scaling, BOBYQA could evaluate slightly
 infeasible points

---
 src/bobyqa.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 54f4b5b..455c047 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* lower bounds before scaling */
+  const REAL*    xu;     /* upper bounds before scaling */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               scale((ctx)->ws, (ctx), (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,19 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* Scale the variables.  Because of rounding errors the result may be slightly
+   outside the bounds, hence the clamping. */
+static REAL*
+scale(REAL* dst, const context* ctx, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -390,6 +394,8 @@ bobyqa_status bobyqa_optimize(
   ctx.data = data;
   ctx.scl = NULL;
   ctx.ws = NULL;
+  ctx.xl = xl;
+  ctx.xu = xu;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
 
@@ -488,7 +494,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    scale(x, &ctx, x);
   }
 
   /* Return status. */
-- 
2.43.0


From b3c63d2f54b5c51e494c824c4d604fcb9d91e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:28 +0000
Subject: [PATCH 36/36] fix: BOBYQA lost the last value when a trust region
 step failed

---
 src/bobyqa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 455c047..9a9e315 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1055,6 +1055,7 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   /* Pick the next value of DELTA after a trust region step. */
   if (ntrits > 0) {
     if (vquad >= zero) {
+      fsave = f;
       goto step_failed;
     }
     ratio = (f - fopt)/vquad;
-- 
2.43.0

