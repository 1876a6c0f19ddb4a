static void NAME(nofree)(void* p) { FAIL("release callback called for a refused operation (%p)", p); }
static void NAME(run)(void) {
  enum { M = 12 };
  int n = 1 + rndi(M), n2 = rndi(2) ? n : 1 + rndi(M), i, j, k, q;
  R d[5][M + 2], o[5][M + 2];
  opk_vspace *A = F(opk_new_simple_, _vector_space)(n), *B = F(opk_new_simple_, _vector_space)(n2);
  opk_vspace* G = (sizeof(R) == 8) ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n);
  opk_vector *a[4], *b[4], *v[4]; opk_vector* gv = opk_vcreate(G);
  double c[3], buf[M + 2], sbuf[M + 2];
  for (i = 0; i < 5; ++i) for (j = 0; j < M + 2; ++j) d[i][j] = o[i][j] = (R)rndr();
  for (j = 0; j < M + 2; ++j) buf[j] = sbuf[j] = rndr();
  for (i = 0; i < 4; ++i) { a[i] = F(opk_wrap_simple_, _vector)(A, d[i], NULL, NULL); }
  for (i = 0; i < 4; ++i) { b[i] = F(opk_wrap_simple_, _vector)(B, d[i], NULL, NULL); }
#define SAMEDATA(w) do { for (i = 0; i < 5; ++i) for (j = 0; j < M + 2; ++j) if (d[i][j] != o[i][j]) FAIL("%s modified an argument", w); \
    for (j = 0; j < M + 2; ++j) if (buf[j] != sbuf[j]) FAIL("%s modified an argument", w); } while (0)
  /* mixed spaces */
  for (q = 0; q < 8; ++q) {
    static const int nv[] = {2, 2, 2, 3, 3, 4, 2, 3};
    static const char* nm[] = {"vcopy", "vscale", "vswap", "vproduct", "vaxpby", "vaxpbypcz", "vdot", "vdot3"};
    int m, all = (1 << nv[q]) - 1; double r = 0;
    for (m = 1; m < all; ++m) {
      for (i = 0; i < 4; ++i) v[i] = (m >> i & 1) ? b[i] : a[i];
      for (i = 0; i < 3; ++i) c[i] = rndi(3) == 0 ? rndi(3) - 1 : rndr();
      nerr = 0;
      switch (q) {
      case 0: opk_vcopy(v[0], v[1]); break;
      case 1: opk_vscale(v[0], c[0], v[1]); break;
      case 2: opk_vswap(v[0], v[1]); break;
      case 3: opk_vproduct(v[0], v[1], v[2]); break;
      case 4: opk_vaxpby(v[0], c[0], v[1], c[1], v[2]); break;
      case 5: opk_vaxpbypcz(v[0], c[0], v[1], c[1], v[2], c[2], v[3]); break;
      case 6: r = opk_vdot(v[0], v[1]); break;
      case 7: r = opk_vdot3(v[0], v[1], v[2]); break;
      }
      CK(nerr > 0, "opk_%s: vectors of different spaces not reported (pattern %d, coefficients %g %g %g)", nm[q], m, c[0], c[1], c[2]);
      CK(r == 0, "opk_%s: result %g for vectors of different spaces", nm[q], r);
      SAMEDATA(nm[q]);
    }
  }
  nerr = 0;
  /* index, type, count */
  { static const opk_index bad[] = {-1, -2, 0, 1, 2, 1000000};
    double p = 42;
    for (i = 0; i < 6; ++i) { opk_index x = i < 2 ? bad[i] : i == 5 ? PTRDIFF_MAX : n + bad[i];
      CK(opk_vpeek(a[0], x, &p) == OPK_OUT_OF_BOUNDS_INDEX && p == 42, "opk_vpeek index %ld of %d", (long)x, n);
      CK(opk_vpoke(a[0], x, 3) == OPK_OUT_OF_BOUNDS_INDEX, "opk_vpoke index %ld of %d", (long)x, n); }
    CK(opk_vpeek(a[0], PTRDIFF_MIN, &p) == OPK_OUT_OF_BOUNDS_INDEX, "opk_vpeek");
    CK(opk_vpeek(NULL, 0, &p) == OPK_ILLEGAL_ADDRESS && opk_vpeek(a[0], 0, NULL) == OPK_ILLEGAL_ADDRESS && opk_vpeek(NULL, 0, NULL) == OPK_ILLEGAL_ADDRESS, "opk_vpeek NULL");
    CK(opk_vpoke(NULL, 0, 1) == OPK_ILLEGAL_ADDRESS, "opk_vpoke NULL");
    CK(opk_vpeek(a[0], n - 1, &p) == OPK_SUCCESS && p == d[0][n - 1], "opk_vpeek last");
    for (i = 0; i < 40; ++i) { int ty = i < 20 ? i - 5 : (int)rnd64();
      opk_index cnt = rndi(2) ? n : n + rndi(5) - 2; int ok = (ty == OPK_FLOAT || ty == OPK_DOUBLE);
      if (ok && cnt == n) continue;
      CK(opk_vimport(a[0], buf, (opk_eltype)ty, cnt) == OPK_INVALID_ARGUMENT, "opk_vimport type %d count %ld of %d", ty, (long)cnt, n);
      CK(opk_vexport(buf, (opk_eltype)ty, cnt, a[0]) == OPK_INVALID_ARGUMENT, "opk_vexport type %d count %ld of %d", ty, (long)cnt, n);
      CK(opk_vimport(NULL, buf, (opk_eltype)ty, cnt) == OPK_ILLEGAL_ADDRESS && opk_vimport(a[0], NULL, (opk_eltype)ty, cnt) == OPK_ILLEGAL_ADDRESS, "opk_vimport NULL");
      CK(opk_vexport(NULL, (opk_eltype)ty, cnt, a[0]) == OPK_ILLEGAL_ADDRESS && opk_vexport(buf, (opk_eltype)ty, cnt, NULL) == OPK_ILLEGAL_ADDRESS, "opk_vexport NULL"); }
    SAMEDATA("refused element access or transfer"); }
  /* boxes */
  { static const int ty[] = {OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_STATIC_FLOAT, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE, OPK_BOUND_VECTOR, 99, -1};
    float fb[M]; double db[M]; int lt = rndi(10), ut = rndi(10), lm = rndi(4), um = rndi(4), g; void *lp, *up; long ra, rA, rb; opk_convexset* s;
    for (i = 0; i < M; ++i) { fb[i] = -1; db[i] = 1; }
    for (g = 0; g < 2; ++g) {
      int t = g ? ut : lt, m = g ? um : lm; void* p;
      if (m == 0) p = NULL; else if (t == 1 || t == 3 || t == 5) p = fb; else if (t == 7) p = m == 1 ? b[0] : m == 2 ? gv : a[1]; else p = db;
      if (m > 1 && t == 0) p = NULL;
      if (g) up = p; else lp = p;
    }
#define GOODB(t, p) ((t) == 0 ? (p) == NULL : (t) < 7 ? (p) != NULL : (t) == 7 ? (p) == a[1] : 0)
    ra = opk_get_object_references((opk_object*)a[1]); rA = opk_get_object_references((opk_object*)A); rb = opk_get_object_references((opk_object*)b[0]);
    errno = 0;
    s = opk_new_boxset(A, (opk_bound_type)ty[lt], lp, (opk_bound_type)ty[ut], up);
    if (GOODB(lt, lp) && GOODB(ut, up)) { CK(s != NULL, "opk_new_boxset refuses types %d/%d", ty[lt], ty[ut]); OPK_DROP(s); }
    else CK(s == NULL && errno == EINVAL, "opk_new_boxset accepts lower type %d value %p upper type %d value %p (errno %d)", ty[lt], lp, ty[ut], up, errno);
    CK(opk_get_object_references((opk_object*)a[1]) == ra && opk_get_object_references((opk_object*)A) == rA && opk_get_object_references((opk_object*)b[0]) == rb, "opk_new_boxset changes reference counts (types %d/%d)", ty[lt], ty[ut]);
    errno = 0; CK(opk_new_boxset(NULL, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL) == NULL && errno == EFAULT, "opk_new_boxset without space"); }
  /* sets */
  { int im = rndi(16), m, fn; opk_convexset* s; opk_vector *w[3], *u[3]; double s3[3] = {5, 6, 7};
    s = opk_allocate_convexset(A, NULL, im & 1 ? pv : NULL, im & 2 ? pd : NULL, im & 4 ? pd : NULL, im & 8 ? sl : NULL, 0);
    CK(opk_can_project_variables(s) == !!(im & 1) && opk_can_project_directions(s) == !!(im & 2) && opk_can_get_free_variables(s) == !!(im & 4) && opk_can_get_step_limits(s) == !!(im & 8), "capabilities of a set");
    CK(!opk_can_project_variables(NULL) && !opk_can_project_directions(NULL) && !opk_can_get_free_variables(NULL) && !opk_can_get_step_limits(NULL), "capabilities of a missing set");
    for (fn = 0; fn < 4; ++fn) for (m = 0; m < 128; ++m) {
      int use = fn == 0 ? 3 : fn == 3 ? 6 : 7; /* dst x d */
      int nul = (m & 7) & use, oth = (m >> 4 & 7) & use, r, want, orient = rndi(2) ? 1 : -1;
      const opk_convexset* t = m & 8 ? NULL : s;
      u[0] = a[0]; u[1] = a[1]; u[2] = a[2];
      for (i = 0; i < 3; ++i) w[i] = nul >> i & 1 ? NULL : oth >> i & 1 ? (rndi(2) ? b[i] : gv) : u[i];
      ncall = 0;
      r = fn == 0 ? opk_project_variables(w[0], w[1], t) : fn == 1 ? opk_project_direction(w[0], w[1], t, w[2], orient) : fn == 2 ? opk_get_free_variables(w[0], w[1], t, w[2], orient) : opk_get_step_limits(s3, s3 + 1, s3 + 2, w[1], t, w[2], orient);
      want = nul || !t ? OPK_ILLEGAL_ADDRESS : oth ? OPK_BAD_SPACE : !(im >> fn & 1) ? OPK_NOT_IMPLEMENTED : fn == 0 ? 7 : orient > 0 ? 8 : 9;
      CK(r == want, "set operation %d: missing %d/%d foreign %d implemented %d: status %d, expected %d", fn, nul, !t, oth, im >> fn & 1, r, want);
      CK(ncall == (want >= 7 && !nul && t && !oth && (im >> fn & 1) ? 1 : 0), "set operation %d: implementation called %d times", fn, ncall);
      if (ncall && fn == 0) CK(cargs[0] == w[0] && cargs[1] == w[1] && cargs[2] == s, "arguments");
      if (ncall && (fn == 1 || fn == 2)) CK(cargs[0] == w[0] && cargs[1] == w[1] && cargs[2] == s && cargs[3] == w[2], "arguments");
      if (ncall && fn == 3) CK(cargs[0] == s3 && cargs[1] == s3 + 1 && cargs[2] == s3 + 2 && cargs[3] == w[1] && cargs[5] == w[2], "arguments");
      CK(s3[0] == 5 && s3[1] == 6 && s3[2] == 7, "outputs written by a refused call");
    }
    SAMEDATA("set operation");
    OPK_DROP(s); errno = 0;
    CK(opk_allocate_convexset(NULL, NULL, pv, pd, pd, sl, 0) == NULL && errno == EFAULT, "opk_allocate_convexset"); }
  /* operators */
  { opk_operator_operations t; opk_operator* op; int im = rndi(8), m, fn; opk_vector* gi = opk_vcreate(A); opk_vector* go = opk_vcreate(B);
    memset(&t, 0, sizeof t); t.apply_direct = im & 1 ? ap0 : NULL; t.apply_adjoint = im & 2 ? ap1 : NULL; t.apply_inverse = im & 4 ? ap2 : NULL;
    op = opk_allocate_operator(&t, A, B, 0);
    for (fn = 0; fn < 3; ++fn) for (m = 0; m < 32; ++m) {
      opk_vector *dst = fn ? gi : go, *src = fn ? go : gi; opk_operator* x = m & 1 ? NULL : op; int r, want;
      if (m & 8) dst = fn ? go : gi;
      if (m & 16) src = fn ? gi : go;
      if (m & 2) dst = NULL;
      if (m & 4) src = NULL;
      ncall = 0;
      r = fn == 0 ? opk_apply_direct(x, dst, src) : fn == 1 ? opk_apply_adjoint(x, dst, src) : opk_apply_inverse(x, dst, src);
      want = !x || !dst || !src ? OPK_ILLEGAL_ADDRESS : (m & 24) ? OPK_BAD_SPACE : !(im >> fn & 1) ? OPK_NOT_IMPLEMENTED : 11 + fn;
      CK(r == want, "operator application %d: pattern %d implemented %d: status %d, expected %d", fn, m, im >> fn & 1, r, want);
      CK(ncall == (!(m & 31) && (im >> fn & 1)), "operator implementation called %d times", ncall);
      if (ncall) CK(cargs[0] == op && cargs[1] == dst && cargs[2] == src, "arguments");
    }
    errno = 0; CK(opk_allocate_operator(&t, NULL, B, 0) == NULL && errno == EFAULT, "opk_allocate_operator"); errno = 0; CK(opk_allocate_operator(&t, A, NULL, 0) == NULL && errno == EFAULT, "opk_allocate_operator");
    OPK_DROP(op); OPK_DROP(gi); OPK_DROP(go); }
  /* constructors and accessors */
  { opk_index z[] = {0, -1, -5, PTRDIFF_MIN}; long rA = opk_get_object_references((opk_object*)A), rG = opk_get_object_references((opk_object*)G);
    for (k = 0; k < 4; ++k) { errno = 0; CK(F(opk_new_simple_, _vector_space)(z[k]) == NULL && errno == EINVAL, "space of size %ld", (long)z[k]); }
    errno = 0; CK(F(opk_wrap_simple_, _vector)(A, NULL, NAME(nofree), d) == NULL && errno == EFAULT, "wrap without data");
    errno = 0; CK(F(opk_wrap_simple_, _vector)(G, d[0], NAME(nofree), d) == NULL && errno == EINVAL, "wrap in a foreign space");
    CK(rA == opk_get_object_references((opk_object*)A) && rG == opk_get_object_references((opk_object*)G), "refused wrap changes references");
    CK(F(opk_rewrap_simple_, _vector)(NULL, d[0], NULL, NULL) == OPK_ILLEGAL_ADDRESS && F(opk_rewrap_simple_, _vector)(a[0], NULL, NAME(nofree), NULL) == OPK_ILLEGAL_ADDRESS && F(opk_rewrap_simple_, _vector)(gv, d[0], NAME(nofree), NULL) == OPK_BAD_SPACE, "rewrap");
    CK(F(opk_get_simple_, _vector_data)(a[0]) == d[0], "data of a vector");
    errno = 0; CK(F(opk_get_simple_, _vector_data)(NULL) == NULL && errno == EFAULT, "data"); errno = 0; CK(F(opk_get_simple_, _vector_data)(gv) == NULL && errno == EINVAL, "data");
    errno = 0; CK(F(opk_get_simple_, _vector_client_data)(NULL) == NULL && errno == EFAULT, "client data"); errno = 0; CK(F(opk_get_simple_, _vector_client_data)(gv) == NULL && errno == EINVAL, "client data");
    errno = 0; CK(F(opk_get_simple_, _vector_free_client_data)(NULL) == NULL && errno == EFAULT, "free client data"); errno = 0; CK(F(opk_get_simple_, _vector_free_client_data)(gv) == NULL && errno == EINVAL, "free client data"); }
  SAMEDATA("refused call");
  for (i = 0; i < 4; ++i) { OPK_DROP(a[i]); OPK_DROP(b[i]); }
  OPK_DROP(gv); OPK_DROP(A); OPK_DROP(B); OPK_DROP(G);
}
