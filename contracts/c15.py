"""C15 -- dense linear algebra kernels: documented result, designated elements only, argument codes.

Increments and leading dimensions are unknown integers: products of unknown
integers are opaque monomials whose sign, monotonicity and cancellation laws
are instantiated for the solver (engine: nla)."""
from .common import *
from opkv import build
from .kern import Kern

SRC = 'src/linalg.c'
SOURCES = [SRC]
HARNESS = dict(src="c15.c", always=True, bounded="sizes up to 20 (vectors) or 8 (matrices), strides -3..3, all flags, exact integer data", lib=["linalg.c"])
ASSUMPTIONS = ['machine arithmetic treated as mathematical in the functional contracts (fp=real)',
               'products of sizes and strides do not overflow a 64-bit integer (guaranteed when the operands exist in memory)',
               'increments of vectors that are written are not zero']
PT = {'d': (ir.DBL, 64), 's': (ir.FLT, 32)}


class LA:
    def __init__(self, e, prec):
        e.nla = True
        self.e, self.prec = e, prec
        self.F = e.fp
        e.fp.opaque = True
        self.m = build.module(SRC)
        e.add_module(self.m)
        self.st = State()
        self.ty, self.w = PT[prec]
        self.zero = self.F.const(Fraction(0), self.w)
        self.one = self.F.const(Fraction(1), self.w)

    def fn(self, n):
        f = self.e.funcs.get('opk_%s%s' % ({'iamax': 'i'}.get(n, '') + self.prec, n.lstrip('i') if n == 'iamax' else n))
        if f is None:
            raise Unsupported('function %s not found' % n)
        return f

    def enum(self, n):
        return self.m.layout['#enum'][n]

    def int(self, name, lo=None, w=64):
        v = self.e.fresh_int(self.st, name, w)
        if lo is not None:
            self.st.assume(v >= lo)
        if w == 64:
            self.st.assume_all([v >= -2 ** 40, v <= 2 ** 40])
        return v

    def inc(self, unit, name, nz=False):
        if unit:
            return 1
        v = self.int(name)
        self.st.assume(v != 1)
        if nz:
            self.st.assume(v != 0)
        return v

    def vec(self, name, n, inc):
        """vector of n elements with an unknown increment; element k is at start + k inc"""
        e, st = self.e, self.st
        L = e.fresh_int(st, 'len_' + name)
        st.assume(L >= 0)
        span = e.mul(n - 1, inc)
        st.assume(z3.Implies(n >= 1, z3.And(L >= 1 + span, L >= 1 - span)))
        p, a = e.array(st, name, self.ty, L)
        start = z3.If(inc >= 0, 0, -span) if z3.is_expr(inc) else 0
        return Vec(self, p, a, start, inc, n, L)

    def mat(self, name, rows, cols, ld):
        e, st = self.e, self.st
        L = e.fresh_int(st, 'len_' + name)
        st.assume(L >= 0)
        st.assume(z3.Implies(z3.And(rows >= 1, cols >= 1), L >= e.mul(cols - 1, ld) + rows))
        p, a = e.array(st, name, self.ty, L)
        return Mat(self, p, a, ld, L)

    def same(self, a, b):
        return vsame(self.e, a, b)


class Vec:
    def __init__(self, la, p, a, start, inc, n, L):
        self.la, self.p, self.a, self.start, self.inc, self.n, self.L = la, p, a, start, inc, n, L

    def idx(self, k):
        return self.start + self.la.e.mul(k, self.inc)

    def at(self, k, a=None):
        return z3.Select(self.a if a is None else a, self.idx(k))

    def probe(self):
        """an arbitrary storage position p = start + K inc + R; it is element K when R = 0"""
        e, st = self.la.e, self.la.st
        p, K, R = e.fresh_int(st, 'p'), e.fresh_int(st, 'K'), e.fresh_int(st, 'R')
        st.assume_all([p >= 0, p < self.L, p == self.idx(K) + R, R >= 0, z3.Or(R < i2z(self.inc), R < -i2z(self.inc))])
        e.collect(st, e.mul(1 - self.n + K, self.inc))
        return p, K, z3.And(R == 0, K >= 0, K < self.n)


class Mat:
    def __init__(self, la, p, a, ld, L):
        self.la, self.p, self.a, self.ld, self.L = la, p, a, ld, L

    def idx(self, i, j):
        return i + self.la.e.mul(j, self.ld)

    def at(self, i, j):
        return z3.Select(self.a, self.idx(i, j))

    def probe(self):
        """an arbitrary storage position: row I, column J"""
        e, st = self.la.e, self.la.st
        p, i, j = e.fresh_int(st, 'p'), e.fresh_int(st, 'I'), e.fresh_int(st, 'J')
        st.assume_all([p >= 0, p < self.L, p == self.idx(i, j), i >= 0, i < self.ld, j >= 0])
        return p, i, j


def fold(la, name, step, base=None):
    """S(0) = base, S(i+1) = step(i, S(i))"""
    S = z3.Function('%s!%s' % (name, la.e.case), z3.IntSort(), la.F.sort(la.w))
    la.st.assume(la.same(S(0), la.zero if base is None else base))
    stp = lambda i: la.same(S(z3.simplify(i + 1)), step(i, S(i)))
    la.st.assume_all([stp(z3.IntVal(0)), stp(z3.IntVal(1))])
    return dict(name=name, S=S, step=stp)


def upto(la, *ns):
    """candidates: loop counters stay below the size"""
    def gen(L, probe, mod):
        out = []
        for nm, f in counters(la, L):
            for q, n in enumerate(ns):
                out.append(('%s<=n%d' % (nm, q), lambda v, f=f, n=n: f(v) <= n))
        return out
    la.e.cand_gens.append(gen)


def counters(la, L, plus1=True):
    """loop variables that count elements"""
    vs = [(p.res, (lambda v, n=p.res: i2z(v.phi[n]))) for p in L.phis if p.ty.k == 'i' and p.ty.a > 1 and 'prod!' not in str(L.pv.get(p.res))]
    vs.append(('it', lambda v: i2z(v.it)))
    if plus1:
        vs.append(('it+1', lambda v: i2z(v.it) + 1))
    return vs


def unfold(v, L, i, folds, back=4):
    if v.st is L.st0:
        return
    for fo in folds:
        for q in range(-back, 0):
            v.st.assume(fo['step'](z3.simplify(i + q)))


def sums(la, fo, back):
    """candidate: the partial accumulators of a (possibly unrolled) loop add up to S"""
    def gen(L, probe, mod):
        fps = [p.res for p in L.phis if p.ty.k in ('double', 'float')]
        out = []
        if not fps:
            return out
        for nm, f in counters(la, L, False):
            def c(v, f=f):
                i = f(v)
                unfold(v, L, i, [fo], back)
                t = None
                for p in fps:
                    t = v.phi[p] if t is None else la.F.add(t, v.phi[p])
                return la.same(t, fo['S'](i))
            out.append(('sum==%s(%s)' % (fo['name'], nm), c))
        return out
    la.e.cand_gens.append(gen)


def rmax(a, b):
    return z3.If(a >= b, a, b)


def rabs(a):
    return z3.If(a >= 0, a, -a)


# ------------------------------------------------------------------ level 1
INCS = [(a, b) for a in (1, 0) for b in (1, 0)]


def writer(name, prec, ux, uy):
    """zero, copy, scal, axpy, swap: element k of each written vector is as documented, every other position unchanged"""
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        n = la.int('n')
        upto(la, n)
        incx = la.inc(ux, 'incx', name == 'swap')
        two = name in ('copy', 'axpy', 'swap')
        x = la.vec('x', n, incx)
        y = la.vec('y', n, la.inc(uy, 'incy', True)) if two else None
        alpha = F.fresh('alpha', la.w)
        wr = {'zero': [x], 'scal': [x], 'copy': [y], 'axpy': [y], 'swap': [x, y]}[name]
        sp, aux = [], []
        for v in wr:
            p, K, des = v.probe()
            old = z3.Select(v.a, p)
            if name in ('zero', 'scal'):
                des = z3.And(des, i2z(incx) >= 1)
            new = {'zero': lambda: la.zero, 'scal': lambda: F.mul(alpha, old), 'copy': lambda: x.at(K), 'axpy': lambda: F.add(old, F.mul(alpha, x.at(K))),
                   'swap': lambda: (y if v is x else x).at(K)}[name]()
            sp.append(dict(r=v.p.r, k=p, key=K, exp=z3.If(des, new, old)))
            if name == 'swap':
                # the element exchanged with it
                w = y if v is x else x
                aux.append(dict(tag='aux', r=w.p.r, k=w.idx(K), key=K, exp=z3.If(z3.And(K >= 0, K < n), v.at(K), z3.Select(w.a, w.idx(K)))))
        add_elem_specs(e, sp + aux)
        if name in ('zero',):
            args = [n, x.p, incx]
        elif name == 'scal':
            args = [n, alpha, x.p, incx]
        elif name == 'axpy':
            args = [n, alpha, x.p, incx, y.p, y.inc]
        else:
            args = [n, x.p, incx, y.p, y.inc]
        snap = st.fork()

        def post(e, s, r):
            for q, v in zip(sp, wr):
                e.oblige(s, la.same(z3.Select(e.arr(s, v.p), q['k']), q['exp']), 'post', 'every position of %s holds the documented value' % q['r'].name)
            nothing_changed(la, s, snap, allow=[v.p for v in wr])
        return la.fn(name), st, args, post
    return make


def reducer(name, prec, ux, uy):
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        n = la.int('n')
        upto(la, n)
        incx = la.inc(ux, 'incx')
        x = la.vec('x', n, incx)
        y = la.vec('y', n, la.inc(uy, 'incy')) if name == 'dot' else None
        step = {'dot': lambda i, s: F.add(s, F.mul(x.at(i), y.at(i))), 'sum': lambda i, s: F.add(s, x.at(i)), 'asum': lambda i, s: F.add(s, rabs(x.at(i)))}[name]
        fo = fold(la, name, step)
        sums(la, fo, 4 if ux and (uy or name != 'dot') else 1)
        args = [n, x.p, incx] + ([y.p, y.inc] if y else [])
        snap = st.fork()

        def post(e, s, r):
            some = n >= 1 if name == 'dot' else z3.And(n >= 1, i2z(incx) >= 1)
            e.oblige(s, la.same(r, z3.If(some, fo['S'](n), la.zero)), 'post', 'the documented sum of all terms')
            nothing_changed(la, s, snap)
        return la.fn(name), st, args, post
    return make


def maxes(name, prec, ux):
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        n = la.int('n')
        upto(la, n)
        incx = la.inc(ux, 'incx')
        x = la.vec('x', n, incx)
        M = fold(la, 'M', lambda i, s: rmax(s, rabs(x.at(i))))
        folds = [M]
        Q = None
        if name == 'nrm2':
            sc = lambda i: x.at(i) / M['S'](n)
            Q = fold(la, 'Q', lambda i, s: s + F.mul(sc(i), sc(i)))
            folds.append(Q)
        K = e.fresh_int(st, 'K')
        st.assume_all([K >= 0, K < n])

        def gen(L, probe, mod):
            fps = [p.res for p in L.phis if p.ty.k in ('double', 'float')]
            vs = counters(la, L)
            out = []
            un = lambda v, i: unfold(v, L, i, folds, 1)
            for a in fps:
                out.append(('%s<=0' % a, lambda v, a=a: v.phi[a] <= 0))
                out.append(('%s>=0' % a, lambda v, a=a: v.phi[a] >= 0))
                for b in fps:
                    out.append(('%s<=%s' % (a, b), lambda v, a=a, b=b: v.phi[a] <= v.phi[b]))
            for nm, f in vs:
                for a in fps:
                    def c0(v, f=f, a=a):
                        un(v, f(v))
                        return v.phi[a] == M['S'](f(v))
                    out.append(('%s==M(%s)' % (a, nm), c0))
                    if Q is not None:
                        def cq(v, f=f, a=a):
                            un(v, f(v))
                            return v.phi[a] == Q['S'](f(v))
                        out.append(('%s m^2==Q(%s)' % (a, nm), cq))
                    for b in fps:
                        if a != b:
                            def c(v, f=f, a=a, b=b):
                                un(v, f(v))
                                return rmax(-v.phi[a], v.phi[b]) == M['S'](f(v))
                            out.append(('max(-%s,%s)==M(%s)' % (a, b, nm), c))
                out.append(('M(%s)>=|xK|' % nm, lambda v, f=f: z3.And(M['S'](f(v)) >= 0, z3.Implies(K < f(v), M['S'](f(v)) >= rabs(x.at(K))))))
                if name == 'iamax':
                    for p in [p.res for p in L.phis if p.ty.k == 'i' and p.ty.a > 1]:
                        out.append(('|x[%s]|==M(%s)' % (p, nm), lambda v, f=f, p=p: rabs(x.at(v.phi[p])) == M['S'](f(v))))
                        out.append(('first %s %s' % (p, nm), lambda v, f=f, p=p: z3.Implies(K < v.phi[p], rabs(x.at(K)) < M['S'](f(v)))))
                        out.append(('range %s %s' % (p, nm), lambda v, f=f, p=p: z3.And(i2z(v.phi[p]) < f(v), i2z(v.phi[p]) >= 0)))
                        for a in fps:
                            out.append(('%s==|x[%s]|' % (a, p), lambda v, a=a, p=p: v.phi[a] == rabs(x.at(v.phi[p]))))
            return out
        e.cand_gens.append(gen)
        snap = st.fork()

        def post(e, s, r):
            ok = z3.And(n >= 1, i2z(incx) >= 1)
            for q in range(-1, 3):
                for fo in folds:
                    s.assume(fo['step'](z3.IntVal(q)))
            m = M['S'](n)
            if name == 'amax':
                e.oblige(s, r == z3.If(ok, m, 0), 'post', 'the largest absolute value')
            elif name == 'iamax':
                e.oblige(s, z3.Implies(z3.Not(ok), i2z(r) == 0), 'post', 'zero for an empty vector')
                e.oblige(s, z3.Implies(ok, z3.And(r >= 1, r <= n)), 'post', 'an index in 1..n')
                e.oblige(s, z3.Implies(z3.And(ok), rabs(x.at(K)) <= rabs(x.at(r - 1))), 'post', 'no element is larger')
                e.oblige(s, z3.Implies(z3.And(ok, K < r - 1), rabs(x.at(K)) < rabs(x.at(r - 1))), 'post', 'the first one')
            else:
                e.oblige(s, z3.Implies(z3.Not(ok), r == 0), 'post', 'zero for an empty vector')
                e.oblige(s, z3.Implies(ok, z3.If(m > 0, r == F.mul(m, F.fun1('fsqrt', Q['S'](n))), r == 0)), 'post', 'square root of the sum of squares')
            nothing_changed(la, s, snap)
        return la.fn(name), st, [n, x.p, incx], post
    return make


# ------------------------------------------------------------------ level 2 and 3
def distinct(pairs):
    out, seen = [], set()
    for nm, t in pairs:
        t = z3.simplify(i2z(t))
        if 'prod!' in str(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        out.append((nm, t))
    return out


def own(L):
    """indices of this loop, as functions of a view: iteration count and integer variables that differ from it"""
    ds = distinct([(p.res, L.pv[p.res]) for p in L.phis if p.ty.k == 'i' and p.ty.a > 1] + [('it', L.it)])
    return [(nm, (lambda v: i2z(v.it)) if nm == 'it' else (lambda v, nm=nm: i2z(v.phi[nm]))) for nm, _ in ds]


def outer(L):
    """current values of the indices of the enclosing loops"""
    out = []
    for d, O in enumerate(L.st0.loops):
        out.append((d, distinct([(p.res, O.pv[p.res]) for p in O.phis if p.ty.k == 'i' and p.ty.a > 1] + [('it', O.it)])))
    return out


UP = (('<', lambda a, b: a < b), ('>=', lambda a, b: a >= b))
DOWN = (('>', lambda a, b: a > b), ('<=', lambda a, b: a <= b))


def rels(L, fn):
    """an index that goes up (down) has passed the coordinates below (above) it"""
    d = L.iv.get(fn)
    return DOWN if d is not None and (d[0] == 'sub' or d[1] == ('int', -1)) else UP


def family(la, vec, p, keys, des, old, fixed, fo=None, phis=False):
    """candidates for the value of the probed element: unchanged, one of the fixed values, or the partial sum S at an index of
       this loop or of an enclosing one, guarded by comparisons of the element's coordinates with the loop indices;
       with phis: floating point accumulators equal S when the enclosing indices are the element's coordinates"""
    r = vec.p.r
    F = la.F

    def gen(L, probe, mod):
        out = []
        outs = outer(L)
        oidx = [(('o%d.%s' % (d, nm)), t) for d, l in outs for nm, t in l]
        matches = [('', None)] + [('%s==%s' % (kn, on), kt == ot) for kn, kt in keys for on, ot in oidx]

        def unf(v, ts):
            if fo is None or v.st is L.st0:
                return
            for t in ts:
                for q in (-1, 0):
                    v.st.assume(fo['step'](z3.simplify(t + q)))
        if (r, 's', 0) in mod:
            e0 = z3.Select(L.st0.mem[r.id].arrs[0], p)
            sel = lambda v: z3.Select(v.st.mem[r.id].arrs[0], p)
            V = [('same', lambda v: e0, ())] + [(n, lambda v, t=t: z3.If(des, t, old), ()) for n, t in fixed]
            if fo is not None:
                for fn, f in own(L):
                    V.append(('S(%s)' % fn, lambda v, f=f: z3.If(des, fo['S'](f(v)), old), (f,)))
                for on, ot in oidx:
                    for q in (0, 1):
                        V.append(('S(%s+%d)' % (on, q), lambda v, t=z3.simplify(ot + q): z3.If(des, fo['S'](t), old), (lambda v, t=z3.simplify(ot + q): t,)))
            for mn, m in matches:
                for vn, vt, ts in V:
                    def c0(v, m=m, vt=vt, ts=ts):
                        unf(v, [t(v) for t in ts])
                        g = la.same(sel(v), vt(v))
                        return g if m is None else z3.Implies(m, g)
                    out.append(('%s %s %s' % (r.name, mn, vn), c0))
                    for kn, kt in keys:
                        if mn.startswith(kn + '='):
                            continue
                        for fn, f in own(L):
                            for rn, rel in rels(L, fn):
                                def c1(v, m=m, vt=vt, ts=ts, kt=kt, f=f, rel=rel):
                                    unf(v, [t(v) for t in ts])
                                    g = rel(kt, f(v))
                                    return z3.Implies(g if m is None else z3.And(m, g), la.same(sel(v), vt(v)))
                                out.append(('%s %s %s%s%s %s' % (r.name, mn, kn, rn, fn, vn), c1))
                if m is not None:
                    out.append(('%s not %s same' % (r.name, mn), lambda v, m=m: z3.Or(m, sel(v) == e0)))
        if phis and fo is not None:
            import itertools
            fps = [q.res for q in L.phis if q.ty.k in ('double', 'float')]
            if fps and len(outs) >= len(keys):
                for perm in itertools.permutations(oidx, len(keys)):
                    m = z3.And([kt == ot for (kn, kt), (on, ot) in zip(keys, perm)])
                    for a in fps:
                        for fn, f in own(L):
                            def c2(v, m=m, a=a, f=f):
                                unf(v, [f(v)])
                                return z3.Implies(m, la.same(v.phi[a], fo['S'](f(v))))
                            out.append(('%s %s S(%s)' % (a, ','.join(on for on, _ in perm), fn), c2))
        return out
    la.e.cand_gens.append(gen)


TR = ['OPK_BLAS_NO_TRANS', 'OPK_BLAS_TRANS', 'OPK_BLAS_CONJ_TRANS']


def gemv(prec, t, ux, uy):
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        m, n = la.int('m', 0), la.int('n', 0)
        upto(la, m, n)
        lda = la.int('lda', 1)
        st.assume(lda >= m)
        lx, ly = (m, n) if t else (n, m)
        a = la.mat('a', m, n, lda)
        x = la.vec('x', lx, la.inc(ux, 'incx', True))
        y = la.vec('y', ly, la.inc(uy, 'incy', True))
        alpha, beta = F.fresh('alpha', la.w), F.fresh('beta', la.w)
        p, K, des = y.probe()
        old = z3.Select(y.a, p)
        by = F.mul(beta, old)
        if t:
            fo = fold(la, 'D', lambda i, s: F.add(s, F.mul(a.at(i, K), x.at(i))))
            exp = F.add(by, F.mul(alpha, fo['S'](m)))
        else:
            fo = fold(la, 'S', lambda j, s: F.add(s, F.mul(F.mul(alpha, x.at(j)), a.at(K, j))), by)
            exp = fo['S'](n)
        exp = z3.If(alpha == la.zero, by, exp)
        exp = z3.If(z3.And(des, m > 0, n > 0), exp, old)
        family(la, y, p, [('K', K)], des, old, [('by', by), ('exp', exp)], fo, bool(t))
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == 0, 'post', 'legal arguments are accepted')
            e.oblige(s, la.same(z3.Select(e.arr(s, y.p), p), exp), 'post', 'every position of y holds the documented value')
            nothing_changed(la, s, snap, allow=[y.p])
        return la.fn('gemv'), st, [la.enum(TR[t]), m, n, alpha, a.p, lda, x.p, x.inc, beta, y.p, y.inc], post
    return make


def gemm(prec, ta, tb):
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        m, n, k = la.int('m', 0), la.int('n', 0), la.int('k', 0)
        upto(la, m, n, k)
        lda, ldb, ldc = la.int('lda', 1), la.int('ldb', 1), la.int('ldc', 1)
        st.assume_all([lda >= (k if ta else m), ldb >= (n if tb else k), ldc >= m])
        a = la.mat('a', *((k, m) if ta else (m, k)), lda)
        b = la.mat('b', *((n, k) if tb else (k, n)), ldb)
        c = la.mat('c', m, n, ldc)
        alpha, beta = F.fresh('alpha', la.w), F.fresh('beta', la.w)
        p, I, J = c.probe()
        des = z3.And(I < m, J < n)
        old = z3.Select(c.a, p)
        bc = F.mul(beta, old)
        A = lambda l: a.at(l, I) if ta else a.at(I, l)
        B = lambda l: b.at(J, l) if tb else b.at(l, J)
        if ta:
            fo = fold(la, 'D', lambda l, s: F.add(s, F.mul(A(l), B(l))))
            exp = F.add(F.mul(alpha, fo['S'](k)), bc)
        else:
            fo = fold(la, 'S', lambda l, s: F.add(s, F.mul(F.mul(alpha, B(l)), A(l))), bc)
            exp = fo['S'](k)
        exp = z3.If(alpha == la.zero, bc, exp)
        exp = z3.If(des, exp, old)
        family(la, c, p, [('I', I), ('J', J)], des, old, [('bc', bc), ('exp', exp)], fo, bool(ta))
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == 0, 'post', 'legal arguments are accepted')
            e.oblige(s, la.same(z3.Select(e.arr(s, c.p), p), exp), 'post', 'every position of C holds the documented value')
            nothing_changed(la, s, snap, allow=[c.p])
        return la.fn('gemm'), st, [la.enum(TR[ta]), la.enum(TR[tb]), m, n, k, alpha, a.p, lda, b.p, ldb, beta, c.p, ldc], post
    return make


def syrk(prec, up, t):
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        n, k = la.int('n', 0), la.int('k', 0)
        upto(la, n, k)
        lda, ldc = la.int('lda', 1), la.int('ldc', 1)
        st.assume_all([lda >= (k if t else n), ldc >= n])
        a = la.mat('a', *((k, n) if t else (n, k)), lda)
        c = la.mat('c', n, n, ldc)
        alpha, beta = F.fresh('alpha', la.w), F.fresh('beta', la.w)
        p, I, J = c.probe()
        des = z3.And(I < n, J < n, I <= J if up else I >= J)
        old = z3.Select(c.a, p)
        bc = F.mul(beta, old)
        A = lambda l, q: a.at(l, q) if t else a.at(q, l)
        if t:
            fo = fold(la, 'D', lambda l, s: F.add(s, F.mul(A(l, I), A(l, J))))
            exp = F.add(F.mul(alpha, fo['S'](k)), bc)
        else:
            fo = fold(la, 'S', lambda l, s: F.add(s, F.mul(F.mul(alpha, A(l, J)), A(l, I))), bc)
            exp = fo['S'](k)
        exp = z3.If(alpha == la.zero, bc, exp)
        exp = z3.If(des, exp, old)
        family(la, c, p, [('I', I), ('J', J)], des, old, [('bc', bc), ('exp', exp)], fo, bool(t))
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == 0, 'post', 'legal arguments are accepted')
            e.oblige(s, la.same(z3.Select(e.arr(s, c.p), p), exp), 'post', 'every position of C holds the documented value, the other triangle is unchanged')
            nothing_changed(la, s, snap, allow=[c.p])
        return la.fn('syrk'), st, [la.enum(('OPK_BLAS_LOWER', 'OPK_BLAS_UPPER')[up]), la.enum(TR[t]), n, k, alpha, a.p, lda, beta, c.p, ldc], post
    return make


def triangular(name, prec, ux, up, t, unit):
    """trmv, trsv: in bounds, A read only, nothing but the elements of x written"""
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        n = la.int('n', 0)
        upto(la, n)
        lda = la.int('lda', 1)
        st.assume(lda >= n)
        a = la.mat('a', n, n, lda)
        x = la.vec('x', n, la.inc(ux, 'incx', True))
        p, K, des = x.probe()
        old = z3.Select(x.a, p)
        st.assume(z3.Not(des))
        family(la, x, p, [('K', K)], des, old, [('old', old)])
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == 0, 'post', 'legal arguments are accepted')
            e.oblige(s, la.same(z3.Select(e.arr(s, x.p), p), old), 'post', 'positions of x that are not elements are unchanged')
            nothing_changed(la, s, snap, allow=[x.p])
        args = [la.enum(('OPK_BLAS_LOWER', 'OPK_BLAS_UPPER')[up]), la.enum(TR[t]), la.enum(('OPK_BLAS_NON_UNIT', 'OPK_BLAS_UNIT')[unit]), n, a.p, lda, x.p, x.inc]
        return la.fn(name), st, args, post
    return make


def potf2(prec, up):
    """Cholesky factorization over the contracts of dot, gemv and scal: in bounds, only the triangle written, documented range of the result"""
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        K = Kern(la)
        n = la.int('n', 0)
        upto(la, n)
        lda = la.int('lda', 1)
        st.assume(lda >= n)
        a = la.mat('a', n, n, lda)
        p, I, J = a.probe()
        st.assume(z3.Not(z3.And(I < n, J < n, I <= J if up else I >= J)))
        K.probe(a.p, p)
        old = z3.Select(a.a, p)
        e.cand_gens.append(lambda L, probe, mod: [('a[p] kept', lambda v: z3.Select(v.st.mem[a.p.r.id].arrs[0], p) == old)] if (a.p.r, 's', 0) in mod else [])
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, z3.And(i2z(r) >= 0, i2z(r) <= n), 'post', 'zero or the order of a minor')
            e.oblige(s, z3.Select(e.arr(s, a.p), p) == old, 'post', 'positions outside the triangle are unchanged')
            nothing_changed(la, s, snap, allow=[a.p])
        return la.fn('potf2'), st, [la.enum(('OPK_BLAS_LOWER', 'OPK_BLAS_UPPER')[up]), n, a.p, lda], post
    return make


def illegal(name, prec):
    """illegal arguments: the documented code (position of the first illegal argument), no memory access"""
    def make(e):
        la = LA(e, prec)
        F, st = la.F, la.st
        en = lambda v, *names: z3.Not(z3.Or([v == la.enum(x) for x in names]))
        fl = lambda nm: la.int(nm, None, 32)
        V = lambda nm: la.int(nm)
        ptr = lambda nm: e.array(st, nm, la.ty, la.int('len_' + nm, 0))[0]
        sc = lambda nm: F.fresh(nm, la.w)
        mx = lambda a, b: z3.If(a >= b, a, b)
        notr = la.enum(TR[0])
        if name == 'gemv':
            t, m, n, lda, ix, iy = fl('trans'), V('m'), V('n'), V('lda'), V('incx'), V('incy')
            args = [t, m, n, sc('alpha'), ptr('a'), lda, ptr('x'), ix, sc('beta'), ptr('y'), iy]
            bad = [(en(t, *TR), 1), (m < 0, 2), (n < 0, 3), (lda < mx(m, 1), 6), (ix == 0, 8), (iy == 0, 11)]
        elif name in ('trmv', 'trsv'):
            u, t, d, n, lda, ix = fl('uplo'), fl('trans'), fl('diag'), V('n'), V('lda'), V('incx')
            args = [u, t, d, n, ptr('a'), lda, ptr('x'), ix]
            bad = [(en(u, 'OPK_BLAS_UPPER', 'OPK_BLAS_LOWER'), 1), (en(t, *TR), 2), (en(d, 'OPK_BLAS_UNIT', 'OPK_BLAS_NON_UNIT'), 3), (n < 0, 4), (lda < mx(n, 1), 6), (ix == 0, 8)]
        elif name == 'gemm':
            ta, tb, m, n, k, lda, ldb, ldc = fl('transa'), fl('transb'), V('m'), V('n'), V('k'), V('lda'), V('ldb'), V('ldc')
            args = [ta, tb, m, n, k, sc('alpha'), ptr('a'), lda, ptr('b'), ldb, sc('beta'), ptr('c'), ldc]
            bad = [(en(ta, *TR), 1), (en(tb, *TR), 2), (m < 0, 3), (n < 0, 4), (k < 0, 5), (lda < mx(z3.If(ta == notr, m, k), 1), 8), (ldb < mx(z3.If(tb == notr, k, n), 1), 10), (ldc < mx(m, 1), 13)]
        elif name == 'syrk':
            u, t, n, k, lda, ldc = fl('uplo'), fl('trans'), V('n'), V('k'), V('lda'), V('ldc')
            args = [u, t, n, k, sc('alpha'), ptr('a'), lda, sc('beta'), ptr('c'), ldc]
            bad = [(en(u, 'OPK_BLAS_UPPER', 'OPK_BLAS_LOWER'), 1), (en(t, *TR), 2), (n < 0, 3), (k < 0, 4), (lda < mx(z3.If(t == notr, n, k), 1), 7), (ldc < mx(n, 1), 10)]
        else:
            u, n, lda = fl('uplo'), V('n'), V('lda')
            args = [u, n, ptr('a'), lda]
            bad = [(n < 0, -2), (lda < mx(n, 1), -4), (z3.And(n > 0, en(u, 'OPK_BLAS_UPPER', 'OPK_BLAS_LOWER')), -1)]
        st.assume(z3.Or([b for b, _ in bad]))
        want = z3.IntVal(0)
        for b, c in reversed(bad):
            want = z3.If(b, c, want)
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == want, 'post', 'the documented error code')
            nothing_changed(la, s, snap)
        return la.fn(name), st, args, post
    return make


def units(tier):
    out = []

    def U(name, make, desc, **k):
        o = dict(fp='real')
        o.update(k.pop('opts', {}))
        out.append(dict(name=name, desc=desc, make=make, opts=o, **k))
    for p in 'ds':
        for ux in (1, 0):
            for nm in ('zero', 'scal'):
                U('%s%s[%s]' % (p, nm, 'n1'[ux]), writer(nm, p, ux, 0), 'documented element values, rest unchanged, any size')
            for nm in ('sum', 'asum'):
                U('%s%s[%s]' % (p, nm, 'n1'[ux]), reducer(nm, p, ux, 0), 'documented sum, nothing written')
            for nm in ('amax', 'iamax', 'nrm2'):
                U('%s%s[%s]' % (p, nm, 'n1'[ux]), maxes(nm, p, ux), 'documented maximum / norm, nothing written')
            for uy in (1, 0):
                for nm in ('copy', 'axpy', 'swap'):
                    U('%s%s[%s%s]' % (p, nm, 'n1'[ux], 'n1'[uy]), writer(nm, p, ux, uy), 'documented element values, rest unchanged, any size and increments')
                U('%sdot[%s%s]' % (p, 'n1'[ux], 'n1'[uy]), reducer('dot', p, ux, uy), 'documented sum, nothing written')
        for nm in ('gemv', 'trmv', 'trsv', 'gemm', 'syrk', 'potf2'):
            U('%s%s[illegal]' % (p, nm), illegal(nm, p), 'documented code for every illegal argument, nothing accessed')
        for t in range(3):
            for ux in (1, 0):
                for uy in (1, 0):
                    U('%sgemv[%d,%s%s]' % (p, t, 'n1'[ux], 'n1'[uy]), gemv(p, t, ux, uy), 'every element of y, rest unchanged')
                for up in (1, 0):
                    for unit in (1, 0):
                        for nm in ('trmv', 'trsv'):
                            U('%s%s[%d%d%d,%s]' % (p, nm, up, t, unit, 'n1'[ux]), triangular(nm, p, ux, up, t, unit), 'in bounds, only elements of x written')
            for tb in range(3):
                U('%sgemm[%d%d]' % (p, t, tb), gemm(p, t, tb), 'every element of C, rest unchanged')
            if t == 0:
                for up in (1, 0):
                    U('%spotf2[%d]' % (p, up), potf2(p, up), 'in bounds, only the triangle written')
            for up in (1, 0):
                U('%ssyrk[%d%d]' % (p, up, t), syrk(p, up, t), 'every element of the triangle of C, rest unchanged')
    return out
