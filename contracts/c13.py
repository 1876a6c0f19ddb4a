"""C13 -- linear conjugate gradients (plain, preconditioned, trust region): every
stage leaves the documented combination in the vectors and requests the
documented operation.  The vector kernels are used by their contracts (C15)."""
from .common import *
from .c15 import fold, upto, counters, unfold, sums

SRC = 'src/lcg.c'
SOURCES = [SRC]
HARNESS = dict(src="c13.c", always=True, bounded="systems of size up to 12, random data, every state, guard zones around every array", lib=["lcg.c", "linalg.c"])
ASSUMPTIONS = ['machine arithmetic treated as mathematical (fp=real)',
               'contracts of the vector kernels (proved in C15): documented value at every element; inner product is the sum of the products, norm is the square root of the sum of squares']
PT = {'d': (ir.DBL, 64), 's': (ir.FLT, 32)}
ST = dict(ERROR=-1, START=0, RESTART=1, NEWX=2, PRECOND=3, AP=4, FINISH=5, NON_CONVEX=6, TRUNCATED=7)


class CG:
    def __init__(self, e, prec):
        self.e, self.prec = e, prec
        self.F = e.fp
        e.fp.opaque = True
        self.m = build.module(SRC)
        e.add_module(self.m)
        self.st = State()
        self.ty, self.w = PT[prec]
        self.zero = self.F.const(Fraction(0), self.w)
        self.one = self.F.const(Fraction(1), self.w)
        self.n = e.fresh_int(self.st, 'n')
        self.st.assume_all([self.n >= 0, self.n <= 2 ** 40])
        self.K = e.fresh_int(self.st, 'K')
        self.st.assume_all([self.K >= 0, self.K < self.n])
        self.folds = {}
        self.install()

    def code(self, n):
        return self.m.layout['#enum']['OPK_CG_' + n]

    def same(self, a, b):
        return vsame(self.e, a, b)

    def fn(self, n):
        f = self.e.funcs.get('opk_' + self.prec + n)
        if f is None:
            raise Unsupported('function %s not found' % n)
        return f

    def vec(self, name):
        p, a = self.e.array(self.st, name, self.ty, self.n)
        return p, a

    def dot(self, a, b):
        """sum of a[i] b[i]"""
        k = tuple(sorted((a.get_id(), b.get_id())))
        if k not in self.folds:
            F = self.F
            fo = fold(self, 'dot%d' % len(self.folds), lambda i, s: F.add(s, F.mul(z3.Select(a, i), z3.Select(b, i))))
            sums(self, fo, 4)
            self.folds[k] = (fo, a, b)
        return self.folds[k][0]['S'](self.n)

    def install(self):
        e, F = self.e, self.F

        def arg(st, p, n, inc, what):
            """a whole vector"""
            if not isinstance(p, Ptr) or p.r is None:
                raise Unsupported('operand of a kernel')
            e.oblige(st, i2z(inc) == 1, 'pre', '%s: unit increment' % what)
            i = i2z(p.o.idx(p.r.segs[0].base, p.r.segs[0].esz))
            e.oblige(st, z3.Implies(i2z(n) >= 1, z3.And(i >= 0, i + i2z(n) <= p.r.segs[0].len)), 'bounds', '%s: inside the vector' % what)
            return i

        def write(st, p, i, n, f):
            """element j of the n elements starting at i becomes f(j)"""
            old = e.arr(st, p)
            new = z3.FreshConst(old.sort(), p.r.name)
            k = self.K
            inside = z3.And(k >= i, k < i + i2z(n))
            st.assume(z3.Select(new, k) == z3.If(inside, f(k - i), z3.Select(old, k)))
            e.set_arr(st, p, new)

        def zero(e, st, a, ins):
            i = arg(st, a[1], a[0], a[2], 'zero')
            write(st, a[1], i, a[0], lambda j: self.zero)
            return [(st, None)]

        def copy(e, st, a, ins):
            i, o = arg(st, a[1], a[0], a[2], 'copy'), arg(st, a[3], a[0], a[4], 'copy')
            arr = e.arr(st, a[1])
            write(st, a[3], o, a[0], lambda j: z3.Select(arr, z3.simplify(i + j)))
            return [(st, None)]

        def axpy(e, st, a, ins):
            n, al, x, ix, y, iy = a
            i, o = arg(st, x, n, ix, 'axpy'), arg(st, y, n, iy, 'axpy')
            ax, ay = e.arr(st, x), e.arr(st, y)
            write(st, y, o, n, lambda j: F.add(z3.Select(ay, z3.simplify(o + j)), F.mul(al, z3.Select(ax, z3.simplify(i + j)))))
            return [(st, None)]

        def scal(e, st, a, ins):
            n, al, x, ix = a
            i = arg(st, x, n, ix, 'scal')
            ax = e.arr(st, x)
            write(st, x, i, n, lambda j: F.mul(al, z3.Select(ax, z3.simplify(i + j))))
            return [(st, None)]

        def total(st, x, i, y, j, n):
            whole = z3.And(i == 0, j == 0, i2z(n) == self.n)
            if not e.valid(st, whole):
                raise Unsupported('inner product of parts of vectors')
            return self.dot(e.arr(st, x), e.arr(st, y))

        def dot(e, st, a, ins):
            n, x, ix, y, iy = a
            i, j = arg(st, x, n, ix, 'dot'), arg(st, y, n, iy, 'dot')
            return [(st, total(st, x, i, y, j, n))]

        def nrm2(e, st, a, ins):
            n, x, ix = a
            i = arg(st, x, n, ix, 'nrm2')
            return [(st, self.norm(st, total(st, x, i, x, i, n)))]
        for nm, h in dict(zero=zero, copy=copy, axpy=axpy, scal=scal, dot=dot, nrm2=nrm2).items():
            e.contracts['opk_' + self.prec + nm] = h

    def norm(self, st, s):
        """square root of a sum of squares"""
        st.assume(s >= 0)
        return self.F.fun1('fsqrt', s)


def stage(prec, name, state, zcase):
    """one call in one state"""
    trust = name == 'trcg'
    nrho = 5 if trust else 4

    def make(e):
        c = CG(e, prec)
        F, st, n, K = c.F, c.st, c.n, c.K
        mul, add = F.mul, F.add
        p, pa = c.vec('p')
        q, qa = c.vec('q')
        r, ra = c.vec('r')
        x, xa = c.vec('x')
        if zcase == 'z':
            z, za = c.vec('z')
        elif zcase == 'q':
            z, za = q, qa
        else:
            z, za = NULL, ra
        rho, rhoa = e.array(st, 'rho', c.ty, nrho)
        R = [z3.Select(rhoa, i) for i in range(nrho)]
        s0 = c.code(state) if state != 'other' else e.fresh_int(st, 'state', 32)
        if state == 'other':
            for k in ST:
                if k != 'ERROR' and (trust or k != 'TRUNCATED'):
                    st.assume(s0 != c.code(k))
        sp = cells_region(c, 'state', {0: (ir.I32, s0)}, 4)
        delta = F.fresh('delta', c.w) if trust else None
        ok = delta > 0 if trust else z3.BoolVal(True)
        pK, qK, rK, xK, zK = [z3.Select(a, K) for a in (pa, qa, ra, xa, za)]
        # the recurrences
        rho1 = c.dot(ra, za)
        beta = F.div(rho1, R[0])
        pn = z3.If(R[0] > 0, add(zK, mul(beta, pK)), zK)
        specs = []
        if state in ('NEWX', 'PRECOND'):
            specs.append(dict(r=p.r, k=K, exp=[pn, add(zK, mul(beta, pK))]))
        if state == 'START':
            specs.append(dict(r=x.r, k=K, exp=c.zero))
        if state == 'RESTART':
            specs.append(dict(r=p.r, k=K, exp=xK))
        upto(c, n)
        if state == 'AP':
            pq = c.dot(pa, qa)
            alpha = F.div(R[1], pq)
            fo = fold(c, 'xn', lambda i, s: F.add(s, sq(F, F.add(z3.Select(xa, i), F.mul(alpha, z3.Select(pa, i))))))
            sums(c, fo, 4)
            specs += [dict(r=r.r, k=K, exp=[rK - qK, F.sub(rK, mul(alpha, qK))]), dict(r=x.r, k=K, exp=add(xK, mul(alpha, pK)))]
        add_elem_specs(e, specs)
        snap = st.fork()
        args = [n, p, q, r, x] + ([] if name == 'lcg' else [z]) + ([delta] if trust else []) + [rho, sp]

        def post(e, s, ret):
            cur = i2z(e.load_cell(s, sp.r, 0, ir.I32))
            N = lambda i: z3.Select(e.arr(s, rho), i)
            at = lambda v: z3.Select(e.arr(s, v), K)
            C = c.code

            def need(g, f, what, **k):
                f = z3.And(f) if isinstance(f, (list, tuple)) else f
                e.oblige(s, z3.Implies(z3.And(ok, g), f), 'post', what, **k)
            T = z3.BoolVal(True)
            keep = lambda *vs: [at(v) == v0 for v, v0 in vs]
            P, X, Rr = (p, pK), (x, xK), (r, rK)
            touched = []
            if trust:
                e.oblige(s, z3.Implies(z3.Not(ok), cur == C('ERROR')), 'post', 'a radius that is not positive is an error')
                e.oblige(s, z3.Implies(z3.Not(ok), z3.And(keep(P, X, Rr) + [N(i) == R[i] for i in range(nrho)])), 'post', 'nothing changed on error')
            if state == 'START':
                need(T, [cur == C('NEWX'), at(x) == 0] + [N(i) == 0 for i in range(nrho)], 'x is zero, parameters reset, new x')
                touched = [x, rho]
            elif state == 'RESTART':
                if trust:
                    xx = c.dot(xa, xa)
                    xn = c.norm(s, xx)
                    need(xn < delta, [cur == C('AP'), at(p) == xK, at(x) == xK, N(4) == xn], 'p is x, A.p requested, norm of x stored')
                    need(xn == delta, [cur == C('TRUNCATED'), at(x) == xK, N(4) == delta], 'x kept on the boundary')
                    need(xn > delta, [cur == C('TRUNCATED'), at(x) == mul(F.div(delta, xn), xK), N(4) == delta], 'x scaled to the boundary')
                    touched = [p, x, rho]
                else:
                    need(T, [cur == C('AP'), at(p) == xK], 'p is x, A.p requested')
                    touched = [p, rho]
                need(T, [N(i) == 0 for i in range(4)], 'parameters reset')
            elif state == 'NEWX' and zcase != 'none':
                need(T, cur == C('PRECOND'), 'preconditioning requested')
            elif state in ('NEWX', 'PRECOND'):
                need(T, N(1) == rho1, 'product of residuals stored')
                need(rho1 > 0, [cur == C('AP'), at(p) == pn, N(3) == z3.If(R[0] > 0, beta, 0)], 'conjugate direction, A.p requested')
                need(rho1 == 0, [cur == C('FINISH')] + keep(P), 'no residuals: finished')
                need(rho1 < 0, [cur == C('NON_CONVEX')] + keep(P), 'preconditioner not positive definite')
                need(T, [N(i) == R[i] for i in (0, 2) + ((4,) if trust else ())], 'other parameters kept')
                touched = [p, rho]
            elif state == 'AP':
                touched = [x, r, rho]
                step = lambda a: [at(x) == add(xK, mul(a, pK)), at(r) == F.sub(rK, mul(a, qK))]
                first = R[1] <= 0
                need(first, [cur == C('NEWX'), at(x) == xK, at(r) == rK - qK], 'residuals at the initial variables')
                go = z3.And(R[1] > 0, pq > 0)
                if not trust:
                    need(first, [N(i) == R[i] for i in range(nrho)], 'parameters kept')
                    need(z3.And(R[1] > 0, pq <= 0), [cur == C('NON_CONVEX')] + keep(X, Rr), 'operator not positive definite')
                    need(z3.And(go, alpha != 0), [cur == C('NEWX'), N(2) == alpha, N(0) == R[1], N(1) == R[1], N(3) == R[3]] + step(alpha), 'optimal step taken')
                    need(z3.And(go, alpha == 0), [cur == C('FINISH')] + keep(X, Rr), 'step too small: finished')
                else:
                    need(first, [N(0) == R[0], N(1) == R[1], N(2) == 0, N(3) == 0, N(4) == R[4]], 'no step yet')
                    need(z3.And(go, alpha == 0), [cur == C('FINISH')] + keep(X, Rr), 'step too small: finished')
                    sx = fo['S'](n)
                    xn = c.norm(s, sx)
                    opt = z3.And(go, alpha != 0, xn <= delta)
                    need(opt, [cur == z3.If(xn < delta, C('NEWX'), C('TRUNCATED')), N(2) == alpha, N(0) == R[1], N(4) == xn, N(3) == R[3]] + step(alpha), 'optimal step taken inside the region')
                    tr = z3.And(R[1] > 0, z3.Or(pq <= 0, z3.And(alpha != 0, xn > delta)))
                    a, b, cc = c.dot(pa, pa), c.dot(xa, pa), mul(F.add(R[4], delta), F.sub(R[4], delta))
                    need(z3.And(tr, a <= 0), [cur == C('FINISH')] + keep(X, Rr), 'null direction: finished')
                    need(z3.And(tr, a > 0, cc >= 0), [cur == C('ERROR')] + keep(X, Rr), 'corrupted norm of x is an error')
                    g = z3.And(tr, a > 0, cc < 0)
                    al = N(2)
                    need(g, z3.Or(cur == C('TRUNCATED'), cur == C('ERROR')), 'truncated step')
                    need(z3.And(g, cur == C('TRUNCATED')), [N(0) == R[1], N(4) == delta, N(3) == R[3]] + [z3.Implies(al > 0, f) for f in step(al)], 'truncated step taken')
                    need(z3.And(g, cur == C('ERROR')), keep(X, Rr), 'nothing moved on error')
                    if zcase == 'none':
                        need(g, cur == C('TRUNCATED'), 'the discriminant is positive')
                        need(g, al > 0, 'the truncated step is positive')
                        for w, k in (('up', b >= 0), ('down', b < 0)):
                            need(z3.And(g, k), a * al * al + 2 * b * al + cc == 0, 'the truncated step reaches the boundary (%s)' % w)
            elif state in ('FINISH', 'NON_CONVEX', 'TRUNCATED'):
                need(T, cur == s0, 'final states are kept')
            else:
                need(T, cur == C('ERROR'), 'an invalid state is an error')
            if state not in ('START', 'RESTART', 'NEWX', 'PRECOND', 'AP') or state == 'NEWX' and zcase != 'none':
                need(T, [N(i) == R[i] for i in range(nrho)], 'parameters kept')
            nothing_changed(c, s, snap, allow=touched + [sp])
        return c.fn(name), st, args, post
    return make


def sq(F, a):
    return F.mul(a, a)


def boundary(prec):
    """the boundary equation means that the norm of x + alpha p is the radius: by induction on the number of terms"""
    def make(e):
        c = CG(e, prec)
        R = lambda nm: z3.Real(nm)
        xx, xp, pp, al, a, b, d, r4, t = [R(k) for k in ('xx', 'xp', 'pp', 'al', 'a', 'b', 'd', 'r4', 't')]

        def post(e, s, ret):
            e.oblige(s, z3.Implies(t == xx + 2 * al * xp + al * al * pp, t + (a + al * b) * (a + al * b) == (xx + a * a) + 2 * al * (xp + a * b) + al * al * (pp + b * b)), 'lemma', 'one more term keeps |x + alpha p|^2 = |x|^2 + 2 alpha x.p + alpha^2 |p|^2')
            e.oblige(s, z3.Implies(z3.And(r4 * r4 == xx, pp * al * al + 2 * xp * al + (r4 + d) * (r4 - d) == 0), xx + 2 * al * xp + al * al * pp == d * d), 'lemma', 'the boundary equation makes it the square of the radius')
        sp = cells_region(c, 'state', {0: (ir.I32, c.code('START'))}, 4)
        x = c.vec('x')[0]
        rho = e.array(c.st, 'rho', c.ty, 5)[0]
        return c.fn('lcg'), c.st, [c.n, x, x, x, x, rho, sp], post
    return make


def units(tier):
    out = []
    for p in 'ds':
        out.append(dict(name='%strcg[boundary]' % p, desc='lemma: the boundary equation is the norm of the new x being the radius', make=boundary(p), opts=dict(fp='real')))
    states = [k for k in ST if k != 'ERROR'] + ['other']
    for p in 'ds':
        for f in ('plcg', 'lcg', 'trcg'):
            for s in states:
                if s == 'TRUNCATED' and f != 'trcg':
                    continue
                zs = {'lcg': ['none'], 'plcg': ['none', 'z', 'q'], 'trcg': ['none', 'z']}[f]
                for zc in zs:
                    if s == 'PRECOND' and zc == 'none':
                        continue
                    out.append(dict(name='%s%s[%s,%s]' % (p, f, s, zc), desc='one call in this state: documented combination, next request, nothing else written', make=stage(p, f, s, zc), opts=dict(fp='real')))
    return out
