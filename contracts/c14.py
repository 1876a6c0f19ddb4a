"""C14 -- trust-region subproblem: in bounds, the matrix given back, outputs and
work arrays only, number of iterations, status, norm of the step.  The kernels
are used by their contracts (C15)."""
from .common import *
from .c15 import LA, upto
from .kern import Kern
from opkv import build

SRC = 'src/gqtpar.c'
SOURCES = [SRC]
HARNESS = dict(src="c14.c", always=True, bounded="matrices of order up to 8 against the exact solution by eigenvalues, all output options, guard elements, unread triangle", lib=["gqtpar.c", "linalg.c"])
ASSUMPTIONS = ['contracts of the vector, triangular solve and factorization kernels (proved in C15)',
               'order of the matrix and maximum number of iterations at least 1, all operands in distinct arrays']


class GQ(LA):
    def __init__(self, e, prec):
        LA.__init__(self, e, prec)
        self.m2 = build.module(SRC)
        e.add_module(self.m2)


def gqt(prec, outs, what):
    """the whole solver; what: the positions of the matrix that are followed"""
    def make(e):
        la = GQ(e, prec)
        F, st = la.F, la.st
        K = Kern(la)
        n = la.int('n', 1)
        lda = la.int('lda', 1)
        st.assume(lda >= n)
        upto(la, n)
        a = la.mat('a', n, n, lda)
        b = la.vec('b', n, 1)
        x, z, w1, w2 = [la.vec(k, n, 1) for k in ('x', 'z', 'wa1', 'wa2')]
        delta, rtol, atol = [F.fresh(k, la.w) for k in ('delta', 'rtol', 'atol')]
        itmax = la.int('itmax', 1)
        ptr = {}
        for k, ty, v in (('par', la.ty, F.fresh('par', la.w)), ('fx', la.ty, F.fresh('fx', la.w)), ('iter', ir.I64, la.int('iter'))):
            ptr[k] = cells_region(la_env(la), k, {0: (ty, v)}, 8 if ty.k == 'i' or la.w == 64 else 4) if k in outs else NULL
        # positions of the matrix: (I, J) with I < J, its mirror image, the diagonal element, padding
        I, J = e.fresh_int(st, 'I'), e.fresh_int(st, 'J')
        st.assume_all([I >= 0, I < J, J < n])
        up, lo, di = a.idx(I, J), a.idx(J, I), a.idx(I, I)
        pp, pr, pc = a.probe()
        st.assume(z3.Not(z3.And(pr < n, pc < n)))
        follow = {'triangles': [(up, (I, J)), (lo, (J, I))], 'diagonal': [(di, (I, I))], 'padding': [(pp, (pr, pc))]}[what]
        K.coords[a.p.r.id] = follow
        K.ld[a.p.r.id] = i2z(lda)
        for q, _ in follow:
            K.probe(a.p, q)
        if what == 'diagonal':
            K.probe(w1.p, I)
        U, D, P0 = z3.Select(a.a, up), z3.Select(a.a, di), z3.Select(a.a, pp)
        asel = lambda v, q: z3.Select(v.st.mem[a.p.r.id].arrs[0], q)
        wsel = lambda v: z3.Select(v.st.mem[w1.p.r.id].arrs[0], I)

        def ints(L):
            return [(p.res, (lambda v, k=p.res: i2z(v.phi[k]))) for p in L.phis if p.ty.k == 'i' and p.ty.a > 1] + [('it', lambda v: i2z(v.it))]

        def gen(L, probe, mod):
            out = []
            am = (a.p.r, 's', 0) in mod
            if am:
                e0 = {q: z3.Select(L.st0.mem[a.p.r.id].arrs[0], q) for q in (up, lo, di, pp)}
                for nm, q, val in (('up', up, U), ('lo', lo, U), ('diag', di, D), ('pad', pp, P0)):
                    if not any(q is f for f, _ in follow):
                        continue
                    out.append((nm + ' as given', lambda v, q=q, val=val: la.same(asel(v, q), val)))
                    out.append((nm + ' same', lambda v, q=q: asel(v, q) == e0[q]))
                    if nm == 'pad':
                        continue
                    for vn, f in ints(L):
                        for d in (-1, 0, 1):
                            out.append(('%s given I<%s%+d' % (nm, vn, d), lambda v, f=f, q=q, val=val, d=d: z3.Implies(I < f(v) + d, la.same(asel(v, q), val))))
                            out.append(('%s same I>=%s%+d' % (nm, vn, d), lambda v, f=f, q=q, d=d: z3.Implies(I >= f(v) + d, asel(v, q) == e0[q])))
            if what == 'diagonal' and (w1.p.r, 's', 0) in mod:
                out.append(('wa1 diag', lambda v: la.same(wsel(v), D)))
            for p in L.phis:
                if p.ty.k == 'i':
                    for c in (0, 1):
                        out.append(('%s==%d' % (p.res, c), lambda v, k=p.res, c=c: i2z(v.phi[k]) == c))
                    if p.ty.a > 1:
                        out.append(('%s<itmax' % p.res, lambda v, k=p.res: i2z(v.phi[k]) < itmax))
                        out.append(('%s>=0' % p.res, lambda v, k=p.res: i2z(v.phi[k]) >= 0))
                        out.append(('%s==it' % p.res, lambda v, k=p.res: i2z(v.phi[k]) == v.it))
            out.append(('it<itmax', lambda v: v.it < itmax))
            return out
        e.cand_gens.append(gen)

        def estsv(e, s, args, ins):
            nn, r, ldr, zz = args
            e.oblige(s, i2z(nn) >= 1, 'pre', 'estsv: size')
            K.mat(s, r, nn, nn, ldr, 'estsv')
            i = K.span(s, zz, nn, 1, 'estsv')
            old, new = K.write(s, zz, i, nn, 1)
            return [(s, F.fresh('svmin', la.w))]
        e.contracts['opk_%sestsv' % prec] = estsv
        snap = st.fork()

        def post(e, s, r):
            r = i2z(r)
            A = e.arr(s, a.p)
            e.oblige(s, z3.And(r >= 1, r <= 4), 'post', 'a documented status')
            if what == 'triangles':
                e.oblige(s, la.same(z3.Select(A, up), U), 'post', 'the given triangle is given back')
                e.oblige(s, la.same(z3.Select(A, lo), U), 'post', 'the other triangle is its mirror image')
            if what == 'diagonal':
                e.oblige(s, la.same(z3.Select(A, di), D), 'post', 'the diagonal is given back')
            if what == 'padding':
                e.oblige(s, z3.Select(A, pp) == P0, 'post', 'nothing else of the array is written')
            if 'iter' in outs:
                it = i2z(e.load_cell(s, ptr['iter'].r, 0, ir.I64))
                e.oblige(s, z3.And(it >= 1, it <= itmax), 'post', 'at most the given number of iterations')
                e.oblige(s, z3.Implies(r == 4, it == itmax), 'post', 'failure to converge only after that number')
            nothing_changed(la, s, snap, allow=[a.p, x.p, z.p, w1.p, w2.p] + [ptr[k] for k in outs])
        return la.fn('gqt'), st, [n, a.p, lda, b.p, delta, rtol, atol, itmax, ptr['par'], ptr['fx'], x.p, ptr['iter'], z.p, w1.p, w2.p], post
    return make


def la_env(la):
    la.env = la
    return la


def estsv(prec):
    """singular vector estimate: in bounds, only z written, the estimate is not negative"""
    def make(e):
        la = GQ(e, prec)
        F, st = la.F, la.st
        K = Kern(la)
        n = la.int('n', 1)
        ld = la.int('ldr', 1)
        st.assume(ld >= n)
        upto(la, n)
        r = la.mat('r', n, n, ld)
        z = la.vec('z', n, 1)
        snap = st.fork()

        def post(e, s, ret):
            nothing_changed(la, s, snap, allow=[z.p])
        return la.fn('estsv'), st, [n, r.p, ld, z.p], post
    return make


def units(tier):
    out = []
    for p in 'ds':
        for w, o in [('triangles', ()), ('diagonal', ()), ('padding', ('par', 'fx', 'iter')), ('padding', ())]:
            out.append(dict(name='%sgqt[%s%s]' % (p, w, ',outputs' if o else ''), desc='in bounds, matrix given back, status, number of iterations, only outputs and work arrays written', make=gqt(p, o, w), opts=dict(fp='any')))
        out.append(dict(name='%sestsv' % p, desc='in bounds, only the vector written', make=estsv(p), opts=dict(fp='any')))
    return out
