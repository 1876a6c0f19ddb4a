"""C18 -- bound-constrained derivative-free solver: feasible evaluations, arguments, number of evaluations."""
from .c17 import *

SRC = 'src/bobyqa.c'
SOURCES = [SRC]
HARNESS = dict(src='c18.c', always=True, bounded='random and boundary arguments, bounds, scales and histories of values, up to 6 variables, work space of exactly the documented size', lib=['bobyqa.c'])
ASSUMPTIONS = ['the content of the work arrays is arbitrary (every read yields an arbitrary value); accesses to work arrays are not checked for bounds (address sanitizer in the harness only)',
               'no overflow of the integers describing sizes: |n| <= 2^20, |npt| <= 2^40',
               'IEEE facts used as axioms at one arbitrary position: u - l > 0 implies u > l; multiplication by s > 0 preserves order; 1/s > 0 for finite s > 0; 1*u = u; r + r > 0 for r > 0']
BAD = ('BAD_NVARS', 'BAD_NPT', 'BAD_RHO_RANGE', 'BAD_SCALING', 'TOO_CLOSE')
FINAL = ('SUCCESS', 'TOO_MANY_EVALUATIONS', 'STEP_FAILED', 'ROUNDING_ERRORS')


class Bob(Dfo):
    def __init__(self, e, scaled):
        Dfo.__init__(self, e, SRC)
        e.max_pairs = 4
        F, st = self.F, self.st
        self.scaled = scaled
        self.n, self.npt, self.maxfun = self.num('n', 20), self.num('npt'), self.num('maxfun', 60)
        self.iprint = self.num('iprint', 30)
        self.rb, self.re = F.fresh('rhobeg', 64), F.fresh('rhoend', 64)
        self.len = z3.If(self.n >= 0, self.n, 0)
        self.lim = z3.If(self.maxfun >= 1, self.maxfun, 1)
        self.k = e.fresh_int(st, 'k')
        st.assume_all([self.k >= 0, self.k < self.n])
        self.x, self.x0 = e.array(st, 'x', D, self.len)
        self.lo, self.up, self.scl = self.fixed('lower'), self.fixed('upper'), self.fixed('scl') if scaled else NULL
        self.l, self.u = self.at(self.lo), self.at(self.up)
        self.data = self.havoc('data')
        self.tracked = [self.x]
        st.g['calls'] = z3.IntVal(0)
        self.quiet_()

    def quiet_(self):
        quiet(self, 'print_x', 'print_error')

    def fixed(self, name):
        p = self.e.array(self.st, name, D, self.len)[0]
        p.r.readonly = True
        return p

    def at(self, p):
        return z3.Select(p.r.init_arrs[0], self.k)

    def val(self, s, p, k=None):
        """element k of what p points to"""
        return z3.Select(self.e.arr(s, p), p.o.idx(0, 8) + (self.k if k is None else k))

    def feas(self, v):
        return z3.And(z3.Not(self.F.cmp('olt', v, self.l)), z3.Not(self.F.cmp('ogt', v, self.u)))

    def ordered(self):
        return self.F.cmp('ole', self.l, self.u)

    def context(self):
        """the context given to the inner functions"""
        e, st = self.e, self.st
        o = self.m.layout['context']
        self.fo = virtual(self, 'objfun', self.objfun)
        if self.scaled:
            self.ws = e.array(st, 'ws', D, self.len)[0]
            self.tracked.append(self.ws)
            self.xl, self.xu = self.fixed('xl'), self.fixed('xu')
        else:
            self.ws, self.xl, self.xu = NULL, self.lo, self.up
        f = dict(objfun=(ir.PTR, self.fo), data=(ir.PTR, self.data), scl=(ir.PTR, self.scl), ws=(ir.PTR, self.ws), sgn=(D, self.F.fresh('sgn', 64)), n=(ir.I64, self.n), xl=(ir.PTR, self.lo), xu=(ir.PTR, self.up))
        if any(x not in f for x in o):
            raise Unsupported('fields of the context')
        self.ctx = cells_region(self, 'ctx', {o[x]: f[x] for x in o}, self.m.layout['#size']['context'])
        self.ctx.r.readonly = True

    def objfun(self, e, s, a, ins):
        s = s.fork()
        c = s.g['calls']
        e.oblige(s, c < self.lim, 'post', 'no more evaluations than allowed')
        e.oblige(s, i2z(a[0]) == self.n, 'post', 'given the number of variables')
        e.oblige(s, veq(e, a[2], self.data), 'post', 'given the data of the caller')
        p = a[1]
        ok = isinstance(p, Ptr) and p.r is not None and getattr(p.r, 'segs', ()) and p.o.idx(0, 8) is not None
        e.oblige(s, self.feas(self.val(s, p)) if ok else False, 'post', 'given a feasible point')
        s.g['calls'] = c + 1
        return [(s, self.F.fresh('f', 64))]

    def candidates(self):
        """the components set so far are feasible"""
        e = self.e

        def gen(L, probe, mod):
            out = []
            for t in self.tracked:
                if (t.r, 's', 0) not in mod:
                    continue
                f = lambda v, t=t: self.feas(self.val(v.st, t))
                out.append(('%s feasible' % t.r.name, f))
                for p in L.phis if len(L.phis) <= 4 else ():
                    if p.ty.k == 'i' and p.ty.a > 1:
                        for c in (-1, 0, 1):
                            out.append(('%s feasible below %s%+d' % (t.r.name, p.res, c), lambda v, p=p, c=c, f=f: z3.Implies(self.k < i2z(v.phi[p.res]) + c, f(v))))
            return out
        e.cand_gens.append(gen)

    def cells(self, ghost, top=None):
        """the number of evaluations is a counter in memory"""
        def gen(L, probe, mod):
            out = []
            if not any(k[0] == 'ghost' for k in mod):
                return out
            out.append(('count<limit', lambda v: ghost(v) < self.lim))
            for k, ty in mod.items():
                if k[0] != 'ghost' and k[1] == 'c' and ty.k == 'i' and ty.a == 64:
                    get = lambda v, k=k: i2z(self.e.cell(v.st, k[0], k[2], ir.I64))
                    for c in (-1, 0, 1):
                        out.append(('count==%s@%d%+d' % (k[0].name, k[2], c), lambda v, get=get, c=c: ghost(v) == get(v) + c))
            return out
        self.e.cand_gens.append(gen)

    def count(self):
        g = lambda v: v.st.g['calls']
        counting(self, g, lim=self.lim)
        self.cells(g)

    # ---- contracts of the inner functions
    def same(self, s, what, pairs):
        e = self.e
        for nm, a, b in pairs:
            e.oblige(s, self.F.same(a, b) if z3.is_expr(b) and b.sort() == self.F.S[64] else veq(e, a, b), 'pre', '%s given %s' % (what, nm))

    def named(self, f, a):
        """arguments by position of the current prototype"""
        return list(a)

    def common(self, s, what, a, ctx, xl, xu):
        self.same(s, what, [('the number of variables', a[0], self.n), ('the number of points', a[1], self.npt), ('the context', a[2], self.ctx), ('the lower bounds', ctx[0], xl), ('the upper bounds', ctx[1], xu)])

    def k_prelim(self, e, s, a, ins):
        s = s.fork()
        self.common(s, 'prelim', a, (a[4], a[5]), self.xl, self.xu)
        self.same(s, 'prelim', [('the variables', a[3], self.x), ('the radius', a[6], self.rb), ('the limit', a[8], self.maxfun)])
        e.oblige(s, s.g['calls'] == 0, 'pre', 'prelim called first')
        nf = e.fresh_int(s, 'nf')
        s.assume_all([nf >= 1, nf <= self.lim, z3.Implies(nf < self.npt, nf == self.lim)])
        s.g['calls'] = nf
        arr = z3.FreshConst(e.arr(s, self.x).sort(), 'x')
        e.set_arr(s, self.x, arr)
        if not self.scaled:
            s.assume(self.feas(z3.Select(arr, self.k)))
        for p in (a[-2], a[-1]):
            if not isinstance(p, Ptr) or p.r is None or p.r.kind in ('havoc', 'virtual'):
                raise Unsupported('results of prelim')
        e.store(s, a[-2], ir.I64, nf)
        e.store(s, a[-1], ir.I64, e.fresh_int(s, 'kopt'))
        return [(s, None)]

    def k_rescue(self, e, s, a, ins):
        s = s.fork()
        self.common(s, 'rescue', a, (a[3], a[4]), self.xl, self.xu)
        self.same(s, 'rescue', [('the limit', a[6], self.maxfun)])
        i = 19
        pn, pk = a[i], a[i + 2]
        for p in (pn, pk):
            if not isinstance(p, Ptr) or p.r is None or p.r.kind in ('havoc', 'virtual'):
                raise Unsupported('counters given to rescue')
        old = i2z(e.load(s, pn, ir.I64))
        c = s.g['calls']
        e.oblige(s, z3.And(c == old, old >= 1, old <= self.lim), 'pre', 'rescue given the number of evaluations')
        new, nf = e.fresh_int(s, 'calls'), e.fresh_int(s, 'nf')
        s.assume_all([new >= old, new <= self.lim, z3.Or(nf == new, z3.And(nf == -1, new == self.lim))])
        s.g['calls'] = new
        e.store(s, pn, ir.I64, nf)
        e.store(s, pk, ir.I64, e.fresh_int(s, 'kopt'))
        return [(s, None)]


def args_of(la, f, given):
    """values of the parameters: those given by position, arbitrary work arrays and numbers elsewhere"""
    out = []
    for i, (t, nm) in enumerate(f.params):
        out.append(given[i] if i in given else la.havoc('work%d' % i) if t.k == 'ptr' else la.num('arg', 40) if t.k == 'i' else la.e.fresh(la.st, 'arg', t))
    return out


def inner(la):
    """what the driver establishes before the inner functions are called"""
    la.st.assume_all([la.n >= 2, la.npt >= la.n + 2, la.ordered()])


def prelim(scaled):
    def make(e):
        la = Bob(e, scaled)
        st = la.st
        inner(la)
        la.context()
        la.candidates()
        la.count()
        f = la.fn('prelim')
        nf, ko = (cells_region(la, nm, {0: (ir.I64, e.fresh_int(st, nm))}, 8) for nm in ('nf', 'kopt'))
        N = len(f.params)
        a = args_of(la, f, {0: la.n, 1: la.npt, 2: la.ctx, 3: la.x, 4: la.xl, 5: la.xu, 6: la.rb, 7: la.iprint, 8: la.maxfun, N - 2: nf, N - 1: ko})
        snap = st.fork()

        def post(e, s, r):
            c, v = s.g['calls'], i2z(e.cell(s, nf, 0, ir.I64))
            e.oblige(s, z3.And(c == v, v >= 1, v <= la.lim), 'post', 'the evaluations are counted')
            e.oblige(s, z3.Implies(v < la.npt, v == la.lim), 'post', 'unless the limit is reached all the points are evaluated')
            if not scaled:
                e.oblige(s, la.feas(la.val(s, la.x)), 'post', 'the variables are feasible')
            nothing_changed(la, s, snap, allow=[la.x, nf, ko] + [la.ws] * scaled)
        return f, st, a, post
    return make


def rescue(scaled):
    def make(e):
        la = Bob(e, scaled)
        st = la.st
        inner(la)
        la.context()
        w = e.array(st, 'w', D, None)[0]
        la.tracked.append(w)
        la.candidates()
        la.count()
        la.steps('update')
        f = la.fn('rescue')
        c0 = e.fresh_int(st, 'calls')
        st.assume_all([c0 >= 1, c0 <= la.lim])
        st.g['calls'] = c0
        nf = cells_region(la, 'nf', {0: (ir.I64, c0)}, 8)
        ko = cells_region(la, 'kopt', {0: (ir.I64, e.fresh_int(st, 'kopt'))}, 8)
        N = len(f.params)
        a = args_of(la, f, {0: la.n, 1: la.npt, 2: la.ctx, 3: la.xl, 4: la.xu, 5: la.iprint, 6: la.maxfun, 19: nf, 21: ko, N - 1: w})
        snap = st.fork()

        def post(e, s, r):
            c, v = s.g['calls'], i2z(e.cell(s, nf, 0, ir.I64))
            e.oblige(s, z3.And(c >= c0, c <= la.lim), 'post', 'the evaluations are limited')
            e.oblige(s, z3.Or(v == c, z3.And(v == -1, c == la.lim)), 'post', 'the evaluations are counted')
            nothing_changed(la, s, snap, allow=[w, nf, ko] + [la.ws] * scaled)
        return f, st, a, post
    return make


def bobyqb(scaled):
    def make(e):
        la = Bob(e, scaled)
        st = la.st
        inner(la)
        la.context()
        la.candidates()
        la.count()
        la.steps('trsbox', 'altmov', 'update')
        e.contracts['prelim'], e.contracts['rescue'] = la.k_prelim, la.k_rescue
        f = la.fn('bobyqb')
        a = args_of(la, f, {0: la.n, 1: la.npt, 2: la.ctx, 3: la.x, 4: la.xl, 5: la.xu, 6: la.rb, 7: la.re, 8: la.iprint, 9: la.maxfun})
        snap = st.fork()

        def post(e, s, r):
            r, c = i2z(r), s.g['calls']
            e.oblige(s, z3.And(c >= 1, c <= la.lim), 'post', 'number of evaluations')
            e.oblige(s, z3.Or([r == la.en('BOBYQA_' + q) for q in FINAL]), 'post', 'a documented status')
            e.oblige(s, z3.Implies(r == la.en('BOBYQA_TOO_MANY_EVALUATIONS'), c == la.lim), 'post', 'too many evaluations only when the limit is reached')
            if not scaled:
                e.oblige(s, la.feas(la.val(s, la.x)), 'post', 'the variables are feasible')
            nothing_changed(la, s, snap, allow=[la.x] + [la.ws] * scaled)
        return f, st, a, post
    return make


def optimize(scaled, valid=False, entry='bobyqa_optimize'):
    def make(e):
        la = Bob(e, scaled)
        F, st, en = la.F, la.st, la.en
        one = F.const(Fraction(1), 64)
        n, npt = la.n, la.npt
        work = la.havoc('work')
        fo = virtual(la, 'objfun', lambda e, s, a, ins: (e.oblige(s, False, 'post', 'not evaluated by the driver'), [(s, F.fresh('f', 64))])[1])
        top = la.half(e.mul(n + 1, n + 2))
        ok_n, ok_npt, ok_rho = n >= 2, z3.And(npt >= n + 2, npt <= top), la.radii_ok(la.rb, la.re)
        maxi = e.fresh_int(st, 'maximize', 32) if entry == 'bobyqa_optimize' else z3.IntVal(0)
        two = F.add(la.rb, la.rb)

        def facts(l, u, s):
            """(scale valid, wide enough), IEEE facts about them"""
            ok, q = z3.BoolVal(True), one
            ax = []
            if s is not None:
                ok, q = z3.And(F.fin(s), F.cmp('ogt', s, la.zero)), F.div(one, s)
                ax.append(z3.Implies(ok, F.cmp('ogt', q, la.zero)))
                ax.append(z3.Implies(F.cmp('oeq', s, one), q == one))
            ql, qu = F.mul(q, l), F.mul(q, u)
            for a, b in ((ql, qu), (l, u)):
                ax.append(z3.Implies(F.cmp('ogt', F.sub(b, a), la.zero), F.cmp('olt', a, b)))
            ax.append(z3.Implies(z3.And(F.cmp('ogt', q, la.zero), F.cmp('olt', ql, qu)), F.cmp('olt', l, u)))
            for v in (l, u):
                ax.append(F.mul(one, v) == v)
            return ok, F.cmp('oge', F.sub(qu, ql), two), ax
        st.assume(z3.Implies(F.cmp('ogt', la.rb, la.zero), F.cmp('ogt', two, la.zero)))
        sk = la.at(la.scl) if scaled else None
        ok_s, wide, ax = facts(la.l, la.u, sk)
        st.assume_all(ax)
        unit = F.cmp('oeq', sk, one) if scaled else z3.BoolVal(True)
        if valid:
            j = z3.Int('j!')
            A = [p.r.init_arrs[0] for p in (la.lo, la.up)] + ([la.scl.r.init_arrs[0]] if scaled else [])
            o, w, axj = facts(z3.Select(A[0], j), z3.Select(A[1], j), z3.Select(A[2], j) if scaled else None)
            pats = [z3.Select(A[1], j)] + ([z3.Select(A[2], j)] if scaled else [])
            for p in pats:
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And([o, w] + axj)), patterns=[p]))
            st.assume_all([ok_n, ok_npt, ok_rho])
        if scaled:
            nonneg_scales(la, la.scl, la.k)

            def gen(L, probe, mod):
                return [('wide enough below %s' % p.res, lambda v, p=p: z3.Implies(i2z(v.phi[p.res]) > la.k, wide)) for p in L.phis if p.ty.k == 'i' and p.ty.a > 1] if len(L.phis) <= 4 else []
            e.cand_gens.append(gen)
        else:
            e.cand_gens.append(lambda L, probe, mod: [('wide enough below %s' % p.res, lambda v, p=p: z3.Implies(i2z(v.phi[p.res]) > la.k, wide)) for p in L.phis if p.ty.k == 'i' and p.ty.a > 1] if len(L.phis) <= 4 else [])
        la.candidates()
        lay = la.m.layout['context']

        def k_bobyqb(e, s, a, ins):
            s = s.fork()
            e.oblige(s, s.g['calls'] == 0, 'pre', 'called once')
            for f, w in ((ok_n, 'number of variables'), (ok_npt, 'number of interpolation points'), (ok_rho, 'radii'), (ok_s, 'scales')):
                e.oblige(s, f, 'post', 'no evaluation when the %s is invalid' % w)
            e.oblige(s, wide, 'post', 'no evaluation when the bounds are too close')
            e.oblige(s, la.ordered(), 'pre', 'ordered bounds')
            la.same(s, 'main loop', [('n', a[0], n), ('npt', a[1], npt), ('x', a[3], la.x), ('rhobeg', a[6], la.rb), ('rhoend', a[7], la.re), ('maxfun', a[9], la.maxfun)])
            g = lambda f, t: e.load(s, Ptr(a[2].r, a[2].o.add(lay[f], 1) if False else Off(a[2].o.c + lay[f], a[2].o.t)), t)
            sg = F.const(Fraction(-1), 64)
            la.same(s, 'context', [('the function', g('objfun', ir.PTR), fo), ('the data', g('data', ir.PTR), la.data), ('n', g('n', ir.I64), n)])
            e.oblige(s, z3.If(maxi != 0, F.same(g('sgn', D), sg), F.same(g('sgn', D), one)), 'pre', 'sign of the objective')
            sc = g('scl', ir.PTR)
            s.g['calls'] = e.fresh_int(s, 'calls')
            c = s.g['calls']
            s.assume_all([c >= 1, c <= la.lim])
            r = e.fresh_int(s, 'status', 32)
            s.assume(z3.Or([r == en('BOBYQA_' + q) for q in FINAL]))
            s.assume(z3.Implies(r == en('BOBYQA_TOO_MANY_EVALUATIONS'), c == la.lim))
            arr = z3.FreshConst(e.arr(s, la.x).sort(), 'x')
            e.set_arr(s, la.x, arr)
            plain = isinstance(sc, Ptr) and sc.r is None
            if plain:
                e.oblige(s, unit, 'pre', 'no scaling only when all scales are one')
                la.same(s, 'main loop', [('the lower bounds', a[4], la.lo), ('the upper bounds', a[5], la.up)])
                s.assume(la.feas(z3.Select(arr, la.k)))
            else:
                la.same(s, 'context', [('the scales', sc, la.scl), ('the lower bounds', g('xl', ir.PTR), la.lo), ('the upper bounds', g('xu', ir.PTR), la.up)])
                for p in (a[4], a[5], g('ws', ir.PTR)):
                    e.oblige(s, isinstance(p, Ptr) and p.r is work.r, 'pre', 'scaled bounds and variables in the work space')
            return [(s, r)]
        e.contracts['bobyqb'] = k_bobyqb
        snap = st.fork()

        def post(e, s, r):
            r, c = i2z(r), s.g['calls']
            S = lambda q: en('BOBYQA_' + q)
            bad = z3.Or([r == S(q) for q in BAD])
            e.oblige(s, z3.Implies(r == S('BAD_NVARS'), z3.Not(ok_n)), 'post', 'bad number of variables reported only then')
            e.oblige(s, z3.Implies(r == S('BAD_NPT'), z3.Not(ok_npt)), 'post', 'bad number of interpolation points reported only then')
            e.oblige(s, z3.Implies(r == S('BAD_RHO_RANGE'), z3.Not(ok_rho)), 'post', 'bad radii reported only then')
            e.oblige(s, z3.Implies(z3.Not(z3.And(ok_n, ok_npt, ok_rho, ok_s, wide)), z3.And(bad, c == 0)), 'post', 'invalid arguments are refused')
            e.oblige(s, z3.Implies(z3.And(ok_n, ok_npt, ok_rho), z3.Implies(bad, z3.Or(r == S('TOO_CLOSE'), r == S('BAD_SCALING') if scaled else False))), 'post', 'only bounds or scales are wrong')
            e.oblige(s, z3.Or([bad] + [r == S(q) for q in FINAL]), 'post', 'a documented status')
            e.oblige(s, z3.And(c >= 0, c <= la.lim, z3.Implies(bad, c == 0), z3.Implies(z3.Not(bad), c >= 1)), 'post', 'number of evaluations')
            e.oblige(s, z3.Implies(r == S('TOO_MANY_EVALUATIONS'), c == la.lim), 'post', 'too many evaluations only when the limit is reached')
            if valid:
                e.oblige(s, z3.Not(bad), 'post', 'valid arguments are accepted')
            if e.feasible(s, bad):
                nothing_changed(la, s.fork().assume(bad), snap)
            e.oblige(s, z3.Implies(z3.Not(bad), la.feas(la.val(s, la.x))), 'post', 'the final variables are feasible')
            nothing_changed(la, s, snap, allow=[la.x])
        if entry == 'bobyqa':
            a = [n, npt, fo, la.data, la.x, la.lo, la.up, la.rb, la.re, la.iprint, la.maxfun, work]
        else:
            a = [n, npt, maxi, fo, la.data, la.x, la.lo, la.up, la.scl, la.rb, la.re, la.iprint, la.maxfun, work]
        return la.fn(entry), st, a, post
    return make


def units(tier):
    o = dict(fp='order')
    out = []
    for w, b in (('no scale', False), ('scales', True)):
        out += [dict(name='optimize[%s]' % w, desc='arguments refused before any evaluation and any change, status, feasible result', make=optimize(b), opts=o),
                dict(name='optimize[%s, valid]' % w, desc='valid arguments are accepted', make=optimize(b, True), opts=o),
                dict(name='bobyqb[%s]' % w, desc='main loop: feasible evaluations, counted and limited', make=bobyqb(b), opts=o),
                dict(name='prelim[%s]' % w, desc='first points: feasible evaluations, counted and limited', make=prelim(b), opts=o),
                dict(name='rescue[%s]' % w, desc='replaced points: feasible evaluations, counted and limited', make=rescue(b), opts=o)]
    out.append(dict(name='bobyqa', desc='same as the general driver without scales', make=optimize(False, False, 'bobyqa'), opts=o))
    out += [dict(name=f, desc='local arrays in bounds, nothing but the arguments written', make=step(SRC, f), opts=o) for f in ('trsbox', 'altmov', 'update')]
    return out
