"""C19 -- constrained derivative-free solver: arguments, protocol, number of evaluations."""
from .c17 import *
from . import c17

SRC = 'src/cobyla.c'
SOURCES = [SRC]
HARNESS = dict(src='c19.c', always=True, bounded='random and boundary arguments, random histories of values and constraints, up to 6 variables and 5 constraints, work space of exactly the documented size', lib=['cobyla.c'])
ASSUMPTIONS = ['the content of the work arrays is arbitrary (every read yields an arbitrary value); accesses to work arrays reached by pointer are not checked for bounds (address sanitizer in the harness only)',
               'no overflow of the integers describing sizes: |n| <= 2^20, |m| <= 2^28; the size of the work space of a context is less than 2^63 bytes',
               'state of a context between two calls: arbitrary within the invariant established by create and re-proved by every call']
ARR = ('iact', 'con', 'sim', 'simi', 'datmat', 'a', 'vsig', 'veta', 'sigbar', 'dx', 'w')
INT = ('n', 'm', 'iprint', 'maxfun', 'nfvals', 'ibrnch', 'iflag', 'ifull', 'jdrop')


def vertex(la, ghost, n, flags=False):
    """candidates: as long as the first simplex is being built, the vertex to set is one of the simplex"""
    def gen(L, probe, mod):
        out = []
        ints = [p for p in L.phis if p.ty.k == 'i' and p.ty.a == 64]
        if len(ints) < 3:
            return out
        conds = [('', lambda v: z3.BoolVal(False))]
        for q in L.phis if flags else ():
            if q.ty.k == 'i' and q.ty.a == 1:
                conds += [('%s => ' % q.res, lambda v, q=q: z3.Not(b2z(v.phi[q.res]))), ('not %s => ' % q.res, lambda v, q=q: b2z(v.phi[q.res]))]
        for w, g in conds:
            for d in (0, 1):
                out.append(('%scount>=n+%d' % (w, d), lambda v, d=d, g=g: z3.Or(g(v), ghost(v) >= n + d)))
            for b in ints:
                out.append(('%s%s==0 or count>n' % (w, b.res), lambda v, b=b, g=g: z3.Or(g(v), i2z(v.phi[b.res]) == 0, ghost(v) > n)))
                for j in ints:
                    if b is not j:
                        for d in (0, 1):
                            out.append(('%s%s==0 and count<=n+%d => %s is a vertex' % (w, b.res, d, j.res), lambda v, b=b, j=j, d=d, g=g:
                                z3.Or(g(v), z3.Implies(z3.And(i2z(v.phi[b.res]) == 0, ghost(v) <= n + d), z3.And(i2z(v.phi[j.res]) >= 1, i2z(v.phi[j.res]) <= n + 1)))))
        return out
    la.e.cand_gens.append(gen)


class Cob(Ctx):
    pre, src = 'cobyla', SRC
    arrs, ints = ARR, INT
    kept = ('n', 'm', 'iprint', 'maxfun', 'rhobeg', 'rhoend') + ARR
    count = 'nfvals'
    errno_missing = True
    steps_, prints = ('trstlp',), ('print_calcfc',)
    final = ('SUCCESS', 'TOO_MANY_EVALUATIONS', 'ROUNDING_ERRORS')

    def inv(self, v):
        return [v['n'] >= 1, v['m'] >= 0, v['maxfun'] >= 1, v['nfvals'] >= 0, v['nfvals'] <= v['maxfun'],
                z3.Implies(v['nfvals'] == 0, self.F.same(v['rho'], self.zero)),
                z3.Implies(z3.And(v['status'] == self.S('ITERATE'), v['nfvals'] > 0, v['nfvals'] <= v['n'], v['ibrnch'] == 0), z3.And(v['jdrop'] >= 1, v['jdrop'] <= v['n'] + 1)),
                z3.Implies(z3.And(v['status'] == self.S('ITERATE'), v['nfvals'] > 0), z3.Or(v['ibrnch'] == 0, v['nfvals'] > v['n'])),
                z3.Implies(v['status'] == self.S('ITERATE'), z3.Or(v['nfvals'] == 0, v['nfvals'] < v['maxfun']))]

    def operands(self, kind, v):
        x = self.e.array(self.st, 'x', D, v['n'])[0]
        c = self.e.array(self.st, 'c', D, v['m'])[0]
        c.r.readonly = True
        if kind == 'no constraints':
            self.st.assume(v['m'] > 0)
        if kind == 'next, unconstrained':
            self.st.assume(v['m'] == 0)
        vertex(self, lambda w: v['nfvals'] + 1, v['n'], flags=True)
        return [NULL if kind == 'no variables' else x, NULL if kind == 'no constraints' else c], [x]

    def extra_post(self, s, v, n):
        self.e.oblige(s, z3.Implies(i2z(n['status']) == self.S('ITERATE'), self.F.same(n['f'], self.fval)), 'post', 'the value is recorded')


def optimize(scaled):
    def make(e):
        la = Cob(e)
        F, st, S = la.F, la.st, la.S
        n, m, maxfun = la.num('n', 20), la.num('m', 28), la.num('maxfun', 60)
        iprint = la.num('iprint', 30)
        rb, re_ = F.fresh('rhobeg', 64), F.fresh('rhoend', 64)
        x = e.array(st, 'x', D, z3.If(n >= 0, n, 0))[0]
        iact = e.array(st, 'iact', ir.I64, z3.If(m >= 0, m + 1, 0))[0]
        scl, sc_ok, unit = NULL, z3.BoolVal(True), z3.BoolVal(True)
        if scaled:
            scl = e.array(st, 'scl', D, z3.If(n >= 0, n, 0))[0]
            scl.r.readonly = True
            k = e.fresh_int(st, 'k')
            st.assume_all([k >= 0, k < n])
            s = z3.Select(scl.r.init_arrs[0], k)
            sc_ok = z3.And(F.fin(s), F.cmp('ogt', s, la.zero))
            unit = F.cmp('oeq', s, F.const(Fraction(1), 64))
            nonneg_scales(la, scl, k)
        work, data = la.havoc('work'), la.havoc('data')
        st.g['calls'] = z3.IntVal(0)
        lim = z3.If(maxfun >= 1, maxfun, 1)
        ok_n, ok_m, ok_rho = n >= 1, m >= 0, la.radii_ok(rb, re_)

        def calcfc(e, s, a, ins):
            s = s.fork()
            c = s.g['calls']
            e.oblige(s, c < lim, 'post', 'no more evaluations than allowed')
            e.oblige(s, ok_n, 'post', 'not evaluated when the number of variables is invalid')
            e.oblige(s, ok_m, 'post', 'not evaluated when the number of constraints is invalid')
            e.oblige(s, ok_rho, 'post', 'not evaluated when the radii are invalid')
            e.oblige(s, sc_ok, 'post', 'not evaluated when a scale is invalid')
            e.oblige(s, z3.And(i2z(a[0]) == n, i2z(a[1]) == m), 'post', 'given the numbers of variables and constraints')
            e.oblige(s, veq(e, a[4], data), 'post', 'given the data of the caller')
            p = a[2]
            if isinstance(p, Ptr) and p.r is x.r:
                e.oblige(s, z3.And(p.o.term() == x.o.term(), unit), 'post', 'given the variables')
            else:
                e.oblige(s, scaled and isinstance(p, Ptr) and p.r is work.r, 'post', 'given the scaled variables')
            e.oblige(s, isinstance(a[3], Ptr) and a[3].r is work.r, 'post', 'given room for the constraints')
            s.g['calls'] = c + 1
            return [(s, F.fresh('f', 64))]
        fc = virtual(la, 'calcfc', calcfc)
        la.steps(*la.steps_)
        quiet(la, *la.prints)
        counting(la, lambda v: v.st.g['calls'], lim=lim)
        vertex(la, lambda v: v.st.g['calls'], n)
        snap = st.fork()

        def post(e, s, r):
            r = i2z(r)
            c = s.g['calls']
            for q, ok, what in (('BAD_NVARS', ok_n, 'number of variables'), ('BAD_NCONS', ok_m, 'number of constraints'), ('BAD_RHO_RANGE', ok_rho, 'radii')):
                e.oblige(s, z3.Implies(r == S(q), z3.Not(ok)), 'post', 'bad %s reported only then' % what)
            allok = z3.And(ok_n, ok_m, ok_rho)
            bad = z3.Or([r == S(q) for q in ('BAD_NVARS', 'BAD_NCONS', 'BAD_RHO_RANGE', 'BAD_SCALING')])
            e.oblige(s, z3.Implies(z3.Not(z3.And(allok, sc_ok)), z3.And(bad, c == 0)), 'post', 'invalid arguments are refused')
            if not scaled:
                e.oblige(s, r != S('BAD_SCALING'), 'post', 'no scale, no bad scale')
            e.oblige(s, z3.Implies(z3.And(allok, bad), r == S('BAD_SCALING')), 'post', 'valid arguments are accepted')
            e.oblige(s, z3.Or([bad] + [r == S(q) for q in la.final]), 'post', 'a documented status')
            e.oblige(s, z3.And(c >= 0, c <= lim, z3.Implies(bad, c == 0), z3.Implies(z3.Not(bad), c >= 1)), 'post', 'number of evaluations')
            e.oblige(s, z3.Implies(r == S('TOO_MANY_EVALUATIONS'), c == lim), 'post', 'too many evaluations only when the limit is reached')
            e.oblige(s, z3.Implies(z3.Not(bad), z3.Select(e.arr(s, iact), 0) == c), 'post', 'the number of evaluations is reported')
            if e.feasible(s, bad):
                nothing_changed(la, s.fork().assume(bad), snap)
            nothing_changed(la, s, snap, allow=[x, iact])
        return la.fn('cobyla_optimize'), st, [n, m, e.fresh_int(st, 'maximize', 32), fc, data, x, scl, rb, re_, iprint, maxfun, work, iact], post
    return make


def create(e):
    la = Cob(e)
    F, st = la.F, la.st
    n, m, maxfun, iprint = la.num('n', 20), la.num('m', 28), la.num('maxfun', 60), la.num('iprint', 30)
    rb, re_ = F.fresh('rhobeg', 64), F.fresh('rhoend', 64)
    for a, b, k in ((n, n, 40), (n, m, 48)):
        st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(e.mul(a, b) >= 0, e.mul(a, b) <= 2 ** k)))
    ok = z3.And(n >= 1, m >= 0, la.radii_ok(rb, re_), maxfun >= 1)
    snap = st.fork()

    def post(e, s, r):
        l = live_new(s, snap)
        if not isinstance(r, Ptr):
            raise Unsupported('result of cobyla_create')
        if r.r is None:
            no_leak(la, s, snap)
            if e.feasible(s, z3.Not(ok)):
                errno_is(la, s.fork().assume(z3.Not(ok)), EINVAL, 'invalid arguments are reported')
        else:
            e.oblige(s, ok, 'post', 'a context is only created for valid arguments')
            e.oblige(s, len(l) == 1 and l[0] is r.r, 'post', 'one block')
            la.c = r
            v = la.all(s)
            for f, a in (('n', n), ('m', m), ('maxfun', maxfun), ('iprint', iprint)):
                e.oblige(s, i2z(v[f]) == a, 'post', '%s as given' % f)
            for f, a in (('rhobeg', rb), ('rhoend', re_)):
                e.oblige(s, F.same(v[f], a), 'post', '%s as given' % f)
            e.oblige(s, z3.And(i2z(v['status']) == la.S('ITERATE'), i2z(v['nfvals']) == 0), 'post', 'ready for the first call')
            for i, f in enumerate(la.inv(v)):
                e.oblige(s, f, 'inv', 'context invariant %d' % i)
            nn, nm = e.mul(n, n), e.mul(n, m)
            ln = dict(iact=m + 1, con=m + 2, sim=nn + n, simi=nn, datmat=nm + 2 * n + m + 2, a=nm + n, vsig=n, veta=n, sigbar=n, dx=n, w=nn + 3 * n + 2 * (m + 1))
            size, end = r.r.size, la.size
            for f in ARR:
                p = v[f]
                e.oblige(s, isinstance(p, Ptr) and p.r is r.r, 'post', '%s points into the block' % f)
                if not isinstance(p, Ptr) or p.r is not r.r:
                    return
                o = p.o.term()
                e.collect(s, o - end)
                e.oblige(s, o >= end, 'post', '%s does not overlap what precedes it' % f)
                end = o + 8 * ln[f]
            e.collect(s, i2z(size) - end)
            e.oblige(s, end <= i2z(size), 'post', 'the arrays are inside the block')
        nothing_changed(la, s, snap)
    return la.fn('cobyla_create'), st, [n, m, rb, re_, iprint, maxfun], post


def units(tier):
    o = dict(fp='order')
    out = [dict(name='optimize[%s]' % w, desc='evaluations counted and limited, arguments refused before any evaluation, status, only the variables and the work space written', make=optimize(b), opts=o, deadline=450) for w, b in (('no scale', False), ('scales', True))]
    for k in ('first', 'next', 'wrong state', 'no variables', 'no constraints', 'no context'):
        out.append(dict(name='iterate[%s]' % k, desc='one call in this state', make=iterate(k, Cob), opts=o))
    out.append(dict(name='create', desc='valid arguments only, arrays inside the block', make=create, opts=o))
    for b in (False, True):
        w = '[missing]' if b else ''
        out += [dict(name='restart' + w, desc='state reset', make=restart(b, Cob), opts=o), dict(name='delete' + w, desc='released', make=delete(b, Cob), opts=o)]
        for g, f, q in (('status', 'status', 'BAD_ADDRESS'), ('nevals', 'nfvals', -1), ('rho', 'rho', -1), ('last_f', 'f', -1)):
            out.append(dict(name=g + w, desc='getter', make=getter(g, f, q if b else None, Cob), opts=o))
    out += [dict(name=f, desc='local arrays and tables in bounds, nothing but the arguments written', make=step(SRC, f), opts=o) for f in ('trstlp',)]
    return out
