"""C07 -- line searches: steps inside their bounds, acceptance tests, refusals, memory of the nonmonotone search."""
from .common import *

SOURCES = ['src/algebra.c', 'src/lnsrch.c', 'src/dblvector.c']
HARNESS = dict(src='c07.c', always=True, bounded='random histories of values and slopes', lib=['algebra.c', 'lnsrch.c', 'utils.c'])
ASSUMPTIONS = ['private state of a search: arbitrary, except for the inferred invariants (non-NaN fields, derived constants) established by start and preserved by iterate']
LS = 'opk_lnsrch_'
MODS = ('src/lnsrch.c',)
DEADLINE = dict(quick=300, thorough=1500)


def params(env, kind):
    """symbolic valid parameters"""
    e, F, st = env.e, env.F, env.st
    c = lambda v: F.const(Fraction(v), 64)
    d = lambda nm: F.fresh(nm, 64)
    if kind == 'backtrack':
        a = dict(ftol=d('ftol'), amin=d('amin'))
        st.assume_all([F.cmp('ogt', a['ftol'], c(0)), F.cmp('ole', a['ftol'], c('1/2')), F.cmp('ogt', a['amin'], c(0)), F.cmp('olt', a['amin'], c(1))])
        return a, [a['ftol'], a['amin']]
    if kind == 'csrch':
        a = dict(ftol=d('ftol'), gtol=d('gtol'), xtol=d('xtol'))
        st.assume_all([F.cmp('oge', v, c(0)) for v in a.values()])
        return a, list(a.values())
    m = e.fresh_int(st, 'm')
    a = dict(m=m, ftol=d('ftol'), sigma1=d('sigma1'), sigma2=d('sigma2'))
    st.assume_all([m >= 1, m < 2 ** 55, F.fin(a['ftol']), F.cmp('ogt', a['ftol'], c(0)), F.cmp('ogt', a['sigma1'], c(0)), F.cmp('olt', a['sigma1'], a['sigma2']), F.cmp('olt', a['sigma2'], c(1))])
    return a, [m, a['ftol'], a['sigma1'], a['sigma2']]


class Search:
    def __init__(self, e, kind):
        e.malloc_fails = False
        self.e, self.kind = e, kind
        self.env = env = Env(e, 'd', mods=MODS)
        self.F = env.F
        self.custom_task = z3.FreshConst(z3.IntSort(), 'task')
        if kind == 'csrch':
            e.contracts['opk_cstep'] = cstep_contract
        if kind == 'custom':
            lay = next(m.layout[k] for m in e.mods for k in ('opk_lnsrch_operations_', 'opk_lnsrch_operations') if k in m.layout)
            t = cells_region(env, 'lnsrch_ops', {lay['finalize']: (ir.PTR, NULL), lay['start']: (ir.PTR, virtual(env, 'start', self.vstart)),
                                                 lay['iterate']: (ir.PTR, virtual(env, 'iterate', self.viter)), lay['use_deriv']: (ir.I32, 1)})
            self.par = {}
            self.ls = env.call('opk_allocate_line_search', [t, 0], env.notnull)
        else:
            self.par, args = params(env, kind)
            self.ls = env.call('opk_lnsrch_new_' + kind, args, env.notnull)
        self.ls.r.name = 'search'

    def vstart(self, e, st, a, ins):
        tick(st, 'start')
        self.set(st, 'task', self.env.enum('OPK_LNSRCH_SEARCH'))
        self.set(st, 'status', self.env.enum('OPK_SUCCESS'))
        return [(st, self.env.enum('OPK_LNSRCH_SEARCH'))]

    def viter(self, e, st, a, ins):
        tick(st, 'iterate')
        p = a[1]
        v = self.F.fresh('newstep', 64)
        st.assume(z3.Not(self.F.nan(v)))
        e.store(st, p, ir.DBL, v)
        t = self.custom_task
        st.assume(z3.And(t >= -1, t <= 2))
        return [(st, t)]

    def get(self, s, f):
        ty = ir.I32 if f in ('status', 'task') else ir.DBL
        return self.e.cell(s, self.ls, self.env.off(LS, f), ty)

    def set(self, s, f, v):
        self.e.set_cell(s, self.ls, self.env.off(LS, f), ir.I32 if f in ('status', 'task') else ir.DBL, v)

    def base(self):
        lay = {f: self.env.off(LS, f) for f in ('stp', 'stpmin', 'stpmax', 'finit', 'ginit', 'status', 'task')}
        return lay

    def searching(self, s):
        """the state between two evaluations"""
        F = self.F
        v = {f: F.fresh(f, 64) for f in ('stp', 'stpmin', 'stpmax', 'finit', 'ginit')}
        z = F.const(Fraction(0), 64)
        s.assume_all([F.cmp('oge', v['stpmin'], z), F.cmp('ole', v['stpmin'], v['stp']), F.cmp('ole', v['stp'], v['stpmax']), F.cmp('olt', v['ginit'], z)])
        for f in v:
            self.set(s, f, v[f])
        self.set(s, 'task', self.env.enum('OPK_LNSRCH_SEARCH'))
        self.set(s, 'status', self.e.fresh_int(s, 'status', 32))
        return v

    def inside(self, s, v, stp):
        F = self.F
        return z3.And(F.cmp('ole', v['stpmin'], stp), F.cmp('ole', stp, v['stpmax']))

    def start(self, s, a):
        return self.e.call_fn(s, self.env.fn('opk_lnsrch_start'), [self.ls] + a)

    def step_cell(self, s, v):
        r = self.e.new_region(s, 'step', size=8)
        self.e.set_cell(s, r, 0, ir.DBL, v)
        return Ptr(r)

    def candidates(self, s, W, v):
        """invariants of the private state that are tried (the inductive ones are kept)"""
        F, out = self.F, []
        prods = []
        if 'ftol' in self.par:
            prods.append(('ftol*ginit', lambda s: F.mul(self.par['ftol'], self.get(s, 'ginit'))))
        for (o, ty) in W:
            if ty.k == 'i':
                c = lambda s, o=o, ty=ty: i2z(self.e.cell(s, self.ls, o, ty))
                out.append(('%d in 0..1' % o, lambda s, c=c: z3.And(c(s) >= 0, c(s) <= 1)))
            if ty.k == 'double':
                c = lambda s, o=o: self.e.cell(s, self.ls, o, ir.DBL)
                out.append(('%d not NaN' % o, lambda s, c=c: z3.Not(F.nan(c(s)))))
                for nm, t in prods:
                    out.append(('%d == %s' % (o, nm), lambda s, c=c, t=t: F.same(c(s), t(s))))
        return out

    def havoc(self, s, W):
        for (o, ty) in W:
            self.e.set_cell(s, self.ls, o, ty, self.e.fresh(s, 'private%d' % o, ty))

    def infer(self):
        """cells written by start or iterate outside the public part, and invariants on them"""
        e, env = self.e, self.env
        pub = set(self.base().values())
        W = {}
        F = self.F
        rec, e.rec = e.rec, False
        try:
            for rnd in range(4):
                s0 = env.st.fork()
                s0.log = {}
                self.havoc(s0, W.items())
                a = [F.fresh(x, 64) for x in 'abcde']
                logs = s0.log
                started = self.start(s0, a)
                ok = [s.fork().assume(i2z(t) == self.env.enum('OPK_LNSRCH_SEARCH')) for s, t in started if self.is_search(s, t)]
                s1 = env.st.fork()
                s1.log = logs
                self.havoc(s1, W.items())
                v = self.searching(s1)
                self.e.call_fn(s1, env.fn('opk_lnsrch_iterate'), [self.ls, self.step_cell(s1, v['stp']), F.fresh('f', 64), F.fresh('g', 64)])
                W2 = {k[2]: ty for k, ty in logs.items() if k[0] is self.ls.r and k[1] == 'c' and k[2] not in pub}
                if set(W2) <= set(W):
                    break
                W.update(W2)
            cand = self.candidates(env.st, W.items(), None)
            for s in ok:
                cand = [c for c in cand if e.valid(s, c[1](s), 0)]
            while True:
                s1 = env.st.fork()
                self.havoc(s1, W.items())
                v = self.searching(s1)
                for c in cand:
                    s1.assume(c[1](s1))
                keep = list(cand)
                for s, t in self.e.call_fn(s1, env.fn('opk_lnsrch_iterate'), [self.ls, self.step_cell(s1, v['stp']), F.fresh('f', 64), F.fresh('g', 64)]):
                    if not self.is_search(s, t):
                        continue
                    s = s.fork().assume(i2z(t) == self.env.enum('OPK_LNSRCH_SEARCH'))
                    keep = [c for c in keep if e.valid(s, c[1](s), 0)]
                if len(keep) == len(cand):
                    break
                cand = keep
        finally:
            e.rec = rec
        self.W, self.inv = W, cand

    def is_search(self, s, t):
        return self.e.feasible(s, i2z(t) == self.env.enum('OPK_LNSRCH_SEARCH'))


def start_unit(kind):
    def make(e):
        S = Search(e, kind)
        env, F = S.env, S.F
        st = env.st
        f0, g0, stp, lo, hi = a = [F.fresh(x, 64) for x in ('f0', 'g0', 'stp', 'stpmin', 'stpmax')]
        z = F.const(Fraction(0), 64)
        if kind == 'nonmonotone':
            ring(S, st, f0)
        snap = st.fork()
        en = env.enum
        refusals = [(F.cmp('oge', lo, z), 'OPK_STPMIN_LT_ZERO'), (F.cmp('ole', lo, hi), 'OPK_STPMIN_GT_STPMAX'), (F.cmp('oge', stp, lo), 'OPK_STEP_LT_STPMIN'),
                    (F.cmp('ole', stp, hi), 'OPK_STEP_GT_STPMAX'), (F.cmp('olt', g0, z), 'OPK_NOT_A_DESCENT')]

        def post(e, s, r):
            ok = z3.And([c for c, _ in refusals])
            e.oblige(s, (i2z(r) == en('OPK_LNSRCH_SEARCH')) == ok, 'post', 'started exactly with valid bounds, step and slope')
            e.oblige(s, z3.Or(i2z(r) == en('OPK_LNSRCH_SEARCH'), i2z(r) == en('OPK_LNSRCH_ERROR')), 'post', 'search or error')
            e.oblige(s, i2z(S.get(s, 'task')) == i2z(r), 'post', 'pending task is the returned one')
            stat = i2z(S.get(s, 'status'))
            e.oblige(s, z3.Implies(ok, stat == en('OPK_SUCCESS')), 'post', 'status of a started search')
            prev = z3.BoolVal(True)
            for c, nm in refusals:
                # refused for a violated condition, and the status names one that is violated
                e.oblige(s, z3.Implies(z3.And(z3.Not(ok), stat == en(nm)), z3.Not(c)), 'post', 'status %s only when it applies' % nm)
            e.oblige(s, z3.Implies(z3.Not(ok), z3.Or([stat == en(nm) for _, nm in refusals])), 'post', 'documented refusal status')
            if e.feasible(s, ok):
                t = s.fork().assume(ok)
                for f, v in (('stp', stp), ('stpmin', lo), ('stpmax', hi), ('finit', f0), ('ginit', g0)):
                    e.oblige(t, F.same(S.get(t, f), v), 'post', 'the search starts from the given %s' % f)
                if kind == 'nonmonotone':
                    ring_post(S, snap, t, f0)
            if kind == 'custom':
                e.oblige(s, z3.If(ok, b2z(len(ticks(s, 'start')) == 1), b2z(not ticks(s, 'start'))), 'post', 'the method is started once, only with valid arguments')
            nothing_changed(env, s, snap, allow=[S.ls])
        return env.fn('opk_lnsrch_start'), st, [S.ls] + a, post
    return make


def nm_off(S, f):
    return next(m.layout['nonmonotone_lnsrch'] for m in S.e.mods if 'nonmonotone_lnsrch' in m.layout)[f]


def ring(S, st, f0):
    """the last m values are kept at position (rank modulo m); ghost: rank k, history h, upper bound B of the window"""
    e, F = S.e, S.F
    p = S.ls
    dp = e.cell(st, p, nm_off(S, 'fsav'), ir.PTR)
    if not any(sg.base == dp.o.c for sg in getattr(p.r, 'segs', ())):
        e.add_seg(st, p.r, dp.o.c, ir.DBL)
    mp = e.fresh_int(st, 'mp')
    st.assume(z3.And(mp >= 0, mp < 2 ** 62))
    e.set_cell(st, p, nm_off(S, 'mp'), ir.I64, mp)
    seg = next(i for i, sg in enumerate(p.r.segs) if sg.base == dp.o.c)
    a0 = z3.FreshConst(e.arr(st, p, seg).sort(), 'past')
    e.set_arr(st, p, a0, seg)
    m = S.par['m']
    S.seg, S.a0, S.mp = seg, a0, mp
    S.k = k = z3.FreshConst(z3.IntSort(), 'rank')
    st.assume(z3.And(k >= 0, k <= mp, k > mp - m))
    S.pos = e.symdiv(st, k, m, 'srem')
    S.h = F.fresh('h_k', 64)                            # k-th value
    st.assume(z3.Implies(k < mp, F.same(z3.Select(a0, S.pos), S.h)))
    S.B = F.fresh('B', 64)
    st.assume(z3.And(z3.Not(F.nan(S.B)), z3.Not(F.nan(f0)), F.cmp('ole', f0, S.B)))
    n1 = z3.If(mp + 1 < m, mp + 1, m)
    past = lambda j: z3.Implies(z3.And(j >= 0, j < n1, j < mp), F.cmp('ole', z3.Select(a0, j), S.B))
    st.assume(past(S.pos))
    st.assume(past(z3.IntVal(0)))
    off = nm_off(S, 'fmax')

    def gen(L, probe, mod):
        out = []
        if not any(x[0] is p.r and x[1] == 'c' and x[2] == off for x in mod if x[0] != 'ghost'):
            fl = [(x.res, (lambda v, n=x.res: v.phi[n])) for x in L.phis if x.ty.k == 'double']
        else:
            fl = [('fmax', lambda v: e.cell(v.st, p, off, ir.DBL))]
        vs = [(x.res, (lambda v, n=x.res: i2z(v.phi[n]))) for x in L.phis if x.ty.k == 'i' and x.ty.a > 1] + [('it', lambda v: v.it)]
        gi = S.pos
        for fn_, f in fl:
            def ub(v, f=f):
                for _, j in vs:
                    for d in (-1, 0, 1):
                        v.st.assume(past(z3.simplify(i2z(j(v)) + d)))
                return F.cmp('ole', f(v), S.B)
            out.append((fn_ + '<=B', ub))
            out.append((fn_ + ' ok', lambda v, f=f: z3.Not(F.nan(f(v)))))
            ge = lambda v, f=f: F.cmp('oge', f(v), z3.Select(e.arr(v.st, p, seg), gi))
            for nm, j in vs:
                out.append(('%s g<%s' % (fn_, nm), lambda v, j=j, ge=ge: z3.Implies(gi < j(v), ge(v))))
                out.append(('%s g<=%s' % (fn_, nm), lambda v, j=j, ge=ge: z3.Implies(gi <= j(v), ge(v))))
                out.append(('%s g>=%s' % (fn_, nm), lambda v, j=j, ge=ge: z3.Implies(gi >= j(v), ge(v))))
                out.append(('%s g>%s' % (fn_, nm), lambda v, j=j, ge=ge: z3.Implies(gi > j(v), ge(v))))
            out.append((fn_ + ' ge', ge))
        return out
    e.cand_gens.append(gen)


def ring_post(S, snap, t, f0):
    e, F = S.e, S.F
    p, m, mp = S.ls, S.par['m'], S.mp
    e.oblige(t, i2z(e.cell(t, p, nm_off(S, 'mp'), ir.I64)) == mp + 1, 'post', 'one more value remembered')
    v = z3.Select(e.arr(t, p, S.seg), S.pos)
    h = z3.If(S.k == mp, f0, S.h)
    e.oblige(t, F.same(v, h), 'post', 'the last m values (the new one included) are remembered, each at its own place')
    fm = e.cell(t, p, nm_off(S, 'fmax'), ir.DBL)
    e.oblige(t, z3.Implies(z3.Not(F.nan(h)), F.cmp('oge', fm, h)), 'post', 'the reference is at least each remembered value')
    e.oblige(t, F.cmp('ole', fm, S.B), 'post', 'the reference is the worst of the remembered values')


def iterate_unit(kind):
    def make(e):
        S = Search(e, kind)
        env, F = S.env, S.F
        en = env.enum
        if kind == 'custom':
            S.W, S.inv = {}, []
        else:
            S.infer()
        st = env.st
        S.havoc(st, S.W.items())
        v = S.searching(st)
        for nm, c in S.inv:
            st.assume(c(st))
        f, g = F.fresh('f', 64), F.fresh('g', 64)
        cell = S.step_cell(st, v['stp'])
        snap = st.fork()
        mul, add, neg = F.mul, F.add, F.neg
        if kind == 'backtrack':
            acc = lambda: F.cmp('ole', f, add(v['finit'], mul(mul(S.par['ftol'], v['stp']), v['ginit'])))
        elif kind == 'nonmonotone':
            fm = e.cell(st, S.ls, nm_off(S, 'fmax'), ir.DBL)
            acc = lambda: F.cmp('ole', f, add(fm, mul(mul(S.par['ftol'], v['stp']), v['ginit'])))
        elif kind == 'csrch':
            acc = lambda: z3.And(F.cmp('ole', f, add(v['finit'], mul(v['stp'], mul(S.par['ftol'], v['ginit'])))),
                                 F.cmp('ole', F.fun1('fabs', g), mul(neg(S.par['gtol']), v['ginit'])))
        else:
            acc = None

        def post(e, s, r):
            t = i2z(r)
            new = e.cell(s, cell, 0, ir.DBL)
            e.oblige(s, z3.And(t >= -1, t <= 2), 'post', 'search, convergence, warning or error')
            e.oblige(s, i2z(S.get(s, 'task')) == t, 'post', 'pending task is the returned one')
            e.oblige(s, S.inside(s, v, new), 'post', 'the step stays inside its bounds')
            e.oblige(s, F.same(S.get(s, 'stp'), new), 'post', 'the step to try is the current step')
            if acc is not None:
                e.oblige(s, (t == en('OPK_LNSRCH_CONVERGENCE')) == acc(), 'post', 'convergence exactly when the acceptance test is satisfied')
                e.oblige(s, z3.Implies(t == en('OPK_LNSRCH_CONVERGENCE'), F.cmp('oeq', new, v['stp'])), 'post', 'the accepted step is the one that was tried')
                stat = i2z(S.get(s, 'status'))
                e.oblige(s, z3.Implies(z3.Or(t == 0, t == 1), stat == en('OPK_SUCCESS')), 'post', 'status of a successful search')
                e.oblige(s, z3.Implies(t == 2, z3.Or([stat == en(q) for q in ('OPK_STEP_EQ_STPMIN', 'OPK_STEP_EQ_STPMAX', 'OPK_XTOL_TEST_SATISFIED', 'OPK_ROUNDING_ERRORS_PREVENT_PROGRESS')])), 'post', 'documented warning')
                e.oblige(s, z3.Implies(t == -1, z3.Or([stat == en(q) for q in ('OPK_STEP_OUTSIDE_BRACKET', 'OPK_NOT_A_DESCENT', 'OPK_STPMIN_GT_STPMAX')])), 'post', 'documented error')
                e.oblige(s, z3.Implies(t == 2, z3.And(z3.Implies(stat == en('OPK_STEP_EQ_STPMIN'), F.cmp('oeq', new, v['stpmin']) if kind != 'nonmonotone' else S.inside(s, v, new)),
                                                      z3.Implies(stat == en('OPK_STEP_EQ_STPMAX'), F.cmp('oeq', new, v['stpmax'])))), 'post', 'bound warnings only at the bound')
            else:
                e.oblige(s, len(ticks(s, 'iterate')) == 1, 'post', 'the method is iterated once')
                e.oblige(s, z3.Or(t == S.custom_task, z3.And(S.custom_task == 0, t == 2)), 'post', 'the outcome of the method is kept, except that a search stuck at a bound ends')
                stuck = z3.Or(z3.And(F.cmp('ole', v['stp'], v['stpmin']), F.cmp('ole', new, v['stpmin'])),
                              z3.And(F.cmp('oge', v['stp'], v['stpmax']), F.cmp('oge', new, v['stpmax'])))
                e.oblige(s, z3.Implies(z3.And(S.custom_task == 0, t == 2), stuck), 'post', 'ended only when the step stays at a bound')
                e.oblige(s, z3.Implies(z3.And(S.custom_task == 0, t == 0), z3.Not(z3.And(stuck, F.cmp('olt', v['stpmin'], v['stpmax'])))), 'post', 'a search stuck at a bound is ended')
            for q in ('stpmin', 'stpmax', 'finit', 'ginit'):
                e.oblige(s, F.same(S.get(s, q), v[q]), 'frame', '%s is unchanged' % q)
            if kind == 'nonmonotone':
                for q, ty in (('mp', ir.I64), ('m', ir.I64), ('fmax', ir.DBL)):
                    e.oblige(s, veq(e, e.cell(s, S.ls, nm_off(S, q), ty), e.cell(snap, S.ls, nm_off(S, q), ty)), 'frame', 'remembered values are unchanged')
                for x, y in zip(snap.mem[S.ls.r.id].arrs, s.mem[S.ls.r.id].arrs):
                    e.oblige(s, b2z(x is y or x.eq(y)), 'frame', 'remembered values are unchanged')
            for nm, val in S.par.items():
                pass
            nothing_changed(env, s, snap, allow=[S.ls, cell])
        return env.fn('opk_lnsrch_iterate'), st, [S.ls, cell, f, g], post
    return make


def refused(kind, how):
    def make(e):
        S = Search(e, kind)
        env, F, st = S.env, S.F, S.env.st
        en = env.enum
        v = S.searching(st)
        cellv = v['stp']
        if how == 'not searching':
            t = e.fresh_int(st, 'task', 32)
            st.assume(z3.And(t >= -1, t <= 2, t != 0))
            S.set(st, 'task', t)
            cellv = F.fresh('anystep', 64)
            want = 'OPK_NOT_STARTED'
        elif how == 'new':
            S = Search(e, kind)
            env, st = S.env, S.env.st
            want, cellv = 'OPK_NOT_STARTED', F.fresh('anystep', 64)
        else:
            cellv = F.fresh('anystep', 64)
            st.assume(z3.Not(F.cmp('oeq', cellv, v['stp'])))
            want = 'OPK_STEP_CHANGED'
        cell = S.step_cell(st, cellv)
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == en('OPK_LNSRCH_ERROR'), 'post', 'refused with an error')
            e.oblige(s, i2z(S.get(s, 'task')) == en('OPK_LNSRCH_ERROR'), 'post', 'pending task')
            e.oblige(s, i2z(S.get(s, 'status')) == en(want), 'post', 'documented status')
            e.oblige(s, F.same(e.cell(s, cell, 0, ir.DBL), cellv), 'post', 'the step is not modified')
            e.oblige(s, not ticks(s, 'iterate'), 'post', 'the method is not called')
            nothing_changed(env, s, snap, allow=[S.ls])
        return env.fn('opk_lnsrch_iterate'), st, [S.ls, cell, F.fresh('f', 64), F.fresh('g', 64)], post
    return make


def null_unit(fn, args, want):
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd', mods=MODS)
        a = args(env)
        snap = env.st.fork()

        def post(e, s, r):
            w = want(env)
            e.oblige(s, env.F.same(r, w) if env.F.is_fp(r) else i2z(r) == w, 'post', 'documented result for a missing argument')
            nothing_changed(env, s, snap)
        return env.fn(fn), env.st, a, post
    return make


def accessors(e):
    S = Search(e, 'backtrack')
    env, F, st = S.env, S.F, S.env.st
    en = env.enum
    v = S.searching(st)
    t = e.fresh_int(st, 'task', 32)
    st.assume(z3.And(t >= -1, t <= 2))
    S.set(st, 'task', t)
    snap = st.fork()
    call = lambda n: e.call_fn(snap.fork(), env.fn(n), [S.ls])
    for s, r in call('opk_lnsrch_get_step'):
        e.oblige(s, z3.If(t == 0, F.same(r, v['stp']), F.same(r, F.const(Fraction(-1), 64))), 'post', 'step while searching, -1 otherwise')
    for s, r in call('opk_lnsrch_get_status'):
        e.oblige(s, i2z(r) == i2z(S.get(snap, 'status')), 'post', 'status')
    for n, w in (('has_errors', -1), ('has_warnings', 2), ('converged', 1)):
        for s, r in call('opk_lnsrch_' + n):
            e.oblige(s, (i2z(r) != 0) == (t == w), 'post', n)
    for s, r in call('opk_lnsrch_finished'):
        e.oblige(s, (i2z(r) != 0) == (t != 0), 'post', 'finished')
    for s, r in call('opk_lnsrch_use_deriv'):
        e.oblige(s, i2z(r) == 0, 'post', 'slopes are not needed by backtracking')

    def post(e, s, r):
        e.oblige(s, i2z(r) == t, 'post', 'task')
        nothing_changed(env, s, snap)
    return env.fn('opk_lnsrch_get_task'), st, [S.ls], post


def ctor(kind):
    def make(e):
        env = Env(e, 'd', mods=MODS)
        F, st = env.F, env.st
        c = lambda x: F.const(Fraction(x), 64)
        d = lambda nm: F.fresh(nm, 64)
        e.malloc_fails = True
        if kind == 'backtrack':
            a = [d('ftol'), d('amin')]
            ok = z3.And(F.cmp('ogt', a[0], c(0)), F.cmp('ole', a[0], c('1/2')), F.cmp('ogt', a[1], c(0)), F.cmp('olt', a[1], c(1)))
        elif kind == 'csrch':
            a = [d('ftol'), d('gtol'), d('xtol')]
            ok = z3.And([F.cmp('oge', x, c(0)) for x in a])
        else:
            m = e.fresh_int(st, 'm')
            a = [m, d('ftol'), d('sigma1'), d('sigma2')]
            ok = z3.And(m >= 1, F.fin(a[1]), F.cmp('ogt', a[1], c(0)), F.cmp('ogt', a[2], c(0)), F.cmp('olt', a[2], a[3]), F.cmp('olt', a[3], c(1)))
        snap = st.fork()

        def post(e, s, r):
            if r.r is None:
                if 'oom' in s.flags:
                    e.oblige(s, ok, 'post', 'invalid parameters are refused before any allocation')
                else:
                    big = m >= 2 ** 59 if kind == 'nonmonotone' else z3.BoolVal(False)
                    e.oblige(s, z3.Or(z3.Not(ok), big), 'post', 'valid parameters are accepted')
                    er = getattr(e, 'errno_region', None)
                    e.oblige(s, er is not None and z3.Implies(z3.Not(ok), i2z(e.load_cell(s, er, 0, ir.I32)) == EINVAL), 'post', 'error number of invalid parameters')
                no_leak(env, s, snap)
                return
            e.oblige(s, ok, 'post', 'invalid parameters are refused')
            for s2, t in e.call_fn(s.fork(), env.fn('opk_lnsrch_get_task'), [r]):
                e.oblige(s2, i2z(t) == env.enum('OPK_LNSRCH_ERROR'), 'post', 'not started')
            for s2, t in e.call_fn(s.fork(), env.fn('opk_lnsrch_get_status'), [r]):
                e.oblige(s2, i2z(t) == env.enum('OPK_NOT_STARTED'), 'post', 'not started')
            nothing_changed(env, s, snap)
        return env.fn('opk_lnsrch_new_' + kind), st, a, post
    return make


CELLS = ('stx', 'fx', 'dx', 'sty', 'fy', 'dy', 'stp')


def cstep_relation(e, F, old, new, b, bnew, fp_, dp, lo, hi, r, en):
    """what opk_cstep guarantees for any values, NaN included: [(what, formula)]"""
    z = F.const(Fraction(0), 64)
    c = F.cmp
    outside = z3.And(b != 0, z3.If(c('olt', old['stx'], old['sty']), z3.Or(c('ole', old['stp'], old['stx']), c('oge', old['stp'], old['sty'])),
                                   z3.Or(c('ole', old['stp'], old['sty']), c('oge', old['stp'], old['stx']))))
    notdesc = c('oge', F.mul(old['dx'], F.sub(old['stp'], old['stx'])), z)
    badb = c('olt', hi, lo)
    ok = r == en('OPK_SUCCESS')
    out = [('refused exactly when bracket, slope or bounds are inconsistent', ok == z3.Not(z3.Or(outside, notdesc, badb)))]
    for q, w in (('OPK_STEP_OUTSIDE_BRACKET', outside), ('OPK_NOT_A_DESCENT', notdesc), ('OPK_STPMIN_GT_STPMAX', badb)):
        out.append(('documented status ' + q, z3.Implies(r == en(q), w)))
    out.append(('documented status', z3.Or([r == en(q) for q in ('OPK_SUCCESS', 'OPK_STEP_OUTSIDE_BRACKET', 'OPK_NOT_A_DESCENT', 'OPK_STPMIN_GT_STPMAX')])))
    out.append(('nothing is modified on error', z3.Implies(z3.Not(ok), z3.And([F.same(new[n], old[n]) for n in CELLS] + [bnew == b]))))
    worse = c('ogt', fp_, old['fx'])
    same3 = lambda a, v: z3.And([F.same(x, y) for x, y in zip(a, v)])
    X, Y = [new[n] for n in CELLS[:3]], [new[n] for n in CELLS[3:6]]
    trial, oldx, oldy = (old['stp'], fp_, dp), [old[n] for n in CELLS[:3]], [old[n] for n in CELLS[3:6]]
    opp = z3.Or(z3.And(c('olt', dp, z), c('ogt', old['dx'], z)), z3.And(c('ogt', dp, z), c('olt', old['dx'], z)))
    out.append(('the best step is the one with the least function value', z3.Implies(ok, z3.If(worse, same3(X, oldx), same3(X, trial)))))
    out.append(('the other end of the interval', z3.Implies(ok, z3.If(worse, same3(Y, trial), z3.If(opp, same3(Y, oldx), same3(Y, oldy))))))
    out.append(('bracketed once a higher value or an opposite slope is seen', z3.Implies(ok, (bnew != 0) == z3.Or(b != 0, worse, opp))))
    out.append(('the bracketing flag is a truth value', z3.And(bnew >= 0, bnew <= 1)))
    return out


def cstep_contract(e, st, a, ins):
    """contract of opk_cstep (proved by the unit of that name) at its call sites"""
    F = e.fp
    old = {n: e.load(st, p, ir.DBL) for n, p in zip(CELLS, a[:7])}
    b = i2z(e.load(st, a[9], ir.I32))
    e.oblige(st, z3.And(b >= 0, b <= 1), 'pre', 'the bracketing flag is a truth value')
    new = {n: F.fresh(n + "_new", 64) for n in CELLS}
    bnew, r = e.fresh_int(st, 'brackt', 32), e.fresh_int(st, 'status', 32)
    en = lambda q: next(m.layout['#enum'][q] for m in e.mods if q in m.layout['#enum'])
    for _, f in cstep_relation(e, F, old, new, b, bnew, a[7], a[8], a[10], a[11], r, en):
        st.assume(f)
    for n, p in zip(CELLS, a[:7]):
        e.store(st, p, ir.DBL, new[n])
    e.store(st, a[9], ir.I32, bnew)
    return [(st, r)]


def cstep(e):
    e.malloc_fails = False
    env = Env(e, 'd', mods=MODS)
    F, st = env.F, env.st
    v = {n: F.fresh(n, 64) for n in CELLS}
    reg = {}
    for n in CELLS:
        reg[n] = e.new_region(st, n, size=8)
        e.set_cell(st, reg[n], 0, ir.DBL, v[n])
    b = e.fresh_int(st, 'brackt', 32)
    st.assume(z3.And(b >= 0, b <= 1))
    br = e.new_region(st, 'brackt', size=4)
    e.set_cell(st, br, 0, ir.I32, b)
    fp_, dp, lo, hi = [F.fresh(x, 64) for x in ('fp', 'dp', 'stpmin', 'stpmax')]
    snap = st.fork()

    def post(e, s, r):
        new = {n: e.cell(s, reg[n], 0, ir.DBL) for n in CELLS}
        for what, f in cstep_relation(e, F, v, new, b, i2z(e.cell(s, br, 0, ir.I32)), fp_, dp, lo, hi, i2z(r), env.enum):
            e.oblige(s, f, 'post', what)
        nothing_changed(env, s, snap, allow=[Ptr(reg[n]) for n in CELLS] + [Ptr(br)])
    return env.fn('opk_cstep'), st, [Ptr(reg[n]) for n in CELLS[:6]] + [Ptr(reg['stp']), fp_, dp, Ptr(br), lo, hi], post


def units(tier):
    out = []

    def add(name, desc, make, **kw):
        out.append(dict(name=name, desc=desc, make=make, **kw))
    for k in ('custom', 'backtrack', 'nonmonotone', 'csrch'):
        add('opk_lnsrch_start/' + k, 'refuses invalid bounds, step and slope; records the start', start_unit(k), cost=5)
        add('opk_lnsrch_iterate/' + k, 'step inside its bounds; convergence exactly by the acceptance test', iterate_unit(k), cost=9 if k == 'csrch' else 4)
        for how in ('not searching', 'new', 'step changed'):
            add('opk_lnsrch_iterate/%s/%s' % (k, how), 'refused', refused(k, how))
    for k in ('backtrack', 'nonmonotone', 'csrch'):
        add('opk_lnsrch_new_' + k, 'accepts exactly the documented parameters', ctor(k))
    err = lambda env: env.enum('OPK_LNSRCH_ERROR')
    fv = lambda env, n: [env.F.fresh('v%d' % i, 64) for i in range(n)]
    add('opk_lnsrch_start/missing', 'error', null_unit('opk_lnsrch_start', lambda env: [NULL] + fv(env, 5), err))
    add('opk_lnsrch_iterate/missing', 'error', null_unit('opk_lnsrch_iterate', lambda env: [NULL, NULL] + fv(env, 2), err))
    for f, w in (('get_step', None), ('get_task', err), ('get_status', lambda env: env.enum('OPK_ILLEGAL_ADDRESS')), ('has_errors', lambda env: 1), ('has_warnings', lambda env: 0),
                 ('converged', lambda env: 0), ('finished', lambda env: 1)):
        add('opk_lnsrch_%s/missing' % f, 'documented value', null_unit('opk_lnsrch_' + f, lambda env: [NULL], w or (lambda env: env.F.const(Fraction(-1), 64))))
    add('accessors', 'task, status, step and predicates', accessors)
    add('opk_cstep', 'interval update of the cubic search', cstep)
    return out
