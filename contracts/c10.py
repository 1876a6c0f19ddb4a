"""C10 -- the conjugate gradient optimizer follows its protocol, its update rules and counts faithfully."""
from .c09 import *
from .c03 import METHODS as RULES

SOURCES = ['src/nlcg.c']
HARNESS = dict(src='c10.c', always=True, bounded='random histories of objective values, gradients and line search outcomes, n <= 8, 60 calls')
OPTF = (('delta', '>'), ('epsilon', '<1'), ('grtol', '>='), ('gatol', '>='), ('stpmin', '>='), ('stpmax', '>='))
STRUCT = 'opk_nlcg_'
FEW = ('FLETCHER_REEVES', 'FLETCHER')      # rules that do not need the previous gradient


def flag(m, name):
    return build.macros().get(name)


FLAGS = {n: i + 1 for i, n in enumerate(RULES)}
POWELL, SHANNO = 1 << 8, 1 << 9


def options(e, m, st, name='options'):
    F = e.fp
    lay = next(m.layout[k] for k in ('opk_nlcg_options_', 'opk_nlcg_options') if k in m.layout)
    p = Ptr(e.new_region(st, name, size=m.layout['#size'].get('opk_nlcg_options_')))
    v = {f: e.cell(st, p, lay[f], ir.DBL) for f, _ in OPTF + (('fmin', ''),)}
    v.update({f: e.cell(st, p, lay[f], t) for f, t in (('flags', ir.I32), ('fmin_given', ir.I32))})
    z, one = F.const(Fraction(0), 64), F.const(Fraction(1), 64)
    ok = [F.fin(v[f]) for f, _ in OPTF]
    ok += [F.cmp('ogt' if f == 'delta' else 'oge', v[f], z) for f, _ in OPTF if f != 'stpmax']
    ok += [F.cmp('olt', v['epsilon'], one), F.cmp('ogt', v['stpmax'], v['stpmin']), z3.Implies(v['fmin_given'] != 0, F.fin(v['fmin']))]
    return p, z3.And(ok), v, lay


def check_options(e):
    m = build.module('src/nlcg.c')
    e.add_module(m)
    st = State()
    p, ok, v, lay = options(e, m, st)
    E = m.layout['#enum']
    f = e.funcs['opk_check_nlcg_options']
    ob = lambda s, g, w: e.oblige(s, g, 'post', w)
    for s, r in e.call_fn(st.fork(), f, [NULL]):
        ob(s, i2z(r) == E['OPK_ILLEGAL_ADDRESS'], 'missing options')
    for s, r in e.call_fn(st.fork(), e.funcs['opk_get_nlcg_default_options'], [p]):
        for s2, r2 in e.call_fn(s, f, [p]):
            ob(s2, i2z(r2) == E['OPK_SUCCESS'], 'the default options are valid')
        fl = i2z(e.cell(s, p, lay['flags'], ir.I32))
        ob(s, fl == FLAGS['POLAK_RIBIERE_POLYAK'] + POWELL + SHANNO, 'the default update rule')
    for s, r in e.call_fn(st.fork(), e.funcs['opk_get_nlcg_default_options'], [NULL]):
        nothing_changed(EnvLike(e), s, st)
    snap = st.fork()

    def post(e, s, r):
        ob(s, i2z(r) == z3.If(ok, E['OPK_SUCCESS'], E['OPK_INVALID_ARGUMENT']), 'options are accepted exactly when all are in their range')
        nothing_changed(EnvLike(e), s, snap)
    return f, st, [p], post


class World:
    """the objects an optimizer is built from, and the contracts of their constructors"""

    def __init__(self, e, rule, bits, ls=1, defaults=False, valid=True):
        e.malloc_fails = False
        self.e, self.F = e, e.fp
        self.m = m = build.module('src/nlcg.c')
        e.add_module(build.module('src/algebra.c'))
        e.add_module(m)
        self.st = st = State()
        self.L = m.layout[STRUCT]
        self.vs = Vecs(e, st, self.F)
        e.mixghosts = {'V'}
        self.p, self.ok, self.v, self.lay = options(e, m, st)
        if valid:
            st.assume(self.ok)
        self.fl = fl = rule if isinstance(rule, z3.ExprRef) else (FLAGS[rule] if rule else 0) + bits
        e.set_cell(st, self.p, self.lay['flags'], ir.I32, fl)
        self.space = self.vs.obj(st, 'space')
        self.space.t, = (self.space.t,)
        self.ls = self.vs.obj(st, 'lnsrch') if ls else NULL
        self.newls = self.vs.obj(st, 'newlnsrch')
        self.x, self.g = self.vs.obj(st, 'x'), self.vs.obj(st, 'g')
        self.work = []
        n0 = [0]

        def vcreate(e, s, a, ins):
            e.oblige(s, veq(e, a[0], self.space), 'pre', 'work vectors belong to the space of the variables')
            k = len(ticks(s, 'vcreate'))
            tick(s, 'vcreate')
            while len(self.work) <= k:
                self.work.append(self.vs.obj(self.st, 'work%d' % len(self.work)))
            for w in self.vs.ids.values():
                if not w.eq(self.work[k].t):
                    s.assume(w != self.work[k].t)
            s.assume(self.work[k].t >= 1)
            return [(s, self.work[k])]

        def newls(k):
            def h(e, s, a, ins):
                tick(s, 'newls', k)
                return [(s, self.newls)]
            return h
        C = e.contracts
        C['opk_vcreate'] = vcreate
        C['opk_hold_object'] = lambda e, s, a, ins: [(s, a[0])]
        C['opk_lnsrch_new_backtrack'], C['opk_lnsrch_new_csrch'], C['opk_lnsrch_new_nonmonotone'] = newls('backtrack'), newls('csrch'), newls('nonmonotone')
        self.make = [NULL if defaults else self.p, self.space, self.ls]

    def enum(self, n):
        return self.m.layout['#enum'][n]


class Nlcg(World):
    """an optimizer made by the real constructor, then in an arbitrary state satisfying the object invariant"""

    def __init__(self, e, rule, bits, task):
        super().__init__(e, rule, bits)
        F, vs, st = self.F, self.vs, self.st
        outs = [(s, r) for s, r in e.call_fn(st, e.funcs['opk_new_nlcg_optimizer'], self.make) if isinstance(r, Ptr) and r.r is not None]
        if len(outs) != 1:
            raise Unsupported('constructor has %d outcomes' % len(outs))
        st, self.opt = outs[0]
        self.st = st
        self.rule, self.bits = rule, bits
        P = lambda f: self.get(st, f, ir.PTR)
        self.x0, self.g0, self.d, self.y = P('x0'), P('g0'), P('d'), P('y')
        self.has = rule not in FEW
        # the state after any history
        st.g['V'] = z3.FreshConst(z3.ArraySort(I, I), 'V')
        self.D0 = ('f0', 'g0norm', 'gnorm', 'dtg0', 'dtg', 'ginit', 'alpha', 'beta')
        for f in self.D0:
            self.set(st, f, F.fresh(f, 64), ir.DBL)
        for f in ('evaluations', 'iterations', 'restarts'):
            v = e.fresh_int(st, f)
            st.assume(z3.And(v >= 0, v < 2 ** 60))
            self.set(st, f, v, ir.I64)
        self.set(st, 'task', self.enum('OPK_TASK_' + task) if isinstance(task, str) else task, ir.I32)
        self.set(st, 'status', e.fresh_int(st, 'status', 32), ir.I32)
        self.ev, self.it, self.rs = [self.get(st, f, ir.I64) for f in ('evaluations', 'iterations', 'restarts')]
        for f in self.D0 + tuple(f for f, _ in OPTF) + ('fmin',):
            setattr(self, 'v_' + f, self.get(st, f))
        self.task = task
        if not isinstance(task, str):
            task = None
        if task == 'COMPUTE_FG':
            st.assume(z3.And(z3.Implies(self.ev >= 1, self.it <= self.ev - 1), self.it <= self.ev))
        if task in ('NEW_X', 'FINAL_X'):
            st.assume(z3.And(self.ev >= 1, self.it <= self.ev - 1, z3.Implies(self.ev >= 2, self.it >= 1)))
        self.X, self.G = vs.ver(st, self.x), vs.ver(st, self.g)
        self.f = F.fresh('f', 64)
        self.D = vs.ver(st, self.d)
        if task in ('NEW_X', 'FINAL_X'):
            vs.norm(st, self.g)
            st.assume(F.same(self.v_gnorm, vs.fnorm['norm2'](self.G)))
            st.assume(z3.Implies(self.ev >= 2, z3.And(F.same(self.v_dtg, F.neg(vs.dot(st, self.d, self.g))), F.cmp('olt', self.v_dtg0, vs.const0))))
        elif task == 'COMPUTE_FG':
            st.assume(z3.Implies(self.ev >= 1, F.cmp('olt', self.v_dtg0, vs.const0)))
        st.assume(z3.Or(F.nan(self.v_g0norm), F.cmp('oge', self.v_g0norm, vs.const0)))
        self.snap = st.fork()

    def set(self, st, f, v, ty):
        self.e.set_cell(st, self.opt, self.L[f], ty, v)

    def get(self, st, f, ty=ir.DBL):
        return self.e.cell(st, self.opt, self.L[f], ty)

    def geti(self, st, f):
        return i2z(self.get(st, f, ir.I64))

    def ob(self, s, f, what):
        self.e.oblige(s, b2z(f) if isinstance(f, bool) else f, 'post', what)

    def common(self, q, t):
        e, F = self.e, self.F
        self.ob(q, i2z(self.get(q, 'task', ir.I32)) == self.enum('OPK_TASK_' + t), 'pending task is the returned one')
        if t != 'ERROR':
            self.ob(q, i2z(self.get(q, 'status', ir.I32)) == self.enum('OPK_SUCCESS'), 'status')
        self.ob(q, self.vs.ver(q, self.g) == self.G, 'the gradient of the caller is not modified')
        nothing_changed(EnvLike(e), q, self.snap, allow=[self.opt])
        for f in ('lnsrch', 'vspace', 'x0', 'g0', 'd', 'y', 'update'):
            e.oblige(q, veq(e, self.get(q, f, ir.PTR), self.get(self.snap, f, ir.PTR)), 'inv', 'component %s stays the same object' % f)
        for f, _ in OPTF + (('fmin', ''),):
            e.oblige(q, F.same(self.get(q, f), self.get(self.snap, f)), 'inv', 'option %s stays the same' % f)
        for f in ('flags', 'fmin_given'):
            e.oblige(q, i2z(self.get(q, f, ir.I32)) == i2z(self.get(self.snap, f, ir.I32)), 'inv', '%s stays the same' % f)
        ev, it, rs = self.geti(q, 'evaluations'), self.geti(q, 'iterations'), self.geti(q, 'restarts')
        n0 = self.get(q, 'g0norm')
        e.oblige(q, z3.Or(F.nan(n0), F.cmp('oge', n0, self.vs.const0)), 'inv', 'norm is not negative')
        if t == 'COMPUTE_FG':
            e.oblige(q, z3.And(it >= 0, it <= ev, rs >= 0, z3.Implies(ev >= 1, z3.And(it <= ev - 1, F.cmp('olt', self.get(q, 'dtg0'), self.vs.const0)))), 'inv', 'counters are consistent')
        elif t != 'ERROR':
            e.oblige(q, z3.And(ev >= 1, it >= 0, rs >= 0, it <= ev - 1, z3.Implies(ev >= 2, z3.And(it >= 1, F.cmp('olt', self.get(q, 'dtg0'), self.vs.const0)))), 'inv', 'counters are consistent')
            e.oblige(q, z3.Implies(ev >= 2, F.same(self.get(q, 'dtg'), F.neg(self.vs.fdot(self.vs.ver(q, self.d), self.G)))), 'inv', 'slope at the iterate')
            e.oblige(q, F.same(self.get(q, 'gnorm'), self.vs.fnorm['norm2'](self.G)), 'inv', 'gradient norm of the iterate')

    def trial(self, q, x0ver):
        F, vs = self.F, self.vs
        E = vs.el(q, self.x)
        t = vs.axpby(vs.one, vs.elem(x0ver), F.neg(self.get(q, 'alpha')), vs.el(q, self.d))
        self.ob(q, F.same(E, t), 'the trial point is the start of the search minus step times direction')


def iterate_fg(rule):
    def make(e):
        o = Nlcg(e, rule, POWELL, 'COMPUTE_FG')
        F, vs, st = o.F, o.vs, o.st
        first = o.ev == 0
        X0 = vs.ver(st, o.x0)
        watch = {f: vs.ver(st, getattr(o, f)) for f in ('x0', 'd') + (('g0',) if o.has else ())}

        def post(e, s, r):
            for t, q in cases(o, s, r, ['COMPUTE_FG', 'NEW_X', 'FINAL_X', 'ERROR']):
                ls = bool(ticks(q, 'ls_iterate'))
                acc = t in ('NEW_X', 'FINAL_X')
                o.ob(q, o.geti(q, 'evaluations') == o.ev + 1, 'each evaluation is counted once')
                o.ob(q, o.geti(q, 'restarts') == o.rs, 'no restart is counted')
                if t != 'ERROR':
                    o.ob(q, o.geti(q, 'iterations') == (o.it + z3.If(first, 0, 1) if acc else o.it), 'an iteration is counted exactly when a new iterate is announced')
                if t != 'COMPUTE_FG':
                    o.ob(q, vs.ver(q, o.x) == o.X, 'the variables are unchanged')
                for f, v in watch.items():
                    o.ob(q, vs.ver(q, getattr(o, f)) == v, '%s of the search is kept' % f)
                for f in ('dtg0', 'f0', 'g0norm'):
                    o.ob(q, F.same(o.get(q, f), getattr(o, 'v_' + f)), '%s of the search is kept' % f)
                o.common(q, t)
                o.ob(q, len(ticks(q, 'ls_iterate')) <= 1 and not ticks(q, 'ls_start'), 'the line search is consulted once')
                o.ob(q, first != b2z(ls), 'the line search is consulted for every trial point')
                if ls:
                    L = q.g['ls_iter']
                    o.ob(q, veq(e, L[0], o.ls), 'line search of the optimizer')
                    o.ob(q, z3.And(F.same(L[1], o.v_alpha), F.same(L[2], o.f)), 'the line search gets the current step and the function value')
                    o.ob(q, z3.Implies(z3.Bool('ls_uses_derivative'), F.same(L[3], F.neg(vs.fdot(o.D, o.G)))), 'the line search gets the directional derivative')
                    task, ws = q.g['ls_task'], q.g['ls_status']
                    O = o.m.layout['#enum']
                    ok = z3.Or(task == O['OPK_LNSRCH_CONVERGENCE'], z3.And(task == O['OPK_LNSRCH_WARNING'], ws == O['OPK_ROUNDING_ERRORS_PREVENT_PROGRESS']))
                    if t == 'COMPUTE_FG':
                        o.ob(q, task == O['OPK_LNSRCH_SEARCH'], 'another evaluation is requested exactly when the line search asks for it')
                        o.ob(q, F.same(o.get(q, 'alpha'), q.g['ls_step']), 'the step is the one of the line search')
                        o.trial(q, X0)
                    elif acc:
                        o.ob(q, ok, 'an iterate is accepted exactly when the line search accepts it')
                    else:
                        o.ob(q, z3.And(task != O['OPK_LNSRCH_SEARCH'], z3.Not(ok)), 'failure only when the line search failed')
                        o.ob(q, i2z(o.get(q, 'status', ir.I32)) == ws, 'status reports the failure')
                else:
                    o.ob(q, acc, 'the starting point is the first iterate')
                if acc:
                    gn, gi = o.get(q, 'gnorm'), o.get(q, 'ginit')
                    want = vs.fnorm['norm2'](o.G)
                    o.ob(q, F.same(gn, want), 'the reported norm is that of the gradient')
                    o.ob(q, z3.If(first, F.same(gi, want), F.same(gi, o.v_ginit)), 'the reference norm is that of the first point')
                    tests = z3.Or(F.cmp('ole', gn, vs.const0), F.cmp('ole', gn, o.v_gatol), F.cmp('ole', gn, F.mul(o.v_grtol, gi)))
                    o.ob(q, tests == b2z(t == 'FINAL_X'), 'convergence is declared exactly when the threshold is reached')
        return e.funcs['opk_iterate_nlcg'], st, [o.opt, o.x, o.f, o.g], post
    return make


def iterate_newx(rule, bits, task):
    def make(e):
        o = Nlcg(e, rule, bits, task)
        F, vs, st = o.F, o.vs, o.st
        real = F.name == 'reals'
        G, D = o.G, o.D
        if real:
            sp = formulas(o)

        def post(e, s, r):
            for t, q in cases(o, s, r, ['COMPUTE_FG', 'ERROR']):
                for f, v in (('evaluations', o.ev), ('iterations', o.it)):
                    o.ob(q, o.geti(q, f) == v, '%s are not counted here' % f)
                o.common(q, t)
                o.ob(q, len(ticks(q, 'ls_start')) == 1 and not ticks(q, 'ls_iterate'), 'one line search is started')
                for f in ('gnorm', 'ginit'):
                    o.ob(q, F.same(o.get(q, f), getattr(o, 'v_' + f)), '%s unchanged' % f)
                E = o.m.layout['#enum']
                L = q.g['ls_start']
                o.ob(q, veq(e, L[0], o.ls), 'line search of the optimizer')
                o.ob(q, F.same(L[1], o.f), 'the search starts at the function value of the iterate')
                al = o.get(q, 'alpha')
                o.ob(q, F.same(L[3], al), 'the search starts with the step used for the trial point')
                o.ob(q, z3.And(F.same(L[4], F.mul(o.v_stpmin, al)), F.same(L[5], F.mul(o.v_stpmax, al))), 'step bounds are relative to the first step')
                V = lambda p: vs.ver(q, p)
                dver = V(o.d)
                o.ob(q, F.same(o.get(q, 'dtg0'), L[2]), 'slope at the start of the search is kept')
                o.ob(q, V(o.x0) == o.X, 'the search starts from the iterate')
                o.ob(q, z3.And(F.same(o.get(q, 'f0'), o.f), F.same(o.get(q, 'g0norm'), o.v_gnorm)), 'function value and norm at the start are kept')
                if o.has:
                    o.ob(q, V(o.g0) == G, 'the gradient at the start is kept')
                rs = o.geti(q, 'restarts')
                gg = F.mul(o.v_gnorm, o.v_gnorm)
                steep = z3.And(F.same(L[2], F.neg(gg)), dver == G, F.cmp('oeq', o.get(q, 'beta'), vs.const0))
                quasi = z3.And(F.same(L[2], F.neg(vs.fdot(dver, G))), F.cmp('olt', L[2], vs.const0))
                isrs = rs == o.rs + z3.If(o.ev >= 2, 1, 0)
                o.ob(q, z3.Or(rs == o.rs, rs == o.rs + 1), 'at most one restart')
                o.ob(q, z3.Or(z3.And(steep, isrs), z3.And(o.ev >= 2, quasi, rs == o.rs)), 'the search follows a descent direction with its slope, or the steepest descent (a restart)')
                if real:
                    sp(q, L, dver, rs)
                okl = q.g['ls_task'] == E['OPK_LNSRCH_SEARCH']
                if t == 'COMPUTE_FG':
                    # C07: a search can only be started with a negative slope
                    q.assume(z3.Implies(okl, F.cmp('olt', L[2], vs.const0)))
                    o.ob(q, okl, 'an evaluation is requested when the line search could be started')
                    o.trial(q, o.X)
                else:
                    o.ob(q, z3.And(z3.Not(okl), i2z(o.get(q, 'status', ir.I32)) == q.g['ls_status']), 'failure of the line search is reported')
                    o.ob(q, V(o.x) == o.X, 'the variables are unchanged')
        old = e.contracts['opk_lnsrch_start']

        def ls_start(e, s, a, ins):
            out = old(e, s, a, ins)
            for q, t in out:
                q.assume(z3.Implies(t == o.enum('OPK_LNSRCH_SEARCH'), F.cmp('olt', a[2], vs.const0)))
            return out
        e.contracts['opk_lnsrch_start'] = ls_start
        return e.funcs['opk_iterate_nlcg'], st, [o.opt, o.x, o.f, o.g], post
    return make


def formulas(o):
    """documented update rules, machine arithmetic treated as mathematical"""
    st, vs, F, G, D = o.st, o.vs, o.F, o.G, o.D
    dot = vs.fdot
    el = vs.elem
    gg, g0, dtg0, dtg, gn = dot(G, G), o.v_g0norm, o.v_dtg0, o.v_dtg, o.v_gnorm
    st.assume(z3.And(gn >= 0, gn * gn == gg))
    st.assume(z3.Implies(o.ev >= 2, g0 > 0))
    vs.probes.append(G)
    st.assume(dot(D, G) == dot(G, D))
    s_, p_ = o.bits & SHANNO, o.bits & POWELL

    def check(q, L, dver, rs):
        ob = lambda c, w: o.ob(q, c, w)
        slope, al, beta = L[2], o.get(q, 'alpha'), o.get(q, 'beta')
        restart = rs == o.rs + 1
        first = o.ev == 1
        if o.has:
            Y = vs.ver(q, o.y)
            G0 = vs.ver(st, o.g0)
            r = q.fork().assume(z3.And(z3.Not(first)))
            o.ob(r, el(Y) == el(G) - el(G0), 'y is the difference of the last two gradients')
            gy, dy, yy = dot(G, Y), -dot(D, Y), dot(Y, Y)
        rule = o.rule
        # beta n/d
        nz = z3.BoolVal(True)
        if rule == 'FLETCHER_REEVES':
            n, d = gg, g0 * g0
        elif rule == 'FLETCHER':
            n, d = -gg, dtg0
        elif rule == 'HESTENES_STIEFEL':
            n, d = gy, dy
        elif rule == 'POLAK_RIBIERE_POLYAK':
            n, d = gy, g0 * g0
        elif rule == 'LIU_STOREY':
            n, d = -gy, dtg0
        elif rule == 'DAI_YUAN':
            n, d = gg, dy
        elif rule == 'HAGER_ZHANG':
            n, d = gy - 2 * yy * dtg / dy, dy
        k = q.fork().assume(z3.And(z3.Not(first), z3.Not(restart)))
        if rule == 'PERRY_SHANNO':
            o.ob(k, z3.And(yy > 0, dy != 0), 'Perry & Shanno update only when defined')
            c1, c2, c3 = dy / yy, gy / yy - 2 * dtg / dy, -dtg / yy
            o.ob(k, el(dver) == c1 * el(G) + c2 * el(D) + c3 * el(Y), 'new direction of Perry & Shanno')
            o.ob(k, z3.Implies(c1 != 0, beta * c1 == c2), 'beta')
        else:
            o.ob(k, d != 0, 'the update rule is defined')
            o.ob(k, beta * d == n, 'beta follows the selected update rule')
            o.ob(k, el(dver) == el(G) + beta * el(D), 'new direction is the gradient plus beta times the previous direction')
            if p_ and rule not in FEW:
                o.ob(k, beta > 0, "Powell's prescription keeps beta positive")
        if s_:
            o.ob(k, al * slope == o.v_alpha * dtg0, 'first step preserves the product of step and slope')
        else:
            o.ob(k, al == o.v_alpha, 'first step is the last one')
        u = q.fork().assume(z3.Or(first, restart))
        eps, fm = o.v_epsilon, i2z(o.get(u, 'fmin_given', ir.I32)) != 0
        gv = z3.And(fm, o.v_fmin < o.f)
        xn = vs.fnorm['norm2'](o.X)
        a1 = z3.If(gv, 2 * (o.f - o.v_fmin), z3.If(o.f >= 0, 2 * o.f, -2 * o.f))
        u.assume(gn > 0)
        o.ob(u.fork().assume(z3.Or(gv, o.f != 0)), al * gn * gn == a1, 'first step of the steepest descent from the function value')
        o.ob(u.fork().assume(z3.And(z3.Not(gv), o.f == 0)), al * gn == o.v_delta * z3.If(xn > 0, xn, 1), 'small first step of the steepest descent')
        # a direction following the rule is only given up when it is not a sufficient descent direction
        w = q.fork().assume(z3.And(restart, z3.Not(first), o.v_epsilon == 0))
        if o.has:
            w.assume(dot(Y, G) == dot(G, Y))
        if rule == 'PERRY_SHANNO':
            w.assume(z3.And(yy > 0, dy != 0))
            w.assume(dot(Y, G) == gg - dot(G0, G))
            ob2 = c1 * gg + c2 * dot(D, G) + c3 * dot(Y, G) <= 0
        else:
            w.assume(d != 0)
            bs = z3.FreshReal('beta')
            w.assume(bs == n / d)
            ob2 = z3.Or(bs == 0, z3.And(b2z(bool(p_) and rule not in FEW), bs < 0), gg + bs * dot(D, G) <= 0)
        o.ob(w, ob2, 'the direction of the update rule is only given up when undefined or not a descent direction')
    return check


def refused(rule):
    def make(e):
        t = z3.Int('task')
        o = Nlcg(e, rule, 0, t)
        o.st.assume(z3.And(t >= -2 ** 31, t < 2 ** 31, *[t != o.enum('OPK_TASK_' + k) for k in ('COMPUTE_FG', 'NEW_X', 'FINAL_X')]))
        o.snap = o.st.fork()
        V = o.st.g['V']

        def post(e, s, r):
            o.ob(s, i2z(r) == t, 'the pending task is returned')
            o.ob(s, s.g['V'] == V, 'no vector is modified')
            nothing_changed(EnvLike(e), s, o.snap)
        return e.funcs['opk_iterate_nlcg'], o.st, [o.opt, o.x, o.f, o.g], post
    return make


def start(rule):
    def make(e):
        t = z3.Int('task')
        o = Nlcg(e, rule, 0, t)
        o.st.assume(z3.And(t >= -2 ** 31, t < 2 ** 31))
        V = o.st.g['V']
        o.snap = o.st.fork()

        def post(e, s, r):
            o.ob(s, i2z(r) == o.enum('OPK_TASK_COMPUTE_FG'), 'starting requests an evaluation')
            o.ob(s, s.g['V'] == V, 'no vector is modified')
            for f in ('evaluations', 'iterations', 'restarts'):
                o.ob(s, o.geti(s, f) == 0, '%s start at zero' % f)
            o.common(s, 'COMPUTE_FG')
        return e.funcs['opk_start_nlcg'], o.st, [o.opt, o.x], post
    return make


def getters(rule):
    def make(e):
        t = z3.Int('task')
        o = Nlcg(e, rule, POWELL, t)
        o.st.assume(z3.And(t >= -2 ** 31, t < 2 ** 31))
        o.snap = o.st.fork()
        V = o.st.g['V']
        o.status = o.get(o.st, 'status', ir.I32)

        def quiet(s):
            nothing_changed(EnvLike(e), s, o.snap)
            o.ob(s, s.g['V'] == V, 'no vector is modified')
        for f, v in (('iterations', o.it), ('evaluations', o.ev), ('restarts', o.rs), ('task', t), ('status', o.status), ('step', o.v_alpha), ('gnorm', o.v_gnorm), ('beta', o.v_beta)):
            for s, r in e.call_fn(o.st.fork(), e.funcs['opk_get_nlcg_' + f], [o.opt]):
                o.ob(s, o.F.same(r, v) if o.F.is_fp(r) else i2z(r) == v, 'opk_get_nlcg_%s reports the actual value' % f)
                quiet(s)
        for f in ('step', 'gnorm'):
            for s, r in e.call_fn(o.st.fork(), e.funcs['opk_get_nlcg_' + f], [NULL]):
                o.ob(s, o.F.same(r, o.F.const(Fraction(-1), 64)), f + ' of a missing optimizer')
        c = e.fresh_int(o.st, 'newstatus', 32)
        o.snap = o.st.fork()

        def post(e, s, r):
            o.ob(s, i2z(o.get(s, 'status', ir.I32)) == c, 'status is set')
            o.ob(s, i2z(o.get(s, 'task', ir.I32)) == z3.If(c == o.enum('OPK_SUCCESS'), t, o.enum('OPK_TASK_ERROR')), 'an error status ends the optimization')
            o.set(s, 'status', o.status, ir.I32)
            o.set(s, 'task', t, ir.I32)
            quiet(s)
        return e.funcs['opk__set_nlcg_status'], o.st, [o.opt, c], post
    return make


def create(ls, defaults, space=True):
    """any flags"""
    def make(e):
        fl = z3.Int('flags')
        o = World(e, fl, 0, ls, defaults, valid=False)
        st, F, m = o.st, o.F, o.m
        st.assume(z3.And(fl >= 0, fl < 2 ** 31) if not defaults else fl == FLAGS['POLAK_RIBIERE_POLYAK'] + POWELL + SHANNO)
        v, ok = dict(o.v), o.ok
        v['flags'] = fl
        if defaults:
            for s, r in e.call_fn(st.fork(), e.funcs['opk_get_nlcg_default_options'], [o.p]):
                v.update({f: e.cell(s, o.p, o.lay[f], ir.DBL) for f, _ in OPTF + (('fmin', ''),)})
                v['fmin_given'] = e.cell(s, o.p, o.lay['fmin_given'], ir.I32)
            ok = z3.BoolVal(True)
        if not space:
            o.make[1] = NULL
        snap = st.fork()
        low = fl % 256
        known = z3.Or(fl == 0, z3.And(low >= 1, low <= len(RULES)))

        def post(e, s, r):
            ob = lambda g, w: e.oblige(s, g, 'post', w)
            good = z3.And(ok, known, b2z(space))
            if r.r is None:
                ob(z3.Not(good), 'valid arguments are accepted')
                er = i2z(e.load_cell(s, e.errno_region, 0, ir.I32))
                ob(er == (z3.If(ok, EFAULT, EINVAL) if not space else EINVAL), 'invalid arguments are reported')
                no_leak(EnvLike(e), s, snap)
                ob(b2z(not ticks(s, 'vcreate')), 'nothing is created for invalid arguments')
                return
            ob(good, 'invalid options, unknown methods or a missing space are refused')
            get = lambda f, t=ir.DBL: e.cell(s, r, o.L[f], t)
            for f, _ in OPTF:
                ob(F.same(get(f), v[f]), 'option %s is the given one' % f)
            ob((i2z(get('fmin_given', ir.I32)) != 0) == (i2z(v['fmin_given']) != 0), 'minimal value given or not')
            ob(z3.Implies(i2z(v['fmin_given']) != 0, F.same(get('fmin'), v['fmin'])), 'minimal value is the given one')
            ob(i2z(get('task', ir.I32)) == o.enum('OPK_TASK_ERROR'), 'a new optimizer must be started')
            ob(i2z(get('status', ir.I32)) == o.enum('OPK_NOT_STARTED'), 'a new optimizer must be started')
            ob(veq(e, get('vspace', ir.PTR), o.space), 'space of the variables')
            ob(veq(e, get('lnsrch', ir.PTR), o.ls if ls else o.newls), 'the given line search is used')
            if not ls:
                ob(b2z([t[2] for t in ticks(s, 'newls')] == ['csrch']), 'default line search')
            few = z3.Or([low == FLAGS[f] for f in FEW])
            ids = {}
            for f in ('x0', 'g0', 'd', 'y'):
                p = get(f, ir.PTR)
                ids[f] = p.t if isinstance(p, Opq) else z3.IntVal(0)
                ob((ids[f] != 0) == (z3.BoolVal(True) if f in ('x0', 'd') else z3.Not(z3.And(fl != 0, few))), 'work vector %s exists exactly when needed' % f)
                for g in ids:
                    if g < f or g > f:
                        ob(z3.Or(ids[f] == 0, ids[f] != ids[g]), 'work vectors are distinct')
        return e.funcs['opk_new_nlcg_optimizer'], st, o.make, post
    return make


def units(tier):
    out = []
    add = lambda n, d, mk, **k: out.append(dict(name=n, desc=d, make=mk, **k))
    add('options', 'accepted exactly when valid', check_options)
    for ls in (0, 1):
        for df in (0, 1):
            add('create/%s%s' % ('lnsrch ' if ls else '', 'default options' if df else 'any options'), 'constructor', create(ls, df))
    add('create/no space', 'refused', create(1, 0, False))
    for r in RULES:
        add('start/' + r, 'resets and requests an evaluation', start(r))
        add('iterate/%s/evaluated' % r, 'one evaluation', iterate_fg(r))
        add('iterate/%s/other state' % r, 'refused', refused(r))
        add('accessors/' + r, 'report the actual values', getters(r))
        for bits, bn in ((0, ''), (POWELL, '+Powell'), (SHANNO, '+Shanno&Phua'), (POWELL | SHANNO, '+Powell+Shanno&Phua')):
            for t in ('NEW_X', 'FINAL_X'):
                if t == 'NEW_X' or bits == 0:
                    add('iterate/%s%s/%s' % (r, bn, t), 'next search', iterate_newx(r, bits, t))
            add('rule/%s%s' % (r, bn), 'documented update rule (mathematical arithmetic)', iterate_newx(r, bits, 'NEW_X'), opts=dict(fp='real'))
    return out
