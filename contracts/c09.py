"""C09 -- the limited-memory optimizer follows its protocol and counts faithfully (and, for C08, its trial points)."""
from .vecops import *
from opkv import build

SOURCES = ['src/vmlmb.c']
HARNESS = dict(src='c09.c', always=True, bounded='random histories of objective values, gradients and line search outcomes, n <= 8, 60 calls')
METHODS = ('LBFGS', 'VMLMB', 'BLMVM')
STRUCT = 'opk_vmlmb_'


class Vmlmb:
    """an optimizer in an arbitrary state satisfying the object invariant"""

    def __init__(self, e, method, save, task):
        e.malloc_fails = False
        self.e, self.F, self.method, self.save = e, e.fp, method, save
        self.m = build.module('src/vmlmb.c')
        e.add_module(self.m)
        self.L = self.m.layout[STRUCT]
        self.st = st = State()
        F = self.F
        self.vs = vs = Vecs(e, st, F)
        e.mixghosts = {'V'}
        self.opt = Ptr(e.new_region(st, 'opt', size=self.m.layout['#size'][STRUCT]))
        self.bounded = method != 'LBFGS'
        self.x, self.g = vs.obj(st, 'x'), vs.obj(st, 'g')
        self.d, self.ls, self.space = vs.obj(st, 'd'), vs.obj(st, 'lnsrch'), vs.obj(st, 'space')
        self.box = vs.obj(st, 'box') if self.bounded else NULL
        self.w = vs.obj(st, 'w') if self.bounded else NULL
        self.gp = vs.obj(st, 'gp') if method == 'BLMVM' else NULL
        if save:
            self.x0, self.g0 = None, None
        else:
            self.x0, self.g0 = vs.obj(st, 'x0'), vs.obj(st, 'g0')
        M = z3.Int('m')
        self.M = M
        st.assume(z3.And(M >= 1, M < 2 ** 60))
        B = z3.Int('slots')
        for t in vs.ids.values():
            st.assume(t < B)
        self.B = B
        i = z3.Int('i!slot')
        self.S = Ptr(e.new_region(st, 'S', segs=[(0, ir.PTR, M, 'S')]))
        self.Y = Ptr(e.new_region(st, 'Y', segs=[(0, ir.PTR, M, 'Y')]))
        e.set_arr(st, self.S, z3.Lambda([i], B + 2 * i))
        e.set_arr(st, self.Y, z3.Lambda([i], B + 2 * i + 1))
        for r in (self.S.r, self.Y.r):
            r.readonly = True
        self.al = e.array(st, 'alpha', ir.DBL, M)[0]
        self.rho = e.array(st, 'rho', ir.DBL, M)[0]
        for f, v in (('d', self.d), ('lnsrch', self.ls), ('vspace', self.space), ('box', self.box), ('w', self.w), ('gp', self.gp), ('s', self.S), ('y', self.Y), ('alpha', self.al), ('rho', self.rho)):
            self.set(st, f, v, ir.PTR)
        self.set(st, 'm', M, ir.I64)
        self.set(st, 'method', self.enum('OPK_' + method), ir.I32)
        self.set(st, 'save_memory', 1 if save else 0, ir.I32)
        if not save:
            self.set(st, 'x0', self.x0, ir.PTR)
            self.set(st, 'g0', self.g0, ir.PTR)
        self.ev, self.it, self.rs, self.up, self.mp = [self.get(st, f, ir.I64) for f in ('evaluations', 'iterations', 'restarts', 'updates', 'mp')]
        self.stp, self.gn, self.gi = [self.get(st, f) for f in ('stp', 'gnorm', 'ginit')]
        self.gatol, self.grtol, self.delta, self.epsilon, self.smin, self.smax = [self.get(st, f) for f in ('gatol', 'grtol', 'delta', 'epsilon', 'stpmin', 'stpmax')]
        z = vs.const0
        for v in (self.gatol, self.grtol, self.delta, self.epsilon, self.smin, self.smax):
            st.assume(z3.And(F.fin(v), F.cmp('oge', v, z)))
        st.assume(z3.And(F.cmp('ogt', self.delta, z), F.cmp('olt', self.epsilon, vs.one), F.cmp('olt', self.smin, self.smax)))
        for c in (self.ev, self.it, self.rs, self.up):
            st.assume(z3.And(c >= 0, c < 2 ** 60))
        st.assume(z3.And(self.mp >= 0, self.mp <= M, self.mp <= self.up, self.up <= self.it, self.it <= self.ev))
        self.task = task
        self.set(st, 'task', self.enum('OPK_TASK_' + task) if isinstance(task, str) else task, ir.I32)
        tn = task if isinstance(task, str) else None
        # line search in progress or just finished
        active = z3.BoolVal(False) if tn is None else self.ev >= 1 if tn == 'COMPUTE_FG' else self.it >= 1
        if tn in ('NEW_X', 'FINAL_X'):
            st.assume(z3.And(self.ev >= 1, self.it <= self.ev - 1, z3.Implies(self.ev >= 2, self.it >= 1)))
        if tn == 'COMPUTE_FG':
            st.assume(z3.Implies(self.ev >= 1, self.it <= self.ev - 1))
        self.active = active
        k0 = self.slot(st, 0)
        vs.watch += [('S[0]', B + 2 * k0), ('Y[0]', B + 2 * k0 + 1)]
        if save:
            self.x0, self.g0 = Opq(z3.Int('x0ptr')), Opq(z3.Int('g0ptr'))
            self.set(st, 'x0', self.x0, ir.PTR)
            self.set(st, 'g0', self.g0, ir.PTR)
            st.assume(z3.Implies(active, z3.And(self.x0.t == B + 2 * k0, self.g0.t == B + 2 * k0 + 1, self.mp < M)))
            vs.watch += [('x0', self.x0.t), ('g0', self.g0.t)]
        # number of updates made when the current search started, pairs in memory
        if tn:
            st.assume(self.up == z3.If(self.it >= 1, self.it - 1, 0) if tn in ('NEW_X', 'FINAL_X') else z3.Implies(self.ev >= 1, self.up == self.it))
        self.J = z3.Int('pair')
        st.assume(z3.And(self.J >= 1, self.J <= M))
        # ghost history: versions of the pairs memorized at each update
        self.HS, self.HY = z3.Array('histS', I, I), z3.Array('histY', I, I)
        for j in (self.J, self.J - 1):
            q = self.slot(st, j)
            st.assume(z3.Implies(z3.And(j >= 1, j <= self.mp), z3.And(z3.Select(st.g['V'], B + 2 * q) == z3.Select(self.HS, self.up - j), z3.Select(st.g['V'], B + 2 * q + 1) == z3.Select(self.HY, self.up - j))))
            vs.watch += [('S[%s]' % j, B + 2 * q, q >= 0), ('Y[%s]' % j, B + 2 * q + 1, q >= 0)]
        self.snap = st.fork()
        self.X, self.G = vs.ver(st, self.x), vs.ver(st, self.g)
        self.f = F.fresh('f', 64)

    def enum(self, n):
        return self.m.layout['#enum'][n]

    def set(self, st, f, v, ty):
        self.e.set_cell(st, self.opt, self.L[f], ty, v)

    def get(self, st, f, ty=ir.DBL):
        return self.e.cell(st, self.opt, self.L[f], ty)

    def slot(self, st, j, up=None):
        return self.e.symdiv(st, z3.simplify((self.up if up is None else up) - j), self.M, 'srem')

    def ob(self, s, f, what):
        self.e.oblige(s, f, 'post', what)

    def same(self, s, f, v, ty=ir.DBL):
        w = self.get(s, f, ty)
        return self.F.same(w, v) if ty is ir.DBL else i2z(w) == v

    # -- the object invariant, to be re-established
    def invariant(self, s, task):
        """holds in a state left with the given task"""
        e, F, vs = self.e, self.F, self.vs
        g = lambda f: i2z(self.get(s, f, ir.I64))
        ev, it, up, mp, rs = g('evaluations'), g('iterations'), g('updates'), g('mp'), g('restarts')
        for f, v, ty in (('d', self.d, 1), ('lnsrch', self.ls, 1), ('box', self.box, 1), ('w', self.w, 1), ('gp', self.gp, 1), ('s', self.S, 1), ('y', self.Y, 1), ('alpha', self.al, 1), ('rho', self.rho, 1)):
            e.oblige(s, veq(e, self.get(s, f, ir.PTR), v), 'inv', 'component %s stays the same object' % f)
        for f, v, ty in (('m', self.M, ir.I64), ('method', self.enum('OPK_' + self.method), ir.I32), ('save_memory', 1 if self.save else 0, ir.I32)):
            e.oblige(s, i2z(self.get(s, f, ty)) == v, 'inv', '%s stays the same' % f)
        for f in ('gatol', 'grtol', 'delta', 'epsilon', 'stpmin', 'stpmax'):
            e.oblige(s, self.same(s, f, self.get(self.snap, f)), 'inv', 'option %s stays the same' % f)
        e.oblige(s, z3.And(mp >= 0, mp <= self.M, mp <= up, up <= it, it <= ev, rs >= 0), 'inv', 'number of memorized pairs at most the memory size')
        if task == 'COMPUTE_FG':
            e.oblige(s, z3.And(z3.Implies(ev >= 1, it <= ev - 1), z3.Implies(ev >= 1, up == it)), 'inv', 'counters are consistent')
            act = ev >= 1
        else:
            e.oblige(s, z3.And(ev >= 1, it <= ev - 1, z3.Implies(ev >= 2, it >= 1), up == z3.If(it >= 1, it - 1, 0)), 'inv', 'counters are consistent')
            act = it >= 1
        x0, g0 = self.get(s, 'x0', ir.PTR), self.get(s, 'g0', ir.PTR)
        if self.save:
            k0 = self.slot(s, 0, up)
            if isinstance(x0, Opq) and isinstance(g0, Opq):
                e.oblige(s, z3.Implies(act, z3.And(x0.t == self.B + 2 * k0, g0.t == self.B + 2 * k0 + 1, mp < self.M)), 'inv', 'start point is kept in the next free slot')
            else:
                e.oblige(s, z3.Not(act), 'inv', 'start point is kept in the next free slot')
        else:
            e.oblige(s, z3.And(veq(e, x0, self.x0), veq(e, g0, self.g0)), 'inv', 'start point vectors stay the same')
        return up, mp

    def pairs(self, s, up, mp, hs, hy):
        j = self.J
        q = self.slot(s, j, up)
        self.ob(s, z3.Implies(j <= mp, z3.And(z3.Select(s.g['V'], self.B + 2 * q) == z3.Select(hs, up - j), z3.Select(s.g['V'], self.B + 2 * q + 1) == z3.Select(hy, up - j))),
                'the memorized pairs are the differences between successive iterates and gradients')

    def frame(self, s, objs=True):
        """nothing but the optimizer, its private vectors and x is modified"""
        self.ob(s, self.vs.ver(s, self.g) == self.G, 'the gradient of the caller is not modified')
        nothing_changed(EnvLike(self.e), s, self.snap, allow=[self.opt, self.al, self.rho])

    def sc(self, s, task, status='OPK_SUCCESS'):
        self.ob(s, i2z(self.get(s, 'task', ir.I32)) == self.enum('OPK_TASK_' + task), 'pending task is the returned one')
        if status is not None:
            self.ob(s, i2z(self.get(s, 'status', ir.I32)) == (self.enum(status) if isinstance(status, str) else status), 'status')


class EnvLike:
    def __init__(self, e):
        self.e = e


def cases(o, s, r, tasks):
    """split on the returned task"""
    e = o.e
    r = i2z(r)
    o.ob(s, z3.Or([r == o.enum('OPK_TASK_' + t) for t in tasks]), 'the returned task is one of: ' + ', '.join(tasks))
    for t in tasks:
        q = s.fork().assume(r == o.enum('OPK_TASK_' + t))
        if e.feasible(q):
            yield t, q


def expect_trial(o, s, x0ver, what):
    """x = projection of x0 - stp d"""
    F, vs = o.F, o.vs
    E = vs.el(s, o.x)
    stp = o.get(s, 'stp')
    t = vs.axpby(vs.one, vs.elem(x0ver), F.neg(stp), vs.el(s, o.d))
    if o.bounded:
        o.ob(s, z3.Or(vs.feasible(E), z3.And(F.nan(t), F.nan(E))), 'every component of the trial point satisfies the bounds')
        o.ob(s, z3.Or(F.nan(t), F.cmp('oeq', E, vs.clampf(t))), 'the trial point is the projected step from the start of the search')
    else:
        o.ob(s, F.same(E, t), 'the trial point is x0 - step*d')


def iterate_fg(method, save, c08):
    def make(e):
        o = Vmlmb(e, method, save, 'COMPUTE_FG')
        F, vs, st = o.F, o.vs, o.st
        first = o.ev == 0
        X0 = vs.ver(st, o.x0)

        def post(e, s, r):
            for t, q in cases(o, s, r, ['COMPUTE_FG', 'NEW_X', 'FINAL_X', 'ERROR']):
                ls = bool(ticks(q, 'ls_iterate'))
                if c08:
                    if t == 'COMPUTE_FG':
                        o.ob(q, vs.ver(q, o.x0) == X0, 'the start of the search is kept')
                        expect_trial(o, q, X0, t)
                    elif t != 'ERROR' or 'boxfail' not in str(q.flags):
                        o.ob(q, vs.ver(q, o.x) == o.X, 'a delivered iterate is the point that was evaluated')
                    if t != 'ERROR':
                        o.invariant(q, t)
                    continue
                o.ob(q, i2z(o.get(q, 'evaluations', ir.I64)) == o.ev + 1, 'each evaluation is counted once')
                o.ob(q, i2z(o.get(q, 'restarts', ir.I64)) == o.rs, 'no restart is counted')
                acc = t in ('NEW_X', 'FINAL_X')
                if acc:
                    o.ob(q, i2z(o.get(q, 'iterations', ir.I64)) == o.it + z3.If(first, 0, 1), 'an iteration is counted exactly when a new iterate is announced')
                elif t == 'COMPUTE_FG':
                    o.ob(q, i2z(o.get(q, 'iterations', ir.I64)) == o.it, 'an iteration is counted exactly when a new iterate is announced')
                if t != 'COMPUTE_FG':
                    if t != 'ERROR' or not ticks(q, 'ls_iterate'):
                        o.ob(q, vs.ver(q, o.x) == o.X, 'the variables are unchanged')
                if t != 'ERROR':
                    o.sc(q, t)
                else:
                    o.sc(q, t, None)
                o.frame(q)
                o.ob(q, b2z(len(ticks(q, 'ls_iterate')) <= 1 and not ticks(q, 'ls_start')), 'the line search is consulted once')
                o.ob(q, first != b2z(ls), 'the line search is consulted for every trial point')
                if ls:
                    L = q.g['ls_iter']
                    o.ob(q, veq(e, L[0], o.ls), 'line search of the optimizer')
                    o.ob(q, z3.And(F.same(L[1], o.stp), F.same(L[2], o.f)), 'the line search gets the current step and the function value')
                    if o.bounded:
                        dd = F.div(F.sub(vs.dot(q, o.x, o.g) if False else vs.fdot(o.X, o.G), vs.fdot(X0, o.G)), o.stp)
                    else:
                        dd = F.neg(vs.fdot(vs.ver(o.snap, o.d), o.G))
                    o.ob(q, z3.Implies(z3.Bool('ls_uses_derivative'), F.same(L[3], dd)), 'the line search gets the directional derivative')
                    task, ws = q.g['ls_task'], q.g['ls_status']
                    O = o.m.layout['#enum']
                    ok = z3.Or(task == O['OPK_LNSRCH_CONVERGENCE'], z3.And(task == O['OPK_LNSRCH_WARNING'], ws == O['OPK_ROUNDING_ERRORS_PREVENT_PROGRESS']))
                    if t == 'COMPUTE_FG':
                        o.ob(q, task == O['OPK_LNSRCH_SEARCH'], 'another evaluation is requested exactly when the line search asks for it')
                        o.ob(q, F.same(o.get(q, 'stp'), q.g['ls_step']), 'the step is the one of the line search')
                    elif acc:
                        o.ob(q, ok, 'an iterate is accepted exactly when the line search accepts it')
                    elif 'boxstatus' in q.g:
                        o.ob(q, i2z(o.get(q, 'status', ir.I32)) == q.g['boxstatus'], 'status reports the failure')
                    else:
                        o.ob(q, z3.And(task != O['OPK_LNSRCH_SEARCH'], z3.Not(ok)), 'failure only when the line search failed')
                        o.ob(q, i2z(o.get(q, 'status', ir.I32)) == ws, 'status reports the failure')
                elif t == 'ERROR':
                    o.ob(q, 'boxstatus' in q.g, 'the first evaluation only fails with the constraints')
                    if 'boxstatus' in q.g:
                        o.ob(q, i2z(o.get(q, 'status', ir.I32)) == q.g['boxstatus'], 'status reports the failure')
                else:
                    o.ob(q, b2z(acc), 'the starting point is the first iterate')
                if acc:
                    gn = o.get(q, 'gnorm')
                    gi = o.get(q, 'ginit')
                    if method == 'LBFGS':
                        want = vs.fnorm['norm2'](o.G)
                    else:
                        w = vs.fmask(o.X, o.G, z3.IntVal(o.enum('OPK_ASCENT')))
                        if method == 'VMLMB':
                            want = F.fun1('fsqrt', vs.fdot3(w, o.G, o.G))
                        else:
                            want = vs.fnorm['norm2'](z3.Function('product', I, I, I)(w, o.G))
                    o.ob(q, F.same(gn, want), 'the reported norm is that of the (projected) gradient')
                    o.ob(q, z3.If(first, F.same(gi, want), F.same(gi, o.gi)), 'the reference norm is that of the first point')
                    tests = z3.Or(F.cmp('ole', gn, vs.const0), F.cmp('ole', gn, o.gatol), F.cmp('ole', gn, F.mul(o.grtol, gi)))
                    o.ob(q, tests == b2z(t == 'FINAL_X'), 'convergence is declared exactly when the threshold is reached')
                if t != 'ERROR':
                    up, mp = o.invariant(q, t)
                    o.pairs(q, up, mp, o.HS, o.HY)
        return e.funcs['opk_iterate_vmlmb'], st, [o.opt, o.x, o.f, o.g], post
    return make


def iterate_newx(method, save, task, c08):
    def make(e):
        o = Vmlmb(e, method, save, task)
        F, vs, st = o.F, o.vs, o.st
        X0, G0 = vs.ver(st, o.x0), vs.ver(st, o.g0)
        gver = vs.ver(st, o.gp) if method == 'BLMVM' else o.G

        def post(e, s, r):
            for t, q in cases(o, s, r, ['COMPUTE_FG', 'ERROR']):
                if c08:
                    if t == 'COMPUTE_FG':
                        o.ob(q, vs.ver(q, o.get(q, 'x0', ir.PTR)) == o.X, 'the search starts from the current iterate')
                        expect_trial(o, q, o.X, t)
                        o.invariant(q, t)
                    continue
                for f, v in (('evaluations', o.ev), ('iterations', o.it)):
                    o.ob(q, i2z(o.get(q, f, ir.I64)) == v, '%s are not counted here' % f)
                o.ob(q, z3.Or(i2z(o.get(q, 'restarts', ir.I64)) == o.rs, i2z(o.get(q, 'restarts', ir.I64)) == o.rs + 1), 'at most one restart')
                o.frame(q)
                o.ob(q, b2z(len(ticks(q, 'ls_start')) <= 1 and not ticks(q, 'ls_iterate')), 'one line search is started')
                for f, v in (('gnorm', o.gn), ('ginit', o.gi)):
                    o.ob(q, F.same(o.get(q, f), v), '%s unchanged' % f)
                E = o.m.layout['#enum']
                if ticks(q, 'ls_start'):
                    L = q.g['ls_start']
                    o.ob(q, veq(e, L[0], o.ls), 'line search of the optimizer')
                    o.ob(q, F.same(L[1], o.f), 'the search starts at the function value of the iterate')
                    o.ob(q, F.same(L[3], o.get(q, 'stp')), 'the search starts with the step used for the trial point')
                    V = lambda p: vs.ver(q, p)
                    dver = V(o.d)
                    steep = z3.And(F.same(L[2], F.mul(F.neg(o.gn), o.gn)),
                                   dver == (o.G if method == 'LBFGS' else gver if method == 'BLMVM' else z3.Function('product', I, I, I)(V(o.w), o.G)))
                    quasi = z3.And(F.same(L[2], F.neg(vs.fdot(dver, o.G))), F.cmp('olt', L[2], vs.const0))
                    o.ob(q, z3.Or(steep, quasi), 'the search follows a descent direction with its slope, or the steepest descent')
                    o.ob(q, z3.Implies(i2z(o.get(q, 'restarts', ir.I64)) == o.rs + 1, z3.And(steep, i2z(o.get(q, 'mp', ir.I64)) == 0)), 'a restart drops the memory')
                    ok = q.g['ls_task'] == E['OPK_LNSRCH_SEARCH']
                    if t == 'COMPUTE_FG':
                        o.ob(q, ok, 'an evaluation is requested when the line search could be started')
                    elif 'boxstatus' in q.g:
                        o.ob(q, i2z(o.get(q, 'status', ir.I32)) == q.g['boxstatus'], 'status reports the failure')
                    else:
                        o.ob(q, z3.And(z3.Not(ok), i2z(o.get(q, 'status', ir.I32)) == q.g['ls_status']), 'failure of the line search is reported')
                elif 'boxstatus' in q.g:
                    o.ob(q, i2z(o.get(q, 'status', ir.I32)) == q.g['boxstatus'], 'status reports the failure')
                else:
                    o.ob(q, z3.And(b2z(o.bounded and t == 'ERROR'), i2z(o.get(q, 'status', ir.I32)) == E['OPK_WOULD_BLOCK']), 'a search is started unless no step is possible')
                o.sc(q, t, 'OPK_SUCCESS' if t == 'COMPUTE_FG' else None)
                if t == 'COMPUTE_FG':
                    up, mp = o.invariant(q, t)
                    # an update was made iff an iteration was completed
                    j = o.J
                    at = lambda st, sl: (z3.Select(st.g['V'], o.B + 2 * sl), z3.Select(st.g['V'], o.B + 2 * sl + 1))
                    kept = 'the pairs memorized before are kept'
                    for upd, lst in ((False, ((j, j),)), (True, ((j, j - 1), (j - 1, j - 2)))):
                        u = q.fork().assume(o.it >= 1 if upd else o.it == 0).assume(up == (o.up + 1 if upd else o.up))
                        if not e.feasible(u):
                            continue
                        if not upd:
                            o.ob(u, mp == 0, 'no pair before the first iteration')
                            continue
                        sl = o.slot(u, j - 1, o.up)
                        A, Bv = at(u, sl)
                        n = u.fork().assume(z3.And(j == 1, mp >= 1))
                        o.ob(n, z3.And(F.same(vs.elem(A), F.sub(vs.elem(o.X), vs.elem(X0))), F.same(vs.elem(Bv), F.sub(vs.elem(gver), vs.elem(G0)))),
                             'the last memorized pair is the difference between the last two iterates and their gradients')
                        k = u.fork().assume(z3.And(j >= 2, j <= mp))
                        o.ob(k, z3.And(A == z3.Select(o.HS, o.up - (j - 1)), Bv == z3.Select(o.HY, o.up - (j - 1))), kept)
                    o.ob(q, vs.ver(q, o.get(q, 'x0', ir.PTR)) == o.X, 'the iterate is kept')
                    o.ob(q, vs.ver(q, o.get(q, 'g0', ir.PTR)) == gver, 'its gradient is kept')
        return e.funcs['opk_iterate_vmlmb'], st, [o.opt, o.x, o.f, o.g], post
    return make


def refused(method, save, task, which):
    """iterating in any other state changes nothing"""
    def make(e):
        t = z3.Int('task')
        o = Vmlmb(e, method, save, t)
        E = o.m.layout['#enum']
        o.st.assume(z3.And(t >= -2 ** 31, t < 2 ** 31, *[t != E['OPK_TASK_' + n] for n in ('COMPUTE_FG', 'NEW_X', 'FINAL_X')]))
        V = o.st.g['V']

        def post(e, s, r):
            o.ob(s, i2z(r) == t, 'the pending task is returned')
            o.ob(s, s.g['V'] == V, 'no vector is modified')
            nothing_changed(EnvLike(e), s, o.snap)
        return e.funcs['opk_iterate_vmlmb'], o.st, [o.opt, o.x, o.f, o.g], post
    return make


def missing(e):
    o = Vmlmb(e, 'LBFGS', 0, 'COMPUTE_FG')
    V = o.st.g['V']
    for f, want in (('opk_get_vmlmb_step', -1), ('opk_get_vmlmb_gnorm', -1)):
        for s, r in e.call_fn(o.st.fork(), e.funcs[f], [NULL]):
            o.ob(s, o.F.same(r, o.F.const(Fraction(want), 64)), f + ' of a missing optimizer')
    for s, r in e.call_fn(o.st.fork(), e.funcs['opk_get_vmlmb_mp'], [NULL]):
        o.ob(s, i2z(r) == 0, 'no memorized pair in a missing optimizer')

    def post(e, s, r):
        o.ob(s, i2z(r) == o.enum('OPK_TASK_ERROR'), 'a missing optimizer is refused')
        o.ob(s, s.g['V'] == V, 'no vector is modified')
        nothing_changed(EnvLike(e), s, o.snap)
    return e.funcs['opk_iterate_vmlmb'], o.st, [NULL, o.x, o.f, o.g], post


def start(method, save, c08=False):
    def make(e):
        t = z3.Int('task')
        o = Vmlmb(e, method, save, t)
        o.st.assume(z3.And(t >= -2 ** 31, t < 2 ** 31))
        # a fresh or used optimizer: no assumption on its counters
        for f in ('evaluations', 'iterations', 'restarts', 'updates', 'mp'):
            o.set(o.st, f, e.fresh_int(o.st, f + '0'), ir.I64)
        o.snap = o.st.fork()
        vs, F = o.vs, o.F

        def post(e, s, r):
            for t, q in cases(o, s, r, ['COMPUTE_FG', 'ERROR']):
                if t == 'ERROR':
                    o.ob(q, b2z('boxstatus' in q.g), 'starting only fails with the constraints')
                    if 'boxstatus' in q.g:
                        o.ob(q, i2z(o.get(q, 'status', ir.I32)) == q.g['boxstatus'], 'status reports the failure')
                    o.sc(q, t, None)
                    continue
                E, X = vs.el(q, o.x), vs.elem(o.X)
                if o.bounded:
                    o.ob(q, z3.Or(vs.feasible(E), z3.And(F.nan(X), F.nan(E))), 'every component of the starting point satisfies the bounds')
                    o.ob(q, z3.Or(F.nan(X), F.cmp('oeq', E, vs.clampf(X))), 'the starting point is projected')
                else:
                    o.ob(q, vs.ver(q, o.x) == o.X, 'the starting point is not modified')
                if c08:
                    continue
                for f in ('evaluations', 'iterations', 'restarts'):
                    o.ob(q, i2z(o.get(q, f, ir.I64)) == 0, '%s start at zero' % f)
                o.ob(q, i2z(o.get(q, 'mp', ir.I64)) == 0, 'no pair is memorized')
                o.sc(q, t)
                o.frame(q)
                up, mp = o.invariant(q, t)
        return e.funcs['opk_start_vmlmb'], o.st, [o.opt, o.x], post
    return make


def getters(method, save):
    def make(e):
        t = z3.Int('task')
        o = Vmlmb(e, method, save, t)
        o.st.assume(z3.And(t >= -2 ** 31, t < 2 ** 31))
        o.snap = o.st.fork()
        V = o.st.g['V']
        o.status = o.get(o.st, 'status', ir.I32)

        def quiet(s):
            nothing_changed(EnvLike(e), s, o.snap)
            o.ob(s, s.g['V'] == V, 'no vector is modified')
        for f, v in (('iterations', o.it), ('evaluations', o.ev), ('restarts', o.rs), ('mp', o.mp), ('task', t), ('status', o.status), ('step', o.stp), ('gnorm', o.gn), ('method', o.enum('OPK_' + method))):
            for s, r in e.call_fn(o.st.fork(), e.funcs['opk_get_vmlmb_' + f], [o.opt]):
                o.ob(s, o.F.same(r, v) if o.F.is_fp(r) else i2z(r) == v, 'opk_get_vmlmb_%s reports the actual value' % f)
                quiet(s)
        j = e.fresh_int(o.st, 'j')
        for f, k in (('s', 0), ('y', 1)):
            for s, r in e.call_fn(o.st.fork(), e.funcs['opk_get_vmlmb_' + f], [o.opt, j]):
                q = o.slot(s, j)
                rid = o.vs.id(r)
                o.ob(s, rid == z3.If(z3.And(j >= 0, j <= o.mp), o.B + 2 * q + k, 0), 'memorized %s difference' % f)
                quiet(s)
        c = e.fresh_int(o.st, 'newstatus', 32)
        o.snap = o.st.fork()

        def post(e, s, r):
            o.ob(s, i2z(o.get(s, 'status', ir.I32)) == c, 'status is set')
            o.ob(s, i2z(o.get(s, 'task', ir.I32)) == z3.If(c == o.enum('OPK_SUCCESS'), t, o.enum('OPK_TASK_ERROR')), 'an error status ends the optimization')
            o.set(s, 'status', o.status, ir.I32)
            o.set(s, 'task', t, ir.I32)
            quiet(s)
        return e.funcs['opk__set_vmlmb_status'], o.st, [o.opt, c], post
    return make


OPTF = (('delta', '>'), ('epsilon', '<1'), ('grtol', '>='), ('gatol', '>='), ('stpmin', '>='), ('stpmax', '>='))


def options(e, m, st, name):
    """caller's options with arbitrary contents; returns pointer, validity, values"""
    F = e.fp
    lay = next(m.layout[k] for k in ('opk_vmlmb_options_', 'opk_vmlmb_options') if k in m.layout)
    p = Ptr(e.new_region(st, name, size=m.layout['#size'].get('opk_vmlmb_options_')))
    v = {f: e.cell(st, p, lay[f], ir.DBL) for f, _ in OPTF}
    v.update({f: e.cell(st, p, lay[f], t) for f, t in (('mem', ir.I64), ('blmvm', ir.I32), ('save_memory', ir.I32))})
    z, one = F.const(Fraction(0), 64), F.const(Fraction(1), 64)
    ok = [F.fin(v[f]) for f, _ in OPTF]
    ok += [F.cmp('ogt' if f == 'delta' else 'oge', v[f], z) for f, _ in OPTF if f != 'stpmax']
    ok += [F.cmp('olt', v['epsilon'], one), F.cmp('ogt', v['stpmax'], v['stpmin']), v['mem'] >= 1]
    return p, z3.And(ok), v, lay


def check_options(e):
    m = build.module('src/vmlmb.c')
    e.add_module(m)
    st = State()
    p, ok, v, lay = options(e, m, st, 'options')
    E = m.layout['#enum']
    f = e.funcs['opk_check_vmlmb_options']
    ob = lambda s, g, w: e.oblige(s, g, 'post', w)
    for s, r in e.call_fn(st.fork(), f, [NULL]):
        ob(s, i2z(r) == E['OPK_ILLEGAL_ADDRESS'], 'missing options')
    # the defaults are valid, and given as documented
    for s, r in e.call_fn(st.fork(), e.funcs['opk_get_vmlmb_default_options'], [p]):
        for s2, r2 in e.call_fn(s, f, [p]):
            ob(s2, i2z(r2) == E['OPK_SUCCESS'], 'the default options are valid')
    for s, r in e.call_fn(st.fork(), e.funcs['opk_get_vmlmb_default_options'], [NULL]):
        nothing_changed(EnvLike(e), s, st)
    snap = st.fork()

    def post(e, s, r):
        ob(s, i2z(r) == z3.If(ok, E['OPK_SUCCESS'], E['OPK_INVALID_ARGUMENT']), 'options are accepted exactly when all are in their range')
        nothing_changed(EnvLike(e), s, snap)
    return f, st, [p], post


def create(box, ls, defaults):
    """the constructor, any memory size"""
    def make(e):
        e.malloc_fails = False
        m = build.module('src/vmlmb.c')
        e.add_module(build.module('src/algebra.c'))
        e.add_module(m)
        st = State()
        F = e.fp
        E, L = m.layout['#enum'], m.layout[STRUCT]
        p, ok, v, lay = options(e, m, st, 'options')
        if defaults:
            for s, r in e.call_fn(st.fork(), e.funcs['opk_get_vmlmb_default_options'], [p]):
                st2 = s
            v = {f: e.cell(st2, p, lay[f], t) for f, t in [(f, ir.DBL) for f, _ in OPTF] + [('mem', ir.I64), ('blmvm', ir.I32), ('save_memory', ir.I32)]}
            ok = z3.BoolVal(True)
        B = z3.Int('idbase')
        st.assume(B >= 10)
        n = e.fresh_int(st, 'n')
        so = m.layout.get('opk_vspace_') or e.mods[0].layout['opk_vspace_']
        bo = m.layout.get('opk_convexset_') or e.mods[0].layout['opk_convexset_']
        space = cells_region(EnvLikeSt(e, st), 'space', {so['size']: (ir.I64, n)})
        other = cells_region(EnvLikeSt(e, st), 'other space', {so['size']: (ir.I64, e.fresh_int(st, 'n2'))})
        bx = cells_region(EnvLikeSt(e, st), 'box', {bo['space']: (ir.PTR, other if box == 2 else space)}) if box else NULL
        lsp = Opq(z3.IntVal(3)) if ls else NULL
        st.g['nid'] = z3.IntVal(0)
        held = []

        def vcreate(e, s, a, ins):
            e.oblige(s, veq(e, a[0], space), 'pre', 'work vectors belong to the space of the variables')
            i = s.g['nid']
            s.g['nid'] = i + 1
            return [(s, Opq(B + i))]

        def hold(e, s, a, ins):
            tick(s, 'hold', a[0].r.name if isinstance(a[0], Ptr) else str(a[0].t))
            return [(s, a[0])]

        def newls(k):
            def h(e, s, a, ins):
                tick(s, 'newls', k)
                return [(s, Opq(z3.IntVal(4)))]
            return h
        C = e.contracts
        C['opk_vcreate'], C['opk_hold_object'] = vcreate, hold
        C['opk_lnsrch_new_backtrack'], C['opk_lnsrch_new_csrch'], C['opk_lnsrch_new_nonmonotone'] = newls('backtrack'), newls('csrch'), newls('nonmonotone')
        J = z3.Int('slot')
        st.assume(J >= 0)
        snap = st.fork()

        def gen(Lp, probe, mod):
            out = []
            if 'nid' in [k[1] for k in mod if k[0] == 'ghost']:
                n0 = Lp.st0.g['nid']
                for pn, f in [(q.res, (lambda w, q=q: i2z(w.phi[q.res]))) for q in Lp.phis if q.ty.k == 'i' and q.ty.a == 64] + [('it', lambda w: w.it)]:
                    for c in (1, 2):
                        out.append(('nid=%d*%s' % (c, pn), lambda w, f=f, c=c: w.st.g['nid'] == n0 + c * f(w)))
                    for k in mod:
                        if k[0] != 'ghost' and k[1] == 's':
                            for off in (0, 1):
                                for nm, at in (('J', J), ('m+J', None)):
                                    def c(w, k=k, f=f, off=off, at=at):
                                        r = k[0]
                                        M = e.cell(w.st, r, L['m'], ir.I64)
                                        ix = J if at is not None else i2z(M) + J
                                        return z3.Implies(J < f(w), z3.Select(e.arr(w.st, r), ix) == B + n0 + 2 * J + off)
                                    out.append(('slot %s%s=+%d' % (nm, pn, off), c))
            return out
        e.cand_gens.append(gen)

        def post(e, s, r):
            o = lambda g, w: e.oblige(s, g, 'post', w)
            if r.r is None:
                bad = z3.Or(z3.Not(ok), n < 1, b2z(box == 2))
                o(z3.Or(bad, n > 2 ** 50), 'valid arguments are accepted')
                er = e.errno_region
                o(z3.Or(z3.Not(bad), i2z(e.load_cell(s, er, 0, ir.I32)) == EINVAL), 'invalid arguments are reported')
                no_leak(EnvLike(e), s, snap)
                o(s.g['nid'] == 0, 'nothing is created for invalid arguments')
                return
            o(z3.And(ok, n >= 1, b2z(box != 2)), 'invalid options, size or box are refused')
            get = lambda f, t=ir.DBL: e.cell(s, r, L[f], t)
            for f, _ in OPTF:
                o(F.same(get(f), v[f]), 'option %s is the given one' % f)
            M = i2z(get('m', ir.I64))
            o(M == z3.If(v['mem'] > n, n, v['mem']), 'memory size is the given one, at most the number of variables')
            o((i2z(get('save_memory', ir.I32)) != 0) == (v['save_memory'] != 0), 'memory option is the given one')
            o(i2z(get('method', ir.I32)) == (z3.If(v['blmvm'] != 0, E['OPK_BLMVM'], E['OPK_VMLMB']) if box else z3.IntVal(E['OPK_LBFGS'])), 'method selected by the box and the options')
            o(i2z(get('task', ir.I32)) == E['OPK_TASK_ERROR'], 'a new optimizer must be started')
            o(i2z(get('status', ir.I32)) == E['OPK_NOT_STARTED'], 'a new optimizer must be started')
            o(veq(e, get('vspace', ir.PTR), space), 'space of the variables')
            o(veq(e, get('box', ir.PTR), bx), 'box')
            if ls:
                o(veq(e, get('lnsrch', ir.PTR), lsp), 'the given line search is used')
            else:
                o([t[2] for t in ticks(s, 'newls')] == ['backtrack' if box else 'csrch'], 'default line search')
            ids = []
            x = lambda f: get(f, ir.PTR)
            nz = lambda q: q.t != 0 if isinstance(q, Opq) else b2z(q.r is not None)
            want = dict(d=z3.BoolVal(True), w=b2z(bool(box)), gp=b2z(bool(box)) if not box else v['blmvm'] != 0, x0=v['save_memory'] == 0, g0=v['save_memory'] == 0)
            pid = {}
            for f, c in want.items():
                q = x(f)
                o(nz(q) == c, 'work vector %s exists exactly when needed' % f)
                pid[f] = q.t if isinstance(q, Opq) else z3.IntVal(0)
            ps, py = x('s'), x('y')
            o(b2z(isinstance(ps, Ptr) and isinstance(py, Ptr) and ps.r is r.r and py.r is r.r), 'tables are part of the optimizer')
            seg = r.r.segs[0]
            bs, by = ps.o.idx(seg.base, 8), py.o.idx(seg.base, 8)
            A = e.arr(s, r)
            q = s.fork().assume(J < M)
            sj, yj = z3.Select(A, bs + J), z3.Select(A, by + J)
            e.oblige(q, z3.And(sj == B + 2 * J + pid_base(s, B, v, box), yj == sj + 1), 'post', 'every slot has its own pair of vectors')
            for f in want:
                e.oblige(q, z3.And(pid[f] != sj, pid[f] != yj), 'post', 'work vector %s is not one of the pairs' % f)
                for g in want:
                    if g < f:
                        e.oblige(q, z3.Or(pid[f] == 0, pid[f] != pid[g]), 'post', 'work vectors %s and %s are distinct' % (f, g))
            pa, pr = x('alpha'), x('rho')
            for a, b, w in ((bs, by, 's and y'), ):
                o(z3.Or(a + M <= b, b + M <= a), 'tables %s do not overlap' % w)
            size = i2z(r.r.size)
            lo = m.layout['#size'][STRUCT]
            T = [(ps.o.term(), 'pairs'), (py.o.term(), 'pairs'), (pa.o.term(), 'alpha'), (pr.o.term(), 'rho')]
            for i, (a, w) in enumerate(T):
                o(z3.And(a >= lo, a + 8 * M <= size, a % 8 == 0), 'table is inside the optimizer')
                for b, w2 in T[:i]:
                    o(z3.Or(a + 8 * M <= b, b + 8 * M <= a), 'tables do not overlap')
        def pid_base(s, B, v, box):
            return z3.If(v['blmvm'] != 0, 1, 0) if box else z3.IntVal(0)
        return e.funcs['opk_new_vmlmb_optimizer'], st, [NULL if defaults else p, space, lsp, bx], post
    return make


class EnvLikeSt:
    def __init__(self, e, st):
        self.e, self.st = e, st


def units(tier):
    out = []
    for m in METHODS:
        for save in (0, 1):
            out.append(dict(name='iterate/%s/save=%d/evaluated' % (m, save), desc='one evaluation', make=iterate_fg(m, save, False)))
            for t in ('NEW_X', 'FINAL_X'):
                out.append(dict(name='iterate/%s/save=%d/%s' % (m, save, t), desc='next search', make=iterate_newx(m, save, t, False)))
            out.append(dict(name='iterate/%s/save=%d/other state' % (m, save), desc='refused', make=refused(m, save, None, None)))
            out.append(dict(name='start/%s/save=%d' % (m, save), desc='resets and requests an evaluation', make=start(m, save)))
            out.append(dict(name='accessors/%s/save=%d' % (m, save), desc='report the actual values', make=getters(m, save)))
    out.append(dict(name='missing optimizer', desc='refused', make=missing))
    out.append(dict(name='options', desc='accepted exactly when valid', make=check_options))
    for box in (0, 1, 2):
        for ls in (0, 1):
            for df in (0, 1):
                out.append(dict(name='create/%s%s%s' % (('no box', 'box', 'foreign box')[box], ' lnsrch' if ls else '', ' default options' if df else ''), desc='constructor', make=create(box, ls, df)))
    return out
