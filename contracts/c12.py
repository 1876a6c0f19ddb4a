"""C12 -- one-dimensional minimizer: bracket, best point, counts."""
from .common import *
from opkv import build

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/fmin.c']
HARNESS = dict(src='c12.c', always=True, timeout_fails=True, bounded='random histories of values and random piecewise functions', lib=['algebra.c', 'fmin.c', 'utils.c'])
ASSUMPTIONS = ['abscissae and their differences are finite (no overflow of the interval width); function values are not NaN',
               'state between two calls of the reverse-communication minimizer: arbitrary within the stage invariants proved at every return']
CT = 'opk_fmin_context'
MODS = ('src/fmin.c',)
N9 = ('a', 'b', 'u', 'fu', 'v', 'fv', 'w', 'fw', 'x', 'prec')


class Ctx:
    def __init__(self, e, new=True):
        e.malloc_fails = False
        self.e = e
        self.env = env = Env(e, 'd', mods=MODS)
        self.F = env.F
        self.c = env.call('opk_fmin_new', [0], env.notnull)
        self.c.r.name = 'ctx'
        self.ty = {'nevals': ir.I64, 'flags': ir.I32, 'status': ir.I32, 'stage': ir.I32}

    def get(self, s, f):
        return self.e.cell(s, self.c, self.env.off(CT, f), self.ty.get(f, ir.DBL))

    def set(self, s, f, v):
        self.e.set_cell(s, self.c, self.env.off(CT, f), self.ty.get(f, ir.DBL), v)

    def all(self, s):
        return {f: self.get(s, f) for f in N9 + ('nevals', 'flags', 'status', 'stage')}

    def arbitrary(self, s):
        for f in N9:
            self.set(s, f, self.F.fresh(f, 64))
        for f in self.ty:
            self.set(s, f, self.e.fresh_int(s, f, 64 if f == 'nevals' else 32))
        v = self.all(s)
        s.assume_all([v['nevals'] >= 0, v['nevals'] < 2 ** 62, v['flags'] >= 0, v['flags'] < 8])
        return v

    def inf(self):
        return self.F.const('inf', 64)


def cached(env):
    """mutable file-level numbers: still at their initial value or holding the square root of the machine precision"""
    e, F = env.e, env.F
    m = build.module(MODS[0])
    out = []
    for nm, (t, init, const) in m.globals.items():
        if not const and init is not None and t is not None and t.k == 'double' and nm in e.stored_globals(m):
            p = e.global_ptr(m, nm)
            v = F.fresh('cache', 64)
            i0 = F.const(init[1] if init[0] == 'fp' else Fraction(0), 64)
            inv = lambda v, i0=i0: z3.Or(v == i0, v == F.const(Fraction(1, 2 ** 26), 64))
            e.set_cell(env.st, p, 0, ir.DBL, v)
            env.st.assume(inv(v))
            out.append((p, inv))
    return out


def cached_post(env, s, l):
    for p, inv in l:
        env.e.oblige(s, inv(env.e.cell(s, p, 0, ir.DBL)), 'inv', 'the cached constant is the square root of the machine precision')
    return [p for p, _ in l]


def fval(F, t):
    return z3.Not(F.nan(t))


def between(F, x, u, w):
    c = F.cmp
    return z3.Or(z3.And(c('ole', u, x), c('ole', x, w)), z3.And(c('ole', w, x), c('ole', x, u)))


def beyond(F, u, v, w):
    """w is on the other side of v than u"""
    return z3.Or(z3.And(F.cmp('ole', u, v), F.cmp('ole', v, w)), z3.And(F.cmp('oge', u, v), F.cmp('oge', v, w)))


def stage_inv(C, v, k, h):
    """invariants of the state between calls at stage k (h: any value supplied so far)"""
    F = C.F
    c = F.cmp
    A, B = v['flags'] % 2 == 1, (v['flags'] / 2) % 2 == 1
    lim = [F.fin(v['a']), F.fin(v['b']), z3.Not(c('oeq', v['a'], v['b'])), z3.Not(F.nan(v['prec'])), c('oge', v['prec'], F.const(Fraction(0), 64))]
    ni = {'x known': fval(F, v['x'])}
    if k == 1:
        o = [F.same(v['x'], v['a']), F.same(v['u'], v['a']), z3.Not(A), v['nevals'] == 0]
    elif k == 2:
        o = [F.same(v['x'], v['b']), F.same(v['u'], v['a']), F.same(v['w'], v['b']), z3.Not(B), fval(F, v['fu']), z3.If(A, v['fu'] == C.inf(), c('oge', h, v['fu'])), v['nevals'] == z3.If(A, 0, 1)]
    elif k == 3:
        o = [F.same(v['x'], v['v']), between(F, v['v'], v['u'], v['w']), between(F, v['u'], v['a'], v['b']), between(F, v['w'], v['a'], v['b']), fval(F, v['fu']), fval(F, v['fw']),
             c('ole', v['fw'], v['fu']), z3.Implies(v['nevals'] > 0, c('ole', v['fw'], h)), v['nevals'] == z3.If(A, 0, 1) + z3.If(B, 0, 1)]
    elif k == 4:
        o = [F.same(v['x'], v['w']), beyond(F, v['u'], v['v'], v['w']), fval(F, v['fv']), c('ole', v['fv'], v['fu']), c('ole', v['fv'], h), v['nevals'] >= 1]
    else:
        o = [between(F, v['v'], v['u'], v['w']), c('ole', v['fv'], v['fu']), c('ole', v['fv'], v['fw']), c('ole', v['fv'], h), v['nevals'] >= 1]
        if k == 5:
            o.append(between(F, v['x'], v['v'], v['w']))
    return lim + o


def width_ok(F, v, k):
    """no overflow of the interval"""
    o = [F.fin(v[q]) for q in {1: 'u', 2: 'uw', 3: 'uvw', 4: 'uvw', 5: 'uvwx', 6: 'uvw'}[k]]
    return o


def no_overflow(F, s, e, terms):
    for a, b in terms:
        s.assume(F.fin(F.sub(a, b)))


def conv_test(C, n):
    F = C.F
    av = [F.fun1('fabs', n[q]) for q in 'uvw']
    d = F.fun1('fabs', F.sub(n['w'], n['v']))
    out = []
    for m in av:
        top = z3.And([F.cmp('oge', m, x) for x in av if x is not m])
        out.append((top, F.cmp('ole', d, F.mul(n['prec'], m))))
    return out


def next_unit(k):
    def make(e):
        C = Ctx(e)
        env, F, st = C.env, C.F, C.env.st
        en, c = env.enum, F.cmp
        v = C.arbitrary(st)
        h, fx = F.fresh('earlier', 64), F.fresh('fx', 64)
        st.assume_all([fval(F, h), fval(F, fx)])
        xin = F.fresh('xin', 64)
        if k == 0:
            st.assume_all([F.fin(v['a']), F.fin(v['b']), z3.Not(c('oeq', v['a'], v['b'])), c('oge', v['prec'], F.const(Fraction(0), 64)), v['nevals'] == 0])
            C.set(st, 'status', en('OPK_FMIN_START'))
        else:
            st.assume_all(stage_inv(C, v, k, h) + width_ok(F, v, k))
            st.assume(c('oeq', xin, v['x']))
            C.set(st, 'stage', k)
            C.set(st, 'status', en('OPK_FMIN_CONVERGENCE' if k == 6 else 'OPK_FMIN_FX'))
            if k == 4:
                st.assume(fval(F, v['fu']))
        # the interval width does not overflow
        for p in ('uw', 'uv', 'vw'):
            if k == 0:
                st.assume_all([F.fin(F.sub(v['a'], v['b'])), F.fin(F.sub(v['b'], v['a']))])
            elif k <= 2:
                st.assume_all([F.fin(F.sub(v['a'], v['b'])), F.fin(F.sub(v['b'], v['a']))])
            else:
                x, y = v[p[0]], v[p[1]]
                st.assume_all([F.fin(F.sub(x, y)), F.fin(F.sub(y, x))])
        if k == 5:
            for q in 'uvw':
                st.assume_all([F.fin(F.sub(v['x'], v[q])), F.fin(F.sub(v[q], v['x']))])
        cell = Ptr(e.new_region(st, 'x', size=8))
        e.set_cell(st, cell, 0, ir.DBL, xin)
        snap = st.fork()
        FX, CV = en('OPK_FMIN_FX'), en('OPK_FMIN_CONVERGENCE')

        def post(e, s, r):
            t = i2z(r)
            n = C.all(s)
            e.oblige(s, z3.Or(t == FX, t == CV), 'post', 'asks for a value or has converged')
            e.oblige(s, i2z(n['status']) == t, 'post', 'pending task is the returned one')
            for q in ('a', 'b', 'prec'):
                e.oblige(s, F.same(n[q], v[q]), 'frame', '%s is kept' % q)
            e.oblige(s, i2z(n['flags']) == v['flags'], 'frame', 'flags are kept')
            e.oblige(s, i2z(n['nevals']) == v['nevals'] + (1 if 1 <= k <= 5 else 0), 'post', 'every evaluation is counted once')
            xo = e.cell(s, cell, 0, ir.DBL)
            g = i2z(n['stage'])
            e.oblige(s, z3.And(g >= 1, g <= 6, (t == CV) == (g == 6)), 'post', 'next stage')
            e.oblige(s, c('oeq', n['x'], xo), 'post', 'the abscissa to evaluate is the recorded one')
            e.oblige(s, z3.Implies(t == CV, F.same(xo, xin)), 'post', 'on convergence the abscissa is not modified')
            nx = {0: (1, 2, 3), 1: (2, 3), 2: (3,), 3: (4, 5, 6), 4: (4, 5, 6), 5: (5, 6), 6: (5, 6)}[k]
            e.oblige(s, z3.Or([g == q for q in nx]), 'post', 'next stage follows')
            hs = [h] if k in (0, 6) else [h, fx]
            for q in nx:
                if not e.feasible(s, g == q):
                    continue
                s2 = s.fork().assume(g == q)
                for hh in hs:
                    if k == 1 and hh is h:
                        continue    # nothing was supplied before
                    if k == 2 and hh is h:
                        s3 = s2.fork().assume(v['flags'] % 2 == 0)
                    elif k == 3 and hh is h:
                        s3 = s2.fork().assume(v['nevals'] > 0)
                    else:
                        s3 = s2
                    if not e.feasible(s3):
                        continue
                    for i, f in enumerate(stage_inv(C, n, q, hh)):
                        e.oblige(s3, f, 'inv', 'stage %d invariant %d' % (q, i))
                if q == 3:
                    e.oblige(s2, between(F, xo, v['a'], v['b']), 'post', 'the first inner point is inside the initial interval')
                if q == 5:
                    e.oblige(s2, between(F, xo, n['u'], n['w']), 'post', 'the proposed abscissa lies inside the bracket')
                if k in (5, 6) and q in (5, 6):
                    e.oblige(s2, z3.And(between(F, n['u'], v['u'], v['w']), between(F, n['w'], v['u'], v['w'])), 'post', 'the bracket never grows')
                if q in (5, 6):
                    for top, f in conv_test(C, n):
                        e.oblige(s2, z3.Implies(top, f if q == 6 else z3.Not(f)), 'post', 'convergence exactly when the bracket is narrow enough')
            # values stay attached to their abscissae
            if k >= 3:
                known = [(v['u'], v['fu']), (v['w'], v['fw'])] + ([(v['v'], v['fv'])] if k > 3 else [])
                if k == 3:
                    known.append((v['v'], fx))
                elif k == 4:
                    known = known[:1] + known[2:] + [(v['w'], fx)]
                elif k == 5:
                    known.append((v['x'], fx))
                for q in 'uvw':
                    f = z3.Or([z3.And(F.same(n[q], a), F.same(n['f' + q], b)) for a, b in known])
                    if q == 'w':
                        f = z3.Implies(g != 4, f)
                    e.oblige(s, f, 'post', 'each recorded value belongs to its abscissa')
            nothing_changed(env, s, snap, allow=[C.c, cell])
        return env.fn('opk_fmin_next'), st, [C.c, cell, fx], post
    return make


def next_refused(how):
    def make(e):
        C = Ctx(e)
        env, F, st = C.env, C.F, C.env.st
        en, c = env.enum, F.cmp
        v = C.arbitrary(st)
        xin = F.fresh('xin', 64)
        cell = Ptr(e.new_region(st, 'x', size=8))
        e.set_cell(st, cell, 0, ir.DBL, xin)
        act = z3.Or(v['status'] == en('OPK_FMIN_FX'), v['status'] == en('OPK_FMIN_CONVERGENCE'))
        if how == 'changed':
            st.assume_all([act, z3.Not(c('oeq', xin, v['x']))])
        elif how == 'corrupted':
            st.assume_all([act, z3.Or(v['stage'] < 1, v['stage'] > 6)])
        elif how == 'wrong state':
            st.assume_all([z3.Not(act), v['status'] != en('OPK_FMIN_START')])
        args = [C.c, cell, F.fresh('fx', 64)]
        if how == 'no context':
            args[0] = NULL
        if how == 'no variable':
            args[1] = NULL
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == en('OPK_FMIN_ERROR'), 'post', 'refused with an error')
            n = C.all(s)
            if how != 'no context':
                e.oblige(s, i2z(n['status']) == en('OPK_FMIN_ERROR'), 'post', 'the error is recorded')
            for q in n:
                if q != 'status':
                    e.oblige(s, veq(e, n[q], v[q]) if q in C.ty else F.same(n[q], v[q]), 'frame', 'nothing else is modified')
            if how.startswith('no '):
                errno_is(env, s, EFAULT)
            nothing_changed(env, s, snap, allow=[C.c])
        return env.fn('opk_fmin_next'), st, args, post
    return make


def start(e):
    C = Ctx(e)
    env, F, st = C.env, C.F, C.env.st
    en, c = env.enum, F.cmp
    v = C.arbitrary(st)
    a, b, fl = F.fresh('a', 64), F.fresh('b', 64), e.fresh_int(st, 'flags', 32)
    snap = st.fork()

    def post(e, s, r):
        n = C.all(s)
        ok = z3.Not(c('oeq', a, b))
        e.oblige(s, i2z(r) == z3.If(ok, en('OPK_SUCCESS'), en('OPK_INVALID_ARGUMENT')), 'post', 'refused exactly for an empty interval')
        e.oblige(s, z3.Implies(ok, z3.And(F.same(n['a'], a), F.same(n['b'], b), i2z(n['nevals']) == 0, i2z(n['status']) == en('OPK_FMIN_START'))), 'post', 'a fresh start')
        e.oblige(s, z3.Implies(ok, i2z(n['flags']) == i2z(fl) % 8), 'post', 'the documented flags are recorded')
        e.oblige(s, F.same(n['prec'], v['prec']), 'frame', 'precision is kept')
        for q in n:
            e.oblige(s, z3.Implies(z3.Not(ok), veq(e, n[q], v[q])), 'frame', 'nothing is modified when refused')
        nothing_changed(env, s, snap, allow=[C.c])
    return env.fn('opk_fmin_start'), st, [C.c, a, b, fl], post


def precision(e):
    C = Ctx(e)
    env, F, st = C.env, C.F, C.env.st
    en, c = env.enum, F.cmp
    v = C.arbitrary(st)
    p = F.fresh('prec', 64)
    snap = st.fork()

    def post(e, s, r):
        n = C.all(s)
        bad = c('olt', p, F.const(Fraction(0), 64))
        e.oblige(s, i2z(r) == z3.If(bad, en('OPK_INVALID_ARGUMENT'), en('OPK_SUCCESS')), 'post', 'refused exactly when negative')
        e.oblige(s, F.same(n['prec'], z3.If(bad, v['prec'], p)), 'post', 'precision recorded')
        for s2, g in e.call_fn(s.fork(), env.fn('opk_fmin_get_precision'), [C.c]):
            e.oblige(s2, F.same(g, n['prec']), 'post', 'precision read back')
        for q in n:
            if q != 'prec':
                e.oblige(s, veq(e, n[q], v[q]), 'frame', 'nothing else is modified')
        nothing_changed(env, s, snap, allow=[C.c])
    return env.fn('opk_fmin_set_precision'), st, [C.c, p], post


def newctx(e):
    e.malloc_fails = True
    env = Env(e, 'd', mods=MODS)
    F, st = env.F, env.st
    gl = cached(env)
    snap = st.fork()

    def post(e, s, r):
        cached_post(env, s, gl)
        if r.r is None:
            e.oblige(s, 'oom' in s.flags, 'post', 'fails only for lack of memory')
            return
        for s2, t in e.call_fn(s.fork(), env.fn('opk_fmin_get_status'), [r]):
            e.oblige(s2, i2z(t) == env.enum('OPK_FMIN_ERROR'), 'post', 'not started')
        for s2, t in e.call_fn(s.fork(), env.fn('opk_fmin_get_precision'), [r]):
            e.oblige(s2, z3.And(z3.Not(F.nan(t)), F.key(t) == fp_rv(Fraction(1, 2 ** 26))), 'post', 'default precision is the square root of the machine precision')
        for s2, t in e.call_fn(s.fork(), env.fn('opk_fmin_get_flags'), [r]):
            e.oblige(s2, i2z(t) == 0, 'post', 'no flags')
        cell = Ptr(e.new_region(s, 'x', size=8))
        e.set_cell(s, cell, 0, ir.DBL, F.fresh('x', 64))
        for s2, t in e.call_fn(s.fork(), env.fn('opk_fmin_next'), [r, cell, F.fresh('fx', 64)]):
            e.oblige(s2, i2z(t) == env.enum('OPK_FMIN_ERROR'), 'post', 'cannot be iterated before it is started')
        for s2, t in e.call_fn(s.fork(), env.fn('opk_fmin_get_final'), [r] + [NULL] * 7):
            e.oblige(s2, i2z(t) == env.enum('OPK_INVALID_ARGUMENT'), 'post', 'no result before it is started')
        for s2, t in e.call_fn(s.fork(), env.fn('opk_fmin_destroy'), [r]):
            no_leak(env, s2, snap)
    return env.fn('opk_fmin_new'), st, [0], post


def fp_rv(f):
    from opkv.fp import rv
    return rv(f)


def missing(fn, nargs, want):
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd', mods=MODS)
        F, st = env.F, env.st
        gl = cached(env)
        a = [NULL] + [F.fresh('v', 64) if x == 'd' else NULL if x == 'p' else e.fresh_int(st, 'i', 32) for x in nargs]
        snap = st.fork()

        def post(e, s, r):
            cached_post(env, s, gl)
            if want == 'sqrteps':
                e.oblige(s, z3.And(z3.Not(F.nan(r)), F.key(r) == fp_rv(Fraction(1, 2 ** 26))), 'post', 'default precision')
            elif want is not None:
                e.oblige(s, i2z(r) == (env.enum(want) if isinstance(want, str) else want), 'post', 'documented result for a missing context')
            if want in ('sqrteps', 0, 'OPK_FMIN_ERROR'):
                errno_is(env, s, EFAULT)
        return env.fn(fn), st, a, post
    return make


OUT = ('xmin', 'xlo', 'xup', 'fmin', 'flo', 'fup', 'nevals')


def final(sub):
    def make(e):
        C = Ctx(e)
        env, F, st = C.env, C.F, C.env.st
        en, c = env.enum, F.cmp
        v = C.arbitrary(st)
        started = i2z(v['status']) >= en('OPK_FMIN_START')
        st.assume_all([fval(F, v['u']), fval(F, v['w']), i2z(v['status']) >= -1, i2z(v['status']) <= 3])
        args, cells = [C.c], {}
        for q in OUT:
            if q in sub:
                cells[q] = Ptr(e.new_region(st, q, size=8))
                old = F.fresh('old', 64) if q != 'nevals' else e.fresh_int(st, 'old', 64)
                e.set_cell(st, cells[q], 0, ir.DBL if q != 'nevals' else ir.I64, old)
                args.append(cells[q])
            else:
                args.append(NULL)
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == z3.If(started, en('OPK_SUCCESS'), en('OPK_INVALID_ARGUMENT')), 'post', 'refused exactly before the start')
            val = {q: e.cell(s, cells[q], 0, ir.DBL if q != 'nevals' else ir.I64) for q in cells}
            old = {q: e.cell(snap, cells[q], 0, ir.DBL if q != 'nevals' else ir.I64) for q in cells}
            hi = c('ogt', v['u'], v['w'])
            want = dict(xmin=v['v'], fmin=v['fv'], xlo=z3.If(hi, v['w'], v['u']), xup=z3.If(hi, v['u'], v['w']), flo=z3.If(hi, v['fw'], v['fu']), fup=z3.If(hi, v['fu'], v['fw']), nevals=v['nevals'])
            eqlo = F.key(v['u']) == F.key(v['w'])
            for q in cells:
                e.oblige(s, z3.Implies(z3.And(started, z3.Not(eqlo)), veq(e, val[q], want[q])), 'post', '%s of the final interval' % q)
                e.oblige(s, z3.Implies(z3.Not(started), veq(e, val[q], old[q])), 'frame', 'nothing is written when refused')
            if 'xlo' in cells and 'xup' in cells:
                e.oblige(s, z3.Implies(started, c('ole', val['xlo'], val['xup'])), 'post', 'lower end below upper end')
            nothing_changed(env, s, snap, allow=list(cells.values()))
        return env.fn('opk_fmin_get_final'), st, args, post
    return make


def initial(sub):
    def make(e):
        C = Ctx(e)
        env, F, st = C.env, C.F, C.env.st
        en = env.enum
        v = C.arbitrary(st)
        st.assume_all([i2z(v['status']) >= -1, i2z(v['status']) <= 3])
        started = i2z(v['status']) >= en('OPK_FMIN_START')
        args, cells = [C.c], {}
        for q in ('a', 'b', 'flags'):
            if q in sub:
                cells[q] = Ptr(e.new_region(st, q, size=8 if q != 'flags' else 4))
                e.set_cell(st, cells[q], 0, ir.DBL if q != 'flags' else ir.I32, F.fresh('old', 64) if q != 'flags' else e.fresh_int(st, 'old', 32))
                args.append(cells[q])
            else:
                args.append(NULL)
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == z3.If(started, en('OPK_SUCCESS'), en('OPK_INVALID_ARGUMENT')), 'post', 'refused exactly before the start')
            for q in cells:
                ty = ir.DBL if q != 'flags' else ir.I32
                x, o = e.cell(s, cells[q], 0, ty), e.cell(snap, cells[q], 0, ty)
                e.oblige(s, z3.If(started, veq(e, x, v[q]), veq(e, x, o)), 'post', '%s of the initial interval' % q)
            nothing_changed(env, s, snap, allow=list(cells.values()))
        return env.fn('opk_fmin_get_initial'), st, args, post
    return make


# ---------------------------------------------------------------- direct versions
def direct(fname, refuse=False):
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd', mods=MODS)
        F, st = env.F, env.st
        c = F.cmp
        ctxv = fname.endswith('context')
        userf = z3.Function('userf', F.S[64], F.S[64])
        count, best = 'count', 'best'
        st.g[count] = z3.IntVal(0)
        st.g[best] = F.const('inf', 64)
        data = Ptr(e.new_region(st, 'data', size=8))

        def handler(e, s, a, ins):
            x = a[-1]
            if ctxv:
                e.oblige(s, b2z(isinstance(a[0], Ptr) and a[0].r is data.r), 'pre', 'the data given by the caller is passed to the function')
            y = userf(x)
            s.assume_all([fval(F, y), F.fin(x)])          # finite abscissae, no NaN value
            s.g[count] = s.g[count] + 1
            s.g[best] = z3.If(c('olt', y, s.g[best]), y, s.g[best])
            return [(s, y)]
        fcb = virtual(env, 'f', handler)
        a, b, prec = F.fresh('a', 64), F.fresh('b', 64), F.fresh('prec', 64)
        fl, mx = e.fresh_int(st, 'flags', 32), e.fresh_int(st, 'maxeval', 64)
        st.assume_all([F.fin(a), F.fin(b), fval(F, prec)])
        if refuse:
            st.assume(c('oeq', a, b))
        else:
            st.assume_all([z3.Not(c('oeq', a, b)), F.fin(F.sub(a, b)), F.fin(F.sub(b, a))])
        out, _ = e.array(st, 'out', ir.DBL, 7)
        A, B = i2z(fl) % 2 == 1, (i2z(fl) / 2) % 2 == 1
        mn = 1 + z3.If(A, 0, 1) + z3.If(B, 0, 1)
        gl = cached(env)

        def gen(L, probe, mod):
            o = []
            fl = [x.res for x in L.phis if x.ty.k == 'double']
            for x in fl:
                o.append((x + ' fin', lambda v, x=x: F.fin(v.phi[x])))
                o.append((x + ' ok', lambda v, x=x: fval(F, v.phi[x])))
                o.append((x + '<=best', lambda v, x=x: c('ole', v.phi[x], v.st.g[best])))
                o.append((x + '>=best', lambda v, x=x: c('oge', v.phi[x], v.st.g[best])))
                for y in fl:
                    if x != y:
                        o.append(('%s=f(%s)' % (x, y), lambda v, x=x, y=y: F.same(v.phi[x], userf(v.phi[y]))))
                        o.append(('%s=f(%s)|bound' % (x, y), lambda v, x=x, y=y: z3.Or(F.same(v.phi[x], userf(v.phi[y])), z3.And(v.phi[x] == F.const('inf', 64), z3.Or(F.same(v.phi[y], a), F.same(v.phi[y], b))))))
                        o.append(('%s<=%s' % (x, y), lambda v, x=x, y=y: c('ole', v.phi[x], v.phi[y])))
                        if x < y:
                            o.append(('min(%s,%s)=best' % (x, y), lambda v, x=x, y=y: z3.And(c('oge', v.phi[x], v.st.g[best]), c('oge', v.phi[y], v.st.g[best]), z3.Or(c('oeq', v.phi[x], v.st.g[best]), c('oeq', v.phi[y], v.st.g[best])))))
                            for z in fl:
                                if z not in (x, y):
                                    o.append(('%s in [%s,%s]' % (z, x, y), lambda v, x=x, y=y, z=z: between(F, v.phi[z], v.phi[x], v.phi[y])))
            for x in [x.res for x in L.phis if x.ty.k == 'i' and x.ty.a == 64]:
                o.append((x + '=count', lambda v, x=x: i2z(v.phi[x]) == v.st.g[count]))
                o.append((x + '<=max', lambda v, x=x: z3.Or(mx < 0, v.st.g[count] <= mx, v.st.g[count] == mn)))
            o.append(('count<=max', lambda v: z3.Or(mx < 0, v.st.g[count] <= mx, v.st.g[count] == mn)))
            o.append(('count>=1', lambda v: v.st.g[count] >= 1))
            return o
        e.cand_gens.append(gen)
        snap = st.fork()
        args = [fcb, a, b, fl, mx, prec, out] + ([data] if ctxv else [])

        def post(e, s, r):
            t = i2z(r)
            gp = cached_post(env, s, gl)
            if refuse:
                e.oblige(s, t == -1, 'post', 'an empty interval is refused')
                e.oblige(s, s.g[count] == 0, 'post', 'before any evaluation')
                errno_is(env, s, EINVAL)
                nothing_changed(env, s, snap, allow=gp)
                return
            o = [z3.Select(e.arr(s, out), i) for i in range(7)]
            bst = s.g[best]
            e.oblige(s, z3.And(t >= 0, t <= 2), 'post', 'converged, bracketed or not bracketed')
            e.oblige(s, F.same(o[6], F.itof(s.g[count], 64)), 'post', 'every evaluation is counted once')
            e.oblige(s, z3.And(s.g[count] >= 1, z3.Or(mx < 0, s.g[count] <= mx, s.g[count] == mn)), 'post', 'no more evaluations than requested')
            e.oblige(s, c('ole', o[1], o[2]), 'post', 'the ends of the interval are ordered')
            e.oblige(s, F.same(o[3], userf(o[0])), 'post', 'the value at the minimum is the one computed there')
            for i in (1, 2):
                e.oblige(s, z3.Or(F.same(o[3 + i], userf(o[i])), z3.And(o[3 + i] == F.const('inf', 64), z3.Or(F.same(o[i], a), F.same(o[i], b)))), 'post', 'the values at the ends are the ones computed there (infinite at an exclusive bound)')
            e.oblige(s, z3.Implies(t < 2, z3.And(between(F, o[0], o[1], o[2]), c('ole', o[3], o[4]), c('ole', o[3], o[5]))), 'post', 'the minimum is bracketed')
            e.oblige(s, z3.Implies(t < 2, c('oeq', o[3], bst)), 'post', 'the minimum is the smallest value computed')
            e.oblige(s, z3.Implies(t > 0, z3.And(mx >= 0, s.g[count] >= mx)), 'post', 'stops early only when the evaluations are exhausted')
            nothing_changed(env, s, snap, allow=[out] + gp)
        return env.fn(fname), st, args, post
    return make


def units(tier):
    out = []

    def add(name, desc, make, **kw):
        out.append(dict(name=name, desc=desc, make=make, **kw))
    for k in range(7):
        add('opk_fmin_next/stage %d' % k, 'keeps the bracket, the best point and the count', next_unit(k), cost=5)
    for how in ('changed', 'corrupted', 'wrong state', 'no context', 'no variable'):
        add('opk_fmin_next/' + how, 'refused', next_refused(how))
    add('opk_fmin_start', 'records the interval', start)
    add('opk_fmin_set_precision', 'records a valid precision', precision)
    add('opk_fmin_new', 'initial state', newctx)
    ia, n = 'OPK_ILLEGAL_ADDRESS', 'OPK_FMIN_ERROR'
    for f, args, w in (('start', 'ddi', ia), ('set_precision', 'd', ia), ('get_precision', '', 'sqrteps'), ('get_flags', '', 0), ('get_status', '', n), ('get_initial', 'ppp', ia), ('get_final', 'ppppppp', ia), ('destroy', '', None)):
        add('opk_fmin_%s/missing' % f, 'documented result', missing('opk_fmin_' + f, args, w))
    subs = [list(OUT), []] + [[q] for q in OUT] + [[p for p in OUT if p != q] for q in OUT] if tier == 'quick' else list(subsets(list(OUT), False))
    for sub in subs:
        add('opk_fmin_get_final/' + ','.join(sub), 'any subset of the results', final(sub))
    for sub in subsets(['a', 'b', 'flags'], False):
        add('opk_fmin_get_initial/' + ','.join(sub), 'any subset', initial(sub))
    for f in ('opk_fmin', 'opk_fmin_with_context'):
        add(f, 'bracket, best point and count for every function', direct(f), cost=9)
        add(f + '/empty', 'refused', direct(f, True))
    return out
