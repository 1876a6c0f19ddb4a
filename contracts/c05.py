"""C05 -- projected direction and free-variable mask follow the blocking rule, for both orientations."""
from .box import *

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/fltvector.c']
HARNESS = dict(src='c05.c', always=True, bounded='random inputs, sizes up to 24')


def unit(op, prec, lk, uk, orient, mode):
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F, w = env.F, env.w
        sp, n = env.space()
        k = env.index(n)
        bx = Box(env, sp, n, lk, uk, k)
        x, xd = env.vec(sp, n, 'x')
        d, ddir = env.vec(sp, n, 'd')
        if mode == 'd':
            dst, dd = d, ddir
        elif mode == 'x':
            dst, dd = x, xd
        elif mode == 'd array':
            dst, dd = env.wrap(sp, ddir, 'dst'), ddir
        else:
            dst, dd = env.vec(sp, n, 'dst')
        st = env.st
        X, D = env.at0(xd, k), env.at0(ddir, k)
        bx.assume_ordered()
        o = e.fresh_int(st, 'orient', 32)
        st.assume(o > 0 if orient > 0 else o < 0)
        zero, one = F.const(Fraction(0), w), F.const(Fraction(1), w)
        neg, pos = F.cmp('olt', D, zero), F.cmp('ogt', D, zero)
        if orient < 0:
            neg, pos = pos, neg
        bl = z3.BoolVal(False)
        st.assume(z3.And(z3.Not(F.nan(X)), z3.Not(F.nan(D))))
        if bx.lo is not None:
            bl = z3.Or(bl, z3.And(neg, F.cmp('ole', X, bx.lo)))
        if bx.hi is not None:
            bl = z3.Or(bl, z3.And(pos, F.cmp('oge', X, bx.hi)))
        if op == 'opk_project_direction':
            exp = z3.If(bl, zero, D)
            m = lambda v: F.cmp('oeq', v, exp)
            alts = [exp, z3.If(F.cmp('oeq', D, zero), zero, exp)]
        else:
            exp = z3.If(bl, zero, one)
            moving = F.cmp('one', D, zero)
            m = lambda v: z3.And(z3.Implies(moving, F.cmp('oeq', v, exp)), z3.Or(F.cmp('oeq', v, zero), F.cmp('oeq', v, one)))
            alts = [exp, z3.If(moving, exp, zero), one]
        add_elem_specs(e, [dict(r=dd.r, k=k, exp=alts + [m])])
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == env.enum('OPK_SUCCESS'), 'post', 'the call succeeds')
            what = 'component is zero exactly when blocked, unchanged otherwise' if op == 'opk_project_direction' else 'mask is 1 exactly when not blocked'
            e.oblige(s, m(env.at(s, dd, k)), 'post', what)
            if dd is not xd:
                e.oblige(s, env.at(s, xd, k) == X, 'frame', 'variables unchanged')
            if dd is not ddir:
                e.oblige(s, env.at(s, ddir, k) == D, 'frame', 'direction unchanged')
            bx.unchanged(s, snap)
            frame_unchanged(env, s, snap, [sp, x, d, dst, bx.set])
        return env.fn(op), st, [dst, x, bx.set, d, o], post
    return make


def units(tier):
    out = []
    for op in ('opk_project_direction', 'opk_get_free_variables'):
        for prec in 'ds':
            P = {'d': 'double', 's': 'float'}[prec]
            for lk in CORE:
                for uk in CORE:
                    for orient in (1, -1):
                        for mode in ('distinct', 'd', 'x', 'd array'):
                            out.append(dict(name='%s/%s/%s,%s/%s/%s' % (op, P, lk, uk, 'descent' if orient > 0 else 'ascent', mode),
                                            desc='blocking rule, bounds %s/%s, destination %s' % (lk, uk, mode), make=unit(op, prec, lk, uk, orient, mode)))
    return out
