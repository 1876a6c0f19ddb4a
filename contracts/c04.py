"""C04 -- projection onto a box is the exact componentwise clamp, for every way of giving the bounds."""
from .box import *

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/fltvector.c']
HARNESS = dict(src='c04.c', always=True, bounded='random inputs, sizes up to 24')


def unit(prec, lk, uk, inplace):
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F = env.F
        sp, n = env.space()
        k = env.index(n)
        bx = Box(env, sp, n, lk, uk, k)
        x, xd = env.vec(sp, n, 'x')
        if inplace == 'object':
            dst, dd = x, xd
        elif inplace == 'array':
            dst, dd = env.wrap(sp, xd, 'dst'), xd
        else:
            dst, dd = env.vec(sp, n, 'dst')
        st = env.st
        X = env.at0(xd, k)
        lo, hi = bx.lo, bx.hi
        alts = [X] + [b for b in (lo, hi) if b is not None]
        exp = clamp(F, X, lo, hi)
        bx.assume_ordered()
        nx = F.nan(X)
        add_elem_specs(e, [dict(r=dd.r, k=k, exp=[exp, lambda v: z3.If(nx, z3.Or(F.nan(v), bx.inside(v)), F.cmp('oeq', v, exp))])])
        snap = st.fork()
        jx = env.index(n, 'j')

        def post(e, s, r):
            e.oblige(s, i2z(r) == env.enum('OPK_SUCCESS'), 'post', 'projection succeeds')
            v = env.at(s, dd, k)
            if lo is not None:
                e.oblige(s, z3.Or(nx, F.cmp('oge', v, lo)), 'post', 'result is not below the lower bound')
                e.oblige(s, z3.Implies(F.cmp('olt', X, lo), F.cmp('oeq', v, lo)), 'post', 'values below the lower bound move to it')
            if hi is not None:
                e.oblige(s, z3.Or(nx, F.cmp('ole', v, hi)), 'post', 'result is not above the upper bound')
                e.oblige(s, z3.Implies(F.cmp('ogt', X, hi), F.cmp('oeq', v, hi)), 'post', 'values above the upper bound move to it')
            e.oblige(s, z3.Implies(z3.And(z3.Not(nx), bx.inside(X)), F.cmp('oeq', v, X)), 'post', 'feasible values are unchanged')
            e.oblige(s, z3.Implies(nx, z3.Or(F.nan(v), bx.inside(v))), 'post', 'a value that is not a number stays so or becomes feasible')
            if dd is not xd:
                e.oblige(s, env.at(s, xd, k) == X, 'frame', 'input unchanged')
            bx.unchanged(s, snap)
            frame_unchanged(env, s, snap, [sp, x, dst, bx.set])
        return env.fn('opk_project_variables'), st, [dst, x, bx.set], post
    return make


def units(tier):
    out = []
    for prec in 'ds':
        P = {'d': 'double', 's': 'float'}[prec]
        for lk in KINDS:
            for uk in KINDS:
                modes = ['no', 'object', 'array'] if (lk in CORE and uk in CORE) else ['object']
                for ip in modes:
                    out.append(dict(name='project_variables/%s/%s,%s/inplace=%s' % (P, lk, uk, ip), desc='clamp with lower bound %s and upper bound %s' % (lk, uk),
                                    make=unit(prec, lk, uk, ip)))
    return out
