"""C06 -- step limits: first bound hit, first bound hit at a non-zero step, last bound hit."""
from .box import *

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/fltvector.c']
HARNESS = dict(src='c06.c', always=True, bounded='random inputs, sizes up to 24')


def unit(prec, lk, uk, orient, outs='111'):
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F, w = env.F, env.w
        sp, n = env.space()
        k = env.index(n)
        bx = Box(env, sp, n, lk, uk, k)
        x, xd = env.vec(sp, n, 'x')
        d, ddir = env.vec(sp, n, 'd')
        st = env.st
        o = e.fresh_int(st, 'orient', 32)
        st.assume(o > 0 if orient > 0 else o < 0)
        zero = F.const(Fraction(0), w)
        MAXF = Fraction(2 ** 1024 - 2 ** 971) if w == 64 else Fraction(2 ** 128 - 2 ** 104)
        MX = fpmod.rv(MAXF)
        xa, da = xd.r.init_arrs[0], ddir.r.init_arrs[0]
        bnd = {}
        it = iter(bx.arr)
        for nm, kind in (('lo', lk), ('hi', uk)):
            if kind == 'VECTOR':
                a = next(it).r.init_arrs[0]
                bnd[nm] = lambda j, a=a: z3.Select(a, j)
            elif kind == 'NONE':
                bnd[nm] = None
            else:
                v = bx.lo if nm == 'lo' else bx.hi
                bnd[nm] = lambda j, v=v: v
        X, D = (lambda j: z3.Select(xa, j)), (lambda j: z3.Select(da, j))

        def info(j):
            """(condition, kind, step) alternatives for component j"""
            neg, pos = F.cmp('olt', D(j), zero), F.cmp('ogt', D(j), zero)
            if orient < 0:
                neg, pos = pos, neg
            r = []
            for c, b in ((neg, bnd['lo']), (pos, bnd['hi'])):
                if b is None:
                    r.append((c, None))
                else:
                    num = F.sub(b(j), X(j)) if orient > 0 else F.sub(X(j), b(j))
                    r.append((c, F.div(num, D(j))))
            return r

        def pre(j):
            c = [F.fin(X(j)), F.fin(D(j))]
            if bnd['lo'] is not None:
                c += [F.cmp('ole', bnd['lo'](j), X(j))]
            if bnd['hi'] is not None:
                c += [F.cmp('oge', bnd['hi'](j), X(j))]
            return z3.And(c)
        I, Re = z3.IntSort(), z3.RealSort()
        S1, S2, S3 = [z3.Function(q, I, Re) for q in ('Smin1', 'Smin2', 'Smax')]
        unbounded = lk == 'NONE' and uk == 'NONE'
        st.assume(z3.And(S1(z3.IntVal(0)) == MX, S2(z3.IntVal(0)) == MX, S3(z3.IntVal(0)) == (MX if unbounded else 0)))

        def step(j):
            (cn, sn), (cp, s_p) = info(j)
            e1, e2, e3 = S1(j), S2(j), S3(j)
            for c, s in ((cn, sn), (cp, s_p)):
                if s is None:
                    e3 = z3.If(c, MX, e3)
                else:
                    ks = F.key(s)
                    kc = z3.If(ks < MX, ks, MX)
                    e1 = z3.If(z3.And(c, ks < S1(j)), ks, e1)
                    e2 = z3.If(z3.And(c, ks < S2(j), ks > 0), ks, e2)
                    e3 = z3.If(z3.And(c, kc > S3(j)), kc, e3)
            return z3.Implies(z3.And(j >= 0, j < n), z3.And(pre(j), S1(j + 1) == e1, S2(j + 1) == e2, S3(j + 1) == e3))
        cap = lambda v: z3.If(F.key(v) < MX, F.key(v), MX)
        ok = lambda v: z3.Not(F.nan(v))
        inv = lambda v, s: z3.And(ok(v), s <= MX, s >= 0, F.key(v) >= 0)
        m12 = lambda v, s: z3.And(F.key(v) == s, inv(v, s))
        m3 = lambda v, s: z3.And(cap(v) == s, inv(v, s))
        add_fold_specs(e, [dict(name='smin1', S=S1, step=step, match=m12), dict(name='smin2', S=S2, step=step, match=m12), dict(name='smax', S=S3, step=step, match=m3)])
        st.assume(z3.Implies(z3.And(k >= 0, k < n), pre(k)))
        regs = [e.new_region(st, q, size=8) for q in ('smin1', 'smin2', 'smax')]
        ptrs = [Ptr(r) if c == '1' else NULL for r, c in zip(regs, outs)]
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == env.enum('OPK_SUCCESS'), 'post', 'the call succeeds')
            for i, (rg, S, c, nm) in enumerate(zip(regs, (S1, S2, S3), outs, ('first bound step', 'first non-zero bound step', 'last bound step'))):
                if c == '1':
                    v = e.cell(s, rg, 0, ir.DBL)
                    i32 = fpmod.rv(fpmod.INF[32])
                    kv = F.key(v)
                    if w == 32:
                        cv = z3.If(kv < MX, kv, MX)
                    else:
                        cv = cap(v) if i == 2 else kv
                    e.oblige(s, z3.And(ok(v), cv == (MX if unbounded else S(n))), 'post', nm + ' is exact')
            e.oblige(s, env.at(s, xd, k) == X(k), 'frame', 'variables unchanged')
            e.oblige(s, env.at(s, ddir, k) == D(k), 'frame', 'direction unchanged')
            bx.unchanged(s, snap)
            frame_unchanged(env, s, snap, [sp, x, d, bx.set])
        return env.fn('opk_get_step_limits'), st, ptrs + [x, bx.set, d, o], post
    return make


def units(tier):
    out = []
    for prec in 'ds':
        P = {'d': 'double', 's': 'float'}[prec]
        for lk in CORE:
            for uk in CORE:
                for orient in (1, -1):
                    pats = ['111', '000', '010', '101'] if (lk, uk) == ('VECTOR', 'VECTOR') else ['111']
                    for o in pats:
                        out.append(dict(name='get_step_limits/%s/%s,%s/%s/outputs=%s' % (P, lk, uk, 'descent' if orient > 0 else 'ascent', o),
                                        desc='step limits, bounds %s/%s' % (lk, uk), make=unit(prec, lk, uk, orient, o)))
    return out
