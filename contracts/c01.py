"""C01 -- vector algebra: every operation stores / returns exactly the documented
formula, for every length, every coefficient value, every way of sharing operands, both precisions."""
from .common import *

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/fltvector.c']
HARNESS = dict(src='c01.c', always=True, bounded='random inputs, sizes up to 24')

OPS = {
    # name: (operands, destination operands, number of coefficients)
    'opk_vzero': (['dst'], ['dst'], 0),
    'opk_vfill': (['dst'], ['dst'], 1),
    'opk_vcopy': (['dst', 'x'], ['dst'], 0),
    'opk_vscale': (['dst', 'x'], ['dst'], 1),
    'opk_vswap': (['x', 'y'], ['x', 'y'], 0),
    'opk_vproduct': (['dst', 'x', 'y'], ['dst'], 0),
    'opk_vaxpby': (['dst', 'x', 'y'], ['dst'], 2),
    'opk_vaxpbypcz': (['dst', 'x', 'y', 'z'], ['dst'], 3),
    'opk_vdot': (['x', 'y'], [], 0),
    'opk_vdot3': (['w', 'x', 'y'], [], 0),
    'opk_vnorm1': (['x'], [], 0),
    'opk_vnorm2': (['x'], [], 0),
    'opk_vnorminf': (['x'], [], 0),
}


def formula(F, op, w, V, co):
    """(expected, alternatives) for dst[k]; V: operand -> initial value at k; co: coefficients (double)"""
    zero = F.const(Fraction(0), w)
    cv = (lambda c: c) if w == 64 else F.trunc
    z64 = F.const(Fraction(0), 64)
    is0 = lambda c: F.cmp('oeq', c, z64)
    if op == 'opk_vzero':
        return zero, [zero]
    if op == 'opk_vfill':
        a = cv(co[0])
        return z3.If(is0(co[0]), zero, a), [zero, a]
    if op == 'opk_vcopy':
        return V['x'], [V['x']]
    if op == 'opk_vproduct':
        r = F.mul(V['x'], V['y'])
        return r, [r]
    names = {'opk_vscale': 'x', 'opk_vaxpby': 'xy', 'opk_vaxpbypcz': 'xyz'}[op]
    # a null coefficient suppresses its term
    alts = []

    def rec(i, acc):
        if i == len(names):
            r = acc if acc is not None else zero
            if not any(r.eq(q) for q in alts):
                alts.append(r)
            return r
        t = F.mul(cv(co[i]), V[names[i]])
        return z3.If(is0(co[i]), rec(i + 1, acc), rec(i + 1, t if acc is None else F.add(acc, t)))
    r = rec(0, None)
    return r, alts


def elementwise(op, prec, share, samevec=True):
    names, dsts, nco = OPS[op]

    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F, st = env.F, None
        sp, n = env.space()
        vec, dat = {}, {}
        for q in names:
            r = share[q]
            if r in vec:
                dat[q] = dat[r]
                vec[q] = vec[r] if samevec else env.wrap(sp, dat[r], q)
            else:
                vec[q], dat[q] = env.vec(sp, n, q)
                vec[r], dat[r] = vec[q], dat[q]
        k = env.index(n)
        co = [F.fresh('c%d' % i, 64) for i in range(nco)]
        V = {q: env.at0(dat[q], k) for q in names}
        st = env.st
        snap = st.fork()
        exps = {}
        if op == 'opk_vswap':
            exps['x'] = (V['y'], [V['y']])
            exps['y'] = (V['x'], [V['x']])
        elif dsts:
            exps['dst'] = formula(F, op, env.w, V, co)
        if exps:
            add_elem_specs(e, [dict(r=dat[d].r, k=k, exp=x[1]) for d, x in exps.items()])

        def post(e, s, r):
            for d, x in exps.items():
                e.oblige(s, F.same(env.at(s, dat[d], k), x[0]), 'post', '%s[k] has the documented value' % d)
            seen = {dat[d].r.id for d in dsts}
            for q in names:
                if dat[q].r.id not in seen:
                    seen.add(dat[q].r.id)
                    e.oblige(s, env.at(s, dat[q], k) == V[q], 'frame', 'operand %s unchanged' % q)
            frame_unchanged(env, s, snap, [sp] + [vec[q] for q in names])
            e.oblige(s, 'opk_error' not in s.flags, 'post', 'no error is raised for valid operands')
        args = []
        ci = iter(co)
        if op == 'opk_vfill':
            args = [vec['dst'], co[0]]
        elif op in ('opk_vscale', 'opk_vaxpby', 'opk_vaxpbypcz'):
            args = [vec['dst']]
            for q in names[1:]:
                args += [next(ci), vec[q]]
        else:
            args = [vec[q] for q in names]
        return env.fn(op), st, args, post
    return make


def reduction(op, prec, share):
    names, _, _ = OPS[op]

    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F, w = env.F, env.w
        sp, n = env.space()
        vec, dat = {}, {}
        for q in names:
            r = share[q]
            if r not in vec:
                vec[r], dat[r] = env.vec(sp, n, q)
            vec[q], dat[q] = vec[r], dat[r]
        k = env.index(n)
        st = env.st
        snap = st.fork()
        A = {q: dat[q].r.init_arrs[0] for q in names}
        zero = F.const(Fraction(0), w)
        at = lambda q, j: z3.Select(A[q], j)
        I = z3.IntSort()
        if op == 'opk_vnorminf':
            S = z3.Function('S', I, z3.RealSort())
            one = lambda j: F.fun1('fabs', at('x', j))
            step = lambda j: z3.Implies(z3.And(j >= 0, j < n), S(j + 1) == z3.If(z3.And(z3.Not(F.nan(one(j))), F.key(one(j)) > S(j)), F.key(one(j)), S(j)))
            st.assume(S(z3.IntVal(0)) == 0)
            match = lambda v, s: z3.And(F.key(v) == s, z3.Not(F.nan(v)), s >= 0)
            fin = lambda s: s
        else:
            S = z3.Function('S', I, F.sort(w))
            if op == 'opk_vnorm1':
                term = lambda j: F.fun1('fabs', at('x', j))
            elif op == 'opk_vnorm2':
                term = lambda j: F.mul(at('x', j), at('x', j))
            elif op == 'opk_vdot':
                term = lambda j: F.mul(at('x', j), at('y', j))
            else:
                term = lambda j: F.mul(F.mul(at('w', j), at('x', j)), at('y', j))
            step = lambda j: z3.Implies(z3.And(j >= 0, j < n), S(j + 1) == F.add(S(j), term(j)))
            st.assume(S(z3.IntVal(0)) == zero)
            match = F.same
            fin = (lambda s: F.fun1('fsqrt', s)) if op == 'opk_vnorm2' else (lambda s: s)
        add_fold_specs(e, [dict(name='S', S=S, step=step, match=match)])

        def post(e, s, r):
            want = fin(S(n))
            if w == 32 and op != 'opk_vnorminf':
                want = F.ext(want)
            if op == 'opk_vnorminf':
                i64, i32 = fpmod.rv(fpmod.INF[64]), fpmod.rv(fpmod.INF[32])
                e.oblige(s, match(r, want if w == 64 else z3.If(want == i32, i64, want)), 'post', 'result is the largest magnitude')
            else:
                e.oblige(s, F.same(r, want), 'post', 'result is the documented sum, in index order')
            seen = set()
            for q in names:
                if dat[q].r.id not in seen:
                    seen.add(dat[q].r.id)
                    e.oblige(s, env.at(s, dat[q], k) == env.at0(dat[q], k), 'frame', 'operand %s unchanged' % q)
            frame_unchanged(env, s, snap, [sp] + [vec[q] for q in names])
            e.oblige(s, 'opk_error' not in s.flags, 'post', 'no error is raised for valid operands')
        return env.fn(op), st, [vec[q] for q in names], post
    return make


def transfer(op, prec, typ):
    """opk_vimport / opk_vexport between a vector and a user array of float or double"""
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F = env.F
        sp, n = env.space()
        v, vd = env.vec(sp, n, 'v')
        uty, uw = (ir.FLT, 32) if typ == 'OPK_FLOAT' else (ir.DBL, 64)
        u, ua = e.array(env.st, 'user', uty, n)
        k = env.index(n)
        st = env.st
        snap = st.fork()
        src, dst = (u, vd) if op == 'opk_vimport' else (vd, u)
        sw, dw = (uw, env.w) if op == 'opk_vimport' else (env.w, uw)
        x = env.at0(src, k)
        exp = x if sw == dw else F.ext(x) if sw == 32 else F.trunc(x)
        add_elem_specs(e, [dict(r=dst.r, k=k, exp=exp)])
        t = env.enum(typ)

        def post(e, s, r):
            e.oblige(s, i2z(r) == env.enum('OPK_SUCCESS'), 'post', 'returns success')
            e.oblige(s, F.same(env.at(s, dst, k), exp), 'post', 'element k transferred with one rounding')
            e.oblige(s, env.at(s, src, k) == x, 'frame', 'source unchanged')
            frame_unchanged(env, s, snap, [sp, v])
        args = [v, u, t, n] if op == 'opk_vimport' else [u, t, n, v]
        return env.fn(op), st, args, post
    return make


def element(op, prec):
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F = env.F
        sp, n = env.space()
        v, vd = env.vec(sp, n, 'v')
        k = env.index(n)
        j = env.index(n, 'j')
        st = env.st
        out = e.new_region(st, 'out', size=8)
        val = F.fresh('val', 64)
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, i2z(r) == env.enum('OPK_SUCCESS'), 'post', 'returns success')
            x = env.at0(vd, k)
            if op == 'opk_vpeek':
                e.oblige(s, F.same(e.cell(s, out, 0, ir.DBL), x if env.w == 64 else F.ext(x)), 'post', 'the element is returned')
                e.oblige(s, env.at(s, vd, j) == env.at0(vd, j), 'frame', 'vector unchanged')
            else:
                e.oblige(s, F.same(env.at(s, vd, k), val if env.w == 64 else F.trunc(val)), 'post', 'the element is set')
                e.oblige(s, z3.Implies(j != k, env.at(s, vd, j) == env.at0(vd, j)), 'frame', 'other elements unchanged')
            frame_unchanged(env, s, snap, [sp, v])
        args = [v, k, Ptr(out)] if op == 'opk_vpeek' else [v, k, val]
        return env.fn(op), st, args, post
    return make


def units(tier):
    out = []
    for prec in 'ds':
        P = {'d': 'double', 's': 'float'}[prec]
        for op, (names, dsts, nco) in OPS.items():
            for sh in partitions(names):
                tag = ','.join('%s=%s' % (q, sh[q]) for q in names if sh[q] != q) or 'distinct'
                if dsts:
                    out.append(dict(name='%s/%s/%s' % (op, P, tag), desc='%s stores its formula elementwise; operands %s' % (op, tag),
                                    make=elementwise(op, prec, sh), cost=nco * 3 + len(names)))
                    if len(names) == 2 and tag != 'distinct':
                        out.append(dict(name='%s/%s/%s (two vectors, one array)' % (op, P, tag), desc='%s; two vector objects wrapping one array' % op,
                                        make=elementwise(op, prec, sh, False)))
                else:
                    out.append(dict(name='%s/%s/%s' % (op, P, tag), desc='%s returns its formula; operands %s' % (op, tag), make=reduction(op, prec, sh), cost=2))
        for op in ('opk_vimport', 'opk_vexport'):
            for t in ('OPK_FLOAT', 'OPK_DOUBLE'):
                out.append(dict(name='%s/%s/%s' % (op, P, t), desc='%s converts every element' % op, make=transfer(op, prec, t)))
        for op in ('opk_vpeek', 'opk_vpoke'):
            out.append(dict(name='%s/%s' % (op, P), desc='%s accesses exactly one element' % op, make=element(op, prec)))
    return out
