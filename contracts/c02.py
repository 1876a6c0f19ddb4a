"""C02 -- invalid arguments are refused: documented error, no argument modified, no access outside objects."""
from .common import *
from .c01 import OPS

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/fltvector.c']
HARNESS = dict(src='c02.c', always=True, bounded='random inputs, sizes up to 24')
VT = 'opk_vspace_operations_'


def two_spaces(env):
    sp, n = env.space()
    n2 = env.e.fresh_int(env.st, 'n2')
    env.st.assume(z3.And(n2 >= 1, n2 <= 2 ** 60))
    sp2, _ = env.space(n2, 'n2')
    return sp, n, sp2, n2


def custom_space(env, **ops):
    """vector space of another implementation, whose table of operations has the given entries"""
    L = env.e.mods[0].layout
    o = {}
    for m in env.e.mods:
        o = m.layout.get(VT) or m.layout.get('opk_vspace_operations') or o
    f = {v: (ir.PTR, NULL) for k, v in o.items() if '.' not in k}
    for k, v in ops.items():
        f[o[k]] = (ir.PTR, v)
    t = cells_region(env, 'ops', f)
    n = env.e.fresh_int(env.st, 'n')
    env.st.assume(n >= 1)
    sp = env.call('opk_allocate_vector_space', [t, n, 0], env.notnull)
    return sp, n


def mixed(op, prec, other):
    names, dsts, nco = OPS[op]

    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        F = env.F
        sp, n, sp2, n2 = two_spaces(env)
        vec = {q: env.vec(sp2 if q in other else sp, n2 if q in other else n, q)[0] for q in names}
        co = [F.fresh('c%d' % i, 64) for i in range(nco)]
        st = env.st
        snap = st.fork()
        args, ci = [vec[names[0]]], iter(co)
        for q in names[1:]:
            if op in ('opk_vscale', 'opk_vaxpby', 'opk_vaxpbypcz'):
                args.append(next(ci))
            args.append(vec[q])

        def post(e, s, r):
            e.oblige(s, 'opk_error' in s.flags, 'post', 'vectors of different spaces are reported to the error handler')
            if not dsts:
                e.oblige(s, F.same(r, F.const(Fraction(0), 64)), 'post', 'the result is zero')
            nothing_changed(env, s, snap)
        return env.fn(op), st, args, post
    return make


def status_unit(build_args, expect, allow_errno=True):
    """build_args(env) -> (fn, args, extra postcondition or None)"""
    def mk(prec):
        def make(e):
            e.malloc_fails = False
            env = Env(e, prec)
            fn, args = build_args(env)
            st = env.st
            snap = st.fork()

            def post(e, s, r):
                e.oblige(s, i2z(r) == env.enum(expect), 'post', 'status is %s' % expect)
                nothing_changed(env, s, snap)
                no_leak(env, s, snap)
            return env.fn(fn), st, args, post
        return make
    return mk


SETF = {'opk_project_variables': ['dst', 'x', 'set'], 'opk_project_direction': ['dst', 'x', 'set', 'd'],
        'opk_get_free_variables': ['dst', 'x', 'set', 'd'], 'opk_get_step_limits': ['x', 'set', 'd']}
SLOT = {'opk_project_variables': 'projvar', 'opk_project_direction': 'projdir', 'opk_get_free_variables': 'freevar', 'opk_get_step_limits': 'steplim'}


def setargs(env, fn, nulls=(), other=(), impl=True, cb=None):
    e = env.e
    sp, n, sp2, n2 = two_spaces(env)
    vec = {}
    for q in SETF[fn]:
        if q != 'set':
            vec[q] = env.vec(sp2 if q in other else sp, n2 if q in other else n, q)[0]
    fns = [NULL] * 4
    cb = cb or virtual(env, 'implementation', lambda e, st, a, ins: e.oblige(st, False, 'pre', 'the implementation is only called with valid arguments') or [(st, 0)])
    if impl:
        fns = [cb] * 4
    else:
        fns = [NULL if q == SLOT[fn] else cb for q in ('projvar', 'projdir', 'freevar', 'steplim')]
    vec['set'] = env.call('opk_allocate_convexset', [sp, NULL] + fns + [0], env.notnull)
    for q in nulls:
        vec[q] = NULL
    args = [vec[q] for q in SETF[fn]]
    if fn == 'opk_get_step_limits':
        args = [Ptr(e.new_region(env.st, q, size=8)) for q in ('smin1', 'smin2', 'smax')] + args
    if fn != 'opk_project_variables':
        o = e.fresh_int(env.st, 'orient', 32)
        args.append(o)
    return fn, args


def delegated(fn):
    """valid arguments reach the implementation unchanged and its status is returned"""
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd')
        ret = e.fresh_int(env.st, 'ret', 32)
        got = []

        def impl(e, st, a, ins):
            tick(st, 'impl')
            got.append(a)
            return [(st, ret)]
        f, args = setargs(env, fn, cb=virtual(env, 'implementation', impl))
        st = env.st
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, len(ticks(s, 'impl')) == 1, 'post', 'the implementation is called once')
            e.oblige(s, i2z(r) == ret, 'post', 'its status is returned')
            for a in got:
                for x, y in zip(a, args):
                    e.oblige(s, veq(e, x, y), 'post', 'arguments are passed unchanged')
            nothing_changed(env, s, snap)
        return env.fn(f), st, args, post
    return make


def opr(env, nulls=(), swap=(), slots=('apply_direct', 'apply_adjoint', 'apply_inverse'), fn='opk_apply_direct', cb=None):
    sp, n, sp2, n2 = two_spaces(env)
    lay = next(m.layout[k] for m in env.e.mods for k in ('opk_operator_operations_', 'opk_operator_operations') if k in m.layout)
    cbs = cb or {}
    bad = virtual(env, 'implementation', lambda e, st, a, ins: e.oblige(st, False, 'pre', 'the implementation is only called with valid arguments') or [(st, 0)])
    f = {lay['finalize']: (ir.PTR, NULL)}
    for q in ('apply_direct', 'apply_adjoint', 'apply_inverse'):
        f[lay[q]] = (ir.PTR, cbs.get(q, bad) if q in slots else NULL)
    t = cells_region(env, 'operator_ops', f)
    op = env.call('opk_allocate_operator', [t, sp, sp2, 0], env.notnull)
    vi, vo = env.vec(sp, n, 'inp')[0], env.vec(sp2, n2, 'out')[0]
    wi, wo = env.vec(sp, n, 'inp2')[0], env.vec(sp2, n2, 'out2')[0]
    if fn == 'opk_apply_direct':
        d = {'op': op, 'dst': wi if 'dst' in swap else vo, 'src': wo if 'src' in swap else vi}
    else:
        d = {'op': op, 'dst': wo if 'dst' in swap else vi, 'src': wi if 'src' in swap else vo}
    for q in nulls:
        d[q] = NULL
    return fn, [d['op'], d['dst'], d['src']]


def op_delegated(fn):
    slot = fn[4:]

    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd')
        ret = e.fresh_int(env.st, 'ret', 32)
        got = []

        def impl(e, st, a, ins):
            tick(st, 'impl')
            got.append(a)
            return [(st, ret)]
        f, args = opr(env, fn=fn, cb={slot: virtual(env, slot, impl)})
        st = env.st
        snap = st.fork()

        def post(e, s, r):
            e.oblige(s, len(ticks(s, 'impl')) == 1, 'post', 'the implementation is called once')
            e.oblige(s, i2z(r) == ret, 'post', 'its status is returned')
            for a in got:
                for x, y in zip(a, args):
                    e.oblige(s, veq(e, x, y), 'post', 'arguments are passed unchanged')
            nothing_changed(env, s, snap)
        return env.fn(f), st, args, post
    return make


def null_ctor(fn, build_args, err, restore=True):
    """constructor refuses: returns NULL, errno set, nothing changed, nothing leaked"""
    def mk(prec):
        def make(e):
            e.malloc_fails = False
            env = Env(e, prec)
            args = build_args(env)
            st = env.st
            snap = st.fork()

            def post(e, s, r):
                e.oblige(s, isinstance(r, Ptr) and r.r is None, 'post', 'nothing is returned')
                if err:
                    errno_is(env, s, err, 'error number is set')
                nothing_changed(env, s, snap)
                no_leak(env, s, snap)
            return env.fn(fn(env) if callable(fn) else fn), st, args, post
        return make
    return mk


KINDS = ['NONE', 'SCALAR_FLOAT', 'SCALAR_DOUBLE', 'STATIC_FLOAT', 'STATIC_DOUBLE', 'VOLATILE_FLOAT', 'VOLATILE_DOUBLE', 'VECTOR']
GOOD = {'NONE': 'null', 'SCALAR_FLOAT': 'f', 'SCALAR_DOUBLE': 'd', 'STATIC_FLOAT': 'af', 'STATIC_DOUBLE': 'ad', 'VOLATILE_FLOAT': 'af', 'VOLATILE_DOUBLE': 'ad', 'VECTOR': 'v'}


def bound_args(env, sp, n, sp2, n2, kind, val):
    e = env.e
    if kind == 'OTHER':
        t = e.fresh_int(env.st, 'type', 32)
        for k in KINDS:
            env.st.assume(t != env.enum('OPK_BOUND_' + k))
    else:
        t = env.enum('OPK_BOUND_' + kind)
    if val == 'null':
        v = NULL
    elif val in 'fd':
        v = Ptr(e.new_region(env.st, 'scalar', size=4 if val == 'f' else 8))
    elif val in ('af', 'ad'):
        v = e.array(env.st, 'bounds', ir.FLT if val == 'af' else ir.DBL, n)[0]
    elif val == 'v':
        v = env.vec(sp, n, 'bvec')[0]
    else:
        v = env.vec(sp2, n2, 'foreign')[0]
    return [t, v]


def units(tier):
    out = []

    def add(name, desc, make, **kw):
        out.append(dict(name=name, desc=desc, make=make, **kw))
    for prec in 'ds':
        P = {'d': 'double', 's': 'float'}[prec]
        for op, (names, dsts, nco) in OPS.items():
            if len(names) < 2:
                continue
            for o in subsets(names):
                if len(o) < len(names) and names[0] not in o:
                    add('%s/%s/other space: %s' % (op, P, '+'.join(o)), 'mixed spaces are refused', mixed(op, prec, o))

        # element access
        def outside(fn):
            def b(env):
                sp, n = env.space()
                v = env.vec(sp, n, 'v')[0]
                k = env.e.fresh_int(env.st, 'k')
                env.st.assume(z3.Or(k < 0, k >= n))
                if fn == 'opk_vpeek':
                    return fn, [v, k, Ptr(env.e.new_region(env.st, 'out', size=8))]
                return fn, [v, k, env.F.fresh('val', 64)]
            return b

        def elnull(fn, which):
            def b(env):
                sp, n = env.space()
                v = env.vec(sp, n, 'v')[0]
                k = env.e.fresh_int(env.st, 'k')
                if fn == 'opk_vpeek':
                    return fn, [NULL if 'v' in which else v, k, NULL if 'p' in which else Ptr(env.e.new_region(env.st, 'out', size=8))]
                return fn, [NULL, k, env.F.fresh('val', 64)]
            return b
        for fn in ('opk_vpeek', 'opk_vpoke'):
            add('%s/%s/index out of range' % (fn, P), 'out of range index is refused', status_unit(outside(fn), 'OPK_OUT_OF_BOUNDS_INDEX')(prec))
            for w in (('v', 'p', 'vp') if fn == 'opk_vpeek' else ('v',)):
                add('%s/%s/missing %s' % (fn, P, w), 'missing object is refused', status_unit(elnull(fn, w), 'OPK_ILLEGAL_ADDRESS')(prec))

        # import / export
        def trans(fn, what):
            def b(env):
                e = env.e
                if what == 'not implemented':
                    sp, n = custom_space(env)
                    v = env.call('opk_allocate_vector', [sp, 0], env.notnull)
                else:
                    sp, n = env.space()
                    v = env.vec(sp, n, 'v')[0]
                u = e.array(env.st, 'user', ir.DBL, n)[0]
                t, m = env.enum('OPK_DOUBLE'), n
                tf = env.enum('OPK_FLOAT')
                if what == 'type':
                    tt = e.fresh_int(env.st, 'type', 32)
                    env.st.assume(z3.And(tt != t, tt != tf))
                    t = tt
                elif what == 'count':
                    m = e.fresh_int(env.st, 'count')
                    env.st.assume(m != n)
                if what.startswith('missing'):
                    t, m = e.fresh_int(env.st, 'type', 32), e.fresh_int(env.st, 'count')
                    if 'v' in what[8:]:
                        v = NULL
                    if 'u' in what[8:]:
                        u = NULL
                return fn, ([v, u, t, m] if fn == 'opk_vimport' else [u, t, m, v])
            return b
        for fn in ('opk_vimport', 'opk_vexport'):
            for w, ex in (('type', 'OPK_INVALID_ARGUMENT'), ('count', 'OPK_INVALID_ARGUMENT'), ('missing v', 'OPK_ILLEGAL_ADDRESS'), ('missing u', 'OPK_ILLEGAL_ADDRESS'),
                          ('missing vu', 'OPK_ILLEGAL_ADDRESS'), ('not implemented', 'OPK_NOT_IMPLEMENTED')):
                add('%s/%s/%s' % (fn, P, w), 'bad transfer is refused', status_unit(trans(fn, w), ex)(prec))

        # boxes
        def boxbad(lk, lv, uk, uv):
            def b(env):
                sp, n, sp2, n2 = two_spaces(env)
                return [sp] + bound_args(env, sp, n, sp2, n2, lk, lv) + bound_args(env, sp, n, sp2, n2, uk, uv)
            return b
        bads = [('OTHER', 'null'), ('OTHER', 'd')]
        for k in KINDS:
            if k == 'NONE':
                bads += [(k, 'd'), (k, 'v')]
            else:
                bads.append((k, 'null'))
        bads.append(('VECTOR', 'foreign'))
        for lk, lv in bads:
            for uk in ('NONE', 'SCALAR_DOUBLE', 'VECTOR', 'VOLATILE_DOUBLE'):
                add('opk_new_boxset/%s/bad lower %s %s, upper %s' % (P, lk, lv, uk), 'inconsistent bound is refused', null_ctor('opk_new_boxset', boxbad(lk, lv, uk, GOOD[uk]), EINVAL)(prec))
                add('opk_new_boxset/%s/lower %s, bad upper %s %s' % (P, uk, lk, lv), 'inconsistent bound is refused', null_ctor('opk_new_boxset', boxbad(uk, GOOD[uk], lk, lv), EINVAL)(prec))
        add('opk_new_boxset/%s/missing space' % P, 'missing space is refused', null_ctor('opk_new_boxset', lambda env: [NULL, 0, NULL, 0, NULL], EFAULT)(prec))

        # spaces and wrapped vectors
        def badsize(env):
            n = env.e.fresh_int(env.st, 'n')
            env.st.assume(n < 1)
            return [n]
        add('new space/%s/bad size' % P, 'space needs at least one variable', null_ctor(lambda env: 'opk_new_simple_%s_vector_space' % env.C, badsize, EINVAL)(prec))

        def wrapbad(what):
            def b(env):
                e = env.e
                if what == 'foreign space':
                    sp, n = custom_space(env)
                else:
                    sp, n = env.space()
                d = env.data('data', n)
                cb = virtual(env, 'callback', lambda e, st, a, ins: tick(st, 'cb') or [(st, None)])
                return [sp, NULL if what == 'no data' else d, cb, e.fresh(env.st, 'cdata', ir.PTR)]
            return b
        for w, er in (('foreign space', EINVAL), ('no data', EFAULT)):
            add('wrap/%s/%s' % (P, w), 'wrapping is refused', null_ctor(lambda env: 'opk_wrap_simple_%s_vector' % env.C, wrapbad(w), er)(prec))

        def rewrapbad(what):
            def b(env):
                e = env.e
                sp, n = env.space()
                d = env.data('data', n)
                cb = virtual(env, 'callback', lambda e, st, a, ins: e.oblige(st, False, 'post', 'callback is not applied') or [(st, None)])
                v = env.wrap(sp, d, 'v', cb, e.fresh(env.st, 'cdata', ir.PTR))
                d2 = env.data('data2', n)
                if what == 'foreign':
                    sp2, _ = custom_space(env)
                    v = env.call('opk_allocate_vector', [sp2, 0], env.notnull)
                if what == 'null':
                    v = NULL
                return 'opk_rewrap_simple_%s_vector' % env.C, [v, NULL if what == 'no data' else d2, e.fresh(env.st, 'cb2', ir.PTR), e.fresh(env.st, 'cdata2', ir.PTR)]
            return b
        for w, ex in (('foreign', 'OPK_BAD_SPACE'), ('null', 'OPK_ILLEGAL_ADDRESS'), ('no data', 'OPK_ILLEGAL_ADDRESS')):
            add('rewrap/%s/%s' % (P, w), 'rewrapping is refused', status_unit(rewrapbad(w), ex)(prec))

        def getbad(what):
            def b(env):
                if what == 'null':
                    return [NULL]
                sp2, _ = custom_space(env)
                return [env.call('opk_allocate_vector', [sp2, 0], env.notnull)]
            return b
        for g in ('data', 'client_data', 'free_client_data'):
            for w, er in (('null', EFAULT), ('foreign', EINVAL)):
                add('get %s/%s/%s' % (g, P, w), 'accessor refuses', null_ctor(lambda env, g=g: 'opk_get_simple_%s_vector_%s' % (env.C, g), getbad(w), er)(prec))
            add('get %s/%s/valid' % (g, P), 'accessor returns what was given', getgood(g, prec))
    # convex sets
    for fn, names in SETF.items():
        for nl in subsets(names):
            add('%s/missing %s' % (fn, '+'.join(nl)), 'missing object is refused', status_unit(lambda env, fn=fn, nl=nl: setargs(env, fn, nulls=nl), 'OPK_ILLEGAL_ADDRESS')('d'))
        for o in subsets([q for q in names if q != 'set']):
            add('%s/other space: %s' % (fn, '+'.join(o)), 'foreign vectors are refused', status_unit(lambda env, fn=fn, o=o: setargs(env, fn, other=o), 'OPK_BAD_SPACE')('d'))
        add('%s/not implemented' % fn, 'missing method is reported', status_unit(lambda env, fn=fn: setargs(env, fn, impl=False), 'OPK_NOT_IMPLEMENTED')('d'))
        add('%s/delegated' % fn, 'valid call reaches the implementation', delegated(fn))
        add('can %s' % fn, 'capability query', can(fn))
    for fn in ('opk_apply_direct', 'opk_apply_adjoint', 'opk_apply_inverse'):
        for nl in subsets(['op', 'dst', 'src']):
            add('%s/missing %s' % (fn, '+'.join(nl)), 'missing object is refused', status_unit(lambda env, fn=fn, nl=nl: opr(env, nulls=nl, fn=fn), 'OPK_ILLEGAL_ADDRESS')('d'))
        for o in subsets(['dst', 'src']):
            add('%s/other space: %s' % (fn, '+'.join(o)), 'foreign vectors are refused', status_unit(lambda env, fn=fn, o=o: opr(env, swap=o, fn=fn), 'OPK_BAD_SPACE')('d'))
        sl = [q for q in ('apply_direct', 'apply_adjoint', 'apply_inverse') if q != fn[4:]]
        add('%s/not implemented' % fn, 'missing method is reported', status_unit(lambda env, fn=fn, sl=sl: opr(env, slots=sl, fn=fn), 'OPK_NOT_IMPLEMENTED')('d'))
        add('%s/delegated' % fn, 'valid call reaches the implementation', op_delegated(fn))
    for c in range(8):
        f, nm, v = c & 1, c & 2, c & 4
        add('opk_vprint/%s%s%s' % ('' if f else 'no file ', '' if nm else 'no name ', '' if v else 'no vector'), 'printing copes with missing arguments', printing(f, nm, v, 0))
    for nl in (['a'], ['b'], ['a', 'b']):
        def b(env, nl=nl):
            sp, n, sp2, n2 = two_spaces(env)
            return [Ptr(env.e.new_region(env.st, 'ops')), NULL if 'a' in nl else sp, NULL if 'b' in nl else sp2, env.e.fresh_int(env.st, 'size')]
        add('opk_allocate_operator/missing %s' % '+'.join(nl), 'missing space is refused', null_ctor('opk_allocate_operator', b, EFAULT)('d'))
    add('opk_allocate_convexset/missing space', 'missing space is refused', null_ctor('opk_allocate_convexset', lambda env: [NULL, NULL, NULL, NULL, NULL, NULL, env.e.fresh_int(env.st, 'size')], EFAULT)('d'))
    return out


def getgood(g, prec):
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        sp, n = env.space()
        d = env.data('data', n)
        cd = e.fresh(env.st, 'cdata', ir.PTR)
        cb = virtual(env, 'callback', None)
        v = env.wrap(sp, d, 'v', cb, cd)
        want = {'data': d, 'client_data': cd, 'free_client_data': cb}[g]
        snap = env.st.fork()

        def post(e, s, r):
            e.oblige(s, veq(e, r, want), 'post', 'the %s given when wrapping is returned' % g)
            nothing_changed(env, s, snap)
        return env.fn('opk_get_simple_%s_vector_%s' % (env.C, g)), env.st, [v], post
    return make


def printing(file, name, vect, nmax):
    """printing writes to a real stream (the standard output when none is given), reads inside the vector, changes nothing"""
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd')
        sp, n = env.space()
        v = env.vec(sp, n, 'v')[0]
        f = Ptr(e.new_region(env.st, 'file')) if file else NULL
        nm = Ptr(e.new_region(env.st, 'name')) if name else NULL
        m = e.fresh_int(env.st, 'nmax')
        snap = env.st.fork()

        def post(e, s, r):
            nothing_changed(env, s, snap)
        return env.fn('opk_vprint'), env.st, [f, nm, v if vect else NULL, m], post
    return make


def can(fn):
    q = {'opk_project_variables': 'opk_can_project_variables', 'opk_project_direction': 'opk_can_project_directions',
         'opk_get_free_variables': 'opk_can_get_free_variables', 'opk_get_step_limits': 'opk_can_get_step_limits'}[fn]

    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd')
        sp, n = env.space()
        cb = virtual(env, 'implementation', None)
        have = e.fresh_int(env.st, 'have', 32)
        ya = env.call('opk_allocate_convexset', [sp, NULL] + [cb if s == SLOT[fn] else NULL for s in ('projvar', 'projdir', 'freevar', 'steplim')] + [0], env.notnull)
        no = env.call('opk_allocate_convexset', [sp, NULL] + [NULL if s == SLOT[fn] else cb for s in ('projvar', 'projdir', 'freevar', 'steplim')] + [0], env.notnull)
        f = env.fn(q)
        snap = env.st.fork()
        for a, want, d in ((no, False, 'a set without the method'), (NULL, False, 'a missing set')):
            for s, r in e.call_fn(snap.fork(), f, [a]):
                e.oblige(s, (i2z(r) != 0) == want, 'post', 'capability of ' + d)

        def post(e, s, r):
            e.oblige(s, i2z(r) != 0, 'post', 'capability of a set with the method')
            nothing_changed(env, s, snap)
        return f, env.st, [ya], post
    return make
