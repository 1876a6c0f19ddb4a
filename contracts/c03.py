"""C03 -- reference-counted objects live exactly as long as they are referenced; failed allocations leak nothing."""
from .common import *
from .c02 import bound_args, custom_space, KINDS, GOOD, VT

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/fltvector.c', 'src/lnsrch.c', 'src/vmlmb.c', 'src/nlcg.c', 'src/driver.c', 'src/utils.c']
HARNESS = dict(src='c03.c', always=True, bounded='n in {1,2,3,7,24}, memory <= 7, every single allocation failing', cflags=['-Dmalloc=h_malloc','-Dfree=h_free','-Dcalloc=h_calloc','-Drealloc=h_realloc'])
OPTMODS = ('src/lnsrch.c', 'src/vmlmb.c', 'src/nlcg.c', 'src/utils.c')


def refcell(env):
    return env.off('opk_object_', 'references')


def raw_object(env, refs, fin):
    o = env.off('opk_object_', 'finalize')
    p = cells_region(env, 'object', {o: (ir.PTR, fin), refcell(env): (ir.I64, refs)})
    p.r.kind = 'heap'
    p.r.size = env.e.mods[0].layout['#size'].get('opk_object_', 16) if '#size' in env.e.mods[0].layout else 16
    return p


def hold(e):
    e.malloc_fails = False
    env = Env(e, 'd')
    r = e.fresh_int(env.st, 'refs')
    env.st.assume(z3.And(r >= 1, r < 2 ** 62))
    p = raw_object(env, r, virtual(env, 'finalizer', lambda e, st, a, i: e.oblige(st, False, 'post', 'holding never finalizes') or [(st, None)]))
    snap = env.st.fork()

    def post(e, s, ret):
        e.oblige(s, veq(e, ret, p), 'post', 'the object itself is returned')
        e.oblige(s, env.refs(s, p) == r + 1, 'post', 'one more reference')
        e.set_cell(s, p, refcell(env), ir.I64, r)
        nothing_changed(env, s, snap)
    return env.fn('opk_hold_object'), env.st, [p], post


def drop(case):
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd')
        if case == 'null':
            snap = env.st.fork()
            return env.fn('opk_drop_object'), env.st, [NULL], lambda e, s, r: nothing_changed(env, s, snap)
        r = e.fresh_int(env.st, 'refs')
        env.st.assume(z3.And(r >= 1, r < 2 ** 62))
        box = []

        def fin(e, st, a, ins):
            e.oblige(st, veq(e, a[0], box[0]), 'post', 'the finalizer gets the object')
            e.oblige(st, not st.mem[box[0].r.id].freed, 'post', 'the object is not yet released when finalized')
            e.oblige(st, r == 1, 'post', 'the finalizer is only called with the last reference')
            tick(st, 'fin')
            return [(st, None)]
        p = raw_object(env, r, virtual(env, 'finalizer', fin) if case == 'finalizer' else NULL)
        box.append(p)
        snap = env.st.fork()

        def post(e, s, ret):
            fr = s.mem[p.r.id].freed
            e.oblige(s, (r == 1) == b2z(fr), 'post', 'released exactly with the last reference')
            if case == 'finalizer':
                e.oblige(s, z3.If(r == 1, b2z(len(ticks(s, 'fin')) == 1), b2z(len(ticks(s, 'fin')) == 0)), 'post', 'finalized exactly once')
            if not fr:
                e.oblige(s, env.refs(s, p) == r - 1, 'post', 'one reference less')
            nothing_changed(env, s, snap, allow=[p])
        return env.fn('opk_drop_object'), env.st, [p], post
    return make


def get_refs(e):
    e.malloc_fails = False
    env = Env(e, 'd')
    r = e.fresh_int(env.st, 'refs')
    p = raw_object(env, r, NULL)
    snap = env.st.fork()
    f = env.fn('opk_get_object_references')
    for s, v in e.call_fn(snap.fork(), f, [NULL]):
        e.oblige(s, i2z(v) == 0, 'post', 'a missing object has no references')

    def post(e, s, v):
        e.oblige(s, i2z(v) == r, 'post', 'number of references')
        nothing_changed(env, s, snap)
    return f, env.st, [p], post


def allocate(e):
    env = Env(e, 'd')
    n = e.fresh_int(env.st, 'nbytes')
    env.st.assume(n >= 0)
    fin = virtual(env, 'finalizer', None)
    snap = env.st.fork()
    minsz = env.alg.layout['#size'].get('opk_object_', 16)

    def post(e, s, r):
        nothing_changed(env, s, snap)
        if r.r is None:
            e.oblige(s, 'oom' in s.flags, 'post', 'nothing is returned only when memory is exhausted')
            no_leak(env, s, snap)
            return
        e.oblige(s, z3.And(i2z(r.r.size) >= n, i2z(r.r.size) >= minsz), 'post', 'the object has the requested size')
        e.oblige(s, r.r.default == 'zero', 'post', 'the contents is zero')
        e.oblige(s, i2z(env.refs(s, r)) == 1, 'post', 'one reference')
        e.oblige(s, veq(e, e.cell(s, r, env.off('opk_object_', 'finalize'), ir.PTR), fin), 'post', 'finalizer installed')
        for o, c in s.mem[r.r.id].cells.items():
            if o not in (env.off('opk_object_', 'finalize'), refcell(env)):
                e.oblige(s, False, 'post', 'contents is zero')
    return env.fn('opk_allocate_object'), env.st, [fin, n], post


# --- constructors -----------------------------------------------------------
def run_all(env, states, name, args):
    out = []
    for s in states:
        out += [o for o, _ in env.e.call_fn(s, env.fn(name), args)]
    return out


def lifecycle(setup, prec='d', others=True, unroll=0, mods=()):
    """setup(env) -> dict(fn, args, holds {ptr: n}, after(env, s, obj), final(env, s))
       others: other references to the operands exist (any number), else the caller drops its own before the object"""
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec, mods=mods)
        d = setup(env)
        e.unroll, e.unroll_if = unroll, lambda fn: fn.module.src not in ('src/dblvector.c', 'src/fltvector.c')
        e.malloc_fails = True
        holds = d['holds']
        if others:
            for p, c in holds.items():
                r = e.fresh_int(env.st, 'refs')
                env.st.assume(z3.And(r >= env.refs(env.st, p) + 1, r < 2 ** 62))
                e.set_cell(env.st, p, refcell(env), ir.I64, r)
        st = env.st
        snap = st.fork()

        def post(e, s, r):
            if not isinstance(r, Ptr):
                raise Unsupported('result of the constructor')
            if r.r is None:
                if 'oom' not in s.flags:
                    # requests no allocator can serve may be refused beforehand
                    e.oblige(s, d.get('toobig', z3.BoolVal(False)), 'post', 'valid arguments are refused only when memory is exhausted')
                    errno_is(env, s, ENOMEM)
                no_leak(env, s, snap)
                nothing_changed(env, s, snap)
                return
            e.oblige(s, bool('oom' not in s.flags or d.get('oom_ok')), 'post', 'nothing is returned when memory is exhausted')
            e.oblige(s, i2z(env.refs(s, r)) == 1, 'post', 'a new object has one reference')
            e.oblige(s, b2z(r.r.id not in snap.mem), 'post', 'the object is new')
            for p, c in holds.items():
                if c is None:
                    e.oblige(s, env.refs(s, p) > env.refs(snap, p), 'post', 'references held on %s' % p.r.name)
                else:
                    e.oblige(s, env.refs(s, p) == env.refs(snap, p) + c, 'post', '%d reference(s) held on %s' % (c, p.r.name))
            t = s.fork()
            for p, c in holds.items():
                e.set_cell(t, p, refcell(env), ir.I64, env.refs(snap, p))
            nothing_changed(env, t, snap)
            if d.get('after'):
                d['after'](env, s, r)
            if others:
                # a second reference keeps everything alive
                live = {x.id for x in live_new(s, snap)}
                for t in run_all(env, run_all(env, [s.fork()], 'opk_hold_object', [r]), 'opk_drop_object', [r]):
                    e.oblige(t, {x.id for x in live_new(t, snap)} == live, 'post', 'nothing is released while a reference remains')
                    e.oblige(t, i2z(env.refs(t, r)) == 1, 'post', 'one reference remains')
                    for p, c in holds.items():
                        e.oblige(t, env.refs(t, p) == env.refs(s, p), 'post', 'held references are kept')
                for t in run_all(env, [s.fork()], 'opk_drop_object', [r]):
                    e.oblige(t, t.mem[r.r.id].freed, 'post', 'released with the last reference')
                    no_leak(env, t, snap)
                    nothing_changed(env, t, snap)
                    if d.get('final'):
                        d['final'](env, t)
            else:
                ts = [s.fork()]
                for p in reversed(list(holds)):
                    ts = run_all(env, ts, 'opk_drop_object', [p])
                for t in ts:
                    for p in holds:
                        e.oblige(t, not t.mem[p.r.id].freed, 'post', '%s survives while it is referred to' % p.r.name)
                for t in run_all(env, ts, 'opk_drop_object', [r]):
                    no_leak(env, t, snap)
                    for p in holds:
                        e.oblige(t, t.mem[p.r.id].freed, 'post', '%s is released with the object that referred to it' % p.r.name)
                    if d.get('final'):
                        d['final'](env, t)
        return env.fn(d['fn']), st, d['args'], post
    return make


def named(p, nm):
    p.r.name = nm
    return p


def s_space(env):
    n = env.e.fresh_int(env.st, 'n')
    env.st.assume(n >= 1)
    return dict(fn='opk_new_simple_%s_vector_space' % env.C, args=[n], holds={})


def s_vcreate(env):
    sp, n = env.space(mx=2 ** 63 - 1)
    env.st.assume(n >= 1)

    def after(env, s, v):
        # the elements really exist
        dp = env.e.cell(s, v, env.vm.layout['simple_vector']['data'], ir.PTR)
        off = dp.o.c
        env.e.oblige(s, isinstance(dp, Ptr) and dp.r is v.r and dp.o.const() and i2z(v.r.size) >= off + n * env.esz, 'post', 'storage for every element')
    return dict(fn='opk_vcreate', args=[sp], holds={sp: 1}, after=after, toobig=n > 2 ** 63 // env.esz)


def s_wrap(env):
    sp, n = env.space()
    d = env.data('data', n)
    cd = env.e.fresh(env.st, 'client', ir.PTR)

    def cb(e, st, a, ins):
        e.oblige(st, veq(e, a[0], cd), 'post', 'the callback gets its client data')
        tick(st, 'cb')
        return [(st, None)]

    def after(env, s, v):
        env.e.oblige(s, not ticks(s, 'cb'), 'post', 'the callback is not called while the vector lives')

    def final(env, s):
        env.e.oblige(s, len(ticks(s, 'cb')) == 1, 'post', 'the callback is called exactly once')
    return dict(fn='opk_wrap_simple_%s_vector' % env.C, args=[sp, d, virtual(env, 'callback', cb), cd], holds={sp: 1}, after=after, final=final)


def s_wrap0(env):
    sp, n = env.space()
    return dict(fn='opk_wrap_simple_%s_vector' % env.C, args=[sp, env.data('data', n), NULL, env.e.fresh(env.st, 'client', ir.PTR)], holds={sp: 1})


def once(env, name, what):
    def cb(e, st, a, ins):
        tick(st, name)
        return [(st, None)]
    return virtual(env, name, cb)


def once_final(name, what):
    def final(env, s):
        env.e.oblige(s, len(ticks(s, name)) == 1, 'post', '%s is called exactly once' % what)
    return final


def s_customspace(env):
    L = {}
    for m in env.e.mods:
        L = m.layout.get(VT) or L
    f = {v: (ir.PTR, NULL) for k, v in L.items() if '.' not in k}
    f[L['finalize_space']] = (ir.PTR, once(env, 'fspace', ''))
    t = cells_region(env, 'ops', f)
    n, b = env.e.fresh_int(env.st, 'n'), env.e.fresh_int(env.st, 'nbytes')
    env.st.assume(z3.And(n >= 1, b >= 0))
    return dict(fn='opk_allocate_vector_space', args=[t, n, b], holds={}, final=once_final('fspace', 'the finalizer of the space'))


def s_customvector(env):
    fv = once(env, 'fvec', '')
    sp, n = custom_space(env, finalize_vector=fv)
    b = env.e.fresh_int(env.st, 'nbytes')
    env.st.assume(b >= 0)
    return dict(fn='opk_allocate_vector', args=[sp, b], holds={named(sp, 'space'): 1}, final=once_final('fvec', 'the finalizer of the vector'))


def s_convexset(fin):
    def setup(env):
        sp, n = env.space()
        cb = virtual(env, 'method', None)
        b = env.e.fresh_int(env.st, 'nbytes')
        env.st.assume(b >= 0)
        return dict(fn='opk_allocate_convexset', args=[sp, once(env, 'fset', '') if fin else NULL, cb, cb, cb, cb, b], holds={sp: 1},
                    final=once_final('fset', 'the finalizer of the set') if fin else None)
    return setup


def s_operator(fin, same):
    def setup(env):
        sp, n = env.space()
        sp2, n2 = (sp, n) if same else env.space(name='n2')
        lay = next(m.layout[k] for m in env.e.mods for k in ('opk_operator_operations_', 'opk_operator_operations') if k in m.layout)
        f = {v: (ir.PTR, NULL) for k, v in lay.items()}
        f[lay['finalize']] = (ir.PTR, once(env, 'fop', '') if fin else NULL)
        t = cells_region(env, 'operator_ops', f)
        b = env.e.fresh_int(env.st, 'nbytes')
        env.st.assume(b >= 0)
        return dict(fn='opk_allocate_operator', args=[t, sp, sp2, b], holds={sp: 2} if same else {sp: 1, sp2: 1}, final=once_final('fop', 'the finalizer of the operator') if fin else None)
    return setup


def s_box(lk, uk, samevec=False):
    def setup(env):
        sp, n = env.space()
        la = bound_args(env, sp, n, sp, n, lk, GOOD[lk])
        ua = la if samevec else bound_args(env, sp, n, sp, n, uk, GOOD[uk])
        copies = sum(1 for k in (lk, uk) if k.startswith('VOLATILE') or (k.startswith('STATIC') and k.endswith('FLOAT') != (env.prec == 's')))
        h = {sp: 1}
        vs = [a[1] for k, a in ((lk, la), (uk, ua)) if k == 'VECTOR']
        held = sum(1 for k in (lk, uk) if k.startswith('VOLATILE') or k.startswith('STATIC'))
        h = {sp: None if held else 1}
        for i, v in enumerate(vs):
            h[v] = h.get(v, 0) + 1 if not any(v is w for w in h) else h[v] + 1
            v.r.name = 'bound%d' % i if not samevec else 'bounds'
        return dict(fn='opk_new_boxset', args=[sp] + la + ua, holds=h)
    return setup


def s_lnsrch(kind):
    def setup(env):
        e, F = env.e, env.F
        if kind == 'custom':
            lay = next(m.layout[k] for m in e.mods for k in ('opk_lnsrch_operations_', 'opk_lnsrch_operations') if k in m.layout)
            t = cells_region(env, 'lnsrch_ops', {lay['finalize']: (ir.PTR, once(env, 'fls', '')), lay['start']: (ir.PTR, virtual(env, 'start', None)),
                                                 lay['iterate']: (ir.PTR, virtual(env, 'iterate', None)), lay['use_deriv']: (ir.I32, 0)})
            b = e.fresh_int(env.st, 'nbytes')
            env.st.assume(b >= 0)
            return dict(fn='opk_allocate_line_search', args=[t, b], holds={}, final=once_final('fls', 'the finalizer of the line search'))
        if kind == 'backtrack':
            a = [F.const(Fraction(1, 4), 64), F.const(Fraction(1, 8), 64)]
        elif kind == 'csrch':
            a = [F.const(Fraction(1, 4), 64), F.const(Fraction(1, 2), 64), F.const(Fraction(1, 8), 64)]
        else:
            m = e.fresh_int(env.st, 'm')
            env.st.assume(m >= 1)
            a = [m] + [F.const(Fraction(i, 8), 64) for i in (1, 2, 3)]
        return dict(fn='opk_lnsrch_new_' + kind, args=a, holds={}, toobig=(m > 2 ** 60 - 1) if kind == 'nonmonotone' else z3.BoolVal(False))
    return setup


def new_lnsrch(env):
    F = env.F
    return named(env.call('opk_lnsrch_new_backtrack', [F.const(Fraction(1, 4), 64), F.const(Fraction(1, 8), 64)], env.notnull), 'lnsrch')


def vmlmb_options(env, mem, blmvm, save):
    F, e = env.F, env.e
    r = e.new_region(env.st, 'options')
    lay = next(m.layout[k] for m in e.mods for k in ('opk_vmlmb_options_', 'opk_vmlmb_options') if k in m.layout)
    for nm, v in (('delta', Fraction(1, 16)), ('epsilon', Fraction(0)), ('grtol', Fraction(1, 1024)), ('gatol', Fraction(0)), ('stpmin', Fraction(0)), ('stpmax', Fraction(1024))):
        e.set_cell(env.st, r, lay[nm], ir.DBL, F.const(v, 64))
    e.set_cell(env.st, r, lay['mem'], ir.I64, mem)
    e.set_cell(env.st, r, lay['blmvm'], ir.I32, blmvm)
    e.set_cell(env.st, r, lay['save_memory'], ir.I32, save)
    return Ptr(r)


def s_vmlmb(mem, box, ls, blmvm, save, size=None):
    def setup(env):
        sp, n = env.space(size)
        if size is None:
            env.st.assume(n >= mem)
        m = mem
        h = {}
        h[sp] = None
        b = NULL
        if box:
            b = named(env.call('opk_new_boxset', [sp] + bound_args(env, sp, n, sp, n, 'SCALAR_DOUBLE', 'd') + bound_args(env, sp, n, sp, n, 'NONE', 'null'), env.notnull), 'box')
            h[b] = 1
        l = NULL
        if ls:
            l = new_lnsrch(env)
            h[l] = 1
        return dict(fn='opk_new_vmlmb_optimizer', args=[vmlmb_options(env, m, blmvm, save), sp, l, b], holds=h)
    return setup


def s_nlcg(method, ls):
    def setup(env):
        e, F = env.e, env.F
        sp, n = env.space()
        lay = next(m.layout[k] for m in e.mods for k in ('opk_nlcg_options_', 'opk_nlcg_options') if k in m.layout)
        r = e.new_region(env.st, 'options')
        for nm, v in (('delta', Fraction(1, 16)), ('epsilon', Fraction(0)), ('grtol', Fraction(1, 1024)), ('gatol', Fraction(0)), ('stpmin', Fraction(0)), ('stpmax', Fraction(1024)), ('fmin', Fraction(0))):
            e.set_cell(env.st, r, lay[nm], ir.DBL, F.const(v, 64))
        fl = env.enum('OPK_NLCG_' + method)
        e.set_cell(env.st, r, lay['flags'], ir.I32, fl)
        e.set_cell(env.st, r, lay['fmin_given'], ir.I32, 0)
        h = {sp: None}
        l = NULL
        if ls:
            l = new_lnsrch(env)
            h[l] = 1
        return dict(fn='opk_new_nlcg_optimizer', args=[Ptr(r), sp, l], holds=h)
    return setup


METHODS = ['FLETCHER_REEVES', 'HESTENES_STIEFEL', 'POLAK_RIBIERE_POLYAK', 'FLETCHER', 'LIU_STOREY', 'DAI_YUAN', 'PERRY_SHANNO', 'HAGER_ZHANG']


def s_driver(algo, lk, uk, ls):
    def setup(env):
        e = env.e
        n = e.fresh_int(env.st, 'n')
        env.st.assume(z3.And(n >= 1, n <= 2 ** 59))
        a = []
        for k in (lk, uk):
            t = env.enum('OPK_BOUND_' + k)
            g = GOOD[k]
            if g == 'null':
                v = NULL
            elif g in 'fd':
                v = Ptr(e.new_region(env.st, 'scalar', size=4 if g == 'f' else 8))
            else:
                v = e.array(env.st, 'bounds', ir.FLT if g == 'af' else ir.DBL, n)[0]
            a += [t, v]
        if algo == 'VMLMB':
            o = vmlmb_options(env, 1, 0, 1)
        else:
            o = NULL
        h = {}
        l = NULL
        if ls:
            l = new_lnsrch(env)
            h[l] = 1
        return dict(fn='opk_new_optimizer', args=[env.enum('OPK_ALGORITHM_' + algo), o, env.enum('OPK_FLOAT' if env.prec == 's' else 'OPK_DOUBLE'), n] + a + [l], holds=h)
    return setup


def rewrap(same_cb, same_cd, oldcb, newcb, same_el=False, prec='d'):
    """re-wrapping: the previous callback is applied once to its own data unless callback and data are both unchanged"""
    def make(e):
        e.malloc_fails = False
        env = Env(e, prec)
        sp, n = env.space()
        d, d2 = env.data('data', n), env.data('data2', n)
        if same_el:
            d2 = d
        cd = e.fresh(env.st, 'cd', ir.PTR)
        cd2 = cd if same_cd else e.fresh(env.st, 'cd2', ir.PTR)
        if not same_cd:
            env.st.assume(cd.t != cd2.t)

        def mk(nm, want):
            def cb(e, st, a, ins):
                e.oblige(st, veq(e, a[0], want), 'post', 'the callback gets its own client data')
                tick(st, nm)
                return [(st, None)]
            return virtual(env, nm, cb)
        c1 = mk('old', cd) if oldcb else NULL
        c2 = (c1 if same_cb else mk('new', cd2)) if newcb else NULL
        if same_cb and oldcb:
            def cb(e, st, a, ins):
                tick(st, 'old', veq(e, a[0], cd) if 'final' not in st.flags else None)
                e.oblige(st, veq(e, a[0], cd2 if 'final' in st.flags else cd), 'post', 'the callback gets its own client data')
                return [(st, None)]
            c1.r.handler = cb
        v = env.wrap(sp, d, 'v', c1, cd)
        snap = env.st.fork()
        unchanged = (c1 is c2 or (not oldcb and not newcb)) and same_cd

        def post(e, s, r):
            e.oblige(s, i2z(r) == env.enum('OPK_SUCCESS'), 'post', 'success')
            e.oblige(s, len(ticks(s, 'old')) == (1 if oldcb and not unchanged else 0), 'post', 'previous callback applied exactly once unless unchanged')
            e.oblige(s, not ticks(s, 'new'), 'post', 'new callback not applied')
            L = env.vm.layout['simple_vector']
            for f, w in (('data', d2), ('client_data', cd2), ('free_client_data', c2)):
                e.oblige(s, veq(e, e.cell(s, v, L[f], ir.PTR), w), 'post', 'the vector now refers to the new %s' % f)
            nothing_changed(env, s, snap, allow=[v])
            n0 = len(ticks(s, 'old'))
            s.flags = s.flags | {'final'}
            for t in run_all(env, [s], 'opk_drop_object', [v]):
                if newcb:
                    nm = 'old' if c1 is c2 else 'new'
                    e.oblige(t, len(ticks(t, nm)) == (n0 if nm == 'old' else 0) + 1, 'post', 'current callback applied once when the vector is released')
                if not newcb or c1 is not c2:
                    e.oblige(t, len(ticks(t, 'old')) == n0, 'post', 'previous callback not applied again')
        return env.fn('opk_rewrap_simple_%s_vector' % env.C), env.st, [v, d2, c2, cd2], post
    return make


def units(tier):
    out = []

    def add(name, desc, make, **kw):
        out.append(dict(name=name, desc=desc, make=make, **kw))

    def life(name, setup, precs='d', mods=(), unroll=0, both=True, **kw):
        for prec in precs:
            P = {'d': 'double', 's': 'float'}[prec]
            add('%s/%s' % (name, P), 'any allocation may fail; others refer to the operands', lifecycle(setup, prec, True, unroll, mods), **kw)
            if both:
                add('%s/%s/operands dropped first' % (name, P), 'operands survive until the object is released', lifecycle(setup, prec, False, unroll, mods), **kw)
    add('opk_hold_object', 'adds one reference', hold)
    add('opk_drop_object/with finalizer', 'removes one reference; released exactly with the last', drop('finalizer'))
    add('opk_drop_object/no finalizer', 'removes one reference; released exactly with the last', drop('none'))
    add('opk_drop_object/missing', 'no effect', drop('null'))
    add('opk_get_object_references', 'number of references', get_refs)
    add('opk_allocate_object', 'zeroed object with one reference, or nothing', allocate)
    life('new space', s_space, 'ds')
    life('opk_vcreate', s_vcreate, 'ds')
    life('wrap with callback', s_wrap, 'ds')
    life('wrap without callback', s_wrap0, 'ds')
    life('opk_allocate_vector_space', s_customspace)
    life('opk_allocate_vector', s_customvector)
    for fin in (0, 1):
        life('opk_allocate_convexset/%s' % ('finalizer' if fin else 'no finalizer'), s_convexset(fin))
        for same in (0, 1):
            life('opk_allocate_operator/%s/%s' % ('finalizer' if fin else 'no finalizer', 'same space' if same else 'two spaces'), s_operator(fin, same))
    for lk in KINDS:
        for uk in KINDS:
            life('opk_new_boxset/%s,%s' % (lk, uk), s_box(lk, uk), 'ds', both=(lk == uk or 'NONE' in (lk, uk)))
    life('opk_new_boxset/same vector twice', s_box('VECTOR', 'VECTOR', True), 'ds')
    for k in ('custom', 'backtrack', 'nonmonotone', 'csrch'):
        life('line search/' + k, s_lnsrch(k), mods=('src/lnsrch.c', 'src/utils.c'))
    for mem in (1, 2, 3):
        for box in (0, 1):
            for ls in (0, 1):
                for bl in ((0, 1) if box else (0,)):
                    for sv in (0, 1):
                        life('opk_new_vmlmb_optimizer/mem=%d%s%s%s%s' % (mem, ' box' if box else '', ' lnsrch' if ls else '', ' blmvm' if bl else '', ' save' if sv else ''),
                             s_vmlmb(mem, box, ls, bl, sv), mods=OPTMODS, unroll=4, bounded='memory size m <= 3')
                        if not (sv or ls) and mem > 1:
                            life('opk_new_vmlmb_optimizer/mem=%d%s%s more than the %d variables' % (mem, ' box' if box else '', ' blmvm' if bl else '', mem - 1),
                                 s_vmlmb(mem, box, ls, bl, sv, mem - 1), mods=OPTMODS, unroll=4, bounded='memory size m <= 3')
    for m in METHODS:
        for ls in (0, 1):
            life('opk_new_nlcg_optimizer/%s%s' % (m, ' lnsrch' if ls else ''), s_nlcg(m, ls), mods=OPTMODS)
    for a, lk, uk in ([('NLCG', 'NONE', 'NONE')] + [('VMLMB', l, u) for l in KINDS[:-1] for u in KINDS[:-1]]):
        for ls in (0, 1):
            life('opk_new_optimizer/%s %s,%s%s' % (a, lk, uk, ' lnsrch' if ls else ''), s_driver(a, lk, uk, ls), 'ds', mods=OPTMODS + ('src/driver.c',), unroll=2, both=bool(ls) and lk == uk,
                 **(dict(bounded='memory size m = 1') if a == 'VMLMB' else {}))
    for sc in (0, 1):
        for sd in (0, 1):
            for o in (0, 1):
                for n in (0, 1):
                    if sc and not (o and n):
                        continue
                    for el in (0, 1):
                        for prec in 'ds':
                            add('rewrap/%s%s%s%s%s/%s' % ('same callback ' if sc else '', 'same data ' if sd else '', '' if o else 'no old callback ', '' if n else 'no new callback', ' same elements' if el else '', prec),
                                'callback of replaced data is applied exactly once', rewrap(sc, sd, o, n, el, prec))
    return out
