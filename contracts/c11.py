"""C11 -- the simple optimizer driver hides the algorithm without changing it."""
from fractions import Fraction
from .common import *

SOURCES = ['src/driver.c', 'src/algebra.c', 'src/dblvector.c', 'src/fltvector.c']
HARNESS = dict(src='c11.c', always=True, bounded='drivers against the optimizers they select, n <= 8, 60 calls')
ALGOS = ('nlcg', 'vmlmb')


class World(Env):
    """the driver and the vectors are the real code, the optimizers are known by what they are given and return"""

    def __init__(self, e, single):
        Env.__init__(self, e, 's' if single else 'd', mods=('src/dblvector.c' if single else 'src/fltvector.c', 'src/driver.c'))
        self.dm = build.module('src/driver.c')
        self.D = self.dm.layout['opk_optimizer_']
        self.calls = {}
        C = e.contracts
        for a in ALGOS:
            C['opk_new_%s_optimizer' % a] = self.ctor(a)
            C['opk_start_' + a] = self.rec(a, 'start', ir.I32)
            C['opk_iterate_' + a] = self.rec(a, 'iterate', ir.I32)
            C['opk__set_%s_status' % a] = self.rec(a, 'set_status', None)
            for g, t in GETTERS:
                C['opk_get_%s_%s' % (a, g)] = self.rec(a, g, t)
            for g in ('name', 'description'):
                C['opk_get_%s_%s' % (a, g)] = self.rec(a, g, ir.I64)
        C['opk_get_vmlmb_method_name'] = self.rec('vmlmb', 'method_name', ir.PTR)
        C['opk_copy_string'] = self.rec('', 'copy', ir.I64)
        C['opk_new_boxset'] = self.boxset

    def obj(self, st, name):
        r = self.e.new_region(st, name, kind='heap', size=64)
        self.e.set_cell(st, r, self.off('opk_object_', 'finalize'), ir.PTR, NULL)
        self.e.set_cell(st, r, self.off('opk_object_', 'references'), ir.I64, 1)
        return Ptr(r)

    def rec(self, algo, what, ty):
        def h(e, st, a, ins):
            ret = e.fresh(st, 'ret_' + what, ty) if ty is not None else None
            k = len(self.calls)
            self.calls[k] = (algo, what, list(a), ret, self.vecs(st, a))
            tick(st, 'call', k)
            return [(st, ret)]
        return h

    def vecs(self, st, a):
        """where the vectors given to an optimizer have their elements, and their space"""
        out = []
        for p in a:
            d = None
            if isinstance(p, Ptr) and p.r is not None and p.o.const() and p.o.c == 0:
                L = self.vm.layout['simple_vector']
                if p.r.id in st.mem and L['data'] in st.mem[p.r.id].cells:
                    d = dict(data=self.e.cell(st, p, L['data'], ir.PTR), free=self.e.cell(st, p, L['free_client_data'], ir.PTR),
                             owner=self.e.cell(st, p, self.off('opk_vector_', 'owner'), ir.PTR))
            out.append(d)
        return out

    def ctor(self, algo):
        def h(e, st, a, ins):
            k = len(self.calls)
            s2 = st.fork()
            o = self.obj(st, 'inner optimizer')
            self.calls[k] = (algo, 'new', list(a), o, None)
            self.calls[k + 1] = (algo, 'new', list(a), NULL, None)
            tick(st, 'call', k)
            tick(s2, 'call', k + 1)
            s2.flags = s2.flags | {'inner failed'}
            return [(st, o), (s2, NULL)]
        return h

    def boxset(self, e, st, a, ins):
        k = len(self.calls)
        s2 = st.fork()
        o = self.obj(st, 'box')
        self.calls[k] = ('', 'box', list(a), o, self.vecs(st, a))
        self.calls[k + 1] = ('', 'box', list(a), NULL, None)
        tick(st, 'call', k)
        tick(s2, 'call', k + 1)
        s2.flags = s2.flags | {'inner failed'}
        return [(st, o), (s2, NULL)]

    def made(self, s, since=None):
        seen = set(ticks(since, 'call')) if since is not None else set()
        return [self.calls[f[2]] for f in sorted((f for f in ticks(s, 'call') if f not in seen), key=lambda f: f[1])]


GETTERS = (('task', ir.I32), ('status', ir.I32), ('evaluations', ir.I64), ('iterations', ir.I64), ('restarts', ir.I64), ('step', ir.DBL), ('gnorm', ir.DBL))


def is_null(p):
    return p.t == 0 if isinstance(p, Opq) else b2z(p.r is None)


def eq0(e, x, y):
    """same pointer (either may be missing)"""
    if isinstance(x, Opq) and not isinstance(y, Opq):
        x, y = y, x
    if isinstance(x, Ptr) and isinstance(y, Opq):
        return z3.And(b2z(x.r is None), y.t == 0)
    return veq(e, x, y)


def create(single, haslo, hasup):
    """every combination of algorithm, size, bound types, options and line search"""
    def make(e):
        e.malloc_fails = False
        env = World(e, single)
        st = env.st
        algo, ty, lt, ut = [e.fresh_int(st, nm, 32) for nm in ('algorithm', 'type', 'lower_type', 'upper_type')]
        n = e.fresh_int(st, 'n')
        opts, ls = e.fresh(st, 'opts', ir.PTR), e.fresh(st, 'lnsrch', ir.PTR)

        def addr(has, nm):
            if not has:
                return NULL
            p = e.fresh(st, nm, ir.PTR)
            st.assume(p.t > 0)
            return p
        la, ua = addr(haslo, 'lower'), addr(hasup, 'upper')
        E = env.enum
        FL, DB = E('OPK_FLOAT'), E('OPK_DOUBLE')
        NONE, VEC = E('OPK_BOUND_NONE'), E('OPK_BOUND_VECTOR')
        NL, VM = E('OPK_ALGORITHM_NLCG'), E('OPK_ALGORITHM_VMLMB')
        if single:
            st.assume(ty == FL)
        else:
            st.assume(ty != FL)
        types = z3.And(NONE <= lt, lt <= VEC, NONE <= ut, ut <= VEC)
        coh = z3.And((lt == NONE) == b2z(not haslo), (ut == NONE) == b2z(not hasup))
        unb = z3.And(lt == NONE, ut == NONE)
        basic = z3.And(n >= 1, z3.Or(ty == FL, ty == DB), types, z3.Or(algo == NL, algo == VM), z3.Or(algo == VM, unb))
        ok = z3.And(basic, coh)
        own = E('OPK_BOUND_STATIC_FLOAT') if single else E('OPK_BOUND_STATIC_DOUBLE')
        e.malloc_fails = True
        snap = st.fork()

        def post(e, s, r):
            ob = lambda g, w, s=s: e.oblige(s, g, 'post', w)
            calls = env.made(s)
            if r.r is None:
                excuse = 'oom' in s.flags or 'inner failed' in s.flags
                if not excuse:
                    ob(z3.Not(ok), 'valid arguments are accepted')
                    er = getattr(e, 'errno_region', None)
                    c = i2z(e.load_cell(s, er, 0, ir.I32)) if er is not None else z3.IntVal(0)
                    ob(z3.Or(c == EINVAL, c == EFAULT), 'invalid arguments are reported')
                    ob(z3.Implies(basic, c == EFAULT), 'an address that does not match its type is a bad address')
                    ob(z3.Implies(z3.And(coh, z3.Not(basic)), c == EINVAL), 'an invalid value is an invalid argument')
                    ob(not calls, 'nothing is created for invalid arguments')
                no_leak(env, s, snap)
                nothing_changed(env, s, snap)
                return
            ob(ok, 'unknown algorithm, precision, size or inconsistent options are refused')
            ob('inner failed' not in s.flags and 'oom' not in s.flags, 'the driver exists only with its optimizer')
            new = [c for c in calls if c[1] == 'new']
            box = [c for c in calls if c[1] == 'box']
            if len(new) != 1 or len(box) > 1 or len(calls) != len(new) + len(box):
                return ob(False, 'exactly one optimizer is created')
            a, _, args, inner, _ = new[0]
            ob(algo == (NL if a == 'nlcg' else VM), 'the selected algorithm is used')
            ob(eq0(e, args[0], opts), 'with the given options')
            ob(eq0(e, args[2], ls), 'with the given line search')
            sp = args[1]
            if not (isinstance(sp, Ptr) and sp.r is not None):
                return ob(False, 'with a vector space')
            ob(i2z(e.cell(s, sp, env.off('opk_vspace_', 'size'), ir.I64)) == n, 'of the given size')
            ob(b2z(sp.r.id not in snap.mem), 'of its own')
            ops = e.cell(s, sp, env.off('opk_vspace_', 'ops'), ir.PTR)
            ref, _ = env.space()
            ob(veq(e, ops, e.cell(env.st, ref, env.off('opk_vspace_', 'ops'), ir.PTR)), 'and of the given precision')
            if a == 'vmlmb':
                ob(b2z(bool(box)) == z3.Not(unb), 'a box exactly when there are bounds')
                ob(eq0(e, args[3], box[0][3] if box else NULL), 'the box is given to the optimizer')
            if box:
                _, _, b, bo, vs = box[0]
                ob(eq0(e, b[0], sp), 'box of the space of the variables')
                for nm, t, ad, i in (('lower', lt, la, 1), ('upper', ut, ua, 3)):
                    same = z3.And(i2z(b[i]) == t, eq0(e, b[i + 1], ad))
                    v = vs[i + 1]
                    if v is not None:
                        w = z3.And(i2z(b[i]) == VEC, t == own, eq0(e, v['data'], ad), is_null(v['free']), eq0(e, v['owner'], sp))
                        same = z3.Or(same, w)
                    ob(same, 'the %s bound is the given one' % nm)
            ob(i2z(env.refs(s, r)) == 1, 'a new driver has one reference')
            nothing_changed(env, s, snap)
            for t in [x for x, _ in e.call_fn(s.fork(), env.fn('opk_destroy_optimizer'), [r])]:
                no_leak(env, t, snap)
                nothing_changed(env, t, snap)
        return env.fn('opk_new_optimizer'), st, [algo, opts, ty, n, lt, la, ut, ua, ls], post
    return make


def driver(e, algo, single):
    """a driver made by the real constructor, after any number of calls (the arrays last given are arbitrary)"""
    e.malloc_fails = False
    env = World(e, single)
    n = e.fresh_int(env.st, 'n')
    env.st.assume(z3.And(n >= 1, n <= 2 ** 59))
    ok = lambda o: isinstance(o[1], Ptr) and o[1].r is not None
    N = env.enum('OPK_BOUND_NONE')
    env.opt = env.call('opk_new_optimizer', [env.enum('OPK_ALGORITHM_' + algo.upper()), NULL, env.enum('OPK_FLOAT' if single else 'OPK_DOUBLE'), n, N, NULL, N, NULL, NULL], ok)
    env.inner = env.made(env.st)[0][3]
    env.sp = env.made(env.st)[0][2][1]
    env.n = n
    env.xv, env.gv = [e.cell(env.st, env.opt, env.D[f], ir.PTR) for f in ('x', 'g')]
    for p in (env.xv, env.gv):
        old = e.fresh(env.st, 'previous array', ir.PTR)
        env.st.assume(old.t > 0)
        e.set_cell(env.st, p, env.vm.layout['simple_vector']['data'], ir.PTR, old)
    env.sets = e.cell(env.st, env.opt, env.D['single'], ir.I32)
    return env


def check_vec(env, s, p, v, arr, what):
    e = env.e
    ob = lambda g, w: e.oblige(s, g, 'post', w)
    if v is None:
        return ob(False, '%s is a vector of the driver' % what)
    ob(eq0(e, v['data'], arr), '%s is the array of the caller' % what)
    ob(eq0(e, v['owner'], env.sp), '%s belongs to the space of the driver' % what)
    ob(is_null(v['free']), '%s remains owned by the caller' % what)


def run_calls(algo, single, which, hasx, hasg):
    def make(e):
        env = driver(e, algo, single)
        st = env.st
        x, g = [Ptr(e.new_region(st, nm, segs=[(0, env.ty, env.n, nm)])) if h else NULL for nm, h in (('x', hasx), ('g', hasg))]
        f = e.fresh(st, 'f', ir.DBL)
        snap = st.fork()
        args = [env.opt, x] if which == 'start' else [env.opt, x, f, g]

        def post(e, s, r):
            ob = lambda q, w: e.oblige(s, q, 'post', w)
            c = env.made(s, snap)
            if len(c) != 1:
                return ob(False, 'exactly one request to the optimizer')
            a, w, b, ret, vs = c[0]
            ob(a == algo, 'the selected algorithm is used')
            ob(eq0(e, b[0], env.inner), 'the optimizer of the driver')
            if not hasx or (which == 'iterate' and not hasg):
                ob(w == 'set_status', 'missing arrays are refused')
                if w == 'set_status':
                    ob(i2z(b[1]) == env.enum('OPK_ILLEGAL_ADDRESS'), 'missing arrays are reported')
                ob(i2z(r) == env.enum('OPK_TASK_ERROR'), 'missing arrays give an error')
                nothing_changed(env, s, snap)
                return
            ob(w == which, 'the request is transmitted')
            if w != which:
                return
            check_vec(env, s, b[1], vs[1], x, 'x')
            if which == 'iterate':
                ob(env.F.same(b[2], f), 'the function value is the given one')
                check_vec(env, s, b[3], vs[3], g, 'g')
            ob(i2z(r) == i2z(ret), 'the answer of the optimizer is returned')
            nothing_changed(env, s, snap, allow=[env.xv, env.gv])
        return env.fn('opk_' + which), st, args, post
    return make


def getters(algo, single):
    def make(e):
        env = driver(e, algo, single)
        snap = env.st.fork()

        def check(s, r, g):
            ob = lambda q, w: e.oblige(s, q, 'post', w)
            c = env.made(s, snap)
            if len(c) != 1:
                return ob(False, 'exactly one request to the optimizer')
            a, w, b, ret, _ = c[0]
            ob(a == algo and w == g, 'the %s of the selected optimizer' % g)
            ob(eq0(e, b[0], env.inner), 'the optimizer of the driver')
            ob(env.F.same(r, ret) if env.F.is_fp(r) else i2z(r) == i2z(ret), 'the %s of the optimizer is returned' % g)
            nothing_changed(env, s, snap)
        for g, _ in GETTERS[1:]:
            for s, r in e.call_fn(snap.fork(), env.fn('opk_get_' + g), [env.opt]):
                check(s, r, g)
        buf, size = e.fresh(snap, 'buf', ir.PTR), e.fresh_int(snap, 'size')
        for g in ('name', 'description'):
            for s, r in e.call_fn(snap.fork(), env.fn('opk_get_' + g), [buf, size, env.opt]):
                c = env.made(s, snap)
                ob = lambda q, w: e.oblige(s, q, 'post', w)
                via = algo == 'vmlmb' and g == 'name'
                if [x[1] for x in c] != (['method_name', 'copy'] if via else [g]):
                    ob(False, '%s of the selected optimizer' % g)
                    continue
                ob(c[0][0] == algo, '%s of the selected optimizer' % g)
                if via:
                    ob(eq0(e, c[0][2][0], env.inner), 'the optimizer of the driver')
                    ob(eq0(e, c[1][2][2], c[0][3]), 'name of the method')
                else:
                    ob(eq0(e, c[0][2][2], env.inner), 'the optimizer of the driver')
                ob(z3.And(eq0(e, c[-1][2][0], buf), i2z(c[-1][2][1]) == size), 'the buffer of the caller, with its size')
                ob(i2z(r) == i2z(c[-1][3]), 'the length is returned')
                nothing_changed(env, s, snap)
        return env.fn('opk_get_task'), env.st, [env.opt], lambda e, s, r: check(s, r, 'task')
    return make


def missing(e):
    e.malloc_fails = False
    env = World(e, 0)
    E = env.enum
    snap = env.st.fork()
    F = env.F
    x = e.fresh(snap, 'x', ir.PTR)
    f = e.fresh(snap, 'f', ir.DBL)
    want = dict(status=E('OPK_ILLEGAL_ADDRESS'), evaluations=0, iterations=0, restarts=0, step=-1, gnorm=0)

    def ok(s, r, w, nm):
        e.oblige(s, F.cmp('oeq', r, F.const(Fraction(w), 64)) if F.is_fp(r) else i2z(r) == w, 'post', '%s without driver' % nm)
        e.oblige(s, not env.made(s), 'post', 'no optimizer is involved')
        nothing_changed(env, s, snap)
    for g, w in want.items():
        for s, r in e.call_fn(snap.fork(), env.fn('opk_get_' + g), [NULL]):
            ok(s, r, w, g)
    for nm, a in (('opk_start', [NULL, x]), ('opk_iterate', [NULL, x, f, x])):
        for s, r in e.call_fn(snap.fork(), env.fn(nm), a):
            ok(s, r, E('OPK_TASK_ERROR'), nm)
    for s, r in e.call_fn(snap.fork(), env.fn('opk_destroy_optimizer'), [NULL]):
        nothing_changed(env, s, snap)
    buf, size = e.fresh(snap, 'buf', ir.PTR), e.fresh_int(snap, 'size')
    for g in ('name', 'description'):
        for s, r in e.call_fn(snap.fork(), env.fn('opk_get_' + g), [buf, size, NULL]):
            c = env.made(s)
            if [q[1] for q in c] != ['copy']:
                e.oblige(s, False, 'post', 'empty text without driver')
                continue
            p = c[0][2][2]
            e.oblige(s, z3.And(eq0(e, c[0][2][0], buf), i2z(c[0][2][1]) == size, i2z(r) == i2z(c[0][3])), 'post', 'the buffer of the caller, with its size')
            e.oblige(s, i2z(e.load(s, p, ir.I8)) == 0, 'post', 'empty text without driver')
            nothing_changed(env, s, snap)
    return env.fn('opk_get_task'), env.st, [NULL], lambda e, s, r: ok(s, r, E('OPK_TASK_ERROR'), 'task')


def units(tier):
    out = [dict(name='missing driver', desc='documented values', make=missing)]
    for single in (0, 1):
        P = ('double', 'float')[single]
        for lo in (0, 1):
            for up in (0, 1):
                out.append(dict(name='create/%s%s%s' % (P, ' lower' if lo else '', ' upper' if up else ''), desc='all arguments', make=create(single, lo, up)))
        for a in ALGOS:
            for x in (1, 0):
                out.append(dict(name='start/%s/%s%s' % (a, P, '' if x else '/no x'), desc='transmitted', make=run_calls(a, single, 'start', x, 0)))
                for g in (1, 0):
                    out.append(dict(name='iterate/%s/%s%s%s' % (a, P, '' if x else '/no x', '' if g else '/no g'), desc='transmitted', make=run_calls(a, single, 'iterate', x, g)))
            out.append(dict(name='queries/%s/%s' % (a, P), desc='transmitted', make=getters(a, single)))
    return out
