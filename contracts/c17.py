"""C17 -- unconstrained derivative-free solver: arguments, protocol, number of evaluations."""
from .common import *
from opkv import build

SRC = 'src/newuoa.c'
SOURCES = [SRC]
HARNESS = dict(src='c17.c', always=True, bounded='random and boundary arguments, random histories of values, up to 6 variables, guard elements around the work space', lib=['newuoa.c'])
ASSUMPTIONS = ['the content of the work arrays is arbitrary (every read yields an arbitrary value); accesses to work arrays reached by pointer are not checked for bounds (address sanitizer in the harness only)',
               'no overflow of the integers describing sizes: |n| <= 2^20, |npt| <= 2^40; the size of the work space of a context is less than 2^63 bytes',
               'state of a context between two calls: arbitrary within the invariant established by create and re-proved by every call']
D = ir.DBL
ARR = ('xbase', 'xopt', 'xnew', 'xpt', 'fval', 'gq', 'hq', 'pq', 'bmat', 'zmat', 'd', 'vlag', 'w')
INT = ('n', 'npt', 'iprint', 'maxfun', 'idz', 'ih', 'ipt', 'itest', 'jpt', 'knew', 'kopt', 'ksave', 'nf', 'nfm', 'nfmm', 'nfsav', 'nevals')
KEPT = ('n', 'npt', 'iprint', 'maxfun', 'rhobeg', 'rhoend') + ARR


class Dfo:
    """one derivative-free solver module"""

    def __init__(self, e, src=SRC, irr=True):
        self.e = e
        e.nla = True
        e.max_pairs = 4
        self.m = build.module(src, irreducible=irr)
        e.add_module(self.m)
        self.st = State()
        self.F = e.fp
        self.zero = self.F.const(Fraction(0), 64)

    def fn(self, name):
        f = self.e.funcs.get(name) or next((m.funcs[name] for m in self.e.mods if name in m.funcs), None)
        if f is None:
            raise Unsupported('function %s not found' % name)
        return f

    def en(self, n):
        return self.m.layout['#enum'][n]

    def off(self, s, f):
        return self.m.layout[s][f]

    def havoc(self, name):
        return Ptr(Region(name, 'havoc'))

    def num(self, name, bits=40):
        v = self.e.fresh_int(self.st, name)
        self.st.assume_all([v <= 2 ** bits, v >= -2 ** bits])
        return v

    def radii_ok(self, rb, re_):
        return z3.And(self.F.cmp('ogt', re_, self.zero), self.F.cmp('ole', re_, rb))

    def half(self, a):
        """integer half of a product (of non-negative value)"""
        h = self.e.fresh_int(self.st, 'half')
        self.st.assume_all([2 * h <= a, a < 2 * h + 2])
        return h

    def steps(self, *names):
        """contracts of the functions that compute steps: they write work arrays (arbitrary) and the scalars they are given"""
        for nm in names:
            f = self.m.funcs.get(nm)
            if f is None:
                continue

            def h(e, s, a, ins, f=f, nm=nm):
                for p, v in zip(f.params, a):
                    if isinstance(v, Ptr) and v.r is not None and getattr(v.r, 'segs', ()) and v.r.kind != 'global':
                        e.set_arr(s, v, z3.FreshConst(e.arr(s, v).sort(), v.r.name))
                    elif isinstance(v, Ptr) and v.r is not None and v.r.kind not in ('havoc', 'global', 'func', 'virtual'):
                        if v.r.kind == 'alloca' or v.r.kind == 'stack':
                            self.scalar(s, v)
                        else:
                            raise Unsupported('%s is given %s' % (nm, v.r.name))
                return [(s, F_ret(e, self, f, nm, s))]
            self.e.contracts[nm] = h

    def scalar(self, s, p):
        e = self.e
        r = s.mem.get(p.r.id)
        for o, (sz, v, ty) in list(r.cells.items()) if r else []:
            if ty.k in ('i', 'double', 'float'):
                e.set_cell(s, p.r, o, ty, e.fresh(s, p.r.name, ty))


def F_ret(e, la, f, nm, s):
    k = f.ret.k
    return None if k == 'void' else e.fresh(s, nm, f.ret)


def quiet(la, *names):
    for n in names:
        if n in la.m.funcs:
            la.e.contracts[n] = lambda e, st, a, ins: [(st, None)]


def counting(la, ghost, extra=(), lim=None):
    """candidates: the number of evaluations is a counter of the code, give or take one"""
    def gen(L, probe, mod):
        out = []
        if len(L.phis) < 3 and not any(k[0] == 'ghost' for k in mod):
            return out
        cnt = [p for p in L.phis if p.ty.k == 'i' and p.ty.a == 64]
        tag = [p for p in L.phis if p.ty.k == 'i' and 1 < p.ty.a < 64] if extra else []
        flag = [p for p in L.phis if p.ty.k == 'i' and p.ty.a == 1]
        conds = [('', lambda v: True)]
        for q in tag:
            for val in extra:
                conds.append(('%s==%d => ' % (q.res, val), lambda v, q=q, val=val: i2z(v.phi[q.res]) == val))
        base = list(conds)
        for q in flag:
            for w, f in (('', lambda v, q=q: b2z(v.phi[q.res])), ('not ', lambda v, q=q: z3.Not(b2z(v.phi[q.res])))):
                out.append(('%s%s => count>=1' % (w, q.res), lambda v, f=f: z3.Implies(f(v), ghost(v) >= 1)))
                for nm, g in base if extra else ():
                    conds.append(('%s%s => %s' % (w, q.res, nm), lambda v, f=f, g=g: z3.And(f(v), g(v))))
                for t in tag:
                    out.append(('%s%s => %s in %s' % (w, q.res, t.res, extra), lambda v, f=f, t=t: z3.Implies(f(v), z3.Or([i2z(v.phi[t.res]) == r for r in extra]))))
                    for val in extra:
                        out.append(('%s%s => %s==%d' % (w, q.res, t.res, val), lambda v, f=f, t=t, val=val: z3.Implies(f(v), i2z(v.phi[t.res]) == val)))
        for nm, g in conds:
            for p in cnt:
                for c in (-1, 0, 1):
                    out.append(('%scount==%s%+d' % (nm, p.res, c), lambda v, p=p, c=c, g=g: z3.Implies(g(v), ghost(v) == i2z(v.phi[p.res]) + c)))
        for p in tag:
            out.append(('%s in %s' % (p.res, extra), lambda v, p=p: z3.Or([i2z(v.phi[p.res]) == q for q in extra])))
            for val in extra:
                out.append(('%s==%d' % (p.res, val), lambda v, p=p, val=val: i2z(v.phi[p.res]) == val))
        out.append(('count>=0', lambda v: ghost(v) >= 0))
        if lim is not None:
            out.append(('count<=limit', lambda v: ghost(v) <= lim))
        out.append(('count>=1', lambda v: ghost(v) >= 1))
        return out
    la.e.cand_gens.append(gen)


def nonneg_scales(la, scl, k):
    """candidates about the scaling factors already seen"""
    F, e = la.F, la.e
    one = F.const(Fraction(1), 64)

    def gen(L, probe, mod):
        out = []
        if len(L.phis) > 6:
            return out
        s = z3.Select(scl.r.init_arrs[0], k)
        unit = F.cmp('oeq', s, one)
        good = z3.And(F.fin(s), F.cmp('ogt', s, la.zero))
        for p in L.phis:
            if p.ty.k == 'i' and p.ty.a > 1:
                out.append(('scale ok below %s' % p.res, lambda v, p=p: z3.Implies(i2z(v.phi[p.res]) > k, good)))
                for q in L.phis:
                    if q.ty.k == 'i' and q is not p:
                        z = lambda v, q=q: z3.Not(v.phi[q.res]) if q.ty.a == 1 else i2z(v.phi[q.res]) == 0
                        out.append(('scale 1 below %s unless %s' % (p.res, q.res), lambda v, p=p, z=z: z3.Implies(z3.And(i2z(v.phi[p.res]) > k, z(v)), unit)))
        return out
    e.cand_gens.append(gen)


def optimize(scaled, obj=True):
    def make(e):
        la = Dfo(e)
        F, st, en = la.F, la.st, la.en
        n, npt, maxfun = la.num('n', 20), la.num('npt'), la.num('maxfun', 60)
        iprint = la.num('iprint', 30)
        rb, re_ = F.fresh('rhobeg', 64), F.fresh('rhoend', 64)
        len_ = z3.If(n >= 0, n, 0)
        x = e.array(st, 'x', D, len_)[0]
        scl, k, sc_ok, unit = NULL, None, z3.BoolVal(True), z3.BoolVal(True)
        if scaled:
            scl = e.array(st, 'scl', D, len_)[0]
            scl.r.readonly = True
            k = e.fresh_int(st, 'k')
            st.assume_all([k >= 0, k < n])
            s = z3.Select(scl.r.init_arrs[0], k)
            sc_ok = z3.And(F.fin(s), F.cmp('ogt', s, la.zero))
            unit = F.cmp('oeq', s, F.const(Fraction(1), 64))
            nonneg_scales(la, scl, k)
        work, data = la.havoc('work'), la.havoc('data')
        st.g['calls'] = z3.IntVal(0)
        lim = z3.If(maxfun >= 1, maxfun, 1)
        top = la.half(e.mul(n + 1, n + 2))
        ok_n, ok_npt, ok_rho = n >= 2, z3.And(npt >= n + 2, npt <= top), la.radii_ok(rb, re_)

        def objfun(e, s, a, ins):
            s = s.fork()
            c = s.g['calls']
            e.oblige(s, c < lim, 'post', 'no more evaluations than allowed')
            e.oblige(s, ok_n, 'post', 'not evaluated when the number of variables is invalid')
            e.oblige(s, ok_npt, 'post', 'not evaluated when the number of interpolation points is invalid')
            e.oblige(s, ok_rho, 'post', 'not evaluated when the radii are invalid')
            e.oblige(s, sc_ok, 'post', 'not evaluated when a scale is invalid')
            e.oblige(s, i2z(a[0]) == n, 'post', 'given the number of variables')
            e.oblige(s, veq(e, a[2], data), 'post', 'given the data of the caller')
            p = a[1]
            if isinstance(p, Ptr) and p.r is x.r:
                e.oblige(s, z3.And(p.o.term() == x.o.term(), unit), 'post', 'given the variables')
            else:
                e.oblige(s, scaled and isinstance(p, Ptr) and p.r is work.r, 'post', 'given the scaled variables')
            s.g['calls'] = c + 1
            return [(s, F.fresh('f', 64))]
        fo = virtual(la, 'objfun', objfun)
        la.steps('trsapp', 'biglag', 'bigden', 'update')
        quiet(la, 'print_x', 'print_error')
        counting(la, lambda v: v.st.g['calls'], lim=lim)
        snap = st.fork()

        def post(e, s, r):
            r = i2z(r)
            c = s.g['calls']
            S = lambda q: en('NEWUOA_' + q)
            e.oblige(s, z3.Implies(r == S('BAD_NVARS'), z3.Not(ok_n)), 'post', 'bad number of variables reported only then')
            e.oblige(s, z3.Implies(r == S('BAD_NPT'), z3.Not(ok_npt)), 'post', 'bad number of interpolation points reported only then')
            e.oblige(s, z3.Implies(r == S('BAD_RHO_RANGE'), z3.Not(ok_rho)), 'post', 'bad radii reported only then')
            bad = z3.Or([r == S(q) for q in ('BAD_NVARS', 'BAD_NPT', 'BAD_RHO_RANGE', 'BAD_SCALING')])
            e.oblige(s, z3.Implies(z3.Not(z3.And(ok_n, ok_npt, ok_rho)), z3.And(bad, c == 0)), 'post', 'invalid arguments are refused')
            e.oblige(s, z3.Implies(z3.Not(sc_ok), z3.And(bad, c == 0)), 'post', 'invalid scales are refused')
            if not scaled:
                e.oblige(s, r != S('BAD_SCALING'), 'post', 'no scale, no bad scale')
                e.oblige(s, z3.Implies(z3.And(ok_n, ok_npt, ok_rho), z3.Not(bad)), 'post', 'valid arguments are accepted')
            else:
                e.oblige(s, z3.Implies(z3.And(ok_n, ok_npt, ok_rho), z3.Implies(bad, r == S('BAD_SCALING'))), 'post', 'only scales are wrong')
            e.oblige(s, z3.Or([bad] + [r == S(q) for q in ('SUCCESS', 'TOO_MANY_EVALUATIONS', 'STEP_FAILED', 'ROUNDING_ERRORS')]), 'post', 'a documented status')
            e.oblige(s, z3.And(c >= 0, c <= lim, z3.Implies(bad, c == 0), z3.Implies(z3.Not(bad), c >= 1)), 'post', 'number of evaluations')
            e.oblige(s, z3.Implies(r == S('TOO_MANY_EVALUATIONS'), c == lim), 'post', 'too many evaluations only when the limit is reached')
            if e.feasible(s, bad):
                nothing_changed(la, s.fork().assume(bad), snap)
            nothing_changed(la, s, snap, allow=[x])
        return la.fn('newuoa_optimize'), st, [n, npt, e.fresh_int(st, 'maximize', 32), fo, data, x, scl, rb, re_, iprint, maxfun, work], post
    return make


# ------------------------------------------------------- reverse communication
class Ctx(Dfo):
    pre, src = 'newuoa', SRC
    arrs, ints, kept = ARR, INT, KEPT
    count = 'nevals'
    errno_missing = False
    steps_, prints = ('trsapp', 'biglag', 'bigden', 'update'), ('print_x', 'print_error')
    final = ('SUCCESS', 'TOO_MANY_EVALUATIONS', 'STEP_FAILED', 'ROUNDING_ERRORS')

    def __init__(self, e):
        Dfo.__init__(self, e, self.src)
        self.ct = self.pre + '_context_'
        self.size = self.m.layout['#size'][self.ct]
        self.c = None

    def S(self, name):
        return self.en(self.pre.upper() + '_' + name)

    def ty(self, f):
        return ir.I32 if f == 'status' else ir.I64 if f in self.ints else ir.PTR if f in self.arrs else D

    def get(self, s, f):
        return self.e.cell(s, self.c, self.off(self.ct, f), self.ty(f))

    def fields(self):
        return self.m.layout[self.ct]

    def arbitrary(self):
        """a context satisfying the invariant"""
        e, st = self.e, self.st
        cells = {}
        v = {}
        for f in self.fields():
            t = self.ty(f)
            if f in self.arrs:
                v[f] = self.havoc(f)
            elif f in self.ints:
                v[f] = self.num(f, 20 if f == 'n' else 40)
            elif f == 'status':
                v[f] = e.fresh_int(st, f, 32)
            else:
                v[f] = self.F.fresh(f, 64)
            cells[self.off(self.ct, f)] = (t, v[f])
        self.c = cells_region(self, 'ctx', cells, self.size)
        st.assume_all(self.inv(v))
        return v

    def inv(self, v):
        it = v['status'] == self.S('ITERATE')
        return [v['n'] >= 2, v['maxfun'] >= 1, v['nevals'] >= 0, v['nevals'] <= v['maxfun'],
                z3.Implies(v['nevals'] == 0, self.F.same(v['rho'], self.zero)),
                z3.Implies(it, z3.Or(v['nevals'] == 0, z3.And(v['nf'] == v['nevals'] + 1, v['nf'] <= v['maxfun'])))]

    def all(self, s):
        return {f: self.get(s, f) for f in self.fields()}

    def operands(self, kind, v):
        """arguments after the context and the value; parts of the environment that may be written"""
        x = self.e.array(self.st, 'x', D, v['n'])[0]
        return [NULL if kind == 'no variables' else x], [x]

    def extra_post(self, s, v, n):
        pass


def iterate(kind, Ctx=Ctx):
    def make(e):
        la = Ctx(e)
        F, st, cnt = la.F, la.st, la.count
        v = la.arbitrary()
        IT, BA, CO = la.S('ITERATE'), la.S('BAD_ADDRESS'), la.S('CORRUPTED')
        st.assume(v['status'] == IT if kind in ('first', 'next') else True)
        if kind == 'first':
            st.assume(v[cnt] == 0)
        if kind == 'next':
            st.assume(v[cnt] > 0)
        if kind == 'wrong state':
            st.assume(v['status'] != IT)
        la.fval = F.fresh('f', 64)
        ops, written = la.operands(kind, v)
        args = [NULL if kind == 'no context' else la.c, la.fval] + ops
        la.steps(*la.steps_)
        quiet(la, *la.prints)
        # the number of evaluations is one less than the one asked for, unless the first one is in hand
        nev = v[cnt] + 1
        counting(la, lambda w: nev, extra=(la.S('INITIAL_ITERATE'), IT))
        snap = st.fork()

        def post(e, s, r):
            r = i2z(r)
            if kind == 'no context':
                e.oblige(s, r == BA, 'post', 'refused: no context')
                if la.errno_missing:
                    errno_is(la, s, EFAULT)
                nothing_changed(la, s, snap)
                return
            n = la.all(s)
            e.oblige(s, r == i2z(n['status']), 'post', 'the status of the context is the returned one')
            for f in la.kept:
                e.oblige(s, veq(e, n[f], v[f]), 'frame', '%s is kept' % f)
            if kind not in ('first', 'next'):
                e.oblige(s, r == (CO if kind == 'wrong state' else BA), 'post', 'refused with the documented status')
                for f in la.fields():
                    if f != 'status':
                        e.oblige(s, veq(e, n[f], v[f]), 'frame', 'nothing else of the context changes')
                nothing_changed(la, s, snap, allow=[la.c])
            else:
                e.oblige(s, i2z(n[cnt]) == v[cnt] + 1, 'post', 'one evaluation is counted')
                e.oblige(s, z3.Or([r == la.S(q) for q in ('ITERATE',) + la.final]), 'post', 'a documented status')
                e.oblige(s, z3.Implies(r == la.S('TOO_MANY_EVALUATIONS'), i2z(n[cnt]) == v['maxfun']), 'post', 'too many evaluations only when the limit is reached')
                e.oblige(s, z3.Implies(r == IT, i2z(n[cnt]) < v['maxfun']), 'post', 'no value is asked for beyond the limit')
                la.extra_post(s, v, n)
                nothing_changed(la, s, snap, allow=[la.c] + written)
            for i, f in enumerate(la.inv(n)):
                e.oblige(s, f, 'inv', 'context invariant %d' % i)
        return la.fn(la.pre + '_iterate'), st, args, post
    return make


def getter(fname, field, missing, Ctx=Ctx):
    def make(e):
        la = Ctx(e)
        v = la.arbitrary()
        st = la.st
        null = missing is not None
        real = field not in la.ints and field != 'status'
        snap = st.fork()

        def post(e, s, r):
            if null:
                bad = i2z(r) == la.S(missing) if isinstance(missing, str) else la.F.cmp('oeq', r, la.F.const(Fraction(-1), 64)) if real else i2z(r) == -1
                e.oblige(s, bad, 'post', 'a missing context is reported')
                errno_is(la, s, EFAULT)
            else:
                e.oblige(s, la.F.same(r, v[field]) if real else veq(e, r, v[field]), 'post', 'value of the field')
            nothing_changed(la, s, snap)
        return la.fn('%s_get_%s' % (la.pre, fname)), st, [NULL if null else la.c], post
    return make


def restart(null, Ctx=Ctx):
    def make(e):
        la = Ctx(e)
        v = la.arbitrary()
        st = la.st
        snap = st.fork()

        def post(e, s, r):
            if null:
                e.oblige(s, i2z(r) == la.S('BAD_ADDRESS'), 'post', 'a missing context is reported')
                errno_is(la, s, EFAULT)
                nothing_changed(la, s, snap)
                return
            n = la.all(s)
            e.oblige(s, z3.And(i2z(n[la.count]) == 0, i2z(n['status']) == la.S('ITERATE'), i2z(r) == i2z(n['status'])), 'post', 'back to the state of a new context')
            for f in la.kept:
                e.oblige(s, veq(e, n[f], v[f]), 'frame', '%s is kept' % f)
            for i, f in enumerate(la.inv(n)):
                e.oblige(s, f, 'inv', 'context invariant %d' % i)
            nothing_changed(la, s, snap, allow=[la.c])
        return la.fn(la.pre + '_restart'), st, [NULL if null else la.c], post
    return make


def create(e):
    la = Ctx(e)
    F, st, en = la.F, la.st, la.en
    n, npt, maxfun, iprint = la.num('n', 20), la.num('npt'), la.num('maxfun', 60), la.num('iprint', 30)
    rb, re_ = F.fresh('rhobeg', 64), F.fresh('rhoend', 64)
    st.assume(npt <= 2 ** 28)
    for a, b, k in ((n, n, 40), (n, npt, 48), (npt, npt, 56)):      # products of bounded factors are bounded
        st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(e.mul(a, b) >= 0, e.mul(a, b) <= 2 ** k)))
    st.assume(z3.Implies(z3.And(n >= 0, npt >= n), z3.And(e.mul(n, n) <= e.mul(n, npt), e.mul(n, npt) <= e.mul(npt, npt))))
    top = la.half(e.mul(n + 1, n + 2))
    ok = z3.And(n >= 2, npt >= n + 2, npt <= top, la.radii_ok(rb, re_), maxfun >= 1)
    quiet(la, 'print_x', 'print_error')
    snap = st.fork()

    def post(e, s, r):
        l = live_new(s, snap)
        if not isinstance(r, Ptr):
            raise Unsupported('result of newuoa_create')
        if r.r is None:
            no_leak(la, s, snap)
            if e.feasible(s, z3.Not(ok)):
                errno_is(la, s.fork().assume(z3.Not(ok)), EINVAL, 'invalid arguments are reported')
        else:
            e.oblige(s, ok, 'post', 'a context is only created for valid arguments')
            e.oblige(s, len(l) == 1 and l[0] is r.r, 'post', 'one block')
            la.c = r
            v = la.all(s)
            for f, a in (('n', n), ('npt', npt), ('maxfun', maxfun), ('iprint', iprint)):
                e.oblige(s, i2z(v[f]) == a, 'post', '%s as given' % f)
            for f, a in (('rhobeg', rb), ('rhoend', re_)):
                e.oblige(s, F.same(v[f], a), 'post', '%s as given' % f)
            e.oblige(s, z3.And(i2z(v['status']) == en('NEWUOA_ITERATE'), i2z(v['nevals']) == 0), 'post', 'ready for the first call')
            for i, f in enumerate(la.inv(v)):
                e.oblige(s, f, 'inv', 'context invariant %d' % i)
            np_ = n + 1
            ln = dict(xbase=n, xopt=n, xnew=n, xpt=e.mul(n, npt), fval=npt, gq=n, hq=None, pq=npt, bmat=e.mul(npt + n, n), zmat=e.mul(npt, npt - np_), d=n, vlag=npt + n, w=10 * (npt + n))
            hq = e.fresh_int(s, 'hq')
            tri = e.mul(n, n + 1)
            s.assume_all([2 * hq <= tri, tri < 2 * hq + 2])
            ln['hq'] = hq
            size = e.size_of(s, r) if hasattr(e, 'size_of') else r.r.size
            end = la.size
            for f in ARR:
                p = v[f]
                e.oblige(s, isinstance(p, Ptr) and p.r is r.r, 'post', '%s points into the block' % f)
                if not isinstance(p, Ptr) or p.r is not r.r:
                    return
                o = p.o.term()
                e.collect(s, o - end)
                e.oblige(s, o >= end, 'post', '%s does not overlap what precedes it' % f)
                end = o + 8 * ln[f]
            e.collect(s, i2z(size) - end)
            e.oblige(s, end <= i2z(size), 'post', 'the arrays are inside the block')
        nothing_changed(la, s, snap)
    return la.fn('newuoa_create'), st, [n, npt, rb, re_, iprint, maxfun], post


def delete(null, Ctx=Ctx):
    def make(e):
        la = Ctx(e)
        la.arbitrary()
        la.c.r.kind = 'heap'
        st = la.st
        snap = st.fork()

        def post(e, s, r):
            if not null:
                e.oblige(s, s.mem[la.c.r.id].freed, 'post', 'released')
            nothing_changed(la, s, snap, allow=[] if null else [la.c])
        return la.fn(la.pre + '_delete'), st, [NULL if null else la.c], post
    return make


def step(src, name):
    """a function computing a step: its own arrays and tables accessed in bounds, nothing but its arguments written"""
    def make(e):
        la = Dfo(e, src)
        f, st = la.fn(name), la.st
        quiet(la, *[n for n in ('print_x', 'print_error') if n != name])
        args = []
        for t, nm in f.params:
            args.append(la.havoc('arg') if t.k == 'ptr' else la.num('arg', 20) if t.k == 'i' else e.fresh(st, 'arg', t))
        snap = st.fork()

        def post(e, s, r):
            nothing_changed(la, s, snap)
        return f, st, args, post
    return make


def units(tier):
    o = dict(fp='order')
    out = [dict(name='optimize[%s]' % w, desc='evaluations counted and limited, arguments refused before any evaluation, status, only the variables and the work space written', make=optimize(b), opts=o, deadline=450) for w, b in (('no scale', False), ('scales', True))]
    for k in ('first', 'next', 'wrong state', 'no variables', 'no context'):
        out.append(dict(name='iterate[%s]' % k, desc='one call in this state', make=iterate(k), opts=o))
    out.append(dict(name='create', desc='valid arguments only, arrays inside the block', make=create, opts=o))
    for b in (False, True):
        w = '[missing]' if b else ''
        out += [dict(name='restart' + w, desc='state reset', make=restart(b), opts=o), dict(name='delete' + w, desc='released', make=delete(b), opts=o),
                dict(name='status' + w, desc='getter', make=getter('status', 'status', 'BAD_ADDRESS' if b else None), opts=o),
                dict(name='nevals' + w, desc='getter', make=getter('nevals', 'nevals', -1 if b else None), opts=o),
                dict(name='rho' + w, desc='getter', make=getter('rho', 'rho', -1 if b else None), opts=o)]
    out += [dict(name=f, desc='local arrays and tables in bounds, nothing but the arguments written', make=step(SRC, f), opts=o) for f in ('trsapp', 'biglag', 'bigden', 'update')]
    return out
