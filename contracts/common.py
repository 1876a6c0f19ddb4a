"""Shapes of the library's objects, built by symbolically executing the real
constructors of the current source tree, plus shared contract helpers."""
import z3
from opkv.spec import *
from opkv import build, ir

PREC = {'d': ('src/dblvector.c', 'double', 64, ir.DBL, 8), 's': ('src/fltvector.c', 'float', 32, ir.FLT, 4)}


class Env:
    """engine + modules + vector constructors for one precision"""

    def __init__(self, eng, prec='d', mods=()):
        self.e, self.prec = eng, prec
        self.src, self.C, self.w, self.ty, self.esz = PREC[prec]
        self.alg = build.module('src/algebra.c')
        self.vm = build.module(self.src)
        eng.add_module(self.alg)
        eng.add_module(self.vm)
        for m in mods:
            eng.add_module(build.module(m))
        self.F = eng.fp
        self.st = State()

    def enum(self, n):
        for m in self.e.mods:
            if n in m.layout['#enum']:
                return m.layout['#enum'][n]
        return build.macros()[n]

    def off(self, struct, field):
        for m in self.e.mods:
            l = m.layout.get(struct)
            if l and field in l:
                return l[field]
        raise KeyError((struct, field))

    def fn(self, name):
        f = self.e.funcs.get(name)
        if f is None:
            raise Unsupported('function %s not found' % name)
        return f

    def call(self, name, args, keep=None):
        """run a real function in the current state, keep the (single) outcome accepted by keep"""
        outs = self.e.call_fn(self.st, self.fn(name), args)
        outs = [o for o in outs if (keep is None or keep(o))]
        if len(outs) != 1:
            raise Unsupported('%d outcomes of %s in setup' % (len(outs), name))
        self.st = outs[0][0]
        return outs[0][1]

    def notnull(self, o):
        return isinstance(o[1], Ptr) and o[1].r is not None

    def space(self, n=None, name='n', mx=None):
        e = self.e
        if n is None:
            n = e.fresh_int(self.st, name)
            self.st.assume(z3.And(n >= 1, n <= ((2 ** 63 - 1) // self.esz if mx is None else mx)))
        p = self.call('opk_new_simple_%s_vector_space' % self.C, [n], self.notnull)
        p.r.name = 'space_' + name
        return p, n

    def data(self, name, n):
        return self.e.array(self.st, name, self.ty, n)[0]

    def wrap(self, sp, data, name='v', cb=None, cd=None):
        p = self.call('opk_wrap_simple_%s_vector' % self.C, [sp, data, cb or NULL, cd or NULL], self.notnull)
        p.r.name = name
        return p

    def vec(self, sp, n, name):
        d = self.data(name + '_data', n)
        return self.wrap(sp, d, name), d

    def index(self, n, name='k'):
        k = self.e.fresh_int(self.st, name)
        self.st.assume(z3.And(k >= 0, k < n))
        return k

    def at(self, st, d, k):
        return z3.Select(self.e.arr(st, d), k)

    def at0(self, d, k):
        return z3.Select(d.r.init_arrs[0], k)

    def refs(self, st, p):
        return self.e.cell(st, p, self.off('opk_object_', 'references'), ir.I64)


def partitions(names):
    """all set partitions of names, as maps name -> representative"""
    if not names:
        yield {}
        return
    h, t = names[0], names[1:]
    for p in partitions(t):
        q = dict(p)
        q[h] = h
        yield q
        for r in sorted(set(p.values())):
            q = dict(p)
            q[h] = r
            yield q


def frame_unchanged(env, s, snap, objs, what='unchanged'):
    """all cells of the given regions are as they were in snapshot state"""
    e = env.e
    for p in objs:
        r = p.r if isinstance(p, Ptr) else p
        a, b = snap.mem.get(r.id), s.mem.get(r.id)
        if a is b:
            continue
        ok = []
        ca = a.cells if a else {}
        cb = b.cells if b else {}
        for o in set(ca) | set(cb):
            ty = (cb.get(o) or ca.get(o))[2]
            if ty.k in ('void', 'zero4'):
                if ca.get(o) != cb.get(o):
                    ok.append(z3.BoolVal(False))
                continue
            x, y = e.load_cell(snap, r, o, ty), e.load_cell(s, r, o, ty)
            ok.append(veq(e, x, y))
        if b is not None and b.freed != (a.freed if a else False):
            ok.append(z3.BoolVal(False))
        if ok:
            e.oblige(s, z3.And(ok), 'frame', '%s of %s' % (what, r.name))


def veq(e, x, y):
    if isinstance(x, (Ptr, Opq)) or isinstance(y, (Ptr, Opq)):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.r is not y.r:
                return z3.BoolVal(False)
            return x.o.term() == y.o.term()
        if isinstance(x, Opq) and isinstance(y, Opq):
            return z3.And(x.t == y.t, x.o.term() == y.o.term())
        return z3.BoolVal(False)
    if isinstance(x, bool) or isinstance(y, bool):
        return b2z(x) == b2z(y)
    return i2z(x) == i2z(y)


def nothing_changed(env, s, snap, allow=(), what='nothing else is modified'):
    """every object that existed in snap (except allow) is as it was"""
    e = env.e
    ids = {(p.r if isinstance(p, Ptr) else p).id for p in allow}
    er = getattr(e, 'errno_region', None)
    for rid, a in snap.mem.items():
        b = s.mem.get(rid)
        r = Region.reg[rid]
        if a is b or b is None or rid in ids or r is er:
            continue
        frame_unchanged(env, s, snap, [r], what)
        for x, y in zip(a.arrs, b.arrs):
            if x is not y and not x.eq(y):
                k = z3.FreshConst(z3.IntSort(), 'any')
                e.oblige(s, z3.Select(x, k) == z3.Select(y, k), 'frame', '%s (%s)' % (what, r.name))
    for rid, b in s.mem.items():
        r = Region.reg[rid]
        if rid not in snap.mem and r.kind == 'global' and r is not er and (b.cells or b.arrs) and r not in [Region.reg[i] for i in ids]:
            for o, c in b.cells.items():
                if c[2].k == 'zero4':
                    e.oblige(s, False, 'frame', 'global %s unchanged' % r.name)
                elif c[2].k != 'void':
                    e.oblige(s, veq(e, e.load_cell(snap, r, o, c[2]), c[1]), 'frame', 'global %s unchanged' % r.name)


def live_new(s, snap):
    """heap blocks allocated since snap and still live"""
    return [Region.reg[i] for i, b in s.mem.items() if i not in snap.mem and Region.reg[i].kind == 'heap' and not b.freed]


def no_leak(env, s, snap):
    l = live_new(s, snap)
    env.e.oblige(s, not l, 'leak', 'everything allocated on the way is released')


def errno_is(env, s, v, what='errno'):
    e = env.e
    r = getattr(e, 'errno_region', None)
    if r is None:
        e.oblige(s, False, 'post', what)
        return
    e.oblige(s, i2z(e.load_cell(s, r, 0, ir.I32)) == v, 'post', what)


def virtual(env, name, handler):
    """a caller-supplied function known only by its contract"""
    r = Region(name, 'virtual')
    r.handler = handler
    return Ptr(r)


def subsets(l, nonempty=True):
    for b in range(1 if nonempty else 0, 1 << len(l)):
        yield [x for i, x in enumerate(l) if b >> i & 1]


def tick(st, name, what=None):
    c = ticks(st, name)
    st.flags = st.flags | {(name, len(c), what)}


def ticks(st, name):
    return [f for f in st.flags if isinstance(f, tuple) and f[0] == name]


def cells_region(env, name, fields, size=None):
    """caller-made structure: {offset: (type, value)}"""
    r = env.e.new_region(env.st, name, size=size)
    for off, (ty, v) in fields.items():
        env.e.set_cell(env.st, r, off, ty, v)
    return Ptr(r)


EFAULT, EINVAL, ENOMEM = 14, 22, 12
