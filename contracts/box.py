"""Boxes built by the real constructor for every kind of bound."""
from .common import *

KINDS = ['NONE', 'SCALAR_FLOAT', 'SCALAR_DOUBLE', 'STATIC_FLOAT', 'STATIC_DOUBLE', 'VOLATILE_FLOAT', 'VOLATILE_DOUBLE', 'VECTOR']
CORE = ['NONE', 'SCALAR_DOUBLE', 'VECTOR']


def clamp(F, x, lo, hi):
    t = x
    if lo is not None:
        t = z3.If(F.cmp('olt', t, lo), lo, t)
    if hi is not None:
        t = z3.If(z3.And(F.cmp('ogt', x, hi)), hi, t)
    return t


class Box:
    """a box set whose bounds are described at ghost index k by self.lo / self.hi
    (None when unbounded), values as represented in the vector element type"""

    def __init__(self, env, sp, n, lk, uk, k):
        self.env, self.sp, self.n, self.k = env, sp, n, k
        self.keep = []       # caller data that must not change
        e = env.e
        install_import_contract(env, k)
        self.args, vals = [], []
        self.arr = []
        for nm, kind in (('lower', lk), ('upper', uk)):
            t = env.enum('OPK_BOUND_' + kind)
            p, v = self._bound(nm, kind)
            self.args += [t, p]
            vals.append(v)
        self.lo, self.hi = vals
        self.set = env.call('opk_new_boxset', [sp] + self.args, env.notnull)
        self.set.r.name = 'boxset'

    def _bound(self, nm, kind):
        env, e = self.env, self.env.e
        F = env.F
        if kind == 'NONE':
            return NULL, None
        if kind.startswith('SCALAR'):
            w, ty = (32, ir.FLT) if kind.endswith('FLOAT') else (64, ir.DBL)
            c = F.fresh(nm, w)
            r = e.new_region(env.st, nm, size=w // 8)
            e.set_cell(env.st, r, 0, ty, c)
            self.keep.append(('cell', r, 0, ty, c))
            return Ptr(r), conv(F, c, w, env.w)
        if kind == 'VECTOR':
            v, d = env.vec(self.sp, self.n, nm)
            self.keep.append(('arr', d.r))
            self.arr.append(d)
            return v, env.at0(d, self.k)
        w, ty = (32, ir.FLT) if kind.endswith('FLOAT') else (64, ir.DBL)
        a, _ = e.array(env.st, nm, ty, self.n)
        self.keep.append(('arr', a.r))
        return a, conv(F, env.at0(a, self.k), w, env.w)

    def bounds(self):
        return [b for b in (self.lo, self.hi) if b is not None]

    def assume_ordered(self):
        F, st = self.env.F, self.env.st
        for b in self.bounds():
            st.assume(z3.Not(F.nan(b)))
        if self.lo is not None and self.hi is not None:
            st.assume(F.cmp('ole', self.lo, self.hi))

    def inside(self, x):
        F = self.env.F
        c = []
        if self.lo is not None:
            c.append(F.cmp('oge', x, self.lo))
        if self.hi is not None:
            c.append(F.cmp('ole', x, self.hi))
        return z3.And(c) if c else z3.BoolVal(True)

    def unchanged(self, s, snap):
        env, e = self.env, self.env.e
        for q in self.keep:
            if q[0] == 'arr':
                e.oblige(s, z3.Select(e.arr(s, q[1]), self.k) == z3.Select(q[1].init_arrs[0], self.k), 'frame', 'bounds unchanged')
            else:
                e.oblige(s, veq(e, e.load_cell(s, q[1], q[2], q[3]), q[4]), 'frame', 'bounds unchanged')


def conv(F, x, a, b):
    return x if a == b else F.ext(x) if a == 32 else F.trunc(x)


def install_import_contract(env, k):
    """contract of opk_vimport (proved by C01) at ghost index k"""
    e = env.e
    F = env.F
    offd = env.off('simple_vector', 'data')
    oown = env.off('opk_vector_', 'owner')
    osize = env.off('opk_vspace_', 'size')

    def h(e, st, args, ins):
        dst, src, t, n = args
        if not (isinstance(dst, Ptr) and isinstance(src, Ptr)) or dst.r is None or src.r is None:
            raise Unsupported('opk_vimport outside its contract')
        own = e.load_cell(st, dst.r, oown, ir.PTR)
        sz = e.load_cell(st, own.r, osize, ir.I64)
        e.oblige(st, i2z(n) == i2z(sz), 'pre', 'opk_vimport is given the size of the space')
        if not isinstance(t, int):
            raise Unsupported('symbolic type')
        ok = t in (env.enum('OPK_FLOAT'), env.enum('OPK_DOUBLE'))
        sty = ir.FLT if t == env.enum('OPK_FLOAT') else ir.DBL
        e.oblige(st, ok and e.findseg(src.r, src.o)[1] is not None and e.findseg(src.r, src.o)[1].ty.k == sty.k, 'pre', 'element type matches the array')
        d = e.load_cell(st, dst.r, offd, ir.PTR)
        if d.r.kind == 'heap' and not getattr(d.r, 'segs', ()):
            e.add_seg(st, d.r, d.o.c, env.ty)
        e.fix(st, d.r)
        i, s = e.findseg(d.r, d.o)
        lo = d.o.idx(s.base, s.esz)
        e.oblige(st, z3.And(lo == 0, z3.Implies(z3.And(k >= 0, k < sz), k < s.len)), 'bounds', 'destination holds all elements')
        new = z3.FreshConst(e.arr(st, d.r, i).sort(), 'imported')
        x = z3.Select(e.arr(st, src.r), k)
        st.assume(z3.Select(new, k) == conv(F, x, 32 if sty.k == 'float' else 64, env.w))
        e.set_arr(st, d.r, new, i)
        if st.log is not None:
            st.log.setdefault((d.r, 's', i), env.ty)
        return [(st, env.enum('OPK_SUCCESS'))]
    e.contracts['opk_vimport'] = h
