"""Contracts of the dense linear algebra kernels as used by their callers (proved
in C15): operands inside their arrays, only the designated elements of the
destination written, documented values where they are followed.

An arbitrary position of an array is followed by a probe; a written array keeps
its probed positions unless they are designated."""
from .common import *


class Kern:
    def __init__(self, la):
        self.la, self.e = la, la.e
        self.F = la.F
        self.probes = {}
        self.norms = []
        self.coords, self.ld = {}, {}
        la.kern = self
        S = la.F.sort(la.w)
        A = z3.ArraySort(z3.IntSort(), S)
        self.fnrm = z3.Function('nrm2!' + la.prec, A, z3.IntSort(), S)
        self.fdot = z3.Function('dot!' + la.prec, A, A, z3.IntSort(), S)
        self.install()

    def probe(self, p, pos):
        self.probes.setdefault(p.r.id, []).append(pos)

    # -- operands
    def span(self, st, p, n, inc, what):
        """n elements at p, p + inc, ...: inside the array; returns the index of the first one"""
        e = self.e
        if not isinstance(p, Ptr) or p.r is None or not getattr(p.r, 'segs', ()):
            raise Unsupported('operand of %s' % what)
        s = p.r.segs[0]
        i = p.o.idx(s.base, s.esz)
        if i is None:
            raise Unsupported('misaligned operand of %s' % what)
        n, inc = i2z(n), i2z(inc)
        e.oblige(st, z3.Implies(n >= 1, inc >= 1), 'pre', '%s: positive increment' % what)
        last = i + e.mul(n - 1, inc)
        e.collect(st, last)
        if s.len is not None:
            e.collect(st, last - i2z(s.len))
            e.oblige(st, z3.Implies(n >= 1, z3.And(i2z(i) >= 0, last < s.len)), 'bounds', '%s: operand inside %s' % (what, p.r.name))
        return i2z(i)

    def mat(self, st, p, rows, cols, ld, what):
        e = self.e
        if not isinstance(p, Ptr) or p.r is None or not getattr(p.r, 'segs', ()):
            raise Unsupported('operand of %s' % what)
        s = p.r.segs[0]
        i = p.o.idx(s.base, s.esz)
        rows, cols, ld = i2z(rows), i2z(cols), i2z(ld)
        last = i + rows - 1 + e.mul(cols - 1, ld)
        e.collect(st, last)
        e.oblige(st, z3.And(ld >= 1, ld >= rows), 'pre', '%s: leading dimension' % what)
        if s.len is not None:
            e.collect(st, last - i2z(s.len))
            e.oblige(st, z3.Implies(z3.And(rows >= 1, cols >= 1), z3.And(i2z(i) >= 0, last < s.len)), 'bounds', '%s: matrix inside %s' % (what, p.r.name))
        return i2z(i)

    def write(self, st, p, i, n, inc, f=None):
        """the designated elements become f(k) (or anything)"""
        e = self.e
        old = e.arr(st, p)
        new = z3.FreshConst(old.sort(), p.r.name)
        n, inc = i2z(n), i2z(inc)
        if p.r.readonly:
            e.oblige(st, False, 'frame', 'operand not written')
        st.assume(z3.Implies(n <= 0, new == old))
        for q in self.probes.get(p.r.id, []):
            # the element at the position, when there is one: by its index, column or row
            for k in self.hints(p, q, i, n, inc) if f is not None else ():
                at = i + e.mul(k, inc)
                e.collect(st, at - q)
                st.assume(z3.Implies(z3.And(k >= 0, k < n, q == at), self.la.same(z3.Select(new, q), f(k, q))))
            k = e.fresh_int(st, 'el')
            at = i + e.mul(k, inc)
            e.collect(st, at - q)
            st.assume(z3.Or(z3.And(k >= 0, k < n, q == at), z3.Select(new, q) == z3.Select(old, q)))
            if f is not None:
                v = f(k, q)
                st.assume(z3.Implies(z3.And(k >= 0, k < n, q == at), self.la.same(z3.Select(new, q), v)))
        e.set_arr(st, p, new)
        return old, new

    def hints(self, p, q, i, n, inc):
        out = [q - i] if str(inc) == '1' else []
        ld = self.ld.get(p.r.id)
        for f, (I, J) in self.coords.get(p.r.id, []):
            if f is q and ld is not None:
                r0, c0 = self.split(i, ld)
                out += [z3.simplify(J - c0), z3.simplify(I - r0)]
        return out

    def split(self, i, ld):
        """i = row + column * ld"""
        r0, c0 = z3.IntVal(0), z3.IntVal(0)

        def walk(x, c):
            nonlocal r0, c0
            if z3.is_add(x):
                for y in x.children():
                    walk(y, c)
            elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
                walk(x.arg(1), c * x.arg(0).as_long())
            elif x.eq(ld):
                c0 = c0 + c
            elif x.get_id() in self.e.prods and (x.arg(0).eq(ld) or x.arg(1).eq(ld)):
                c0 = c0 + c * (x.arg(1) if x.arg(0).eq(ld) else x.arg(0))
            else:
                r0 = r0 + c * x
        walk(z3.simplify(i2z(i), som=True), 1)
        return r0, c0

    def element(self, st, p, i, k, inc):
        """value of element k of an operand, related to the probes of its array"""
        e = self.e
        at = i + e.mul(k, i2z(inc))
        for q in self.probes.get(p.r.id, []):
            e.collect(st, at - q)
        return z3.Select(e.arr(st, p), at)

    # -- whole vectors
    def norm(self, st, p, i, n):
        t = self.fnrm(e_arr(self.e, st, p), i2z(n)) if self.whole(i) else self.F.fresh('nrm', self.la.w)
        self.nonneg(st, t)
        return t

    def nonneg(self, st, *ts):
        if self.F.name == 'reals':
            for t in ts:
                st.assume(t >= 0)

    def whole(self, i):
        s = z3.simplify(i2z(i))
        return z3.is_int_value(s) and s.as_long() == 0

    def install(self):
        e, F, la = self.e, self.F, self.la
        C = e.contracts
        P = 'opk_' + la.prec

        def copy(e, st, a, ins):
            n, x, ix, y, iy = a
            i, o = self.span(st, x, n, ix, 'copy'), self.span(st, y, n, iy, 'copy')
            src = x
            snap = e.arr(st, x)

            def f(k, q):
                at = i + e.mul(k, i2z(ix))
                for u in self.probes.get(x.r.id, []):
                    e.collect(st, at - u)
                return z3.Select(snap, at)
            old, new = self.write(st, y, o, n, iy, f)
            if self.whole(i) and self.whole(o) and str(ix) == '1' and str(iy) == '1':
                st.assume(self.fnrm(new, i2z(n)) == self.fnrm(snap, i2z(n)))
            return [(st, None)]

        def scal(e, st, a, ins):
            n, al, x, ix = a
            i = self.span(st, x, n, ix, 'scal')
            old, new = self.write(st, x, i, n, ix)
            if self.whole(i) and F.name == 'reals':
                m = self.fnrm(new, i2z(n))
                st.assume(m == F.mul(z3.If(al >= 0, al, -al), self.fnrm(old, i2z(n))))
            return [(st, None)]

        def axpy(e, st, a, ins):
            n, al, x, ix, y, iy = a
            i, o = self.span(st, x, n, ix, 'axpy'), self.span(st, y, n, iy, 'axpy')
            xa = e.arr(st, x)
            old, new = self.write(st, y, o, n, iy)
            if self.whole(i) and self.whole(o) and F.name == 'reals':
                n = i2z(n)
                m, nx, ny, d = self.fnrm(new, n), self.fnrm(xa, n), self.fnrm(old, n), self.dotf(st, xa, old, n)
                self.nonneg(st, m, nx, ny)
                self.steps = getattr(self, 'steps', []) + [(m, nx, ny, d, al)]
            return [(st, None)]

        def dot(e, st, a, ins):
            n, x, ix, y, iy = a
            i, o = self.span(st, x, n, ix, 'dot'), self.span(st, y, n, iy, 'dot')
            if self.whole(i) and self.whole(o):
                return [(st, self.dotf(st, e.arr(st, x), e.arr(st, y), i2z(n)))]
            return [(st, F.fresh('dot', la.w))]

        def asum(e, st, a, ins):
            n, x, ix = a
            self.span(st, x, n, ix, 'asum')
            t = F.fresh('asum', la.w)
            self.nonneg(st, t)
            return [(st, t)]

        def nrm2(e, st, a, ins):
            n, x, ix = a
            i = self.span(st, x, n, ix, 'nrm2')
            return [(st, self.norm(st, x, i, n))]

        def gemv(e, st, a, ins):
            t, m, n, al, A, lda, x, ix, be, y, iy = a
            no, tr = la.enum('OPK_BLAS_NO_TRANS'), la.enum('OPK_BLAS_TRANS')
            t = z3.simplify(i2z(t))
            m, n = i2z(m), i2z(n)
            e.oblige(st, z3.And(m >= 0, n >= 0), 'pre', 'gemv: sizes')
            lx, ly = z3.simplify(z3.If(t == no, n, m)), z3.simplify(z3.If(t == no, m, n))
            s2 = st
            g = z3.And(m >= 1, n >= 1)
            w = lambda c: z3.simplify(z3.If(g, c, 0))
            self.mat(st, A, m, n, lda, 'gemv')
            self.span(st, x, w(lx), ix, 'gemv')
            o = self.span(st, y, w(ly), iy, 'gemv')
            self.write(st, y, o, w(ly), iy)
            return [(st, 0)]

        def trsv(e, st, a, ins):
            u, t, d, n, A, lda, x, ix = a
            n = i2z(n)
            e.oblige(st, n >= 0, 'pre', 'trsv: size')
            self.mat(st, A, n, n, lda, 'trsv')
            o = self.span(st, x, n, ix, 'trsv')
            self.write(st, x, o, n, ix)
            return [(st, 0)]

        def potf2(e, st, a, ins):
            u, n, A, lda = a
            n, lda = i2z(n), i2z(lda)
            e.oblige(st, n >= 0, 'pre', 'potf2: size')
            up, lo = la.enum('OPK_BLAS_UPPER'), la.enum('OPK_BLAS_LOWER')
            e.oblige(st, z3.Or(i2z(u) == up, i2z(u) == lo), 'pre', 'potf2: triangle')
            i = self.mat(st, A, n, n, lda, 'potf2')
            if not self.whole(i):
                raise Unsupported('potf2 of a part of a matrix')
            old = e.arr(st, A)
            new = z3.FreshConst(old.sort(), A.r.name)
            for q, (I, J) in self.coords.get(A.r.id, []):
                tri = z3.And(I < n, J < n, z3.If(i2z(u) == up, I <= J, I >= J))
                st.assume(z3.Or(tri, z3.Select(new, q) == z3.Select(old, q)))
            e.set_arr(st, A, new)
            r = e.fresh_int(st, 'indef')
            st.assume(z3.And(r >= 0, r <= n))
            return [(st, r)]
        for nm, h in dict(copy=copy, scal=scal, axpy=axpy, dot=dot, asum=asum, nrm2=nrm2, gemv=gemv, trsv=trsv, potf2=potf2).items():
            C[P + nm] = h

    def dotf(self, st, x, y, n):
        t = self.fdot(x, y, n)
        st.assume(t == self.fdot(y, x, n))
        return t


def e_arr(e, st, p):
    return e.arr(st, p)
