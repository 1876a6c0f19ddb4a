"""Contracts of the vector, box and line search operations as seen by the
optimizers.

Every vector is an opaque object; the ghost map V gives the version of its
contents.  elem(version) is the element at one arbitrary but fixed index, so
what is proved about it holds for every element; inner products and norms are
functions of the versions of their operands.  These are the contracts that
C01 (formulas), C04 (projection), C05 (blocking), C06 (step limits) and C07
(line searches) prove of the real functions."""
from .common import *

I = z3.IntSort()


class Vecs:
    def __init__(self, e, st, F):
        self.e, self.F = e, F
        FS = F.sort(64)
        self.elem = z3.Function('elem', I, FS)
        self.fdot = z3.Function('dot', I, I, FS)
        self.fdot3 = z3.Function('dot3', I, I, I, FS)
        self.fnorm = {n: z3.Function(n, I, FS) for n in ('norm1', 'norm2', 'norminf')}
        self.fprod = z3.Function('product', I, I, I)
        self.fmask = z3.Function('freemask', I, I, I, I)  # version of the mask of (x, d, orientation)
        self.fpdir = z3.Function('projdir', I, I, I, I)
        self.lo, self.hi = F.fresh('lower', 64), F.fresh('upper', 64)
        st.assume(z3.And(z3.Not(F.nan(self.lo)), z3.Not(F.nan(self.hi)), F.cmp('ole', self.lo, self.hi)))
        st.g['V'] = z3.FreshConst(z3.ArraySort(I, I), 'V')
        self.ids = {}
        self.watch = []
        self.probes = []         # versions with which inner products are bilinear (mathematical arithmetic only)
        self.const0 = F.const(Fraction(0), 64)
        self.one = F.const(Fraction(1), 64)
        self.install()

    # -- objects
    def obj(self, st, name):
        """a live object distinct from every other one"""
        t = z3.Int('id!' + name)
        st.assume(t >= 1)
        for u in self.ids.values():
            st.assume(t != u)
        self.ids[name] = t
        return Opq(t)

    def id(self, p):
        return self.e.ptr_id(p)

    def ver(self, st, p):
        return z3.Select(st.g['V'], self.id(p))

    def el(self, st, p):
        return self.elem(self.ver(st, p))

    def put(self, st, p, v):
        st.g['V'] = z3.Store(st.g['V'], self.id(p), v)

    def write(self, st, p, val):
        n = z3.FreshConst(I, 'ver')
        if val is not None:
            st.assume(self.elem(n) == val)
        self.put(st, p, n)
        return n

    def need(self, st, *ps):
        for p in ps:
            if isinstance(p, Opq):
                self.e.oblige(st, p.t != 0, 'pre', 'vector operand exists')
            elif isinstance(p, Ptr) and p.r is None:
                self.e.oblige(st, False, 'pre', 'vector operand exists')

    # -- values
    def axpby(self, a, x, b, y):
        """documented value of a x + b y (a null coefficient suppresses its term), as proved by C01 in double precision"""
        F = self.F
        if F.name == 'reals':
            return a * x + b * y

        def term(c, v):
            cv = F.cval(c)
            return v if cv == 1 else F.neg(v) if cv == -1 else F.mul(c, v)

        def z(c):
            return F.cmp('oeq', c, self.const0)
        ta, tb = term(a, x), term(b, y)
        s = F.add(ta, tb) if F.cval(b) != -1 else F.sub(ta, y)
        return z3.If(z(a), z3.If(z(b), self.const0, tb), z3.If(z(b), ta, s))

    def clampf(self, x):
        F = self.F
        return z3.If(F.cmp('olt', x, self.lo), self.lo, z3.If(F.cmp('ogt', x, self.hi), self.hi, x))

    def feasible(self, x):
        F = self.F
        return z3.And(F.cmp('oge', x, self.lo), F.cmp('ole', x, self.hi))

    def dot(self, st, x, y):
        a, b = self.ver(st, x), self.ver(st, y)
        t = self.fdot(a, b)
        st.assume(t == self.fdot(b, a))
        return t

    def dot3(self, st, w, x, y):
        a, b, c = self.ver(st, w), self.ver(st, x), self.ver(st, y)
        f = self.fdot3
        t = f(a, b, c)
        st.assume(z3.And(t == f(a, c, b), t == f(b, a, c), t == f(b, c, a), t == f(c, a, b), t == f(c, b, a)))
        return t

    def norm(self, st, x, n='norm2'):
        F = self.F
        t = self.fnorm[n](self.ver(st, x))
        st.assume(z3.Or(F.nan(t), F.cmp('oge', t, self.const0)))
        if F.name == 'reals' and n == 'norm2':
            v = self.ver(st, x)
            st.assume(t * t == self.fdot(v, v))
        return t

    # -- contracts
    def install(self):
        e, F = self.e, self.F
        C = e.contracts

        def vaxpby(e, st, a, ins):
            dst, al, x, be, y = a
            self.need(st, dst, x, y)
            vx, vy = self.ver(st, x), self.ver(st, y)
            n = self.write(st, dst, self.axpby(al, self.el(st, x), be, self.el(st, y)))
            for p in self.probes:
                st.assume(self.fdot(n, p) == al * self.fdot(vx, p) + be * self.fdot(vy, p))
            return [(st, None)]

        def vaxpbypcz(e, st, a, ins):
            dst, al, x, be, y, ga, z = a
            self.need(st, dst, x, y, z)
            vx, vy, vz = self.ver(st, x), self.ver(st, y), self.ver(st, z)
            n = self.write(st, dst, self.axpby3(al, self.el(st, x), be, self.el(st, y), ga, self.el(st, z)))
            for p in self.probes:
                st.assume(self.fdot(n, p) == al * self.fdot(vx, p) + be * self.fdot(vy, p) + ga * self.fdot(vz, p))
            return [(st, None)]

        def vcopy(e, st, a, ins):
            self.need(st, a[0], a[1])
            self.put(st, a[0], self.ver(st, a[1]))
            return [(st, None)]

        def vscale(e, st, a, ins):
            self.need(st, a[0], a[2])
            x = self.el(st, a[2])
            al = a[1]
            v = z3.If(F.cmp('oeq', al, self.const0), self.const0, z3.If(F.cmp('oeq', al, self.one), x, F.mul(al, x)))
            self.write(st, a[0], v)
            return [(st, None)]

        def vproduct(e, st, a, ins):
            self.need(st, *a)
            x, y = self.el(st, a[1]), self.el(st, a[2])
            v1, v2 = self.ver(st, a[1]), self.ver(st, a[2])
            n = self.fprod(v1, v2)
            st.assume(n == self.fprod(v2, v1))
            st.assume(self.elem(n) == F.mul(x, y))
            self.put(st, a[0], n)
            return [(st, None)]

        def vfill(e, st, a, ins):
            self.need(st, a[0])
            self.write(st, a[0], a[1] if len(a) > 1 else self.const0)
            return [(st, None)]

        def vswap(e, st, a, ins):
            self.need(st, *a)
            x, y = self.ver(st, a[0]), self.ver(st, a[1])
            self.put(st, a[0], y)
            self.put(st, a[1], x)
            return [(st, None)]

        def vdot(e, st, a, ins):
            self.need(st, *a)
            return [(st, self.dot(st, *a))]

        def vdot3(e, st, a, ins):
            self.need(st, *a)
            return [(st, self.dot3(st, *a))]

        def norm(n):
            def h(e, st, a, ins):
                self.need(st, *a)
                return [(st, self.norm(st, a[0], n))]
            return h
        for n, h in dict(opk_vaxpby=vaxpby, opk_vaxpbypcz=vaxpbypcz, opk_vcopy=vcopy, opk_vscale=vscale, opk_vproduct=vproduct, opk_vfill=vfill, opk_vzero=vfill,
                         opk_vswap=vswap, opk_vdot=vdot, opk_vdot3=vdot3, opk_vnorm1=norm('norm1'), opk_vnorm2=norm('norm2'), opk_vnorminf=norm('norminf')).items():
            C[n] = h

        # box operations: succeed, or fail (a caller-made convex set may not implement them) leaving everything as it was
        OK = 0

        def failed(st, tag):
            t = st.fork()
            c = e.fresh_int(t, 'status', 32)
            t.assume(c != OK)
            t.g['boxstatus'] = c
            t.flags = t.flags | {('boxfail', tag)}
            return (t, c)

        def project_variables(e, st, a, ins):
            dst, x, box = a
            self.need(st, dst, x, box)
            bad = failed(st, 'variables')
            n = z3.FreshConst(I, 'ver')
            X = self.el(st, x)
            E = self.elem(n)
            # C04: exact clamp; a component that is not a number stays so or becomes feasible
            st.assume(z3.If(F.nan(X), z3.Or(F.nan(E), self.feasible(E)), z3.And(self.feasible(E), F.cmp('oeq', E, self.clampf(X)), z3.Implies(self.feasible(X), F.cmp('oeq', E, X)))))
            self.put(st, dst, n)
            return [(st, OK), bad]

        def project_direction(e, st, a, ins):
            dst, x, box, d, orient = a
            self.need(st, dst, x, box, d)
            bad = failed(st, 'direction')
            n = self.fpdir(self.ver(st, x), self.ver(st, d), i2z(orient))
            D, E = self.el(st, d), self.elem(n)
            st.assume(z3.Or(E == D, E == self.const0, z3.And(F.nan(D), F.nan(E))))
            self.put(st, dst, n)
            return [(st, OK), bad]

        def free_variables(e, st, a, ins):
            dst, x, box, d, orient = a
            self.need(st, dst, x, box, d)
            bad = failed(st, 'free')
            n = self.fmask(self.ver(st, x), self.ver(st, d), i2z(orient))
            E = self.elem(n)
            st.assume(z3.Or(E == self.one, E == self.const0))
            self.put(st, dst, n)
            return [(st, OK), bad]

        def step_limits(e, st, a, ins):
            p1, p2, p3, x, box, d, orient = a
            self.need(st, x, box, d)
            bad = failed(st, 'limits')
            t = bad[0]
            k = (self.ver(st, x), self.ver(st, d), i2z(orient))
            vals = [z3.Function('steplim%d' % i, I, I, I, F.sort(64))(*k) for i in (1, 2, 3)]
            for v in vals:
                st.assume(z3.Not(F.nan(v)))
            st.assume(z3.And(F.cmp('ole', self.const0, vals[0]), F.cmp('ole', vals[0], vals[1])))
            for p, v in zip((p1, p2, p3), vals):
                if isinstance(p, Ptr) and p.r is not None:
                    e.store(st, p, ir.DBL, v)
                    e.store(t, p, ir.DBL, F.fresh('undefined', 64))
            return [(st, OK), bad]
        C['opk_project_variables'] = project_variables
        C['opk_project_direction'] = project_direction
        C['opk_get_free_variables'] = free_variables
        C['opk_get_step_limits'] = step_limits

        # line search: C07 proves the step interval and the acceptance tests; here any outcome is possible
        def ls_start(e, st, a, ins):
            ls, f0, g0, stp, smin, smax = a
            self.need(st, ls)
            t = e.fresh_int(st, 'lstask', 32)
            st.g['ls_start'] = (ls, f0, g0, stp, smin, smax)
            st.g['ls_task'] = t
            st.g['ls_status'] = e.fresh_int(st, 'lsstatus', 32)
            tick(st, 'ls_start')
            return [(st, t)]

        def ls_iterate(e, st, a, ins):
            ls, p, f, g = a
            self.need(st, ls)
            t = e.fresh_int(st, 'lstask', 32)
            st.g['ls_iter'] = (ls, e.load(st, p, ir.DBL), f, g)
            v = F.fresh('stp', 64)
            e.store(st, p, ir.DBL, v)
            st.g['ls_step'] = v
            st.g['ls_task'] = t
            st.g['ls_status'] = e.fresh_int(st, 'lsstatus', 32)
            tick(st, 'ls_iterate')
            return [(st, t)]

        def ls_status(e, st, a, ins):
            self.need(st, a[0])
            return [(st, st.g['ls_status'])]

        def ls_task(e, st, a, ins):
            self.need(st, a[0])
            return [(st, st.g['ls_task'])]

        def use_deriv(e, st, a, ins):
            self.need(st, a[0])
            return [(st, z3.If(z3.Bool('ls_uses_derivative'), z3.IntVal(1), z3.IntVal(0)))]
        C['opk_lnsrch_start'] = ls_start
        C['opk_lnsrch_iterate'] = ls_iterate
        C['opk_lnsrch_get_status'] = ls_status
        C['opk_lnsrch_get_task'] = ls_task
        C['opk_lnsrch_use_deriv'] = use_deriv
        self.e.cand_gens.append(self.candidates)

    def axpby3(self, a, x, b, y, c, z):
        F = self.F
        if F.name == 'reals':
            return a * x + b * y + c * z
        n = lambda q: F.cmp('oeq', q, self.const0)
        t = lambda q, v: v if F.cval(q) == 1 else F.neg(v) if F.cval(q) == -1 else F.mul(q, v)
        yz = self.axpby(b, y, c, z)
        xy = self.axpby(a, x, b, y)
        return z3.If(n(a), yz, z3.If(n(c), xy, z3.If(n(b), self.axpby(a, x, c, z), F.add(F.add(t(a, x), t(b, y)), t(c, z)))))

    def candidates(self, L, probe, mod):
        out = []
        if 'V' in [k[1] for k in mod if k[0] == 'ghost']:
            V0 = L.st0.g['V']
            for w in list(self.ids.items()) + self.watch:
                nm, t = w[0], w[1]
                gd = w[2] if len(w) > 2 else z3.BoolVal(True)
                out.append(('contents of %s unchanged' % nm, lambda v, t=t, gd=gd: z3.Implies(gd, z3.Select(v.st.g['V'], t) == z3.Select(V0, t))))
        return out
