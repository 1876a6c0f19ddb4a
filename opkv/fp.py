"""Floating point as an axiomatised sort.

ORD domain: doubles/floats are elements of uninterpreted sorts F64/F32 with
  key : F -> Real   (the value; +-inf have key +-2^1024 resp. +-2^128)
  nan : F -> Bool
Comparisons are exact IEEE-754 comparisons expressed on key/nan.  Arithmetic
operations are uninterpreted functions constrained by axioms that are true of
IEEE-754 round-to-nearest (commutativity, sign rules, NaN propagation,
monotonicity of rounding with respect to representable values).  Equality of
terms is therefore equality of results, operation by operation: nothing is
approximated by real arithmetic unless domain R is selected.

REAL domain: doubles are mathematical reals (machine arithmetic treated as
mathematical; no NaN, no infinities except named constants).
"""
import z3
from fractions import Fraction
from functools import lru_cache

INF = {64: Fraction(2) ** 1024, 32: Fraction(2) ** 128}
INT_EXACT = {64: 2 ** 53, 32: 2 ** 24}


def rv(fr):
    fr = Fraction(fr)
    return z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))


class Ord:
    name = 'IEEE-axioms'

    def __init__(self):
        self.S = {64: z3.DeclareSort('F64'), 32: z3.DeclareSort('F32')}
        R, B, I = z3.RealSort(), z3.BoolSort(), z3.IntSort()
        self._key = {w: z3.Function('key%d' % w, self.S[w], R) for w in (64, 32)}
        self._nan = {w: z3.Function('nan%d' % w, self.S[w], B) for w in (64, 32)}
        self.f = {}
        self.prodf = z3.Function('prod!', I, I, I)
        for w in (64, 32):
            s = self.S[w]
            for n in ('fadd', 'fmul', 'fdiv', 'frem', 'fpow', 'fhypot', 'fatan2', 'fmod'):
                self.f[n, w] = z3.Function('%s%d' % (n, w), s, s, s)
            for n in ('fneg', 'fabs', 'fsqrt', 'fcos', 'fsin', 'facos', 'fexp', 'flog', 'ftan', 'ffloor', 'fceil', 'flog10', 'fatan'):
                self.f[n, w] = z3.Function('%s%d' % (n, w), s, s)
            self.f['itof', w] = z3.Function('itof%d' % w, I, s)
            self.f['ftoi', w] = z3.Function('ftoi%d' % w, s, I)
        self.f['ext', 64] = z3.Function('fpext', self.S[32], self.S[64])
        self.f['trunc', 32] = z3.Function('fptrunc', self.S[64], self.S[32])
        self.consts = {}
        self._ax = {}
        self._terms = {}
        self._subs = {}
        self._raw = None
        self.keep = []

    # -- basics
    def sort(self, w):
        return self.S[w]

    def w(self, t):
        s = t.sort()
        return 64 if s == self.S[64] else 32

    def is_fp(self, t):
        return z3.is_expr(t) and (t.sort() == self.S[64] or t.sort() == self.S[32])

    def const(self, v, w):
        k = (str(v), w)
        if k not in self.consts:
            self.consts[k] = z3.Const('c%d!%s' % (w, v), self.S[w])
        return self.consts[k]

    def cval(self, t):
        """rational value if t is a constant (finite), else None"""
        if z3.is_const(t):
            n = t.decl().name()
            if n.startswith('c64!') or n.startswith('c32!'):
                n = n[4:]
                if n in ('nan', 'inf', '-inf'):
                    return None
                return Fraction(0) if n == '-0' else Fraction(n)
        return None

    def fresh(self, name, w):
        return z3.FreshConst(self.S[w], name)

    def key(self, t):
        c = self.cval(t)
        if c is not None:
            return rv(c)
        return self._key[self.w(t)](t)

    def nan(self, t):
        if self.cval(t) is not None:
            return z3.BoolVal(False)
        return self._nan[self.w(t)](t)

    def fin(self, t):
        """finite"""
        w = self.w(t)
        if self.cval(t) is not None:
            return z3.BoolVal(True)
        I = rv(INF[w])
        k = self.key(t)
        return z3.And(z3.Not(self.nan(t)), k < I, -I < k)

    def same(self, a, b):
        """same value (bitwise, or both NaN)"""
        if a.eq(b):
            return z3.BoolVal(True)
        return z3.Or(a == b, z3.And(self.nan(a), self.nan(b)))

    # -- comparisons
    def cmp(self, pred, a, b):
        ka, kb = self.key(a), self.key(b)
        un = z3.Or(self.nan(a), self.nan(b))
        if a.eq(b):
            base = {'eq': True, 'ge': True, 'le': True, 'gt': False, 'lt': False, 'ne': False}
            if pred in ('ord', 'uno'):
                return z3.Not(self.nan(a)) if pred == 'ord' else self.nan(a)
            r = base[pred[1:]]
            if pred[0] == 'o':
                return z3.Not(self.nan(a)) if r else z3.BoolVal(False)
            return z3.BoolVal(True) if r else self.nan(a)
        c = {'eq': lambda: ka == kb, 'gt': lambda: ka > kb, 'ge': lambda: ka >= kb, 'lt': lambda: ka < kb,
             'le': lambda: ka <= kb, 'ne': lambda: ka != kb}
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        if pred == 'true':
            return z3.BoolVal(True)
        if pred == 'false':
            return z3.BoolVal(False)
        r = c[pred[1:]]()
        return z3.And(z3.Not(un), r) if pred[0] == 'o' else z3.Or(un, r)

    # -- arithmetic (exact rewrites only)
    def isneg(self, t):
        return z3.is_app(t) and t.decl().name() in ('fneg64', 'fneg32')

    def neg(self, a):
        if self.isneg(a):
            return a.arg(0)
        c = self.cval(a)
        w = self.w(a)
        if c is not None and c != 0:
            return self.const(-c, w)
        if c is not None:
            return self.const('-0' if a.decl().name()[4:] != '-0' else Fraction(0), w)
        return self.f['fneg', w](a)

    def add(self, a, b):
        w = self.w(a)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and cb is not None and w == 64 and ca != 0 and cb != 0:
            r = Fraction(float(ca) + float(cb))
            if r != 0:
                return self.const(r, w)
        a, b = self.ordered(a, b)
        return self.f['fadd', w](a, b)

    def ordered(self, a, b):
        """operands of a commutative operation in a canonical order"""
        return (b, a) if a.get_id() > b.get_id() else (a, b)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        w = self.w(a)
        na = self.isneg(a)
        if na:
            a = a.arg(0)
        nb = self.isneg(b)
        if nb:
            b = b.arg(0)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and ca < 0:
            a, ca, na = self.const(-ca, w), -ca, not na
        if cb is not None and cb < 0:
            b, cb, nb = self.const(-cb, w), -cb, not nb
        if ca is not None and cb is not None and w == 64 and ca != 0 and cb != 0:
            r = self.const(Fraction(float(ca) * float(cb)), w)
        elif ca == 1:
            r = b
        elif cb == 1:
            r = a
        else:
            a, b = self.ordered(a, b)
            r = self.f['fmul', w](a, b)
        return self.neg(r) if na != nb else r

    def div(self, a, b):
        w = self.w(a)
        na = self.isneg(a)
        if na:
            a = a.arg(0)
        nb = self.isneg(b)
        if nb:
            b = b.arg(0)
        ca, cb = self.cval(a), self.cval(b)
        if ca is not None and ca < 0:
            a, ca, na = self.const(-ca, w), -ca, not na
        if cb is not None and cb < 0:
            b, cb, nb = self.const(-cb, w), -cb, not nb
        if ca is not None and cb is not None and w == 64 and ca != 0 and cb != 0:
            r = self.const(Fraction(float(ca) / float(cb)), w)
        elif cb == 1:
            r = a
        elif cb is not None and cb != 0 and cb.numerator & (cb.numerator - 1) == 0 and cb.denominator & (cb.denominator - 1) == 0 and w == 64 and Fraction(1, 2**500) < cb < 2**500:
            r = self.mul(a, self.const(1 / cb, w))  # division by a power of two is multiplication by its (exact) inverse
        else:
            r = self.f['fdiv', w](a, b)
        return self.neg(r) if na != nb else r

    def fun1(self, n, a):
        w = self.w(a)
        if n == 'fabs':
            if self.isneg(a):
                a = a.arg(0)
            c = self.cval(a)
            if c is not None:
                return self.const(abs(c), w)
            if z3.is_app(a) and a.decl().name() in ('fabs64', 'fabs32'):
                return a
        if n == 'fsqrt' and w == 64:
            c = self.cval(a)
            if c is not None and c > 0:
                from math import isqrt
                r = Fraction(isqrt(c.numerator), isqrt(c.denominator))
                if r * r == c:      # exact square root
                    return self.const(r, w)
        return self.f[n, w](a)

    def fun2(self, n, a, b):
        return self.f[n, self.w(a)](a, b)

    def itof(self, i, w):
        if isinstance(i, int):
            return self.const(Fraction(i), w) if abs(i) <= INT_EXACT[w] else self.const(Fraction(float(i)), w)
        if z3.is_int_value(i):
            return self.itof(i.as_long(), w)
        if z3.is_app_of(i, z3.Z3_OP_ITE):
            return z3.If(i.arg(0), self.itof(i.arg(1), w), self.itof(i.arg(2), w))
        return self.f['itof', w](i)

    def ftoi(self, a):
        return self.f['ftoi', self.w(a)](a)

    def ext(self, a):
        c = self.cval(a)
        if c is not None:
            return self.const(a.decl().name()[4:], 64)
        if z3.is_app(a) and a.decl().name() == 'c32!inf':
            return self.const('inf', 64)
        return self.f['ext', 64](a)

    def trunc(self, a):
        c = self.cval(a)
        if c is not None:
            import struct
            if c == 0:
                return self.const(a.decl().name()[4:], 32)
            try:
                r = Fraction(struct.unpack('f', struct.pack('f', float(c)))[0])
                if r != 0:
                    return self.const(r, 32)
            except OverflowError:
                pass
        if z3.is_app(a) and a.decl().name() == 'fpext':
            return a.arg(0)
        return self.f['trunc', 32](a)

    # -- axioms -------------------------------------------------------------
    def subterms(self, e):
        """fp subterms of expression e (cached)"""
        i = e.get_id()
        r = self._subs.get(i)
        if r is not None:
            return r
        out = {}
        c = e.ctx.ref()
        if not self._raw:
            self._raw = (self.S[32].ast.value, self.S[64].ast.value)
        f32, f64 = self._raw
        gid, gsort, nargs, garg, kind = [x.__defaults__[0].f for x in (z3.z3core.Z3_get_ast_id, z3.z3core.Z3_get_sort, z3.z3core.Z3_get_app_num_args, z3.z3core.Z3_get_app_arg, z3.z3core.Z3_get_ast_kind)]
        st = [e.as_ast()]
        seen = set()
        while st:
            x = st.pop()
            j = gid(c, x)
            if j in seen:
                continue
            seen.add(j)
            if j in self._subs and j != i:
                out.update(self._subs[j])
                continue
            if kind(c, x) in (z3.Z3_APP_AST, z3.Z3_NUMERAL_AST):
                s = gsort(c, x).value
                n = nargs(c, x)
                if s == f64 or s == f32:
                    out[j] = z3.z3._to_expr_ref(x, e.ctx)
                elif n == 1 or n == 2:
                    u = z3.z3._to_expr_ref(x, e.ctx)
                    if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() in ('ftoi64', 'ftoi32', 'prod!'):
                        out[j] = u
                for q in range(n):
                    st.append(garg(c, x, q))
        self._subs[i] = out
        self.keep.append(e)
        return out

    def axioms(self, t):
        i = t.get_id()
        r = self._ax.get(i)
        if r is None:
            r = self._axioms(t)
            self._ax[i] = r
            self.keep.append(t)
        return r

    def rnd(self, c, s, ds):
        """c is the correctly rounded value of real s; ds representable terms"""
        kc = self.key(c)
        out = []
        for d in ds:
            kd = self.key(d) if self.is_fp(d) else d
            out.append(z3.And(z3.Implies(s <= kd, kc <= kd), z3.Implies(s >= kd, kc >= kd)))
        return z3.And(*out) if out else z3.BoolVal(True)

    def _axioms(self, t):
        nm = t.decl().name()
        if nm in ('ftoi64', 'ftoi32'):
            a = t.arg(0)
            k = self.key(a)
            r = z3.ToReal(t)
            return [z3.Implies(self.fin(a), z3.And(z3.Implies(k >= 0, z3.And(r <= k, k < r + 1, r >= 0)),
                                                    z3.Implies(k <= 0, z3.And(r >= k, k > r - 1, r <= 0))))]
        w = self.w(t)
        I = rv(INF[w])
        k, n = self.key(t), self.nan(t)
        out = []
        z = rv(0)
        A = z3.And
        Im = z3.Implies
        No = z3.Not
        if z3.is_const(t) and nm.startswith('c%d!' % w):
            v = nm[4:]
            kk, nn = self._key[w](t), self._nan[w](t)
            if v == 'nan':
                return [nn]
            val = INF[w] if v == 'inf' else -INF[w] if v == '-inf' else Fraction(0) if v == '-0' else Fraction(v)
            return [No(nn), kk == rv(val)]
        out.append(z3.Or(n, A(k <= I, k >= -I)))
        base = nm.rstrip('0123456789') if not nm.startswith('c') else nm
        if base == 'fneg':
            a = t.arg(0)
            out += [n == self.nan(a), k == -self.key(a)]
        elif base == 'fabs':
            a = t.arg(0)
            ka = self.key(a)
            out += [n == self.nan(a), k == z3.If(ka >= 0, ka, -ka), Im(A(No(n), ka > 0), t == a)]
            if self.cval(a) is None:
                out.append(Im(A(No(n), ka < 0), t == self.f['fneg', w](a)))
        elif base == 'fsqrt':
            a = t.arg(0)
            ka = self.key(a)
            out += [n == z3.Or(self.nan(a), ka < 0), Im(No(n), A(k >= 0, (k == 0) == (ka == 0),
                     Im(ka >= 1, A(k >= 1, k <= ka)), Im(A(ka <= 1), A(k <= 1, k >= ka)), Im(ka < I, k < I), Im(ka == I, k == I)))]
        elif base == 'fadd':
            a, b = t.arg(0), t.arg(1)
            ka, kb = self.key(a), self.key(b)
            fa, fb = self.fin(a), self.fin(b)
            s = ka + kb
            out.append(Im(z3.Or(self.nan(a), self.nan(b)), n))
            out.append(Im(A(fa, fb), A(No(n), self.rnd(t, s, [a, b]),
                                       (s > 0) == (k > 0), (s < 0) == (k < 0))))
            out.append(Im(A(No(self.nan(a)), No(self.nan(b)), No(A(fa, fb))),
                          z3.If(A(No(fa), No(fb), ka != kb), n, A(No(n), z3.If(fa, k == kb, k == ka)))))
            out.append(t == self.f['fadd', w](b, a))
            # convex combination: fl(fl(c*fl(y-v)) + v) with 0 < c <= 1/2 lies between v and y (no overflow of y-v)
            for m, v in ((a, b), (b, a)):
                if z3.is_app(m) and m.decl().name() == 'fmul%d' % w:
                    for c0, d in ((m.arg(0), m.arg(1)), (m.arg(1), m.arg(0))):
                        c = self.cval(c0)
                        if c is not None and 0 < c <= Fraction(1, 2) and z3.is_app(d) and d.decl().name() == 'fadd%d' % w:
                            for y, nv in ((d.arg(0), d.arg(1)), (d.arg(1), d.arg(0))):
                                if (self.isneg(nv) and nv.arg(0).eq(v)) or (self.isneg(v) and v.arg(0).eq(nv)):
                                    ky, kv = self.key(y), self.key(v)
                                    out.append(Im(A(self.fin(y), self.fin(v), self.fin(d)), A(No(n), Im(ky >= kv, A(k >= kv, k <= ky)), Im(ky <= kv, A(k <= kv, k >= ky)))))
            # doubling is exact up to overflow
            out.append(Im(A(fb, ka == 0, kb != 0), t == b))
            out.append(Im(A(fa, kb == 0, ka != 0), t == a))
        elif base == 'fmul':
            a, b = t.arg(0), t.arg(1)
            ka, kb = self.key(a), self.key(b)
            fa, fb = self.fin(a), self.fin(b)
            nn = A(No(self.nan(a)), No(self.nan(b)))
            out.append(Im(No(nn), n))
            out.append(Im(A(fa, fb), No(n)))
            out.append(Im(A(nn, No(n)), A(Im(A(ka >= 0, kb >= 0), k >= 0), Im(A(ka <= 0, kb <= 0), k >= 0),
                                           Im(A(ka >= 0, kb <= 0), k <= 0), Im(A(ka <= 0, kb >= 0), k <= 0))))
            out.append(Im(A(fa, fb), A(Im(z3.Or(ka == 0, kb == 0), k == 0),
                                       Im(A(kb <= 1, kb >= -1), A(k <= z3.If(ka >= 0, ka, -ka), k >= -z3.If(ka >= 0, ka, -ka))),
                                       Im(A(ka <= 1, ka >= -1), A(k <= z3.If(kb >= 0, kb, -kb), k >= -z3.If(kb >= 0, kb, -kb))),
                                       Im(A(kb >= 1, ka >= 0), k >= ka), Im(A(kb >= 1, ka <= 0), k <= ka),
                                       Im(A(ka >= 1, kb >= 0), k >= kb), Im(A(ka >= 1, kb <= 0), k <= kb))))
            out.append(Im(A(nn, No(A(fa, fb))), z3.If(z3.Or(ka == 0, kb == 0), n,
                        A(No(n), k == z3.If((ka > 0) == (kb > 0), I, -I)))))
            for x, y, kx in ((a, b, ka), (b, a, kb)):
                c = self.cval(x)
                if c is not None:
                    out.append(Im(self.fin(y), self.rnd(t, rv(c) * self.key(y), [y])))
            out.append(Im(A(nn, ka == 1), t == b))
            out.append(Im(A(nn, kb == 1), t == a))
            if self.cval(a) is None:
                out.append(Im(A(nn, ka == -1), t == self.neg(b)))
            if self.cval(b) is None:
                out.append(Im(A(nn, kb == -1), t == self.neg(a)))
            out.append(t == self.f['fmul', w](b, a))
        elif base == 'fdiv':
            a, b = t.arg(0), t.arg(1)
            ka, kb = self.key(a), self.key(b)
            fa, fb = self.fin(a), self.fin(b)
            nn = A(No(self.nan(a)), No(self.nan(b)))
            out.append(Im(No(nn), n))
            out.append(Im(A(fa, fb, kb != 0), No(n)))
            out.append(Im(A(fa, fb, ka != 0), No(n)))
            out.append(Im(A(nn, ka == 0, kb == 0), n))
            out.append(Im(A(nn, No(fa), No(fb)), n))
            out.append(Im(A(fa, nn, No(fb)), A(No(n), k == 0)))
            out.append(Im(A(fb, nn, No(fa)), A(No(n), z3.Or(k == I, k == -I))))
            out.append(Im(A(fa, kb == 0, nn, ka != 0), z3.Or(k == I, k == -I)))
            out.append(Im(A(nn, No(n), kb != 0), A(Im(A(ka >= 0, kb > 0), k >= 0), Im(A(ka <= 0, kb < 0), k >= 0),
                                                   Im(A(ka >= 0, kb < 0), k <= 0), Im(A(ka <= 0, kb > 0), k <= 0))))
            ab = z3.If(ka >= 0, ka, -ka)
            out.append(Im(A(fa, fb, kb != 0), A(Im(ka == 0, k == 0),
                        Im(z3.Or(kb >= 1, kb <= -1), A(k <= ab, k >= -ab)),
                        Im(ka == kb, k == 1), Im(ka == -kb, k == -1))))
            c = self.cval(b)
            if c is not None and c != 0:
                out.append(Im(fa, self.rnd(t, ka / rv(c), [a])))
            # a/b <= 1 iff |a|<=|b| (same sign)
            out.append(Im(A(fa, fb, kb > 0), A(Im(ka <= kb, k <= 1), Im(ka >= kb, k >= 1), Im(ka >= -kb, k >= -1), Im(ka <= -kb, k <= -1))))
            out.append(Im(A(fa, fb, kb < 0), A(Im(ka >= kb, k <= 1), Im(ka <= kb, k >= 1), Im(ka <= -kb, k >= -1), Im(ka >= -kb, k <= -1))))
        elif base == 'itof':
            i = t.arg(0)
            m = INT_EXACT[w]
            out += [No(n), k < I, k > -I, Im(A(i <= m, i >= -m), k == z3.ToReal(i)), (i > 0) == (k > 0), (i < 0) == (k < 0)]
        elif nm == 'fpext':
            a = t.arg(0)
            ka = self.key(a)
            J = rv(INF[32])
            out += [n == self.nan(a), Im(No(n), k == z3.If(ka == J, I, z3.If(ka == -J, -I, ka)))]
        elif nm == 'fptrunc':
            a = t.arg(0)
            ka = self.key(a)
            J = rv(INF[32])
            out += [n == self.nan(a), Im(No(n), A(Im(ka >= 0, k >= 0), Im(ka <= 0, k <= 0), Im(ka >= J, k == J), Im(ka <= -J, k == -J), Im(ka >= 1, k >= 1), Im(ka <= 1, k <= 1), Im(ka >= -1, k >= -1), Im(ka <= -1, k <= -1)))]
        elif base in ('fsin', 'fcos'):
            out += [Im(self.fin(t.arg(0)), A(No(n), k <= 1, k >= -1))]
        return out

    def pair_axioms(self, terms):
        """rounding is monotone with respect to every representable value in sight; equal non-zero keys mean equal floats"""
        out = []
        A, Im = z3.And, z3.Implies
        by = {64: [], 32: []}
        for t in terms:
            if self.is_fp(t):
                by[self.w(t)].append(t)
        for w, ts in by.items():
            for t in ts:
                nm = t.decl().name()
                base = nm.rstrip('0123456789') if not nm.startswith('c') else ''
                if base == 'fadd':
                    a, b = t.arg(0), t.arg(1)
                    fa = A(self.fin(a), self.fin(b))
                    s = self.key(a) + self.key(b)
                    ds = [d for d in ts if not d.eq(a) and not d.eq(b) and not d.eq(t) and not (z3.is_const(d) and d.decl().name().endswith('!nan'))]
                    for d in ds:
                        out.append(Im(A(fa, z3.Not(self.nan(d))), self.rnd(t, s, [d])))
                elif base == 'fmul':
                    a, b = t.arg(0), t.arg(1)
                    c = self.cval(a)
                    y = b
                    if c is None:
                        c, y = self.cval(b), a
                    if c is not None:
                        for d in ts:
                            if not d.eq(t):
                                out.append(Im(A(self.fin(y), z3.Not(self.nan(d))), self.rnd(t, rv(c) * self.key(y), [d])))
                elif nm == 'fptrunc':
                    a = t.arg(0)
                    for d in ts:
                        if not d.eq(t):
                            kd = self.key(d)
                            out.append(Im(A(z3.Not(self.nan(a)), z3.Not(self.nan(d))), A(Im(self.key(a) <= kd, self.key(t) <= kd), Im(self.key(a) >= kd, self.key(t) >= kd))))
            for i, a in enumerate(ts):
                for b in ts[:i]:
                    out.append(Im(A(z3.Not(self.nan(a)), z3.Not(self.nan(b)), self.key(a) == self.key(b), self.key(a) != 0), a == b))
        return out


class Real(Ord):
    """machine arithmetic treated as mathematical"""
    name = 'reals'

    def __init__(self):
        super().__init__()
        R = z3.RealSort()
        self.S = {64: R, 32: R}
        I = z3.IntSort()
        for w in (64, 32):
            for n in ('frem', 'fpow', 'fhypot', 'fatan2', 'fmod'):
                self.f[n, w] = z3.Function('R' + n, R, R, R)
            for n in ('fsqrt', 'fcos', 'fsin', 'facos', 'fexp', 'flog', 'ftan', 'ffloor', 'fceil', 'flog10', 'fatan'):
                self.f[n, w] = z3.Function('R' + n, R, R)
            self.f['ftoi', w] = z3.Function('Rftoi', R, I)
        self.nanc = z3.Const('R!nan', R)
        self.opaque = False      # products of unknown numbers are opaque in quick queries, defined in the final ones
        self.rmul = z3.Function('Rmul', R, R, R)

    def w(self, t):
        return 64

    def is_fp(self, t):
        return z3.is_expr(t) and t.sort() == z3.RealSort() and z3.is_app(t) and t.decl().name() in ('Rfsqrt', 'Rfsin', 'Rfcos', 'Rmul')

    def const(self, v, w):
        if v in ('inf', '-inf'):
            return rv(INF[64] if v == 'inf' else -INF[64])
        if v == 'nan':
            return self.nanc
        if v == '-0':
            return rv(0)
        return rv(v)

    def cval(self, t):
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        return None

    def key(self, t):
        return t

    def nan(self, t):
        return z3.BoolVal(False)

    def fin(self, t):
        return z3.BoolVal(True)

    def isneg(self, t):
        return False

    def neg(self, a):
        return -a

    def add(self, a, b):
        return a + b

    def sub(self, a, b):
        return a - b

    def mul(self, a, b):
        if not self.opaque or self.cval(a) is not None or self.cval(b) is not None:
            return a * b
        if a.get_id() > b.get_id():
            a, b = b, a
        return self.rmul(a, b)

    def div(self, a, b):
        return a / b

    def fun1(self, n, a):
        if n == 'fabs':
            return z3.If(a >= 0, a, -a)
        return self.f[n, 64](a)

    def itof(self, i, w):
        if isinstance(i, int):
            return rv(i)
        return z3.ToReal(i)

    def ext(self, a):
        return a

    def trunc(self, a):
        return a

    def _axioms(self, t):
        nm = t.decl().name()
        a = t.arg(0) if t.num_args() else None
        if nm == 'Rfsqrt':
            return [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a))]
        if nm == 'Rmul':
            b = t.arg(1)
            return [t == self.rmul(b, a), z3.Implies(z3.Or(a == 0, b == 0), t == 0), z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a), z3.Implies(a == -1, t == -b), z3.Implies(b == -1, t == -a)]
        return []

    def pair_axioms(self, terms):
        return [t == t.arg(0) * t.arg(1) for t in terms if t.decl().name() == 'Rmul']


class Any(Ord):
    """nothing is known of machine arithmetic: results of operations and outcomes of comparisons are functions of the operands"""
    name = 'uninterpreted'

    def __init__(self):
        super().__init__()
        B = z3.BoolSort()
        self.rel = {(n, w): z3.Function('%s%d' % (n, w), self.S[w], self.S[w], B) for n in ('flt', 'fle', 'feq') for w in (64, 32)}

    def cmp(self, pred, a, b):
        if pred in ('true', 'false'):
            return z3.BoolVal(pred == 'true')
        if pred in ('ord', 'uno'):
            un = z3.simplify(z3.Or(self.nan(a), self.nan(b)))
            return z3.Not(un) if pred == 'ord' else un
        w = self.w(a)
        lt, le, eq = (self.rel[n, w] for n in ('flt', 'fle', 'feq'))
        o = {'olt': lambda: lt(a, b), 'ole': lambda: le(a, b), 'ogt': lambda: lt(b, a), 'oge': lambda: le(b, a), 'oeq': lambda: eq(a, b),
             'uge': lambda: z3.Not(lt(a, b)), 'ugt': lambda: z3.Not(le(a, b)), 'ule': lambda: z3.Not(lt(b, a)), 'ult': lambda: z3.Not(le(b, a)), 'une': lambda: z3.Not(eq(a, b)),
             'one': lambda: z3.And(z3.Not(eq(a, b)), z3.Not(self.nan(a)), z3.Not(self.nan(b))), 'ueq': lambda: z3.Or(eq(a, b), self.nan(a), self.nan(b))}
        return o[pred]()

    def nan(self, t):
        return self._nan[self.w(t)](t)

    def axioms(self, t):
        return []

    def pair_axioms(self, terms):
        return []

    def same(self, a, b):
        return a == b


class Order(Ord):
    """IEEE comparisons are exact; results of operations are functions of their operands, only sign changes and x - x are known"""
    name = 'order'
    known = ('fneg', 'fabs', 'fsqrt', 'itof', 'fpext')

    def shape(self, t):
        """structure of a term without the positions of the elements it reads"""
        k = t.get_id()
        r = self._shape.get(k) if hasattr(self, '_shape') else self.__dict__.setdefault('_shape', {}).get(k)
        if r is None:
            if z3.is_select(t):
                r = 'select ' + (t.arg(0).decl().name() if t.arg(0).num_args() == 0 else '?')
            else:
                r = t.decl().name() + '(' + ','.join(self.shape(a) for a in t.children()) + ')' if t.num_args() < 4 else t.decl().name()
            self._shape[k] = r = r[:400]
            self.keep.append(t)
        return r

    def ordered(self, a, b):
        x, y = self.shape(a), self.shape(b)
        return (b, a) if x > y or (x == y and a.get_id() > b.get_id()) else (a, b)

    def _axioms(self, t):
        nm = t.decl().name()
        base = nm.rstrip('0123456789') if not nm.startswith('c') else nm
        if base == 'fadd':
            a, b = t.arg(0), t.arg(1)
            k, n = self.key(t), self.nan(t)
            if (self.isneg(b) and b.arg(0).eq(a)) or (self.isneg(a) and a.arg(0).eq(b)):
                return [z3.If(self.fin(a), z3.And(z3.Not(n), k == 0), n)]
            return []
        if t.num_args() and base not in self.known:
            return []
        return super()._axioms(t)

    def pair_axioms(self, terms):
        return []
