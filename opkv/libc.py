"""Contracts assumed for the C library and LLVM intrinsics (trusted base)."""
import z3
from . import ir
from fractions import Fraction


def install(e):
    from .engine import Ptr, Opq, NULL, Unsupported, i2z, b2z, RS
    F = e.fp
    X = e.ext

    def f1(name):
        def h(e, st, a, ins):
            return [(st, F.fun1(name, a[0]))]
        return h

    for c, n in (('fabs', 'fabs'), ('sqrt', 'fsqrt'), ('cos', 'fcos'), ('sin', 'fsin'), ('acos', 'facos'), ('exp', 'fexp'),
                 ('log', 'flog'), ('tan', 'ftan'), ('floor', 'ffloor'), ('ceil', 'fceil'), ('log10', 'flog10'), ('atan', 'fatan')):
        X[c] = f1(n)
        X[c + 'f'] = f1(n)
        X['llvm.%s.*' % c] = f1(n)

    def f2(name):
        def h(e, st, a, ins):
            return [(st, F.fun2(name, a[0], a[1]))]
        return h
    for c, n in (('pow', 'fpow'), ('hypot', 'fhypot'), ('atan2', 'fatan2'), ('fmod', 'fmod')):
        X[c] = f2(n)
        X[c + 'f'] = f2(n)
        X['llvm.%s.*' % c] = f2(n)

    def fpclass(e, st, a, ins):
        x, m = a
        I = F.const('inf', F.w(x))
        k, n, ki = F.key(x), F.nan(x), F.key(I)
        from .fp import rv, INF
        B = rv(INF[F.w(x)])
        cls = []
        if m & 3:
            if m & 3 != 3:
                raise Unsupported('signalling NaN class')
            cls.append(n)
        for bit, c in ((4, k <= -B), (512, k >= B)):
            if m & bit:
                cls.append(z3.And(z3.Not(n), c))
        f = m & 0x1f8
        if f:
            neg, zero, pos = f & 0x18, f & 0x60, f & 0x180
            for g, full, c in ((neg, 0x18, z3.And(k < 0, k > -B)), (zero, 0x60, k == 0), (pos, 0x180, z3.And(k > 0, k < B))):
                if g and g != full:
                    raise Unsupported('floating point class mask %d' % m)
                if g:
                    cls.append(z3.And(z3.Not(n), c))
        return [(st, z3.Or(cls) if cls else z3.BoolVal(False))]
    X['llvm.is.fpclass.*'] = fpclass

    def silent(e, st, a, ins):
        e.assumptions.add('C library output functions only write to their stream')
        nm = ins.x[1] if ins is not None and ins.x and ins.x[0] == 'glob' else ''
        f = {'fprintf': 0, 'fputs': 1, 'fputc': 1, 'vfprintf': 0, 'fwrite': 3}.get(nm)
        if f is not None and f < len(a) and isinstance(a[f], Ptr) and a[f].r is None:
            e.oblige(st, False, 'pre', 'the stream given to %s is not NULL' % nm)
            return []
        r = e.fresh(st, 'io', ins.ty) if ins.res and ins.ty.k != 'void' else None
        return [(st, r)]
    for n in ('fprintf', 'printf', 'fputs', 'puts', 'putchar', 'fputc', 'fflush', 'vfprintf', 'perror', 'fwrite'):
        X[n] = silent
    for n in ('llvm.va_start', 'llvm.va_end', 'llvm.va_start.*', 'llvm.va_end.*'):
        X[n] = lambda e, st, a, ins: [(st, None)]

    def errno_loc(e, st, a, ins):
        if not hasattr(e, 'errno_region'):
            e.errno_region = e.new_region(st, 'errno', 'global')
        st.mem.setdefault(e.errno_region.id, RS({}, ()))
        return [(st, Ptr(e.errno_region))]
    X['__errno_location'] = errno_loc

    def set_errno(st, v):
        (s, p), = errno_loc(e, st, [], None)
        e.store_cell(st, p.r, 0, ir.I32, v)
    e.set_errno = set_errno

    def malloc(e, st, a, ins):
        n = a[0]
        out = []
        if isinstance(n, int):
            n %= 1 << 64
            big = n >= 2 ** 63
        else:
            big = False
        if e.malloc_fails or big:
            s2 = st.fork()
            e.set_errno(s2, 12)
            s2.flags = s2.flags | {'oom'}
            out.append((s2, NULL))
        if not big:
            if not isinstance(n, int):
                st.assume(n >= 0)     # requests above PTRDIFF_MAX fail (glibc)
            if isinstance(n, int) or e.feasible(st):
                r = e.new_region(st, 'heap', 'heap', size=n, default='uninit')
                out.append((st, Ptr(r)))
        return out
    X['malloc'] = malloc

    def calloc(e, st, a, ins):
        n = a[0] * a[1]
        if not isinstance(n, int):
            n = z3.simplify(n)
        res = malloc(e, st, [n], ins)
        for s, p in res:
            if p.r is not None:
                p.r.default = 'zero'
        return res
    X['calloc'] = calloc

    def free(e, st, a, ins):
        p = a[0]
        if isinstance(p, Opq):
            raise Unsupported('free of opaque pointer')
        if p.r is None:
            return [(st, None)]
        rs = st.mem.get(p.r.id) or RS()
        ok = p.r.kind == 'heap' and p.o.const() and p.o.c == 0 and not rs.freed
        e.oblige(st, ok, 'free', 'free() releases a live heap block once')
        rs = rs.copy()
        rs.freed = True
        st.mem[p.r.id] = rs
        return [(st, None)]
    X['free'] = free

    def opk_error(e, st, a, ins):
        e.assumptions.add('the registered error handler does not touch the objects involved')
        st.flags = st.flags | {'opk_error'}
        return [(st, None)]
    X['opk_error'] = opk_error

    def memset(e, st, a, ins):
        p, v, n = a[0], a[1], a[2]
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported('memset target')
        r = p.r
        if not (isinstance(v, int) and v == 0):
            raise Unsupported('memset non-zero')
        e.fix(st, r)
        if r.kind == 'heap' and p.o.const() and p.o.c == 0 and not getattr(r, 'segs', ()):
            e.oblige(st, i2z(n) <= i2z(r.size) if r.size is not None else True, 'bounds', 'memset inside the object')
            # all cells become zero if full size
            if r.size is not None and e.valid(st, i2z(n) == i2z(r.size), 0):
                st.mem[r.id] = RS({}, ())
                r.default = 'zero'
                if st.log is not None:
                    st.log.setdefault((r, 'c', 0), ir.I64)
                return [(st, p)]
            raise Unsupported('partial memset')
        i, s = e.findseg(r, p.o)
        if s is not None:
            lo = p.o.idx(s.base, s.esz)
            if lo is None:
                raise Unsupported('memset alignment')
            nz = i2z(n)
            cnt = nz / s.esz
            if z3.is_mul(nz) and len(nz.children()) == 2 and z3.is_int_value(nz.arg(0)) and nz.arg(0).as_long() == s.esz:
                cnt = nz.arg(1)
            if s.len is not None:
                e.oblige(st, z3.And(lo >= 0, nz >= 0, lo + cnt <= s.len, cnt * s.esz == nz), 'bounds', 'memset inside %s' % r.name)
            old = st.mem[r.id].arrs[i]
            j = z3.FreshConst(z3.IntSort(), 'j')
            new = z3.Lambda([j], z3.If(z3.And(j >= lo, j < lo + cnt), i2z(e.zero(s.ty)), z3.Select(old, j)))
            e.set_arr(st, r, new, i)
            if st.log is not None:
                st.log.setdefault((r, 's', i), s.ty)
            return [(st, p)]
        if isinstance(n, int) and p.o.const() and n % 4 == 0:
            if r.size is not None:
                e.oblige(st, i2z(p.o.c + n) <= i2z(r.size), 'bounds', 'memset inside the object')
            rs = st.mem[r.id].copy()
            for o in list(rs.cells):
                if p.o.c <= o < p.o.c + n:
                    del rs.cells[o]
            for o in range(p.o.c, p.o.c + n, 4):
                rs.cells[o] = (4, 0, ir.Ty('zero4'))
                if st.log is not None:
                    st.log.setdefault((r, 'c', o), ir.I32)
            st.mem[r.id] = rs
            return [(st, p)]
        raise Unsupported('memset')
    X['llvm.memset.*'] = memset
    X['memset'] = memset

    def memcpy(e, st, a, ins):
        d, s_, n = a[0], a[1], a[2]
        if not (isinstance(d, Ptr) and isinstance(s_, Ptr)) or d.r is None or s_.r is None:
            raise Unsupported('memcpy operands')
        e.fix(st, d.r)
        e.fix(st, s_.r)
        i, sd = e.findseg(d.r, d.o)
        j, ss = e.findseg(s_.r, s_.o)
        if sd is not None and ss is not None and sd.ty.k == ss.ty.k:
            lo, lo2 = d.o.idx(sd.base, sd.esz), s_.o.idx(ss.base, ss.esz)
            nz = i2z(n)
            cnt = nz / sd.esz
            if z3.is_mul(nz) and len(nz.children()) == 2 and z3.is_int_value(nz.arg(0)) and nz.arg(0).as_long() == sd.esz:
                cnt = nz.arg(1)
            for (l, s, r) in ((lo, sd, d.r), (lo2, ss, s_.r)):
                if s.len is not None:
                    e.oblige(st, z3.And(l >= 0, nz >= 0, l + cnt <= s.len, cnt * s.esz == nz), 'bounds', 'memcpy inside %s' % r.name)
            if d.r is s_.r:
                e.oblige(st, z3.Or(lo + cnt <= lo2, lo2 + cnt <= lo, cnt == 0, b2z(ins.x[1].startswith('llvm.memmove') or ins.x[1] == 'memmove')), 'overlap', 'memcpy operands do not overlap')
            src = st.mem[s_.r.id].arrs[j]
            old = st.mem[d.r.id].arrs[i]
            k = z3.FreshConst(z3.IntSort(), 'j')
            new = z3.Lambda([k], z3.If(z3.And(k >= lo, k < lo + cnt), z3.Select(src, k - lo + lo2), z3.Select(old, k)))
            e.set_arr(st, d.r, new, i)
            if st.log is not None:
                st.log.setdefault((d.r, 's', i), sd.ty)
            return [(st, d)]
        if isinstance(n, int) and d.o.const() and s_.o.const() and sd is None and ss is None:
            # struct copy: copy known cells
            rs = st.mem[s_.r.id] if s_.r.id in st.mem else RS()
            src_cells = dict(rs.cells)
            for (off, tyr), v in s_.r.init.items():
                src_cells.setdefault(off, None)
            drs = st.mem[d.r.id].copy()
            for o in list(drs.cells):
                if d.o.c <= o < d.o.c + n:
                    del drs.cells[o]
            st.mem[d.r.id] = drs
            lay = getattr(e, 'struct_copy_layout', None)
            offs = {}
            for o, c in rs.cells.items():
                offs[o] = c[2]
            for (o, tyr) in s_.r.init:
                offs.setdefault(o, TYMAP.get(tyr))
            if s_.r.kind == 'global' and s_.r.default == 'zero':
                pass
            lm = getattr(s_.r, 'layout', None) or getattr(d.r, 'layout', None)
            if lm:
                for o, ty in lm:
                    offs.setdefault(o, ty)
            for o, ty in offs.items():
                if ty is None:
                    continue
                if s_.o.c <= o < s_.o.c + n:
                    v = e.load_cell(st, s_.r, o, ty)
                    e.store_cell(st, d.r, d.o.c + o - s_.o.c, ty, v)
            return [(st, d)]
        raise Unsupported('memcpy')
    TYMAP = {'ptr': ir.PTR, 'double': ir.DBL, 'float': ir.FLT, 'i32': ir.I32, 'i64': ir.I64, 'i8': ir.I8, 'i16': ir.Ty('i', 16)}
    X['llvm.memcpy.*'] = memcpy
    X['memcpy'] = memcpy
    X['llvm.memmove.*'] = memcpy
    X['memmove'] = memcpy
