"""Contracts of the C library text functions, on abstract texts: a buffer holds a sequence of known characters and decimal renderings."""
import re
from .common import *

DEC = 'dec'     # length of the decimal rendering of an integer


def cstr_of(e, p):
    """the characters of a constant text, or None"""
    r = p.r if isinstance(p, Ptr) else None
    raw = getattr(r, 'cstr', None) if r is not None else None
    if raw is None or not p.o.const():
        return None
    raw = raw[2:-1] if raw.startswith('c"') else raw
    out, i = bytearray(), 0
    while i < len(raw):
        if raw[i] == '\\':
            if raw[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(raw[i + 1:i + 3], 16))
                i += 3
        else:
            out += raw[i].encode('utf-8')
            i += 1
    b = bytes(out)[p.o.c:]
    k = b.find(b'\0')
    return b[:k] if k >= 0 else b


def text_of(e, st, p):
    """parts of the text at p: bytes or ('dec', term)"""
    c = cstr_of(e, p) if isinstance(p, Ptr) else None
    if c is not None:
        return (c,) if c else ()
    if isinstance(p, Ptr) and p.r is not None and p.o.const() and p.o.c == 0:
        return st.g.get(('text', p.r.id))
    return None


def norm(t):
    out = []
    for x in t:
        if isinstance(x, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += x
        elif x != b'':
            out.append(x)
    return tuple(out)


_declen = z3.Function('decimal_length', z3.IntSort(), z3.IntSort())


def length(e, st, t):
    n = 0
    for x in t:
        if isinstance(x, bytes):
            n = n + len(x)
        else:
            l = _declen(i2z(x[1]))
            st.assume(z3.And(l >= 1, l <= 20, z3.Implies(z3.And(i2z(x[1]) >= 0), l <= 19)))
            n = n + l
    return i2z(n) if not isinstance(n, int) else z3.IntVal(n)


def capacity(e, p):
    r = p.r
    for s in getattr(r, 'segs', ()) or ():
        if s.base == 0 and s.esz == 1:
            return s.len
    return r.size


def put(e, st, p, t, what):
    if not isinstance(p, Ptr) or p.r is None or not p.o.const() or p.o.c != 0:
        raise Unsupported('text destination')
    t = norm(t)
    c = capacity(e, p)
    if c is None:
        raise Unsupported('text buffer of unknown size')
    e.oblige(st, length(e, st, t) + 1 <= i2z(c), 'bounds', '%s inside its buffer' % what)
    st.g[('text', p.r.id)] = t
    e.fix(st, p.r)
    if getattr(p.r, 'segs', ()):
        e.set_arr(st, p.r, z3.FreshConst(e.arr(st, p.r).sort(), 'chars'), 0)
        if st.log is not None:
            st.log.setdefault((p.r, 's', 0), ir.Ty('i', 8))


def need(e, st, p):
    t = text_of(e, st, p)
    if t is None:
        raise Unsupported('text of unknown contents')
    return t


def fmt(e, st, f, args):
    out, i, k = [], 0, 0
    f = f.decode('latin-1')
    while i < len(f):
        if f[i] != '%':
            out.append(f[i].encode('latin-1'))
            i += 1
            continue
        m = re.match(r'%(l{0,2}|z|j)([duis%])', f[i:])
        if not m:
            raise Unsupported('format directive')
        if m.group(2) == '%':
            out.append(b'%')
        elif m.group(2) == 's':
            out += need(e, st, args[k])
            k += 1
        else:
            a = args[k]
            k += 1
            out += [str(a).encode()] if isinstance(a, int) else [('dec', a)]
        i += m.end()
    return out


def install(e):
    def strcpy(e, st, a, ins):
        put(e, st, a[0], need(e, st, a[1]), 'copied text')
        return [(st, a[0])]

    def strcat(e, st, a, ins):
        put(e, st, a[0], tuple(need(e, st, a[0])) + tuple(need(e, st, a[1])), 'appended text')
        return [(st, a[0])]

    def sprintf(e, st, a, ins):
        t = fmt(e, st, cstr_of(e, a[1]) or b'%!', a[2:])
        put(e, st, a[0], t, 'formatted text')
        return [(st, length(e, st, norm(t)))]

    def snprintf(e, st, a, ins):
        t = norm(fmt(e, st, cstr_of(e, a[2]) or b'%!', a[3:]))
        n = length(e, st, t)
        e.oblige(st, i2z(a[1]) <= i2z(capacity(e, a[0])), 'bounds', 'formatted text inside its buffer')
        if not e.valid(st, n < i2z(a[1]), 0):
            raise Unsupported('truncated text')
        put(e, st, a[0], t, 'formatted text')
        return [(st, n)]

    def strlen(e, st, a, ins):
        return [(st, length(e, st, need(e, st, a[0])))]
    for n, h in (('strcpy', strcpy), ('strcat', strcat), ('sprintf', sprintf), ('snprintf', snprintf), ('strlen', strlen)):
        e.ext[n] = h

    def hook(e, st, r, w, v):
        # a zero stored at the start makes the text empty; any other direct store makes it unknown
        if ('text', r.id) in st.g or (r.kind == 'alloca' and getattr(r, 'segs', ()) and r.segs[0].esz == 1):
            st.g = dict(st.g)
            if w[0] == 's' and w[1] == 0 and z3.is_int_value(z3.simplify(i2z(w[2]))) and z3.simplify(i2z(w[2])).as_long() == 0 and isinstance(v, int) and v == 0:
                st.g[('text', r.id)] = ()
            else:
                st.g.pop(('text', r.id), None)
    e.store_hooks.append(hook)


def copy_contract(e, st, a, ins):
    """contract of opk_copy_string (proved by the units of that name) at its call sites"""
    dst, size, src = a
    t = () if (isinstance(src, Ptr) and src.r is None) else need(e, st, src)
    n = length(e, st, t)
    st.g = dict(st.g)
    st.g['copied'] = st.g.get('copied', ()) + ((dst, size, norm(t)),)
    return [(st, n + 1)]
