"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for /repo.

The IR is produced mechanically from /repo's current C sources on every run
(see build.py); nothing here is specific to OptimPack.
"""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cmt>;[^\n]*)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<meta>![a-zA-Z0-9._]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('lex: %r' % s[i:i + 60])
        k = m.lastgroup
        if k not in ('ws', 'cmt'):
            out.append((k, m.group()))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named':
            return self.a
        return self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


I1, I8, I32, I64 = (Ty('i', n) for n in (1, 8, 32, 64))
PTR, DBL, FLT, VOID = Ty('ptr'), Ty('double'), Ty('float'), Ty('void')


class Ins:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line')

    def __init__(self, op, res=None, ty=None, args=(), x=None, line=None):
        self.op, self.res, self.ty, self.args, self.x, self.line = op, res, ty, args, x, line

    def __repr__(self):
        return '<%s %s %s %s %s>' % (self.op, self.res, self.ty, self.args, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name, ret, params, module, internal):
        self.name, self.ret, self.params, self.module = name, ret, params, module
        self.internal = internal
        self.blocks = {}
        self.order = []
        self.loops = None
        self.line = None


class Module:
    def __init__(self, src):
        self.src = src
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.dbg = {}

    # ---- layout (x86-64)
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'i':
            return max(1, t.a // 8)
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'arr':
            return self.align(t.b)
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'struct':
            if t.b:
                return 1
            return max([self.align(e) for e in t.a] or [1])
        raise NotImplementedError('align %r' % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'i':
            return max(1, (t.a + 7) // 8)
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'arr':
            return t.a * self.size(t.b)
        if t.k == 'struct':
            o = 0
            for e in t.a:
                if not t.b:
                    al = self.align(e)
                    o = (o + al - 1) // al * al
                o += self.size(e)
            al = self.align(t)
            return (o + al - 1) // al * al
        raise NotImplementedError('size %r' % t)

    def field_off(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, e in enumerate(t.a):
            if not t.b:
                al = self.align(e)
                o = (o + al - 1) // al * al
            if j == i:
                return o, e
            o += self.size(e)
        raise IndexError


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def nx(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %r at %r' % (v, self.t[max(0, self.i - 5):self.i + 8]))

    def type(self):
        k, v = self.nx()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = Ty('i', int(v[1:]))
            elif v in ('ptr', 'double', 'float', 'void', 'label', 'metadata', 'x86_fp80'):
                t = Ty(v)
            else:
                raise SyntaxError('type %r' % v)
        elif v == '[':
            n = int(self.nx()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = Ty('arr', n, e)
        elif v == '{':
            t = Ty('struct', self._elts('}'), False)
        elif v == '<':
            if self.acc('{'):
                t = Ty('struct', self._elts('}'), True)
                self.exp('>')
            else:
                n = int(self.nx()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = Ty('vec', n, e)
        elif k == 'local':
            t = Ty('named', v)
        else:
            raise SyntaxError('type %r' % (v,))
        if t.k == 'ptr' and self.pk()[1] == 'addrspace':
            raise NotImplementedError
        # function type
        if self.pk()[1] == '(' and t.k != 'label':
            save = self.i
            try:
                self.nx()
                while not self.acc(')'):
                    if self.acc('...'):
                        continue
                    self.type()
                    self.acc(',')
                return Ty('fn', t)
            except SyntaxError:
                self.i = save
        return t

    def _elts(self, close):
        r = []
        while not self.acc(close):
            r.append(self.type())
            self.acc(',')
        return r

    # operand: ('reg', name) ('int', n) ('fp', Fraction|'nan'|'inf'|'-inf', hex) ('null',) ('undef',) ('glob', name)
    def val(self, ty):
        k, v = self.nx()
        if k == 'local':
            return ('reg', v)
        if k == 'glob':
            return ('glob', v[1:].strip('"'))
        if k == 'int':
            return ('int', int(v))
        if k in ('flt', 'hex'):
            return fpconst(v, k)
        if k == 'cstr':
            return ('cstr', v)
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                self.acc('inbounds')
                self.exp('(')
                bt = self.type()
                self.exp(',')
                self.type()
                base = self.val(PTR)
                idx = []
                while self.acc(','):
                    it = self.type()
                    idx.append((it, self.val(it)))
                self.exp(')')
                return ('cgep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast'):
                self.exp('(')
                t = self.type()
                x = self.val(t)
                self.exp('to')
                self.type()
                self.exp(')')
                return ('ccast', v, x)
            if v in ('sub', 'add', 'mul'):
                while self.pk()[1] in ('nsw', 'nuw'):
                    self.nx()
                self.exp('(')
                t = self.type()
                a = self.val(t)
                self.exp(',')
                self.type()
                b = self.val(t)
                self.exp(')')
                return ('cbin', v, a, b)
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            r = []
            while not self.acc(close):
                t = self.type()
                r.append((t, self.val(t)))
                self.acc(',')
            return ('agg', r)
        if v == '<':
            raise NotImplementedError('vector constant')
        raise SyntaxError('value %r near %r' % (v, self.t[self.i - 4:self.i + 6]))


def fpconst(v, k):
    if k == 'hex':
        if v[2] in 'KLMHR':
            raise ValueError(v)
        x = struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0]
    else:
        x = float(v)
    if x != x:
        return ('fp', 'nan')
    if x in (float('inf'), float('-inf')):
        return ('fp', 'inf' if x > 0 else '-inf')
    if x == 0:
        import math
        return ('fp', '-0' if math.copysign(1, x) < 0 else Fraction(0))
    return ('fp', Fraction(x))


PATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'inreg',
          'returned', 'immarg', 'readnone', 'allocptr', 'nofree'}
PATTRS_ARG = {'align', 'dereferenceable', 'byval', 'sret', 'dereferenceable_or_null', 'allocalign', 'captures'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def skip_attrs(p):
    while True:
        v = p.pk()[1]
        if v in PATTRS:
            p.nx()
        elif v in PATTRS_ARG:
            p.nx()
            if p.acc('('):
                d = 1
                while d:
                    x = p.nx()[1]
                    d += x == '('
                    d -= x == ')'
            elif v == 'align':
                p.nx()
        else:
            return


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr',
        'bitcast'}


def parse_ins(m, s):
    p = P(m, lex(s))
    res = None
    if p.pk()[0] == 'local' and p.pk(1)[1] == '=':
        res = p.nx()[1]
        p.nx()
    op = p.nx()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.nx()[1]
    r = None
    if op in BIN:
        flags = []
        while p.pk()[1] in ('nsw', 'nuw', 'exact', 'disjoint'):
            flags.append(p.nx()[1])
        t = p.type()
        a = p.val(t)
        p.exp(',')
        b = p.val(t)
        r = Ins(op, res, t, (a, b), flags)
    elif op in FBIN or op == 'fneg':
        while p.pk()[1] in FMF:
            p.nx()
        t = p.type()
        a = p.val(t)
        if op == 'fneg':
            r = Ins(op, res, t, (a,))
        else:
            p.exp(',')
            r = Ins(op, res, t, (a, p.val(t)))
    elif op in ('icmp', 'fcmp'):
        while p.pk()[1] in FMF:
            p.nx()
        pred = p.nx()[1]
        t = p.type()
        a = p.val(t)
        p.exp(',')
        r = Ins(op, res, t, (a, p.val(t)), pred)
    elif op == 'load':
        if p.acc('volatile'):
            pass
        t = p.type()
        p.exp(',')
        p.type()
        r = Ins(op, res, t, (p.val(PTR),))
    elif op == 'store':
        p.acc('volatile')
        t = p.type()
        v = p.val(t)
        p.exp(',')
        p.type()
        r = Ins(op, None, t, (v, p.val(PTR)))
    elif op == 'getelementptr':
        p.acc('inbounds')
        bt = p.type()
        p.exp(',')
        p.type()
        base = p.val(PTR)
        idx = []
        while p.pk()[1] == ',' and p.pk(1)[0] != 'meta':
            p.nx()
            it = p.type()
            idx.append((it, p.val(it)))
        r = Ins(op, res, PTR, (base,), (bt, idx))
    elif op == 'br':
        if p.acc('label'):
            r = Ins('br', None, None, (), [p.nx()[1]])
        else:
            p.type()
            c = p.val(I1)
            p.exp(',')
            p.exp('label')
            a = p.nx()[1]
            p.exp(',')
            p.exp('label')
            b = p.nx()[1]
            r = Ins('br', None, None, (c,), [a, b])
    elif op == 'switch':
        t = p.type()
        v = p.val(t)
        p.exp(',')
        p.exp('label')
        d = p.nx()[1]
        p.exp('[')
        cs = []
        while not p.acc(']'):
            p.type()
            c = p.val(t)[1]
            p.exp(',')
            p.exp('label')
            cs.append((c, p.nx()[1]))
        r = Ins('switch', None, t, (v,), (d, cs))
    elif op == 'phi':
        while p.pk()[1] in FMF:
            p.nx()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.val(t)
            p.exp(',')
            b = p.nx()[1]
            p.exp(']')
            inc.append((v, b))
            if p.pk()[1] == ',' and p.pk(1)[1] == '[':
                p.nx()
            else:
                break
        r = Ins('phi', res, t, (), inc)
    elif op == 'select':
        while p.pk()[1] in FMF:
            p.nx()
        p.type()
        c = p.val(I1)
        p.exp(',')
        t = p.type()
        a = p.val(t)
        p.exp(',')
        p.type()
        r = Ins('select', res, t, (c, a, p.val(t)))
    elif op in CAST:
        while p.pk()[1] in ('nneg',):
            p.nx()
        t = p.type()
        a = p.val(t)
        p.exp('to')
        r = Ins(op, res, p.type(), (a,), t)
    elif op == 'ret':
        t = p.type()
        r = Ins('ret', None, t, () if t.k == 'void' else (p.val(t),))
    elif op == 'alloca':
        t = p.type()
        n = ('int', 1)
        if p.acc(','):
            if p.pk()[1] == 'align':
                pass
            else:
                nt = p.type()
                n = p.val(nt)
        r = Ins('alloca', res, t, (n,))
    elif op == 'call':
        while p.pk()[1] in FMF:
            p.nx()
        while p.pk()[1] in ('fastcc', 'ccc'):
            p.nx()
        skip_attrs(p)
        t = p.type()
        if t.k == 'fn':
            t = t.a
        elif p.pk()[1] == '(':
            # (...) vararg type
            while not p.acc(')'):
                p.nx()
        cal = p.val(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.type()
            if at.k == 'metadata':
                # skip debug metadata operands
                d = 0
                while not (d == 0 and p.pk()[1] in (',', ')')):
                    x = p.nx()[1]
                    d += x == '('
                    d -= x == ')'
                args.append((at, ('undef',)))
            else:
                skip_attrs(p)
                args.append((at, p.val(at)))
            p.acc(',')
        r = Ins('call', res, t, args, cal)
    elif op == 'unreachable':
        r = Ins('unreachable')
    elif op == 'freeze':
        t = p.type()
        r = Ins('freeze', res, t, (p.val(t),))
    elif op == 'extractvalue':
        t = p.type()
        v = p.val(t)
        p.exp(',')
        r = Ins('extractvalue', res, t, (v,), int(p.nx()[1]))
    else:
        raise NotImplementedError('instruction ' + s)
    mm = re.search(r'!dbg !(\d+)', s)
    r.line = m.dbg.get(int(mm.group(1))) if mm else None
    return r


def parse_module(text, src):
    m = Module(src)
    for mm in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', text, re.M):
        m.dbg[int(mm.group(1))] = int(mm.group(2))
    sp = {}
    for mm in re.finditer(r'^!(\d+) = (?:distinct )?!DISubprogram\(name: "([^"]+)".*?line: (\d+)', text, re.M):
        sp[int(mm.group(1))] = int(mm.group(3))
    lines = text.split('\n')
    i = 0
    cur = None
    blk = None
    while i < len(lines):
        L = lines[i]
        i += 1
        if cur is None:
            if L.startswith('%') and ' = type ' in L:
                nm, rest = L.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    continue
                m.types[nm] = P(m, lex(rest)).type()
            elif L.startswith('@'):
                p = P(m, lex(L))
                nm = p.nx()[1][1:].strip('"')
                p.exp('=')
                const = False
                ext = False
                while True:
                    k, v = p.pk()
                    if v in ('global', 'constant'):
                        const = v == 'constant'
                        p.nx()
                        break
                    if v in ('external', 'extern_weak'):
                        ext = True
                    p.nx()
                t = p.type()
                init = None if ext else p.val(t)
                m.globals[nm] = (t, init, const)
            elif L.startswith('define'):
                p = P(m, lex(L))
                p.nx()
                internal = False
                while True:
                    v = p.pk()[1]
                    if v == 'internal':
                        internal = True
                    if v in ('internal', 'dso_local', 'private', 'linkonce_odr', 'hidden', 'fastcc', 'available_externally'):
                        p.nx()
                    else:
                        break
                skip_attrs(p)
                rt = p.type()
                nm = p.nx()[1][1:].strip('"')
                p.exp('(')
                params = []
                while not p.acc(')'):
                    if p.acc('...'):
                        continue
                    pt = p.type()
                    skip_attrs(p)
                    params.append((pt, p.nx()[1]))
                    p.acc(',')
                cur = Func(nm, rt, params, m, internal)
                md = re.search(r'!dbg !(\d+)', L)
                if md:
                    cur.line = sp.get(int(md.group(1)))
                blk = Block('%' + str(len(params)))
                # unnamed entry: numbered after params unless params are named
                cur.blocks[blk.name] = blk
                cur.order.append(blk)
                cur.entry = blk
            elif L.startswith('declare'):
                mm = re.search(r'@([-\w.$]+)\(', L)
                m.decls[mm.group(1)] = L
        else:
            if L.startswith('}'):
                for b in cur.order:
                    t = b.ins[-1]
                    b.succ = list(dict.fromkeys(t.x if t.op == 'br' else
                                                ([t.x[0]] + [c for _, c in t.x[1]]) if t.op == 'switch' else []))
                for b in cur.order:
                    for s in b.succ:
                        cur.blocks[s].pred.append(b.name)
                m.funcs[cur.name] = cur
                cur = None
                continue
            if not L.strip() or L.lstrip().startswith(';'):
                continue
            mm = re.match(r'^([-\w.$]+|"[^"]*"):', L)
            if mm:
                nm = '%' + mm.group(1)
                if len(cur.order) == 1 and not cur.entry.ins:
                    del cur.blocks[cur.entry.name]
                    cur.entry.name = nm
                    cur.blocks[nm] = cur.entry
                    continue
                blk = Block(nm)
                cur.blocks[nm] = blk
                cur.order.append(blk)
                continue
            s = L
            if re.match(r'\s+switch ', L) and not L.rstrip().endswith(']') and ']' not in L:
                while ']' not in lines[i]:
                    s += ' ' + lines[i]
                    i += 1
                s += ' ' + lines[i]
                i += 1
            blk.ins.append(parse_ins(m, s))
    for f in m.funcs.values():
        find_loops(f)
    return m


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = {header}
        self.latches = []
        self.parent = None


def find_loops(f):
    names = [b.name for b in f.order]
    # reachable, rpo
    seen = set()
    rpo = []

    def dfs(root):
        st = [(root, iter(f.blocks[root].succ))]
        seen.add(root)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                rpo.append(n)
                st.pop()

    dfs(f.entry.name)
    rpo.reverse()
    idx = {n: i for i, n in enumerate(rpo)}
    dom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            ps = [p for p in f.blocks[n].pred if p in dom and p in idx]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                a, b = d, p
                while a != b:
                    while idx[a] > idx[b]:
                        a = dom[a]
                    while idx[b] > idx[a]:
                        b = dom[b]
                d = a
            if dom.get(n) != d:
                dom[n] = d
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = dom[b]

    loops = {}
    f.irreducible = False
    for n in rpo:
        for s in f.blocks[n].succ:
            if s in idx and idx[s] <= idx[n]:
                if dominates(s, n):
                    lp = loops.setdefault(s, Loop(s))
                    lp.latches.append(n)
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in lp.body:
                            lp.body.add(x)
                            st.extend(p for p in f.blocks[x].pred if p in idx)
                else:
                    f.irreducible = True
    f.loops = loops
    f.rpo = idx
    for l in loops.values():
        for o in loops.values():
            if o is not l and l.header in o.body and (l.parent is None or len(o.body) < len(l.parent.body)):
                l.parent = o
