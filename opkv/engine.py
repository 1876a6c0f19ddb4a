"""Deductive verifier: symbolic execution of LLVM IR between loop cut points,
callees replaced by contracts, loop invariants proved inductive (Houdini over
generic and contract-derived candidates), every obligation discharged by an
SMT solver.  No loop is unrolled and no input is bounded.
"""
import z3, time, sys
from fractions import Fraction
from . import ir, fp as fpmod

z3.set_param('model.compact', False)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# --------------------------------------------------------------------- values
class Region:
    _n = 0
    reg = {}

    def __init__(self, name, kind='obj', size=None, fields=None):
        Region._n += 1
        self.id = Region._n
        self.name = name
        self.kind = kind          # obj | alloca | global | func | heap
        self.size = size          # bytes (int or term) or None = not checked
        self.fields = fields      # struct type (module, Ty) for diagnostics
        self.readonly = False
        self.default = 'init'     # init: unknown caller data; zero; uninit
        self.init = {}            # lazily created initial cells
        self.maker = None         # maker(off, ty) -> value, for contract-shaped inputs
        Region.reg[self.id] = self

    def __repr__(self):
        return '<%s>' % self.name


class Seg:
    """array part of a region"""
    __slots__ = ('base', 'esz', 'ty', 'len', 'name')

    def __init__(self, base, ty, esz, ln, name):
        self.base, self.ty, self.esz, self.len, self.name = base, ty, esz, ln, name


class Off:
    """linear byte offset: c + sum(scale*term)"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c, self.t = c, t

    def add(self, scale, idx):
        if isinstance(idx, int):
            return Off(self.c + scale * idx, self.t)
        if z3.is_int_value(idx):
            return Off(self.c + scale * idx.as_long(), self.t)
        # fold constants inside idx: idx = a + const
        if z3.is_add(idx):
            o = self
            for ch in idx.children():
                o = o.add(scale, ch)
            return o
        if z3.is_sub(idx):
            ch = idx.children()
            o = self.add(scale, ch[0])
            for x in ch[1:]:
                o = o.add(-scale, x)
            return o
        if z3.is_mul(idx) and len(idx.children()) == 2:
            a, b = idx.children()
            if z3.is_int_value(a):
                return self.add(scale * a.as_long(), b)
            if z3.is_int_value(b):
                return self.add(scale * b.as_long(), a)
        t = []
        done = False
        for (s, x) in self.t:
            if x.eq(idx):
                s = s + scale
                done = True
                if s == 0:
                    continue
            t.append((s, x))
        if not done:
            t.append((scale, idx))
        return Off(self.c, tuple(t))

    def plus(self, o, sign=1):
        r = self
        for s, x in o.t:
            r = r.add(sign * s, x)
        return Off(r.c + sign * o.c, r.t)

    def const(self):
        return not self.t

    def term(self):
        r = z3.IntVal(self.c) if (self.c or not self.t) else None
        for s, x in self.t:
            y = x if s == 1 else s * x
            r = y if r is None else r + y
        return r

    def idx(self, base, esz):
        """(off - base)/esz as term, or None if not syntactically divisible"""
        c = self.c - base
        if c % esz or any(s % esz for s, _ in self.t):
            return None
        return Off(c // esz, tuple((s // esz, x) for s, x in self.t)).term()


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o=None):
        self.r, self.o = r, o if o is not None else Off()

    def __repr__(self):
        return 'Ptr(%r,%s)' % (self.r, self.o.term() if isinstance(self.o, Off) else self.o)


class Opq:
    """opaque pointer identified by an Int term (0 is NULL)"""
    __slots__ = ('t', 'o')

    def __init__(self, t, o=None):
        self.t, self.o = t, o or Off()

    def __repr__(self):
        return 'Opq(%s)' % self.t


NULL = Ptr(None)


class RS:
    """state of one region"""
    __slots__ = ('cells', 'arrs', 'freed')

    def __init__(self, cells=None, arrs=(), freed=False):
        self.cells, self.arrs, self.freed = cells if cells is not None else {}, arrs, freed

    def copy(self):
        return RS(dict(self.cells), self.arrs, self.freed)


class PC:
    __slots__ = ('p', 'f', 'n')

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.n = 1 + (p.n if p else 0)


class State:
    __slots__ = ('pc', 'mem', 'loc', 'log', 'g', 'loops', 'fdepth', 'flags')

    def __init__(self):
        self.pc = None
        self.mem = {}
        self.loc = {}
        self.log = None      # set of written (rid, what)
        self.g = {}          # ghost variables
        self.loops = ()
        self.fdepth = 0
        self.flags = frozenset()

    def fork(self):
        s = State()
        s.pc, s.mem, s.loc, s.log, s.g = self.pc, dict(self.mem), dict(self.loc), self.log, dict(self.g)
        s.loops = self.loops
        s.fdepth = self.fdepth
        s.flags = self.flags
        return s

    def assume(self, f):
        if f is True or (z3.is_expr(f) and z3.is_true(f)):
            return self
        if f is False:
            f = z3.BoolVal(False)
        self.pc = PC(self.pc, f)
        return self

    def assume_all(self, fs):
        for f in fs:
            self.assume(f)
        return self

    def formulas(self):
        r = []
        p = self.pc
        while p:
            r.append(p.f)
            p = p.p
        r.reverse()
        return r


class Obl:
    __slots__ = ('name', 'status', 'info', 'fn', 'line', 'kind')

    def __init__(self, name, kind, fn, line):
        self.name, self.kind, self.fn, self.line = name, kind, fn, line
        self.status = 'discharged'
        self.info = None


def b2z(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def i2z(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def regs_of(ins):
    """registers read by an instruction"""
    out = []

    def walk(v):
        if isinstance(v, tuple) or isinstance(v, list):
            if len(v) == 2 and v[0] == 'reg' and isinstance(v[1], str):
                out.append(v[1])
                return
            for x in v:
                walk(x)
    walk(ins.args)
    walk(ins.x)
    return out


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return z3.BoolVal(False)
    return z3.And(*a) if a else z3.BoolVal(True)


class Engine:
    def __init__(self, fp='ord', timeout=4000, hard_timeout=30000):
        self.fp = {'ord': fpmod.Ord, 'real': fpmod.Real, 'any': fpmod.Any, 'order': fpmod.Order}[fp]()
        self.mods = []
        self.funcs = {}          # name -> Func (external linkage)
        self.contracts = {}      # name -> handler(eng, st, args, ins) -> [(st, ret)]
        self.ext = {}
        self.globals = {}
        self.fnreg = {}
        self.obls = {}
        self.rec = True
        self.check_ovf = False
        self.malloc_fails = True
        self.unroll_if = None    # which functions' loops are unrolled in bounded units
        self.unroll = 0          # >0: loops are executed concretely, at most that many turns (bounded units only)
        self.timeout, self.hard = timeout, hard_timeout
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.stack = []          # PCs asserted
        self.stackpos = {}
        self.stats = dict(queries=0, solver_s=0.0, proved=0, failed=0, feas=0, loops=0, invs=0, paths=0, unknown=0, escalated=0)
        self.curfn = '?'
        self.curline = None
        self.case = ''
        self.wcache = {}
        self.max_pairs = 99      # loops with more counters: no relation between each two of them is tried
        self.cand_gens = []      # contract-supplied candidate generators
        self.inline_depth = 0
        self.assumptions = set()
        self.functions_executed = set()
        self.deadline = None
        self.indirect = None
        self.hc = []
        self.nocache = False
        self.failmodels = []
        self.maxpaths = 20000
        self.strings = {}
        self.idivs = []
        self.nla = False         # products of two unknown integers are opaque, with instantiated monotonicity lemmas
        self.prods = {}
        self.mixghosts = set()   # ghosts that may be merged when paths join
        self.store_hooks = []
        self.lit = 0
        self.on_loop = None
        self.merge = True       # join paths at control-flow joins (same meaning, fewer and larger queries)
        from . import libc
        libc.install(self)

    # ------------------------------------------------------------- modules
    def add_module(self, m):
        self.mods.append(m)
        for f in m.funcs.values():
            if not f.internal:
                self.funcs[f.name] = f

    def lookup(self, m, name):
        if name in m.funcs:
            return m.funcs[name]
        return self.funcs.get(name)

    # ------------------------------------------------------------- solver
    def _sync(self, pc):
        chain = []
        p = pc
        pos = self.stackpos
        i = 0
        while p:
            j = pos.get(id(p))
            if j is not None:
                i = j + 1
                break
            chain.append(p)
            p = p.p
        chain.reverse()
        if len(self.stack) > i:
            self.solver.pop(len(self.stack) - i)
            for q, _ in self.stack[i:]:
                del pos[id(q)]
            del self.stack[i:]
        known = self.stack[-1][1] if self.stack else {}
        for p in chain:
            self.solver.push()
            new = {j: t for j, t in self.fp.subterms(p.f).items() if j not in known}
            if new:
                known = self._closure(new, known, self.solver)
            self.solver.add(p.f)
            pos[id(p)] = len(self.stack)
            self.stack.append((p, known))
        return known

    def _closure(self, new, known, solver):
        known = dict(known)
        work = list(new.values())
        depth = {t.get_id(): 0 for t in work}
        while work:
            t = work.pop()
            if t.get_id() in known:
                continue
            known[t.get_id()] = t
            d = depth.get(t.get_id(), 0)
            if t.get_id() in self.prods:
                for a in self.prod_lemmas(t, known):
                    solver.add(a)
                continue
            for a in self.fp.axioms(t):
                solver.add(a)
                if d < 2:
                    for j, u in self.fp.subterms(a).items():
                        if j not in known and j not in depth:
                            depth[j] = d + 1
                            work.append(u)
        return known

    def _check(self, st, extra, level=0):
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        t0 = time.time()
        known = self._sync(st.pc)
        self.solver.push()
        try:
            new = {}
            for e in extra:
                for j, t in self.fp.subterms(e).items():
                    if j not in known:
                        new[j] = t
            if new:
                known = self._closure(new, known, self.solver)
            for e in extra:
                self.solver.add(e)
            self.solver.set('timeout', self.timeout)
            r = self.solver.check()
            self.stats['queries'] += 1
            if r != z3.unsat and level:
                self.stats['escalated'] += 1
                # fresh, non-incremental solver with the full axiom set
                s = z3.Solver()
                s.set('timeout', self.hard)
                for a in self.solver.assertions():
                    s.add(a)
                for a in self.fp.pair_axioms(list(known.values())):
                    s.add(a)
                r = s.check()
                self.stats['queries'] += 1
                if level >= 2:
                    for seed, extra_opt in ((7, {}), (42, {'arith.solver': 2}), (1001, {'arith.nl.order': True}), (5, {})):
                        if r != z3.unknown:
                            break
                        s2 = z3.SolverFor('ALL') if seed == 5 else z3.Solver()
                        try:
                            s2.set('random_seed', seed)
                            for k, v in extra_opt.items():
                                s2.set(k, v)
                        except z3.Z3Exception:
                            pass
                        s2.set('timeout', self.hard)
                        for a in s.assertions():
                            s2.add(a)
                        r = s2.check()
                        s = s2
                        self.stats['queries'] += 1
                if r == z3.sat:
                    self.model = s.model()
            self.last = r
            return r
        finally:
            self.solver.pop()
            self.stats['solver_s'] += time.time() - t0

    def feasible(self, st, f=None):
        self.stats['feas'] += 1
        if f is not None:
            f = b2z(f)
            if z3.is_true(f):
                f = None
            elif z3.is_false(f):
                return False
        return self._check(st, [f] if f is not None else []) != z3.unsat

    def valid(self, st, f, level=1):
        f = b2z(f)
        if z3.is_true(f):
            return True
        r = self._check(st, [z3.Not(f)], level)
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r == z3.unsat

    def oblige(self, st, f, kind, desc, line=None, assume=True):
        """proof obligation: f must hold in st"""
        f = b2z(f)
        if self.rec:
            name = '%s: %s [%s]' % (self.curfn, desc, kind)
            if self.case:
                name += ' {%s}' % self.case
            o = self.obls.get(name)
            if o is None:
                o = self.obls[name] = Obl(name, kind, self.curfn, line or self.curline)
            if o.status == 'discharged':
                ok = self.valid(st, f, 2)
                self.stats['proved' if ok else 'failed'] += 1
                if not ok:
                    o.status = 'failed' if self.last == z3.sat else 'unknown'
                    o.line = line or self.curline
                    try:
                        o.info = self.explain(st, f)
                    except Exception as e:
                        o.info = 'n/a'
        if assume:
            st.assume(f)

    def explain(self, st, f):
        r = ['goal: ' + str(z3.simplify(f))[:600]]
        m = getattr(self, 'model', None)
        if m is not None:
            vs = []
            for d in m.decls():
                if d.arity() == 0 and d.range() in (z3.IntSort(), z3.RealSort(), z3.BoolSort()):
                    vs.append('%s=%s' % (d.name(), m[d]))
            try:
                for n in (64, 32):
                    for t in list(self.fp.subterms(f).values())[:20]:
                        if self.fp.is_fp(t) and z3.is_const(t):
                            vs.append('%s=%s nan=%s' % (t, m.eval(self.fp.key(t)), m.eval(self.fp.nan(t))))
            except Exception:
                pass
            r.append('solver counterexample: ' + ', '.join(sorted(set(vs)))[:1500])
        self.model = None
        return '\n'.join(r)

    # ------------------------------------------------------------- fresh values
    def fresh_int(self, st, name, w=64):
        v = z3.FreshConst(z3.IntSort(), name)
        st.assume(z3.And(v >= -2 ** (w - 1), v < 2 ** (w - 1)))
        return v

    def fresh(self, st, name, ty):
        if ty.k == 'i':
            if ty.a == 1:
                return z3.FreshConst(z3.BoolSort(), name)
            return self.fresh_int(st, name, ty.a)
        if ty.k == 'double':
            return self.fp.fresh(name, 64)
        if ty.k == 'float':
            return self.fp.fresh(name, 32)
        if ty.k == 'ptr':
            v = z3.FreshConst(z3.IntSort(), name)
            st.assume(v >= 0)
            return Opq(v)
        raise Unsupported('fresh %r' % ty)

    def sort_of(self, ty):
        if ty.k == 'i':
            return z3.IntSort()
        if ty.k == 'double':
            return self.fp.sort(64)
        if ty.k == 'float':
            return self.fp.sort(32)
        if ty.k == 'ptr':
            return z3.IntSort()
        raise Unsupported('sort %r' % ty)

    # ------------------------------------------------------------- regions
    def new_region(self, st, name, kind='obj', size=None, segs=(), default='init'):
        r = Region(name, kind, size)
        r.default = default
        r.segs = []
        arrs = []
        for (base, ty, ln, nm) in segs:
            esz = {'double': 8, 'float': 4, 'ptr': 8}.get(ty.k) or ty.a // 8
            r.segs.append(Seg(base, ty, esz, ln, nm))
            arrs.append(z3.FreshConst(z3.ArraySort(z3.IntSort(), self.sort_of(ty)), nm))
        st.mem[r.id] = RS({}, tuple(arrs))
        r.init_arrs = tuple(arrs)
        return r

    def array(self, st, name, ty, ln):
        """fresh array region; returns Ptr, initial z3 array"""
        r = self.new_region(st, name, segs=[(0, ty, ln, name)])
        return Ptr(r), r.init_arrs[0]

    def arr(self, st, r, i=0):
        self.fix(st, r.r if isinstance(r, Ptr) else r)
        return st.mem[(r.r if isinstance(r, Ptr) else r).id].arrs[i]

    def set_arr(self, st, r, a, i=0):
        r = r.r if isinstance(r, Ptr) else r
        self.fix(st, r)
        rs = st.mem[r.id].copy()
        l = list(rs.arrs)
        l[i] = a
        rs.arrs = tuple(l)
        st.mem[r.id] = rs
        if st.log is not None:
            st.log.setdefault((r, 's', i), r.segs[i].ty)

    def cell(self, st, r, off, ty):
        return self.load_cell(st, r.r if isinstance(r, Ptr) else r, off, ty)

    def set_cell(self, st, r, off, ty, v):
        self.store_cell(st, r.r if isinstance(r, Ptr) else r, off, ty, v)

    def load_cell(self, st, r, off, ty):
        rs = st.mem.get(r.id)
        sz = self.tysize(ty)
        if rs is not None and off in rs.cells:
            csz, v, cty = rs.cells[off]
            if cty.k == 'zero4':
                if all(rs.cells.get(o, (0, 0, cty))[2].k == 'zero4' and o in rs.cells for o in range(off, off + max(sz, 4), 4)):
                    return self.zero(ty)
                return self.fresh(st, '%s@%d?' % (r.name, off), ty)
            if csz == sz and cty.k == ty.k:
                return v
            if csz != sz:
                return self.fresh(st, '%s@%d?' % (r.name, off), ty)
            return self.coerce(st, v, cty, ty)
        if r.default == 'zero':
            return self.zero(ty)
        if r.default == 'uninit':
            return self.fresh(st, '%s@%d!uninit' % (r.name, off), ty)
        key = (off, repr(ty))
        if key not in r.init:
            v = r.maker(off, ty) if r.maker else None
            if v is None:
                v = self.fresh_global('%s@%d' % (r.name, off), ty)
            r.init[key] = v
        v = r.init[key]
        if ty.k == 'i' and ty.a > 1 and z3.is_expr(v) and not z3.is_int_value(v):
            st.assume(z3.And(v >= -2 ** (ty.a - 1), v < 2 ** (ty.a - 1)))
        return v

    def fresh_global(self, name, ty):
        s = State()
        return self.fresh(s, name, ty)

    def coerce(self, st, v, a, b):
        if a.k == 'ptr' and b.k == 'i' and isinstance(v, Ptr) and v.r is None:
            return 0
        if b.k == 'ptr' and isinstance(v, int) and v == 0:
            return NULL
        return self.fresh(st, 'coerce', b)

    def zero(self, ty):
        if ty.k == 'i':
            return False if ty.a == 1 else 0
        if ty.k == 'double':
            return self.fp.const(Fraction(0), 64)
        if ty.k == 'float':
            return self.fp.const(Fraction(0), 32)
        if ty.k == 'ptr':
            return NULL
        raise Unsupported('zero %r' % ty)

    def tysize(self, ty):
        return {'double': 8, 'float': 4, 'ptr': 8}.get(ty.k) or max(1, (ty.a or 8) // 8)

    def store_cell(self, st, r, off, ty, v, log=True):
        rs = st.mem.get(r.id)
        rs = rs.copy() if rs is not None else RS()
        sz = self.tysize(ty)
        for o in list(rs.cells):
            if o != off and o < off + sz and off < o + rs.cells[o][0]:
                z4 = rs.cells[o][2].k == 'zero4'
                del rs.cells[o]
                if not z4:
                    # partial overwrite: remember unknown
                    rs.cells[o] = (0, None, ir.VOID)
        rs.cells[off] = (sz, v, ty)
        st.mem[r.id] = rs
        if log and st.log is not None:
            st.log.setdefault((r, 'c', off), ty)

    def findseg(self, r, o):
        for i, s in enumerate(getattr(r, 'segs', ())):
            if isinstance(s.base, int) and o.c >= s.base and (i + 1 >= len(r.segs) or not isinstance(r.segs[i + 1].base, int) or o.c < r.segs[i + 1].base or o.t):
                return i, s
        if getattr(r, 'segs', ()) and o.t:
            return 0, r.segs[0]
        if getattr(r, 'segs', ()) and r.segs[0].base == 0:
            return 0, r.segs[0]
        return None, None

    def access(self, st, p, ty, what):
        """resolve pointer; returns (region, ('c',off)|('s',i,idx))"""
        if isinstance(p, Opq):
            raise Unsupported('%s through opaque pointer' % what)
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        r = p.r
        if r is None:
            self.oblige(st, False, 'null', '%s through NULL pointer' % what)
            return None, None
        if r.kind == 'func':
            raise Unsupported('%s of code' % what)
        rs = st.mem.get(r.id)
        if rs is not None and rs.freed:
            self.oblige(st, False, 'lifetime', '%s of released object %s' % (what, r.name))
        if r.kind == 'heap' and p.o.t and not getattr(r, 'segs', ()):
            self.add_seg(st, r, p.o.c, ty)
        self.fix(st, r)
        i, s = self.findseg(r, p.o)
        if s is not None:
            idx = p.o.idx(s.base, s.esz)
            if idx is None or (s.ty.k != ty.k) or (ty.k == 'i' and ty.a != s.ty.a):
                raise Unsupported('%s: misaligned or ill-typed array access in %s' % (what, r.name))
            if self.nla:
                self.collect(st, idx)
            if s.len is not None:
                self.oblige(st, z3.And(idx >= 0, idx < s.len), 'bounds', '%s of %s inside its bounds' % (what, r.name))
            return r, ('s', i, idx)
        if not p.o.const() and r.kind == 'global' and not getattr(r, 'segs', ()) and r.init and self.table(st, r, ty):
            return self.access(st, p, ty, what)
        if not p.o.const():
            raise Unsupported('%s at symbolic offset in %s' % (what, r.name))
        if r.size is not None:
            sz = self.tysize(ty)
            self.oblige(st, And(p.o.c >= 0, b2z(p.o.c + sz <= r.size) if isinstance(r.size, int) else i2z(r.size) >= p.o.c + sz),
                        'bounds', '%s of %s inside its bounds' % (what, r.name))
        return r, ('c', p.o.c)

    def load(self, st, p, ty):
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'havoc':
            return self.fresh(st, p.r.name, ty)
        r, w = self.access(st, p, ty, 'read')
        if r is None:
            return self.fresh(st, 'bad', ty)
        if r.kind == 'global':
            self.global_init(st, r)
        if w[0] == 'c' and ty.k == 'i' and ty.a == 8 and r.readonly and getattr(r, 'cstr', None) is not None:
            from contracts.text import cstr_of
            b = cstr_of(self, Ptr(r)) + b'\0'
            if 0 <= w[1] < len(b):
                return b[w[1]] - 256 * (b[w[1]] > 127)
        if w[0] == 'c':
            return self.load_cell(st, r, w[1], ty)
        v = z3.Select(st.mem[r.id].arrs[w[1]], w[2])
        if ty.k == 'i':
            st.assume(z3.And(v >= -2 ** (ty.a - 1), v < 2 ** (ty.a - 1)))
        if ty.k == 'ptr':
            return Opq(v)
        return v

    def store(self, st, p, ty, v):
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'havoc':
            return
        r, w = self.access(st, p, ty, 'write')
        if r is None:
            return
        if r.readonly:
            self.oblige(st, False, 'frame', 'write to %s, which must not change' % r.name)
        for h in self.store_hooks:
            h(self, st, r, w, v)
        if w[0] == 'c':
            self.store_cell(st, r, w[1], ty, v)
            return
        rs = st.mem[r.id].copy()
        l = list(rs.arrs)
        if ty.k == 'ptr':
            v = self.ptr_id(v)
        l[w[1]] = z3.Store(l[w[1]], w[2], i2z(v))
        rs.arrs = tuple(l)
        st.mem[r.id] = rs
        if st.log is not None:
            st.log.setdefault((r, 's', w[1]), ty)

    def ptr_id(self, v):
        if isinstance(v, Opq):
            return v.t
        if v.r is None:
            return z3.IntVal(0)
        if v.o.const() and v.o.c == 0:
            return z3.IntVal(10 ** 9 + v.r.id)
        raise Unsupported('pointer identity of %r' % v)

    def global_init(self, st, r):
        pass

    def global_ptr(self, m, name):
        f = self.lookup(m, name)
        if f is not None or name in m.decls:
            k = ('F', f.module.src if f is not None and f.internal else '', name)
            if k not in self.fnreg:
                r = Region(name, 'func')
                r.fn = f
                r.fname = name
                r.mod = m
                self.fnreg[k] = r
            return Ptr(self.fnreg[k])
        k = (m.src, name) if name in m.globals and m.globals[name][1] is not None else ('', name)
        if k not in self.globals:
            r = Region('@' + name, 'global')
            r.segs = []
            r.mod = m
            t, init, const = m.globals.get(name, (None, None, False))
            r.readonly = const
            r.gty, r.ginit = t, init
            if t is not None:
                try:
                    r.size = m.size(t)
                except Exception:
                    pass
            if init is not None and (const or name not in self.stored_globals(m)):
                if not const:
                    self.assumptions.add('static table %s is never modified after initialisation (no store to it in its module)' % name)
                self._ginit(r, m, 0, t, init)
            self.globals[k] = r
        return Ptr(self.globals[k])

    def stored_globals(self, m):
        if not hasattr(m, 'stored_globals'):
            out = set()

            def root(v):
                while v and v[0] == 'cgep':
                    v = v[2]
                if v and v[0] == 'glob':
                    out.add(v[1])
            for f in m.funcs.values():
                for b in f.blocks.values():
                    for i in b.ins:
                        if i.op == 'store':
                            root(i.args[1])
            m.stored_globals = out
        return m.stored_globals

    def fix(self, st, r):
        """array parts discovered later exist in every state"""
        rs = st.mem.get(r.id)
        if rs is None:
            rs = st.mem[r.id] = RS()
        n = len(getattr(r, 'segs', ()))
        if len(rs.arrs) < n:
            rs = rs.copy()
            rs.arrs = tuple(rs.arrs) + tuple(r.init_arrs[len(rs.arrs):n])
            st.mem[r.id] = rs

    def table(self, st, r, ty):
        """constant table read at a symbolic index: give it its content as an array"""
        t = r.mod.resolve(r.gty)
        if t.k != 'arr' or r.mod.resolve(t.b).k != ty.k or ty.k == 'ptr':
            return False
        esz = self.tysize(ty)
        n = r.mod.size(t) // esz
        vals = {o: v for (o, _), v in r.init.items()}
        if set(vals) != {i * esz for i in range(n)}:
            return False
        a = z3.FreshConst(z3.ArraySort(z3.IntSort(), self.sort_of(ty)), r.name)
        for i in range(n):
            v = vals[i * esz]
            a = z3.Store(a, i, i2z(v) if ty.k == 'i' else v)
        r.segs = [Seg(0, ty, esz, z3.IntVal(n), r.name)]
        r.init_arrs = (a,)
        return True

    def add_seg(self, st, r, base, ty, ln=None, name=None):
        if not hasattr(r, 'segs'):
            r.segs = []
        esz = self.tysize(ty)
        if ln is None and r.size is not None:
            ln = Off().add(1, r.size).idx(base, esz)
            if ln is None:
                ln = (i2z(r.size) - base) / esz
        nm = name or r.name + '.arr'
        r.segs.append(Seg(base, ty, esz, ln, nm))
        so = self.sort_of(ty)
        if r.default == 'zero':
            a = z3.K(z3.IntSort(), i2z(self.zero(ty)) if ty.k != 'ptr' else z3.IntVal(0))
        else:
            a = z3.FreshConst(z3.ArraySort(z3.IntSort(), so), nm)
        r.init_arrs = tuple(getattr(r, 'init_arrs', ())) + (a,)
        self.fix(st, r)

    def _ginit(self, r, m, off, t, init):
        t = m.resolve(t)
        if init[0] == 'cstr':
            if off == 0:
                r.cstr = init[1]
            return
        if t.k == 'struct' and init[0] == 'agg':
            for i, (et, ev) in enumerate(init[1]):
                o, _ = m.field_off(t, i)
                self._ginit(r, m, off + o, et, ev)
        elif t.k == 'arr' and init[0] == 'agg':
            for i, (et, ev) in enumerate(init[1]):
                self._ginit(r, m, off + i * m.size(t.b), et, ev)
        elif init[0] == 'zero' and t.k in ('struct', 'arr'):
            r.default = 'zero'
            if t.k == 'arr' and t.b.k == 'i' and t.b.a == 8 and off == 0:
                r.cstr = 'c"\\00"'
        else:
            try:
                r.init[(off, repr(t))] = self.const(m, t, init)
            except Unsupported:
                pass

    def const(self, m, ty, v):
        k = v[0]
        if k == 'int':
            if ty.a == 1:
                return bool(v[1])
            n = v[1]
            return n
        if k == 'fp':
            w = 64 if ty.k == 'double' else 32
            x = v[1]
            return self.fp.const(x, w)
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(m, v[1])
        if k in ('undef',):
            return self.fresh_global('undef', ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'cgep':
            base = self.const(m, ir.PTR, v[2])
            return self.gep(None, m, base, v[1], [(t, self.const(m, t, x)) for t, x in v[3]])
        raise Unsupported('constant %r' % (v,))

    def val(self, st, fn, ty, v):
        if v[0] == 'reg':
            try:
                return st.loc[v[1]]
            except KeyError:
                raise Unsupported('undefined register ' + v[1])
        return self.const(fn.module, ty, v)

    def gep(self, st, m, base, bt, idx):
        if isinstance(base, Opq):
            if all(isinstance(x, int) and x == 0 for _, x in idx):
                return base
            off = base.o
        elif isinstance(base, Ptr):
            if base.r is None and not all(isinstance(x, int) and x == 0 for _, x in idx):
                off = base.o
            else:
                off = base.o
        else:
            raise Unsupported('gep of %r' % (base,))
        t = bt
        first = True
        for it, x in idx:
            if first:
                off = off.add(m.size(t), x)
                first = False
                continue
            t = m.resolve(t)
            if t.k == 'struct':
                o, e = m.field_off(t, x)
                off = Off(off.c + o, off.t)
                t = e
            elif t.k == 'arr':
                off = off.add(m.size(t.b), x)
                t = t.b
            else:
                raise Unsupported('gep type %r' % t)
        if isinstance(base, Opq):
            return Opq(base.t, off)
        return Ptr(base.r, off)

    # ------------------------------------------------------------- ints
    def u(self, a, w):
        if isinstance(a, int):
            return a % (1 << w)
        return z3.If(a < 0, a + (1 << w), a)

    def wrapc(self, a, w):
        a %= 1 << w
        return a - (1 << w) if a >= 1 << (w - 1) else a

    def wrap(self, st, a, w):
        if isinstance(a, int):
            return self.wrapc(a, w)
        if self.valid(st, z3.And(a >= -2 ** (w - 1), a < 2 ** (w - 1)), level=0):
            return a
        h = 2 ** (w - 1)
        return (a + h) % (1 << w) - h

    def binop(self, st, op, a, b, w, flags):
        if w == 1:
            a, b = b2z(a), b2z(b)
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op == 'xor':
                return z3.simplify(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        ca, cb = isinstance(a, int), isinstance(b, int)
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else self.mul(a, b)
            if ca and cb:
                return self.wrapc(r, w)
            r = z3.simplify(r) if z3.is_expr(r) else r
            if z3.is_int_value(r):
                return self.wrapc(r.as_long(), w)
            if 'nsw' in flags:
                ok = z3.And(r >= -2 ** (w - 1), r < 2 ** (w - 1))
                if self.check_ovf:
                    self.oblige(st, ok, 'overflow', 'signed %s does not overflow' % op)
                else:
                    self.assumptions.add('signed integer arithmetic does not overflow (treated as mathematical)')
                return r
            return self.wrap(st, r, w)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if op[0] == 'u':
                a, b = self.u(a, w), self.u(b, w)
                ca, cb = isinstance(a, int), isinstance(b, int)
            if ca and cb:
                if b == 0:
                    self.oblige(st, False, 'div', 'division by zero')
                    return 0
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return self.wrapc(q if op[1:] == 'div' else a - q * b, w)
            self.oblige(st, i2z(b) != 0, 'div', 'divisor is not zero')
            az, bz = i2z(a), i2z(b)
            aa = az if op[0] == 'u' else z3.If(az >= 0, az, -az)
            bb = bz if op[0] == 'u' else z3.If(bz >= 0, bz, -bz)
            if not cb and not ca and (op[0] == 'u' or self.valid(st, z3.And(az >= 0, bz > 0), 0)):
                return self.symdiv(st, z3.simplify(az), bz, op)
            if not cb and not ca:
                q0 = z3.Function('idiv0', z3.IntSort(), z3.IntSort(), z3.IntSort())(aa, bb)
                st.assume(z3.And(q0 >= 0, q0 * bb <= aa, aa < q0 * bb + bb))
            else:
                q0 = aa / bb
            if op[0] == 'u':
                q = q0
            else:
                q = z3.If((az >= 0) == (bz >= 0), q0, -q0)
            return q if op[1:] == 'div' else az - q * bz
        if op == 'and':
            if ca and cb:
                return self.wrapc(a & b, w)
            if ca:
                a, b, ca, cb = b, a, cb, ca
            if cb:
                if b < 0:
                    return a - self.bits(a, ~b, w)
                return self.bits(a, b, w)
            f = z3.Function('bvand%d' % w, z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(f >= 0, f <= a, f <= b)))
            return f
        if op == 'or':
            if ca and cb:
                return self.wrapc(a | b, w)
            if ca:
                a, b, ca, cb = b, a, cb, ca
            if cb:
                if b < 0:
                    return a + b - self.binop(st, 'and', a, b, w, [])
                return a + b - self.bits(a, b, w)
            f = z3.Function('bvor%d' % w, z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(f >= a, f >= b, f <= a + b)))
            return f
        if op == 'xor':
            if ca and cb:
                return self.wrapc(a ^ b, w)
            if ca:
                a, b, ca, cb = b, a, cb, ca
            if cb and b == -1:
                return -1 - a
            if cb and b >= 0:
                return a + b - 2 * self.bits(a, b, w)
            raise Unsupported('xor')
        if op == 'shl':
            if cb:
                return self.wrap(st, a * (1 << b), w)
            if ca:
                f = z3.Function('shl%d' % w, z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
                return f
        if op == 'lshr' and cb:
            u = self.u(a, w)
            return u >> b if isinstance(u, int) else u / (1 << b)
        if op == 'ashr' and cb:
            return a >> b if ca else a / (1 << b)
        raise Unsupported('int op %s' % op)

    # products of unknown integers: opaque monomials, exact laws instantiated
    def mul(self, a, b):
        if not self.nla or isinstance(a, int) or isinstance(b, int) or z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        t = z3.simplify(a * b, som=True)
        return self.poly(t)

    def poly(self, t):
        if not z3.is_expr(t):
            return t
        if z3.is_add(t):
            r = None
            for c in t.children():
                c = self.poly(c)
                r = c if r is None else r + c
            return r
        if z3.is_mul(t):
            coef, fs = 1, []

            def flat(x):
                nonlocal coef
                if z3.is_int_value(x):
                    coef *= x.as_long()
                elif z3.is_mul(x) or (z3.is_app(x) and x.decl().name() == 'prod!'):
                    for y in x.children():
                        flat(y)
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(x.arg(1)):
                    for _ in range(x.arg(1).as_long()):
                        flat(x.arg(0))
                else:
                    fs.append(x)
            flat(t)
            if not fs:
                return z3.IntVal(coef)
            fs.sort(key=lambda x: x.get_id())
            r = fs[0]
            for f in fs[1:]:
                r = self.fp.prodf(r, f)
                self.prods[r.get_id()] = r
            return r if coef == 1 else coef * r
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER:
            return self.poly(z3.IntVal(1) * t) if False else self._pow(t)
        return t

    def _pow(self, t):
        if not z3.is_int_value(t.arg(1)):
            return t
        x = t.arg(0)
        r = x
        for _ in range(t.arg(1).as_long() - 1):
            r = self.fp.prodf(r, x)
            self.prods[r.get_id()] = r
        return r

    def collect(self, st, t):
        """state facts: the monomials of t that share a factor c add up to one product with c"""
        t = z3.simplify(i2z(t), som=True)
        parts = []

        def split(x, c):
            if z3.is_add(x):
                for y in x.children():
                    split(y, c)
            elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
                split(x.arg(1), c * x.arg(0).as_long())
            else:
                parts.append((c, x))
        split(t, 1)
        fac = {}
        for c, x in parts:
            if x.get_id() in self.prods:
                for f in (x.arg(0), x.arg(1)):
                    fac[f.get_id()] = f
        for f in fac.values():
            g, tot = None, None
            cnt = 0
            for c, x in parts:
                if x.eq(f):
                    o = z3.IntVal(1)
                elif x.get_id() in self.prods and x.arg(0).eq(f):
                    o = x.arg(1)
                elif x.get_id() in self.prods and x.arg(1).eq(f):
                    o = x.arg(0)
                else:
                    continue
                cnt += 1
                g = c * o if g is None else g + c * o
                tot = c * x if tot is None else tot + c * x
            if cnt < 2:
                continue
            q = self.prodf(z3.simplify(g), f)
            if q is not None:
                st.assume(q == tot)

    def prodf(self, a, b):
        if z3.is_int_value(a) or z3.is_int_value(b):
            return None
        fs = sorted((a, b), key=lambda x: x.get_id())
        r = self.fp.prodf(*fs)
        self.prods[r.get_id()] = r
        return r

    def prod_lemmas(self, t, known):
        a, b = t.arg(0), t.arg(1)
        I = z3.Implies
        out = []
        for x, y in ((a, b), (b, a)):
            out += [I(x == 0, t == 0), I(x == 1, t == y), I(x == -1, t == -y)]
            out += [I(z3.And(x >= 1, y >= 0), t >= y), I(z3.And(x >= 1, y <= 0), t <= y), I(z3.And(x <= -1, y >= 0), t <= -y), I(z3.And(x <= -1, y <= 0), t >= -y)]
        for u in list(known.values()):
            if u.get_id() not in self.prods or u.eq(t):
                continue
            for c, x in ((a, b), (b, a)):
                for c2, y in ((u.arg(0), u.arg(1)), (u.arg(1), u.arg(0))):
                    if c.eq(c2):
                        out += [I(x == y, t == u), I(x == y + 1, t == u + c), I(y == x + 1, u == t + c),
                                I(z3.And(x >= y + 2, c >= 0), t >= u + 2 * c), I(z3.And(y >= x + 2, c >= 0), u >= t + 2 * c),
                                I(z3.And(x >= y + 2, c <= 0), t <= u + 2 * c), I(z3.And(y >= x + 2, c <= 0), u <= t + 2 * c),
                                I(z3.And(x >= y + 1, c >= 0), t >= u + c), I(z3.And(y >= x + 1, c >= 0), u >= t + c),
                                I(z3.And(x >= y + 1, c <= 0), t <= u + c), I(z3.And(y >= x + 1, c <= 0), u <= t + c)]
        return out

    def symdiv(self, st, a, b, op):
        """quotient and remainder of a >= 0 by a symbolic b > 0, without nonlinear terms:
           a = P + r, 0 <= r < b, P = q b through its monotonicity in q"""
        Z = z3.IntSort()
        f = lambda n: z3.Function(n, Z, Z, Z)(a, b)
        q, r, P = f('idiv'), f('irem'), f('idivmul')
        st.assume(z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b, a == P + r, q >= 0, q <= a, z3.Implies(q >= 1, P >= b), z3.Implies(q == 0, P == 0), z3.Implies(a < b, q == 0))))
        for (d, a1, q1, r1, P1) in self.idivs:
            if d.eq(b) and not a1.eq(a):
                st.assume(z3.Implies(z3.And(a >= 0, a1 >= 0, b > 0),
                                     z3.And(z3.Implies(q1 >= q + 1, P1 >= P + b), z3.Implies(q >= q1 + 1, P >= P1 + b), z3.Implies(q == q1, P == P1),
                                            z3.Implies(z3.And(a != a1, a - a1 < b, a1 - a < b), r != r1))))
        if not any(d.eq(b) and a1.eq(a) for d, a1, *_ in self.idivs):
            self.idivs.append((b, a, q, r, P))
        return q if op[1:] == 'div' else r

    def bits(self, a, mask, w):
        """a & mask for constant mask >= 0 (a canonical signed)"""
        if isinstance(a, int):
            return a & mask
        r = 0
        lo = 0
        while mask >> lo:
            if (mask >> lo) & 1:
                hi = lo
                while (mask >> hi) & 1:
                    hi += 1
                x = a if lo == 0 else a / (1 << lo)
                x = x % (1 << (hi - lo))
                if lo:
                    x = x * (1 << lo)
                r = r + x
                lo = hi
            else:
                lo += 1
        return r

    def icmp(self, st, pred, a, b, ty):
        if ty.k == 'ptr':
            return self.pcmp(st, pred, a, b)
        w = ty.a
        if w == 1:
            a, b = b2z(a), b2z(b)
            if pred == 'eq':
                return z3.simplify(a == b)
            if pred == 'ne':
                return z3.simplify(z3.Xor(a, b))
            raise Unsupported('i1 icmp')
        if pred in ('eq', 'ne'):
            r = a == b
            if isinstance(r, bool):
                return r if pred == 'eq' else not r
            return r if pred == 'eq' else z3.Not(r)
        if pred[0] == 'u':
            a, b = self.u(a, w), self.u(b, w)
        r = {'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b}[pred[1:]]()
        return r

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq):
            if pred not in ('eq', 'ne'):
                raise Unsupported('pointer order on opaque')
            if isinstance(b, Opq) and not isinstance(a, Opq):
                a, b = b, a
            if isinstance(b, Opq):
                r = (a.t == b.t)
                if a.o.term() is not None and (a.o.c or a.o.t or b.o.c or b.o.t):
                    r = z3.And(r, a.o.term() == b.o.term())
            elif b.r is None:
                r = a.t == 0
            else:
                r = a.t == self.ptr_id(b)
            return r if pred == 'eq' else z3.Not(r)
        if a.r is b.r:
            x, y = a.o.plus(b.o, -1), None
            t = x.term()
            z = {'eq': lambda: t == 0, 'ne': lambda: t != 0, 'ult': lambda: t < 0, 'ule': lambda: t <= 0,
                 'ugt': lambda: t > 0, 'uge': lambda: t >= 0, 'slt': lambda: t < 0, 'sgt': lambda: t > 0}[pred]()
            z = z3.simplify(z)
            return True if z3.is_true(z) else False if z3.is_false(z) else z
        if pred == 'eq':
            return False
        if pred == 'ne':
            return True
        raise Unsupported('pointer order between objects')

    # ------------------------------------------------------------- execution
    def call_fn(self, st, fn, args):
        """inline execution of a defined function; returns [(st, ret)]"""
        if self.inline_depth > 40:
            raise Unsupported('inline depth (recursion?) at ' + fn.name)
        self.functions_executed.add((fn.module.src, fn.name))
        self.inline_depth += 1
        saved = st.loc
        sfn, sln = self.curfn, self.curline
        sl = st.loops
        try:
            st.loc = {n: a for (t, n), a in zip(fn.params, args)}
            st.loops = ()
            st.fdepth += 1
            self.curfn = fn.name
            outs = self.run(st, fn, fn.entry.name, None, None)
            res = []
            for o in outs:
                if o[0] != 'ret':
                    raise Unsupported('control leaves the function by %s' % (o[0],))
                s = o[1]
                s.loc = dict(saved)
                s.loops = sl
                s.fdepth -= 1
                res.append((s, o[2]))
            if self.merge and self.inline_depth > 1 and len(res) > 1:
                for s, v in res:
                    s.loc = dict(s.loc)
                    s.loc['#ret'] = v
                l = self.join([s for s, _ in res], None)
                res = [(s, s.loc.pop('#ret')) for s in l]
            return res
        finally:
            self.inline_depth -= 1
            self.curfn, self.curline = sfn, sln

    def run(self, st, fn, blk, prev, loop, first=True):
        """explore from block blk; loop: current ir.Loop or None.
        returns list of ('ret',st,val) | ('back',st,prev) | ('exit',st,blk,prev)"""
        outs = []
        work = [(st, blk, prev, first)]
        while work:
            if self.merge and len(work) > 1:
                # the pending block that comes first in the control-flow order, with every path pending there
                k = min(work, key=lambda w: fn.rpo[w[1]])[1]
                grp = [w for w in work if w[1] == k]
                if len(grp) > 1 and k not in fn.loops and (loop is None or k in loop.body):
                    work = [w for w in work if w[1] != k]
                    for s, b, p, fe in grp:
                        self.enter(s, fn, k, p)
                    for s in self.join([w[0] for w in grp], fn, k):
                        for (s2, nb) in self.exec_block(s, fn, k, 'HEADER', outs):
                            work.append((s2, nb, k, False))
                    continue
                work.remove(grp[0])
                work.append(grp[0])
            st, blk, prev, fresh_entry = work.pop()
            if loop is not None:
                if blk == loop.header and not fresh_entry:
                    outs.append(('back', st, prev))
                    continue
                if blk not in loop.body:
                    outs.append(('exit', st, blk, prev))
                    continue
            if blk in fn.loops and not (loop is not None and blk == loop.header and fresh_entry == 'in'):
                inner = fn.loops[blk]
                for o in self.exec_loop(st, fn, inner, prev):
                    if o[0] == 'ret':
                        outs.append(o)
                    else:
                        work.append((o[1], o[2], o[3], False))
                continue
            for (s2, nb) in self.exec_block(st, fn, blk, prev, outs):
                work.append((s2, nb, blk, False))
            if len(outs) + len(work) > self.maxpaths:
                raise Unsupported('too many paths in ' + fn.name)
        return outs

    # ------------------------------------------------------------ path joins
    def enter(self, st, fn, blk, prev):
        vals = {}
        for ins in fn.blocks[blk].ins:
            if ins.op != 'phi':
                break
            for v, b in ins.x:
                if b == prev:
                    vals[ins.res] = self.val(st, fn, ins.ty, v)
                    break
            else:
                raise Unsupported('phi without incoming edge')
        st.loc = dict(st.loc)
        st.loc.update(vals)

    def join(self, sts, fn, blk=None):
        out = []
        for s in sts:
            for i, o in enumerate(out):
                j = self.join2(o, s, self.liveat(fn, blk) if fn is not None else None)
                if j is not None:
                    out[i] = j
                    self.stats['joins'] = self.stats.get('joins', 0) + 1
                    break
            else:
                out.append(s)
        return out

    def liveat(self, fn, blk):
        if not hasattr(fn, 'live_at'):
            fn.live_at = {}
        if blk not in fn.live_at:
            seen, work, use = set(), [blk], set()
            while work:
                b = work.pop()
                if b in seen:
                    continue
                seen.add(b)
                for ins in fn.blocks[b].ins:
                    for v in regs_of(ins):
                        use.add(v)
                work.extend(fn.blocks[b].succ)
            fn.live_at[blk] = use
        return fn.live_at[blk]

    def join2(self, a, b, live):
        if a.flags != b.flags or a.loops != b.loops or a.fdepth != b.fdepth or a.log is not b.log:
            return None
        if set(a.g) != set(b.g) or any(not (a.g[k] is b.g[k] or _same(a.g[k], b.g[k]) or (k in self.mixghosts and z3.is_expr(a.g[k]) and z3.is_expr(b.g[k]) and a.g[k].sort() == b.g[k].sort())) for k in a.g):
            return None
        p, q = a.pc, b.pc
        ra, rb = [], []
        while p is not q:
            if q is None or (p is not None and p.n > q.n):
                ra.append(p.f)
                p = p.p
            elif p is None or q.n > p.n:
                rb.append(q.f)
                q = q.p
            else:
                ra.append(p.f)
                rb.append(q.f)
                p, q = p.p, q.p
        ra.reverse()
        rb.reverse()
        ida, idb = {f.get_id(): f for f in ra}, {f.get_id(): f for f in rb}
        com = [f for f in ra if f.get_id() in idb]
        ra = [f for f in ra if f.get_id() not in idb]
        rb = [f for f in rb if f.get_id() not in ida]
        sel = None
        for x, y, pos in ((rb, ida, True), (ra, idb, False)):
            for f in x:
                if z3.is_not(f) and f.arg(0).get_id() in y:
                    sel = f.arg(0) if pos else f
                    break
            if sel is not None:
                break
        if sel is None:
            sel = z3.FreshConst(z3.BoolSort(), 'path')
        new = []

        def mix(x, y):
            if x is y:
                return True, x
            if isinstance(x, Ptr) or isinstance(y, Ptr) or isinstance(x, Opq) or isinstance(y, Opq):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and x.o.c == y.o.c and len(x.o.t) == len(y.o.t) and all(
                        s == t and u.eq(v) for (s, u), (t, v) in zip(x.o.t, y.o.t)):
                    return True, x
                if isinstance(x, Opq) and isinstance(y, Opq) and x.o.term().eq(y.o.term()):
                    return True, Opq(z3.If(sel, x.t, y.t), x.o)
                return False, None
            if isinstance(x, bool) and isinstance(y, bool):
                return (True, x) if x == y else (True, sel if x else z3.Not(sel))
            if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) and not isinstance(y, bool) and x == y:
                return True, x
            if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)) or x is None or y is None:
                return False, None
            x = b2z(x) if isinstance(x, bool) else i2z(x)
            y = b2z(y) if isinstance(y, bool) else i2z(y)
            if not (z3.is_expr(x) and z3.is_expr(y)) or x.sort() != y.sort():
                return False, None
            if x.eq(y):
                return True, x
            return True, z3.If(sel, x, y)
        s = a.fork()
        loc = {}
        for k in a.loc:
            if k in b.loc and (live is None or k in live):
                ok, v = mix(a.loc[k], b.loc[k])
                if not ok:
                    return None
                loc[k] = v
        mem = {}
        for rid in set(a.mem) | set(b.mem):
            x, y = a.mem.get(rid), b.mem.get(rid)
            if x is y:
                mem[rid] = x
                continue
            r = Region.reg[rid]
            if x is None or y is None:
                if r.kind == 'alloca':
                    mem[rid] = x or y
                    continue
                if r.kind == 'heap':
                    return None
                x, y = x or RS(), y or RS()
            if x.freed != y.freed:
                return None
            n = max(len(x.arrs), len(y.arrs))
            xs = tuple(x.arrs) + tuple(r.init_arrs[len(x.arrs):n]) if n else ()
            ys = tuple(y.arrs) + tuple(r.init_arrs[len(y.arrs):n]) if n else ()
            arrs = []
            for u, v in zip(xs, ys):
                if u is v or u.eq(v):
                    arrs.append(u)
                else:
                    return None
            cells = {}
            for off in set(x.cells) | set(y.cells):
                cx, cy = x.cells.get(off), y.cells.get(off)
                if cx is None or cy is None:
                    c = cx or cy
                    if c[2].k in ('zero4', 'void') or c[1] is None:
                        return None
                    st0 = a if cx is None else b
                    if any(o < off + c[0] and off < o + w[0] for o, w in (x if cx is None else y).cells.items()):
                        return None
                    v0 = self.load_cell(st0, r, off, c[2])
                    cx, cy = cx or (c[0], v0, c[2]), cy or (c[0], v0, c[2])
                if cx is cy:
                    cells[off] = cx
                    continue
                if cx[0] != cy[0] or cx[2].k != cy[2].k or (cx[2].k in ('zero4', 'void')):
                    if cx[2].k == cy[2].k and cx[0] == cy[0]:
                        cells[off] = cx
                        continue
                    return None
                ok, v = mix(cx[1], cy[1])
                if not ok:
                    return None
                cells[off] = (cx[0], v, cx[2])
            mem[rid] = RS(cells, tuple(arrs), x.freed)
        s.pc = p
        for f in com:
            s.assume(f)
        if ra:
            s.assume(z3.Implies(sel, z3.And(ra)))
        if rb:
            s.assume(z3.Implies(z3.Not(sel), z3.And(rb)))
        s.mem, s.loc = mem, loc
        for k in a.g:
            if not (a.g[k] is b.g[k] or _same(a.g[k], b.g[k])):
                s.g[k] = z3.If(sel, a.g[k], b.g[k])
        return s

    def exec_block(self, st, fn, blk, prev, outs, skip_phi=False):
        B = fn.blocks[blk]
        # phis
        if not (fn.loops.get(blk) and skip_phi is None):
            vals = {}
            for ins in B.ins:
                if ins.op != 'phi':
                    break
                if prev == 'HEADER':
                    continue
                for v, b in ins.x:
                    if b == prev:
                        vals[ins.res] = self.val(st, fn, ins.ty, v)
                        break
                else:
                    raise Unsupported('phi without incoming edge')
            st.loc.update(vals)
        work = [(st, 0)]
        res = []
        while work:
            st, i = work.pop()
            while True:
                ins = B.ins[i]
                if ins.line:
                    self.curline = ins.line
                i += 1
                op = ins.op
                if op == 'phi':
                    continue
                if op == 'br':
                    if not ins.args:
                        res.append((st, ins.x[0]))
                    else:
                        c = self.val(st, fn, ir.I1, ins.args[0])
                        res.extend(self.branch(st, c, ins.x[0], ins.x[1]))
                    break
                if op == 'switch':
                    v = self.val(st, fn, ins.ty, ins.args[0])
                    d, cs = ins.x
                    if isinstance(v, int):
                        t = d
                        for c, b in cs:
                            if c == v:
                                t = b
                        res.append((st, t))
                        break
                    bytgt = {}
                    for c, b in cs:
                        bytgt.setdefault(b, []).append(c)
                    for b, cc in bytgt.items():
                        f = z3.Or([v == c for c in cc])
                        if self.feasible(st, f):
                            s2 = st.fork()
                            s2.assume(f)
                            res.append((s2, b))
                    f = z3.And([v != c for c, _ in cs])
                    if d not in bytgt or True:
                        if self.feasible(st, f):
                            s2 = st.fork()
                            s2.assume(f)
                            res.append((s2, d))
                    break
                if op == 'ret':
                    v = self.val(st, fn, ins.ty, ins.args[0]) if ins.args else None
                    self.stats['paths'] += 1
                    outs.append(('ret', st, v))
                    break
                if op == 'unreachable':
                    break
                if op == 'call':
                    rs = self.exec_call(st, fn, ins)
                    if len(rs) == 1:
                        st = rs[0][0]
                        if ins.res:
                            st.loc[ins.res] = rs[0][1]
                        continue
                    for s2, r in rs:
                        if ins.res:
                            s2.loc[ins.res] = r
                        work.append((s2, i))
                    break
                if op == 'select':
                    rs = self.exec_select(st, fn, ins)
                    if len(rs) == 1:
                        st = rs[0]
                        continue
                    for s2 in rs:
                        work.append((s2, i))
                    break
                self.exec_ins(st, fn, ins)
        return res

    def branch(self, st, c, a, b):
        if isinstance(c, bool):
            return [(st, a if c else b)]
        c = z3.simplify(c) if z3.is_true(c) or z3.is_false(c) else c
        if z3.is_true(c):
            return [(st, a)]
        if z3.is_false(c):
            return [(st, b)]
        ft = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c)) if ft else True
        res = []
        if ft and ff:
            s2 = st.fork()
            s2.assume(z3.Not(c))
            st.assume(c)
            return [(st, a), (s2, b)]
        if ft:
            return [(st.assume(c), a)]
        return [(st.assume(z3.Not(c)), b)]

    def exec_select(self, st, fn, ins):
        c = self.val(st, fn, ir.I1, ins.args[0])
        x = self.val(st, fn, ins.ty, ins.args[1])
        y = self.val(st, fn, ins.ty, ins.args[2])
        if not isinstance(c, bool):
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if isinstance(c, bool):
            st.loc[ins.res] = x if c else y
            return [st]
        if ins.ty.k == 'ptr' or (self.unroll and ins.ty.k == 'i' and (self.unroll_if is None or self.unroll_if(fn))):
            if isinstance(x, Opq) and isinstance(y, Opq) and x.o.term().eq(y.o.term()):
                st.loc[ins.res] = Opq(z3.If(c, x.t, y.t), x.o)
                return [st]
            res = []
            for cond, v in ((c, x), (z3.Not(c), y)):
                if self.feasible(st, cond):
                    s2 = st.fork()
                    s2.assume(cond)
                    s2.loc[ins.res] = v
                    res.append(s2)
            return res
        if ins.ty.k == 'i' and ins.ty.a == 1:
            st.loc[ins.res] = z3.If(c, b2z(x), b2z(y))
        else:
            st.loc[ins.res] = z3.If(c, i2z(x), i2z(y))
        return [st]

    def exec_ins(self, st, fn, ins):
        op = ins.op
        m = fn.module
        if op == 'load':
            st.loc[ins.res] = self.load(st, self.val(st, fn, ir.PTR, ins.args[0]), m.resolve(ins.ty))
        elif op == 'store':
            self.store(st, self.val(st, fn, ir.PTR, ins.args[1]), m.resolve(ins.ty), self.val(st, fn, ins.ty, ins.args[0]))
        elif op == 'getelementptr':
            base = self.val(st, fn, ir.PTR, ins.args[0])
            bt, idx = ins.x
            st.loc[ins.res] = self.gep(st, m, base, bt, [(t, self.val(st, fn, t, v)) for t, v in idx])
        elif op in ir.BIN:
            st.loc[ins.res] = self.binop(st, op, self.val(st, fn, ins.ty, ins.args[0]), self.val(st, fn, ins.ty, ins.args[1]), ins.ty.a, ins.x)
        elif op in ir.FBIN:
            a, b = (self.val(st, fn, ins.ty, v) for v in ins.args)
            F = self.fp
            if op == 'fadd':
                r = F.add(a, b)
            elif op == 'fsub':
                r = F.sub(a, b)
            elif op == 'fmul':
                r = F.mul(a, b)
            elif op == 'fdiv':
                r = F.div(a, b)
            else:
                r = F.fun2('frem', a, b)
            st.loc[ins.res] = r
        elif op == 'fneg':
            st.loc[ins.res] = self.fp.neg(self.val(st, fn, ins.ty, ins.args[0]))
        elif op == 'icmp':
            st.loc[ins.res] = self.icmp(st, ins.x, self.val(st, fn, ins.ty, ins.args[0]), self.val(st, fn, ins.ty, ins.args[1]), ins.ty)
        elif op == 'fcmp':
            st.loc[ins.res] = self.fp.cmp(ins.x, self.val(st, fn, ins.ty, ins.args[0]), self.val(st, fn, ins.ty, ins.args[1]))
        elif op in ir.CAST:
            st.loc[ins.res] = self.cast(st, op, self.val(st, fn, ins.x, ins.args[0]), ins.x, ins.ty)
        elif op == 'alloca':
            t = m.resolve(ins.ty)
            n = self.val(st, fn, ir.I64, ins.args[0])
            if t.k == 'arr' and m.resolve(t.b).k in ('i', 'double', 'float', 'ptr'):
                e = m.resolve(t.b)
                r = self.new_region(st, fn.name + ins.res, 'alloca', segs=[(0, e, z3.IntVal(t.a), ins.res)], default='uninit')
            elif isinstance(n, int) and n == 1:
                r = self.new_region(st, fn.name + ins.res, 'alloca', size=m.size(t), default='uninit')
            else:
                r = self.new_region(st, fn.name + ins.res, 'alloca', segs=[(0, t, i2z(n), ins.res)], default='uninit')
            st.loc[ins.res] = Ptr(r)
        elif op == 'freeze':
            st.loc[ins.res] = self.val(st, fn, ins.ty, ins.args[0])
        else:
            raise Unsupported('instruction ' + op)

    def cast(self, st, op, v, a, b):
        F = self.fp
        if op == 'sext':
            if a.a == 1:
                return (-1 if v else 0) if isinstance(v, bool) else z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == 'zext':
            if a.a == 1:
                return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.u(v, a.a)
        if op == 'trunc':
            if b.a == 1:
                return bool(v & 1) if isinstance(v, int) else (v % 2 == 1)
            return self.wrap(st, v, b.a)
        if op in ('sitofp', 'uitofp'):
            if op == 'uitofp':
                v = self.u(v, a.a) if a.a > 1 else (z3.If(b2z(v), z3.IntVal(1), z3.IntVal(0)))
            return F.itof(v, 64 if b.k == 'double' else 32)
        if op == 'fpext':
            return F.ext(v)
        if op == 'fptrunc':
            return F.trunc(v)
        if op in ('fptosi', 'fptoui'):
            r = F.ftoi(v)
            return r
        if op == 'bitcast':
            if a.k == b.k:
                return v
        if op == 'ptrtoint':
            if isinstance(v, Opq):
                return v.t + v.o.term() if (v.o.c or v.o.t) else v.t
            if v.r is None:
                return v.o.c if v.o.const() else v.o.term()
            base = self.addr(v.r)
            return base + v.o.term()
        if op == 'inttoptr':
            if isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported('inttoptr')
        if op == 'bitcast' and a.k in ('double', 'float') and b.k == 'i':
            w = F.w(v)
            fn = z3.Function('bits%d' % w, F.sort(w), z3.IntSort())
            r, k = fn(v), F.key(v)
            st.assume(z3.And(r >= -2 ** (b.a - 1), r < 2 ** (b.a - 1), z3.Implies(z3.And(z3.Not(F.nan(v)), k != 0), (r < 0) == (k < 0))))
            return r
        raise Unsupported('cast %s' % op)

    def addr(self, r):
        if not hasattr(r, 'addr'):
            r.addr = z3.Int('addr!%s!%d' % (r.name, r.id))
        return r.addr

    # ------------------------------------------------------------- calls
    def exec_call(self, st, fn, ins):
        cal = ins.x
        args = [self.val(st, fn, t, v) for t, v in ins.args] if not (cal[0] == 'glob' and cal[1].startswith('llvm.dbg')) else []
        if cal[0] == 'glob':
            return self.dispatch(st, fn.module, cal[1], args, ins)
        p = self.val(st, fn, ir.PTR, cal)
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'func':
            f = p.r.fn
            return self.dispatch(st, f.module if f is not None else fn.module, p.r.fname, args, ins)
        if isinstance(p, Ptr) and p.r is None:
            self.oblige(st, False, 'null', 'call through NULL function pointer')
            return []
        if isinstance(p, Ptr) and p.r.kind == 'virtual':
            return p.r.handler(self, st, args, ins)
        if self.indirect:
            return self.indirect(self, st, p, args, ins)
        raise Unsupported('indirect call')

    def dispatch(self, st, m, name, args, ins):
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime'):
            return [(st, None)]
        f = self.lookup(m, name)
        h = self.contracts.get((m.src, name)) or self.contracts.get(name)
        if h is not None:
            return h(self, st, args, ins)
        if f is not None:
            return self.call_fn(st, f, args)
        h = self.ext.get(name)
        if h is None and name.startswith('llvm.'):
            for k in self.ext:
                if k.endswith('*') and name.startswith(k[:-1]):
                    h = self.ext[k]
        if h is None:
            raise Unsupported('call of unknown external function %s' % name)
        return h(self, st, args, ins)

    # ------------------------------------------------------------- loops
    def exec_unrolled(self, st, fn, loop, prev):
        outs, work = [], [(st, prev)]
        for _ in range(self.unroll + 1):
            nxt = []
            for s, p in work:
                for o in self.run(s, fn, loop.header, p, loop, 'in'):
                    if o[0] == 'back':
                        nxt.append((o[1], o[2]))
                    else:
                        outs.append(o)
            work = nxt
            if not work:
                return outs
        raise Unsupported('loop bound %d exceeded in %s' % (self.unroll, fn.name))

    def exec_loop(self, st, fn, loop, prev):
        if self.unroll and (self.unroll_if is None or self.unroll_if(fn)):
            return self.exec_unrolled(st, fn, loop, prev)
        hd = fn.blocks[loop.header]
        phis = [i for i in hd.ins if i.op == 'phi']
        entry = {}
        for i in phis:
            for v, b in i.x:
                if b == prev:
                    entry[i.res] = self.val(st, fn, i.ty, v)
        depth = len(st.loops)
        rec = self.rec
        lname = '%s:%s' % (fn.name, loop.header)
        # --- which memory does the loop write?
        # (what it wrote when it was met in an earlier round of the enclosing loop is a good guess, completed here)
        mod = {}
        wkey = (lname, depth, self.inline_depth, bool(getattr(self, 'dry', False)))
        for k, t in self.wcache.get(wkey, {}).items():
            if k[0] == 'ghost' or k[0].id in st.mem or k[0].kind == 'global':
                mod[k] = t
        for _ in range(12):
            s0 = st.fork()
            s0.log = {}
            L = LoopCtx(self, fn, loop, phis, entry, st)
            L.havoc(s0, mod, ())
            self.rec = False
            dry = getattr(self, 'dry', False)
            self.dry = True
            try:
                outs = self.run(s0, fn, loop.header, 'HEADER', loop, 'in')
            finally:
                self.rec = rec
                self.dry = dry
            new = {k: t for k, t in s0.log.items() if k not in mod}
            # regions created inside the loop do not matter
            new = {k: t for k, t in new.items() if k[0].id in st.mem or k[0].kind == 'global' or k[0].id in [r for r in st.mem]}
            gk = set()
            for o in outs:
                for g in o[1].g:
                    if o[1].g.get(g) is not st.g.get(g) and not _same(o[1].g.get(g), s0_g(L, g, st)):
                        gk.add(g)
            newg = gk - L_g(mod)
            if not new and not newg:
                break
            mod.update(new)
            for g in newg:
                mod[('ghost', g)] = None
        else:
            raise Unsupported('loop write set does not converge')
        self.wcache[wkey] = dict(mod)
        if st.log is not None:
            for k, t in mod.items():
                if k[0] != 'ghost':
                    st.log.setdefault(k, t)
        L = LoopCtx(self, fn, loop, phis, entry, st)
        if getattr(self, 'dry', False):
            s1 = st.fork()
            L.havoc(s1, mod, ())
            s1.loops = st.loops + (L,)
            outs = self.run(s1, fn, loop.header, 'HEADER', loop, 'in')
            return [self._leave(o, st) for o in outs if o[0] != 'back']
        # --- candidates
        probe = st.fork()
        L.havoc(probe, mod, ())
        L.probe_bounds(probe)
        cands = L.candidates(probe, mod)
        key = (lname, depth, self.inline_depth)
        # candidates that failed when this loop was met in an earlier round of the enclosing loop fail again:
        # the enclosing loop only ever weakens its invariant (dropping a candidate is always sound)
        parent = self.hc[-1] if self.hc and not self.nocache else None
        mine = dict(dead={}, sub={}, ord={})
        hkey = None
        dead = None
        if parent is not None:
            o = parent['ord'].get(lname, 0)
            parent['ord'][lname] = o + 1
            hkey = (lname, o)
            dead = parent['dead'].get(hkey)
            mine = parent['sub'].setdefault(hkey, mine)
        self.hc.append(mine)
        # initiation
        ev = View(self, st, entry, 0, L, st)
        live = []
        self.rec = False
        try:
            todo = [(c, c[1](ev)) for c in cands if not (dead and c[0] in dead)]
            todo = [(c, f) for c, f in todo if f is not None]
            if dead is not None and todo and self.valid(st, z3.And([b2z(f) for _, f in todo]), level=0):
                live = [c for c, _ in todo]
            else:
                for c, f in todo:
                    if self.valid(st, f, level=c[2] if len(c) > 2 else 0):
                        live.append(c)
            ninit = len(live)
            # consecution
            while True:
                mine['ord'] = {}
                s1 = st.fork()
                L.havoc(s1, mod, live)
                s1.loops = st.loops + (L,)
                outs = self.run(s1, fn, loop.header, 'HEADER', loop, 'in')
                backs = [o for o in outs if o[0] == 'back']
                if L.check_ivs(backs):
                    live = [c for c in cands if c in live]
                    mine['dead'], mine['sub'] = {}, {}
                    continue
                drop = set()
                for o in backs:
                    bv = L.backview(o[1], o[2])
                    fs = [(c, c[1](bv)) for c in live if c[0] not in drop]
                    fs = [(c, f) for c, f in fs if f is not None or drop.add(c[0])]
                    fs = [(c, f) for c, f in fs if f is not None and not z3.is_true(b2z(f))]
                    # try all together first
                    if fs and self.valid(o[1], z3.And([b2z(f) for _, f in fs]), level=0):
                        continue
                    for c, f in fs:
                        if not self.valid(o[1], f, level=c[2] if len(c) > 2 else 0):
                            drop.add(c[0])
                            if DEBUG and __import__('re').search(DEBUG, c[0]):
                                print('DROP', lname, c[0], self._check(o[1], [z3.Not(b2z(f))], 0), self._check(o[1], [z3.Not(b2z(f))], 1), '\n   ', f, '\n   PC', dbgpc(o[1]))
                if not drop:
                    break
                live = [c for c in live if c[0] not in drop]
        finally:
            self.rec = rec
            self.hc.pop()
        if hkey is not None:
            parent['dead'][hkey] = {c[0] for c in cands} - {c[0] for c in live}
        if rec:
            self.stats['loops'] += 1
            self.stats['invs'] += len(live)
            if self.on_loop:
                self.on_loop(lname, [c[0] for c in live])
        # --- final pass with obligations on
        s1 = st.fork()
        L.havoc(s1, mod, live)
        s1.loops = st.loops + (L,)
        if rec:
            mine['ord'] = {}
            self.hc.append(mine)
            try:
                outs = self.run(s1, fn, loop.header, 'HEADER', loop, 'in')
            finally:
                self.hc.pop()
        else:
            pass  # outs of the last Houdini round are valid
        return [self._leave(o, st) for o in outs if o[0] != 'back']

    def _leave(self, o, st):
        o[1].loops = st.loops
        return o


def _same(a, b):
    if a is b:
        return True
    try:
        return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
    except Exception:
        return False


def L_g(mod):
    return {k[1] for k in mod if k[0] == 'ghost'}


def s0_g(L, g, st):
    return L.gh.get(g, st.g.get(g))


def dbgpc(st, n=30):
    r, p = [], st.pc
    while p and len(r) < n:
        r.append(str(p.f).replace('\n', ' ')[:400])
        p = p.p
    return '\n      '.join(r)


DEBUG = __import__('os').environ.get('OPKV_DEBUG')


class View:
    """what a candidate invariant may talk about"""

    def __init__(self, eng, st, phi, it, L, entry_st):
        self.e, self.st, self.phi, self.it, self.L, self.entry = eng, st, phi, it, L, entry_st


class LoopCtx:
    def __init__(self, eng, fn, loop, phis, entry, st):
        self.e, self.fn, self.loop, self.phis, self.entry, self.st0 = eng, fn, loop, phis, entry, st
        self.bounds = []
        self.gh = {}
        self.pv = {}
        self.iv = {}
        # basic induction variables: phi = phi + step along every latch
        hd = fn.blocks[loop.header]
        defs = {}
        for b in loop.body:
            for i in fn.blocks[b].ins:
                if i.res:
                    defs[i.res] = (i, b)
        self.defs = defs
        for p in phis:
            steps = []
            for v, b in p.x:
                if b in loop.latches:
                    s = None
                    if v[0] == 'reg' and v[1] in defs:
                        d = defs[v[1]][0]
                        if d.op in ('add', 'sub') and p.ty.k == 'i':
                            x, y = d.args
                            if d.op == 'add' and y == ('reg', p.res):
                                x, y = y, x
                            if x == ('reg', p.res) and (y[0] == 'int' or (y[0] == 'reg' and y[1] not in defs)):
                                s = (d.op, y)
                        elif d.op == 'getelementptr' and p.ty.k == 'ptr' and d.args[0] == ('reg', p.res) and len(d.x[1]) == 1:
                            y = d.x[1][0][1]
                            if y[0] == 'int' or (y[0] == 'reg' and y[1] not in defs):
                                s = ('gep', y, d.x[0], d.x[1][0][0])
                    steps.append(s)
            if steps and all(s is not None and s == steps[0] for s in steps):
                self.iv[p.res] = steps[0]

    def phiname(self, p):
        return '%s.%s' % (self.fn.name, p.res)

    def havoc(self, s, mod, live):
        e = self.e
        it = z3.FreshConst(z3.IntSort(), 'it')
        s.assume(it >= 0)
        self.it = it
        self.pv = {}
        for p in self.phis:
            a = self.entry[p.res]
            if p.res in self.iv:
                d = self.iv[p.res]
                if d[0] == 'gep':
                    y = e.val(s, self.fn, d[3], d[1])
                    if isinstance(a, Ptr) and a.r is not None:
                        step = y
                        if isinstance(y, int):
                            v = Ptr(a.r, a.o.add(self.fn.module.size(d[2]) * y, it))
                        else:
                            v = Ptr(a.r, a.o.add(self.fn.module.size(d[2]), z3.simplify(e.mul(y, it))))
                    else:
                        raise Unsupported('pointer induction on %r' % (a,))
                else:
                    y = e.val(s, self.fn, p.ty, d[1])
                    v = a + e.mul(it, y) if d[0] == 'add' else a - e.mul(it, y)
                    v = z3.simplify(v)
                    s.assume(z3.And(v >= -2 ** (p.ty.a - 1), v < 2 ** (p.ty.a - 1)))
                    # the update is nsw or provably in range: checked when the back edge is taken
            elif p.ty.k == 'ptr' and isinstance(a, Ptr) and a.r is not None and getattr(a.r, 'segs', ()):
                o = z3.FreshConst(z3.IntSort(), 'off')
                v = Ptr(a.r, Off(0, ((a.r.segs[0].esz, o),)))
            elif p.ty.k == 'ptr' and isinstance(a, Ptr):
                v = a   # checked at the back edge
            elif p.ty.k == 'ptr':
                v = e.fresh(s, 'p' + p.res, p.ty)
            else:
                v = e.fresh(s, 'h' + p.res.replace('%', '_'), p.ty)
            self.pv[p.res] = v
            s.loc[p.res] = v
        self.gh = {}
        for k, ty in mod.items():
            if k[0] == 'ghost':
                g = k[1]
                old = self.st0.g[g]
                v = z3.FreshConst(old.sort() if z3.is_expr(old) else z3.IntSort(), 'g_' + str(g))
                s.g[g] = v
                self.gh[g] = v
                continue
            r, kind, w = k
            if r.id not in s.mem:
                s.mem[r.id] = RS()
            rs = s.mem[r.id].copy()
            if kind == 'c':
                rs.cells[w] = (e.tysize(ty), e.fresh(s, '%s@%d' % (r.name, w), ty), ty)
            else:
                e.fix(s, r)
                rs = s.mem[r.id].copy()
                l = list(rs.arrs)
                l[w] = z3.FreshConst(l[w].sort(), r.name)
                rs.arrs = tuple(l)
            s.mem[r.id] = rs
        v = View(e, s, self.pv, it, self, self.st0)
        for c in live:
            f = c[1](v)
            if f is not None:
                s.assume(b2z(f))

    def check_ivs(self, backs):
        """closed forms of induction variables and regions of pointer variables are checked at every back edge"""
        e = self.e
        bad = False
        for o in backs:
            s = o[1]
            bv = self.backview(s, o[2])
            for p in self.phis:
                x = bv.phi[p.res]
                if p.res in self.iv:
                    d, a = self.iv[p.res], self.entry[p.res]
                    if d[0] == 'gep':
                        continue      # pointer arithmetic: closed form by construction
                    y = e.val(s, self.fn, p.ty, d[1])
                    want = a + e.mul(self.it + 1, y) if d[0] == 'add' else a - e.mul(self.it + 1, y)
                    if not e.valid(s, i2z(x) == want, level=0):
                        del self.iv[p.res]
                        bad = True
                elif p.ty.k == 'ptr':
                    h = self.pv[p.res]
                    if isinstance(h, Ptr):
                        if not isinstance(x, Ptr) or x.r is not h.r:
                            raise Unsupported('pointer variable changes object in a loop')
                        if not h.o.t or h is self.entry[p.res]:
                            if not (x.o.c == h.o.c and len(x.o.t) == len(h.o.t)) and not e.valid(s, x.o.term() == h.o.term(), 0):
                                raise Unsupported('pointer variable moves in a loop')
                        elif x.o.idx(0, h.r.segs[0].esz) is None:
                            raise Unsupported('pointer variable alignment')
        return bad

    def backview(self, s, prev):
        e = self.e
        ph = {}
        for p in self.phis:
            for v, b in p.x:
                if b == prev:
                    ph[p.res] = e.val(s, self.fn, p.ty, v)
        return View(e, s, ph, self.it + 1, self, self.st0)

    def probe_bounds(self, s):
        """collect loop-invariant terms the loop compares with: candidates for bounds"""
        e = self.e
        rec, dry = e.rec, getattr(e, 'dry', False)
        e.rec, e.dry = False, True
        mark = s.pc
        try:
            outs = e.run(s.fork(), self.fn, self.loop.header, 'HEADER', self.loop, 'in')
        finally:
            e.rec, e.dry = rec, dry
        hv = set()
        for v in list(self.pv.values()) + [self.it]:
            t = v.o.term() if isinstance(v, Ptr) else v.t if isinstance(v, Opq) else v
            if z3.is_expr(t):
                hv |= consts(t)
        entryc = set()
        seen = set()
        for o in outs:
            p = o[1].pc
            while p is not None and p is not mark:
                for a in atoms(p.f):
                    if a.get_id() in seen:
                        continue
                    seen.add(a.get_id())
                    if z3.is_int(a.arg(0)):
                        l, r = a.arg(0), a.arg(1)
                        for x, y in ((l, r), (r, l)):
                            cx, cy = consts(x), consts(y)
                            if cx & hv and not (cy & hv) and all(self.invariant_const(c, s) for c in cy):
                                # isolate header variables: x = hvpart + rest
                                if abs(int_small(y)) < 2 ** 31:
                                    self.bounds.append(y)
                p = p.p
        u = []
        for b in self.bounds:
            if not any(b.eq(c) for c in u):
                u.append(b)
        self.bounds = u[:6]

    def invariant_const(self, c, s):
        n = c
        return not n.startswith('h_') or True

    def ints(self, v):
        """integer-valued loop variables in a view: (name, term)"""
        out = []
        for p in self.phis:
            if p.ty.k == 'i' and p.ty.a > 1:
                out.append((p.res, v.phi[p.res]))
        return out

    def candidates(self, probe, mod):
        e = self.e
        cs = []
        names = [p.res for p in self.phis if p.ty.k == 'i' and p.ty.a > 1]
        en = self.entry
        bounds = self.bounds
        if not names:
            pass
        for n in names:
            if n in self.iv:
                # relation to the closed form (checked, not assumed)
                d = self.iv[n]

            def mk(f):
                return f
            cs.append(('%s>=entry' % n, lambda v, n=n: i2z(v.phi[n]) >= en[n]))
            cs.append(('%s<=entry' % n, lambda v, n=n: i2z(v.phi[n]) <= en[n]))
            cs.append(('%s>=0' % n, lambda v, n=n: i2z(v.phi[n]) >= 0))
            cs.append(('%s>=-1' % n, lambda v, n=n: i2z(v.phi[n]) >= -1))
            for j, b in enumerate(bounds):
                cs.append(('%s<=b%d' % (n, j), lambda v, n=n, b=b: i2z(v.phi[n]) <= b))
                cs.append(('%s<b%d' % (n, j), lambda v, n=n, b=b: i2z(v.phi[n]) < b))
                cs.append(('%s>=b%d' % (n, j), lambda v, n=n, b=b: i2z(v.phi[n]) >= b))
                cs.append(('%s>b%d' % (n, j), lambda v, n=n, b=b: i2z(v.phi[n]) > b))
                cs.append(('%s<=b%d|entry' % (n, j), lambda v, n=n, b=b: z3.Or(i2z(v.phi[n]) <= b, i2z(v.phi[n]) == en[n])))
                cs.append(('%s>=b%d|entry' % (n, j), lambda v, n=n, b=b: z3.Or(i2z(v.phi[n]) >= b, i2z(v.phi[n]) == en[n])))
                cs.append(('%s+1>=b%d|entry' % (n, j), lambda v, n=n, b=b: z3.Or(i2z(v.phi[n]) + 1 >= b, i2z(v.phi[n]) == en[n])))
        if not names:
            # pointer-walking loops: bounds on the iteration counter
            for j, b in enumerate(bounds):
                cs.append(('it<=b%d' % j, lambda v, b=b: i2z(v.it) <= b))
        # phi constant over the loop / equal to its entry value
        for p in self.phis:
            a = en[p.res]
            if p.res in self.iv:
                continue
            if p.ty.k == 'ptr':
                def same(v, p=p, a=a):
                    x = v.phi[p.res]
                    if isinstance(x, Ptr) and isinstance(a, Ptr):
                        if x.r is not a.r:
                            return False
                        return x.o.term() == a.o.term()
                    if isinstance(x, Opq) and isinstance(a, Opq):
                        return x.t == a.t
                    return None
                cs.append(('%s==entry' % p.res, same))
                continue
            if p.ty.k == 'i' and p.ty.a == 1:
                cs.append(('%s==entry' % p.res, lambda v, p=p, a=a: b2z(v.phi[p.res]) == b2z(a)))
            else:
                cs.append(('%s==entry' % p.res, lambda v, p=p, a=a: i2z(v.phi[p.res]) == i2z(a)))
        # integer relations between two variables
        for i, n in enumerate(names if len(names) <= e.max_pairs else ()):
            for k in names[:i]:
                if n in self.iv and k in self.iv:
                    continue
                cs.append(('%s-%s const' % (n, k), lambda v, n=n, k=k: i2z(v.phi[n]) - v.phi[k] == i2z(en[n]) - en[k]))
                cs.append(('%s+%s const' % (n, k), lambda v, n=n, k=k: i2z(v.phi[n]) + v.phi[k] == i2z(en[n]) + en[k]))
                cs.append(('%s<=%s' % (n, k), lambda v, n=n, k=k: i2z(v.phi[n]) <= v.phi[k]))
                cs.append(('%s>=%s' % (n, k), lambda v, n=n, k=k: i2z(v.phi[n]) >= v.phi[k]))
        # cells unchanged
        for k, ty in mod.items():
            if k[0] == 'ghost':
                continue
            r, kind, w = k
            if kind == 'c' and ty.k in ('i', 'double', 'float'):
                a = e.load_cell(self.st0, r, w, ty)
                cs.append(('%s@%d==entry' % (r.name, w), lambda v, r=r, w=w, ty=ty, a=a: i2z(e.load_cell(v.st, r, w, ty)) == i2z(a) if not isinstance(a, bool) else None))
                if ty.k == 'i':
                    cs.append(('%s@%d>=entry' % (r.name, w), lambda v, r=r, w=w, ty=ty, a=a: i2z(e.load_cell(v.st, r, w, ty)) >= a))
                    for j, b in enumerate(bounds):
                        cs.append(('%s@%d<=b%d' % (r.name, w, j), lambda v, r=r, w=w, ty=ty, b=b: i2z(e.load_cell(v.st, r, w, ty)) <= b))
            if kind == 'c' and ty.k == 'ptr':
                a = e.load_cell(self.st0, r, w, ty)
                def samep(v, r=r, w=w, ty=ty, a=a):
                    x = e.load_cell(v.st, r, w, ty)
                    if isinstance(x, Opq) and isinstance(a, Opq):
                        return x.t == a.t
                    if isinstance(x, Ptr) and isinstance(a, Ptr):
                        return b2z(x.r is a.r and x.o.const() and a.o.const() and x.o.c == a.o.c)
                    return None
                cs.append(('%s@%d==entry' % (r.name, w), samep))
        for g in e.cand_gens:
            cs.extend(g(self, probe, mod))
        return cs


def consts(t):
    out = set()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    return out


def int_small(t):
    try:
        return t.as_long()
    except Exception:
        return 0


def atoms(f):
    out = []
    st = [f]
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x):
            st.extend(x.children())
        elif z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and x.num_args() == 2:
            if z3.is_int(x.arg(0)):
                out.append(x)
    return out
