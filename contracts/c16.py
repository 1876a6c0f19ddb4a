"""C16 -- text and lookup utilities."""
from .common import *
from . import text
from .c03 import s_vmlmb, s_nlcg, METHODS

SOURCES = ['src/algebra.c', 'src/dblvector.c', 'src/lnsrch.c', 'src/vmlmb.c', 'src/nlcg.c', 'src/utils.c', 'src/newuoa.c', 'src/bobyqa.c', 'src/cobyla.c']
HARNESS = dict(src='c16.c', always=True, bounded='all buffer sizes up to 160 bytes, texts up to 40 characters, status codes -100..100')
OPTMODS = ('src/lnsrch.c', 'src/vmlmb.c', 'src/nlcg.c', 'src/utils.c')
I8 = ir.Ty('i', 8)

REASONS = {0: 'Success', 1: 'Invalid argument', 2: 'Insufficient memory', 3: 'Illegal address', 4: 'Not implemented', 5: 'Corrupted workspace', 6: 'Bad variable space',
           7: 'Out of bounds index', 8: 'Line search not started', 9: 'Not a descent direction', 10: 'Step changed', 11: 'Step outside bracket',
           12: 'Lower step bound larger than upper bound', 13: 'Minimal step length less than zero', 14: 'Step lesser than lower bound', 15: 'Step greater than upper bound',
           16: 'Convergence within function tolerance', 17: 'Convergence within gradient tolerance', 18: 'Convergence within variable tolerance',
           19: 'Step blocked at upper bound', 20: 'Step blocked at lower bound', 21: 'Rounding errors prevent progress', 22: 'Operator is not positive definite',
           23: 'Preconditioner is not positive definite', 24: 'Box set is infeasible', 25: 'Variables cannot be improved (would block)', 26: 'Undefined value',
           27: 'Too many evaluations', 28: 'Too many iterations'}


def copy_string(dst_null, src_null):
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd', mods=['src/utils.c'])
        st = env.st
        size = e.fresh_int(st, 'size')
        extra = e.fresh_int(st, 'extra')
        L = e.fresh_int(st, 'length')
        st.assume(z3.And(size >= 0, size < 2 ** 62, extra >= 0, extra < 2 ** 40, L >= 0, L < 2 ** 62))
        j = e.fresh_int(st, 'j')
        st.assume(z3.And(j >= 0))
        if src_null:
            st.assume(L == 0)
            src, a0 = NULL, None
        else:
            src, a0 = e.array(st, 'src', I8, L + 1)
            # a text of length L: the first zero is at L
            st.assume(z3.Select(a0, L) == 0)
            for k in (j, z3.IntVal(0)):
                st.assume(z3.Implies(k < L, z3.Select(a0, k) != 0))

            def hyp(L_, probe, mod):
                vs = [(x.res, (lambda v, n=x.res: i2z(v.phi[n]))) for x in L_.phis if x.ty.k == 'i' and x.ty.a > 1]
                out = []
                for nm, f in vs:
                    def le(v, f=f):
                        v.st.assume(z3.Implies(z3.And(f(v) >= 0, f(v) < L), z3.Select(a0, f(v)) != 0))
                        return f(v) <= L
                    out.append((nm + '<=length', le))
                return out
            e.cand_gens.append(hyp)
        if dst_null:
            dst, d0 = NULL, None
        else:
            dst, d0 = e.array(st, 'dst', I8, size + extra)
        snap = st.fork()

        def strlen(e, st, a, ins):
            p = a[0]
            e.oblige(st, isinstance(p, Ptr) and not src_null and p.r is src.r, 'pre', 'length of an existing text')
            o = p.o.term()
            e.oblige(st, z3.And(o >= 0, o <= L), 'pre', 'length of a terminated text')
            return [(st, L - o)]
        e.contracts['strlen'] = strlen

        def post(e, s, r):
            e.oblige(s, i2z(r) == L + 1, 'post', 'returns the size needed for the whole text')
            if not dst_null:
                d = e.arr(s, dst)
                n = z3.If(L < size, L, size - 1)      # characters kept
                if not src_null:
                    e.oblige(s, z3.Implies(z3.And(size >= 1, j < n), z3.Select(d, j) == z3.Select(a0, j)), 'post', 'the text is copied as far as it fits')
                e.oblige(s, z3.Implies(size >= 1, z3.Select(d, n) == 0), 'post', 'the copy is terminated')
                e.oblige(s, z3.Implies(j >= size, z3.Select(d, j) == z3.Select(d0, j)), 'frame', 'nothing is written beyond the given size')
            nothing_changed(env, s, snap, allow=[] if dst_null else [dst])
        return env.fn('opk_copy_string'), st, [dst, size, src], post
    return make


def txt(e, s, r):
    return text.cstr_of(e, r) if isinstance(r, Ptr) and r.r is not None else None


def reasons(fn, src, expect, unknown):
    """expect: code -> text (None: any non-empty text, distinct from the others)"""
    def make(e):
        e.malloc_fails = False
        env = Env(e, 'd', mods=[src])
        st = env.st
        c = e.fresh_int(st, 'code', 32)
        table = expect(env)
        st0 = st.fork()
        snap = st.fork()
        seen = {}

        def post(e, s, r):
            t = txt(e, s, r)
            e.oblige(s, t is not None, 'post', 'the explanation is a constant text')
            if t is None:
                return
            for k, w in table.items():
                if not e.feasible(s, c == k):
                    continue
                if w is None:
                    e.oblige(s, z3.Implies(c == k, b2z(len(t) > 0 and seen.setdefault(t, k) == k)), 'post', 'known codes have their own explanation')
                else:
                    e.oblige(s, z3.Implies(c == k, b2z(t == w.encode('utf-8'))), 'post', 'known codes have the documented explanation')
            unk = z3.And([c != k for k in table])
            if e.feasible(s, unk):
                e.oblige(s, z3.Implies(unk, b2z(unknown(t))), 'post', 'unknown codes are reported as such')
            nothing_changed(env, s, snap)
        return env.fn(fn), st, [c], post
    return make


def codes(*names):
    return lambda env: {env.enum(n): None for n in names}


def guess(e):
    e.malloc_fails = False
    env = Env(e, 'd', mods=['src/utils.c'])
    st = env.st
    c = e.fresh_int(st, 'code', 32)
    en = env.enum
    snap = st.fork()

    def post(e, s, r):
        w = z3.If(c == ENOMEM, en('OPK_INSUFFICIENT_MEMORY'), z3.If(c == EFAULT, en('OPK_ILLEGAL_ADDRESS'), z3.If(c == EINVAL, en('OPK_INVALID_ARGUMENT'), -1)))
        r = i2z(r)
        e.oblige(s, z3.Or(r == w, r == w + z3.If(w < 0, 2 ** 32, 0)), 'post', 'status of a C library error')
        nothing_changed(env, s, snap)
    return env.fn('opk_guess_status'), st, [c], post


CONSTANTS = '''OPK_TRUE OPK_FALSE OPK_FLOAT OPK_DOUBLE OPK_TASK_ERROR OPK_TASK_START OPK_TASK_COMPUTE_FG OPK_TASK_NEW_X OPK_TASK_FINAL_X OPK_TASK_WARNING
OPK_LNSRCH_ERROR OPK_LNSRCH_SEARCH OPK_LNSRCH_CONVERGENCE OPK_LNSRCH_WARNING OPK_NLCG_FLETCHER_REEVES OPK_NLCG_HESTENES_STIEFEL OPK_NLCG_POLAK_RIBIERE_POLYAK OPK_NLCG_FLETCHER
OPK_NLCG_LIU_STOREY OPK_NLCG_DAI_YUAN OPK_NLCG_PERRY_SHANNO OPK_NLCG_HAGER_ZHANG OPK_NLCG_POWELL OPK_NLCG_SHANNO_PHUA OPK_BOUND_NONE OPK_BOUND_SCALAR_FLOAT OPK_BOUND_SCALAR_DOUBLE
OPK_BOUND_STATIC_FLOAT OPK_BOUND_STATIC_DOUBLE OPK_BOUND_VOLATILE_FLOAT OPK_BOUND_VOLATILE_DOUBLE OPK_BOUND_VECTOR OPK_ASCENT OPK_DESCENT OPK_SCALING_NONE OPK_SCALING_OREN_SPEDICATO
OPK_SCALING_BARZILAI_BORWEIN OPK_LBFGS OPK_VMLMB OPK_BLMVM OPK_ALGORITHM_NLCG OPK_ALGORITHM_VMLMB OPK_FMIN_BOUNDED_BY_A OPK_FMIN_BOUNDED_BY_B OPK_FMIN_SMOOTH OPK_FMIN_ERROR OPK_FMIN_START
OPK_FMIN_FX OPK_FMIN_NEWX OPK_FMIN_CONVERGENCE OPK_SUCCESS OPK_INVALID_ARGUMENT OPK_INSUFFICIENT_MEMORY OPK_ILLEGAL_ADDRESS OPK_NOT_IMPLEMENTED OPK_CORRUPTED_WORKSPACE OPK_BAD_SPACE
OPK_OUT_OF_BOUNDS_INDEX OPK_NOT_STARTED OPK_NOT_A_DESCENT OPK_STEP_CHANGED OPK_STEP_OUTSIDE_BRACKET OPK_STPMIN_GT_STPMAX OPK_STPMIN_LT_ZERO OPK_STEP_LT_STPMIN OPK_STEP_GT_STPMAX
OPK_FTOL_TEST_SATISFIED OPK_GTOL_TEST_SATISFIED OPK_XTOL_TEST_SATISFIED OPK_STEP_EQ_STPMAX OPK_STEP_EQ_STPMIN OPK_ROUNDING_ERRORS_PREVENT_PROGRESS OPK_NOT_POSITIVE_DEFINITE
OPK_BAD_PRECONDITIONER OPK_INFEASIBLE_BOUNDS OPK_WOULD_BLOCK OPK_UNDEFINED_VALUE OPK_TOO_MANY_EVALUATIONS OPK_TOO_MANY_ITERATIONS'''.split()


def constants(null, ptr_null):
    """names are identified with integers: two texts are equal exactly when they have the same identity"""
    def make(e):
        e.malloc_fails = False
        e.unroll = 200
        env = Env(e, 'd', mods=['src/utils.c'])
        st = env.st
        N = e.fresh_int(st, 'name')
        ids = {b'': 0}
        ident = lambda t: ids.setdefault(t, len(ids))
        first = e.fresh_int(st, 'first', 8)
        st.assume(z3.And(N >= 0, (first == 0) == (N == 0)))
        src = NULL if null else cells_region(env, 'name', {0: (I8, first)})

        def strcmp(e, st, a, ins):
            p, q = a
            if isinstance(q, Ptr) and q.r is not None and not null and q.r is src.r:
                p, q = q, p
            t = text.cstr_of(e, q)
            if null or t is None or not (isinstance(p, Ptr) and p.r is src.r):
                raise Unsupported('text comparison')
            i = ident(t)
            r = e.fresh_int(st, 'cmp', 32)
            st.assume((r == 0) == (N == i))
            return [(st, r)]
        e.contracts['strcmp'] = strcmp
        table = {}
        for nm in CONSTANTS:
            table[nm] = env.enum(nm)
            ident(nm.encode())
        v0 = e.fresh_int(st, 'before')
        out = NULL if ptr_null else cells_region(env, 'value', {0: (ir.I64, v0)}, size=8)
        snap = st.fork()

        def post(e, s, r):
            known = z3.And(b2z(not null), z3.Or([N == ids[nm.encode()] for nm in table]))
            e.oblige(s, (i2z(r) == env.enum('OPK_SUCCESS')) == known, 'post', 'a name is found exactly when it is known')
            e.oblige(s, z3.Or(i2z(r) == env.enum('OPK_SUCCESS'), i2z(r) == env.enum('OPK_INVALID_ARGUMENT')), 'post', 'documented status')
            if not ptr_null:
                v = i2z(e.cell(s, out, 0, ir.I64))
                for nm, x in table.items():
                    if e.feasible(s, N == ids[nm.encode()]):
                        e.oblige(s, z3.Implies(z3.And(b2z(not null), N == ids[nm.encode()]), v == x), 'post', 'value of the named constant')
                e.oblige(s, z3.Implies(z3.Not(known), v == v0), 'post', 'nothing stored for an unknown name')
            nothing_changed(env, s, snap, allow=[] if ptr_null else [out])
        return env.fn('opk_get_integer_constant'), st, [src, out], post
    return make


NAMES = dict(FLETCHER_REEVES='Fletcher & Reeves', HESTENES_STIEFEL='Hestenes & Stiefel', POLAK_RIBIERE_POLYAK='Polak, Ribière & Polyak', FLETCHER='Fletcher conjugate descent',
             LIU_STOREY='Liu & Storey', DAI_YUAN='Dai & Yuan', PERRY_SHANNO='Perry & Shanno', HAGER_ZHANG='Hager & Zhang')


def any_memory(env, opt):
    env.m = env.e.fresh_int(env.st, 'm')
    env.st.assume(env.m >= 1)
    env.e.set_cell(env.st, opt, env.off('opk_vmlmb_', 'm'), ir.I64, env.m)


def describe(kind, what, setup, after=None):
    def make(e):
        e.malloc_fails = False
        e.unroll = 4
        e.unroll_if = lambda fn: fn.name.startswith('opk_new')
        env = Env(e, 'd', mods=OPTMODS)
        cfg = setup(env)
        opt = env.call(cfg['fn'], cfg['args'], env.notnull)
        if after:
            after(env, opt)
        st = env.st
        text.install(e)
        e.contracts['opk_copy_string'] = text.copy_contract
        size = e.fresh_int(st, 'size')
        st.assume(size >= 0)
        b = e.new_region(st, 'buffer')
        null = e.fresh_int(st, 'no_buffer', 32)
        buf = Opq(z3.If(null != 0, 0, 12345))
        st.g['copied'] = ()
        snap = st.fork()

        def post(e, s, r):
            cp = s.g.get('copied', ())
            e.oblige(s, len(cp) == 1 and veq(e, cp[0][0], buf) is not None, 'post', 'the description is copied once to the caller')
            if len(cp) != 1:
                return
            p, n, t = cp[0]
            e.oblige(s, z3.And(veq(e, p, buf), i2z(n) == size), 'post', 'copied to the buffer of the caller, with its size')
            e.oblige(s, i2z(r) == text.length(e, s, t) + 1, 'post', 'the size needed for the whole text is returned')
            w = text.norm(what(env, e, s))
            e.oblige(s, b2z(len(t) == len(w)) if len(t) != len(w) else z3.And([b2z(x == y) if isinstance(x, bytes) or isinstance(y, bytes) else i2z(x[1]) == i2z(y[1]) for x, y in zip(t, w)]), 'post',
                     'documented description')
            nothing_changed(env, s, snap)
        return env.fn(kind), st, [buf, size, opt], post
    return make


def nlcg_text(method, powell, sp):
    t = NAMES[method] + ' updates'
    if powell:
        t += ' with Powell restarts'
    if sp:
        t += (' and' if powell else ' with') + ' Shanno & Phua step size'
    return lambda env, e, s: (t.encode('utf-8'),)


def nlcg_setup(method, powell, sp):
    def setup(env):
        cfg = s_nlcg(method, False)(env)
        e = env.e
        lay = next(m.layout[k] for m in e.mods for k in ('opk_nlcg_options_', 'opk_nlcg_options') if k in m.layout)
        fl = env.enum('OPK_NLCG_' + method) | (env.enum('OPK_NLCG_POWELL') if powell else 0) | (env.enum('OPK_NLCG_SHANNO_PHUA') if sp else 0)
        e.set_cell(env.st, cfg['args'][0], lay['flags'], ir.I32, fl)
        return cfg
    return setup


def vmlmb_text(mem, bounds):
    return lambda env, e, s: (b'variable metric method with ', str(mem).encode() if mem else ('dec', env.m), b' memorized step(s)', b' and bounds' if bounds else b'')


def method_name(mem, box, bl, want):
    def make(e):
        e.malloc_fails = False
        e.unroll = 4
        env = Env(e, 'd', mods=OPTMODS)
        cfg = s_vmlmb(mem, box, False, bl, 0)(env)
        opt = env.call(cfg['fn'], cfg['args'], env.notnull)
        snap = env.st.fork()

        def post(e, s, r):
            e.oblige(s, txt(e, s, r) == want, 'post', 'name of the method')
            nothing_changed(env, s, snap)
        return env.fn('opk_get_vmlmb_method_name'), env.st, [opt], post
    return make


def units(tier):
    out = []

    def add(name, desc, make, **kw):
        out.append(dict(name=name, desc=desc, make=make, **kw))
    for dn in (False, True):
        for sn in (False, True):
            add('opk_copy_string/%s/%s' % ('no buffer' if dn else 'buffer', 'no text' if sn else 'text'), 'bounded, terminated copy; returns the needed size', copy_string(dn, sn))
    add('opk_get_reason', 'documented explanation of each status', reasons('opk_get_reason', 'src/utils.c', lambda env: REASONS, lambda t: t == b''))
    nu = ['NEWUOA_' + x for x in 'ITERATE SUCCESS BAD_NVARS BAD_NPT BAD_RHO_RANGE BAD_SCALING ROUNDING_ERRORS TOO_MANY_EVALUATIONS STEP_FAILED BAD_ADDRESS CORRUPTED'.split()]
    bo = ['BOBYQA_' + x for x in 'SUCCESS BAD_NVARS BAD_NPT BAD_RHO_RANGE BAD_SCALING TOO_CLOSE ROUNDING_ERRORS TOO_MANY_EVALUATIONS STEP_FAILED'.split()]
    co = ['COBYLA_' + x for x in 'ITERATE SUCCESS BAD_NVARS BAD_NCONS BAD_RHO_RANGE BAD_SCALING ROUNDING_ERRORS TOO_MANY_EVALUATIONS BAD_ADDRESS CORRUPTED'.split()]
    for n, c in (('newuoa', nu), ('bobyqa', bo), ('cobyla', co)):
        add(n + '_reason', 'each status has its own explanation', reasons(n + '_reason', 'src/%s.c' % n, codes(*c), lambda t: t.startswith(b'unknown')))
    add('opk_guess_status', 'status of a C library error', guess)
    for nl in (False, True):
        for pn in (False, True):
            add('opk_get_integer_constant/%s/%s' % ('no name' if nl else 'name', 'no destination' if pn else 'destination'), 'found exactly when known', constants(nl, pn))
    for m in METHODS:
        for p in (False, True):
            for sp in (False, True):
                add('opk_get_nlcg_description/%s%s%s' % (m, ' powell' if p else '', ' shanno-phua' if sp else ''), 'complete text through the bounded copy', describe('opk_get_nlcg_description', nlcg_text(m, p, sp), nlcg_setup(m, p, sp)))
    add('opk_get_nlcg_name', 'name through the bounded copy', describe('opk_get_nlcg_name', lambda env, e, s: (b'NLCG',), nlcg_setup('DAI_YUAN', False, False)))
    for box, bl in ((0, 0), (1, 0), (1, 1)):
        add('opk_get_vmlmb_description/any memory%s%s' % (' box' if box else '', ' blmvm' if bl else ''), 'complete text through the bounded copy', describe('opk_get_vmlmb_description', vmlmb_text(None, box), s_vmlmb(1, box, False, bl, 0), any_memory))
    for mem in (1, 2):
        for box, bl in ((0, 0), (1, 0), (1, 1)):
            add('opk_get_vmlmb_description/mem=%d%s%s' % (mem, ' box' if box else '', ' blmvm' if bl else ''), 'complete text through the bounded copy', describe('opk_get_vmlmb_description', vmlmb_text(mem, box), s_vmlmb(mem, box, False, bl, 0)), bounded='memory size m <= 2')
            if mem == 1:
                add('opk_get_vmlmb_method_name/%s%s' % ('box' if box else 'free', ' blmvm' if bl else ''), 'name of the method', method_name(mem, box, bl, b'BLMVM' if bl else b'VMLMB' if box else b'VMLM/L-BFGS'))
    return out
