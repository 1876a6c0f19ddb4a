"""Contract layer: pre-state construction, postconditions, candidate generators, and reports."""
import z3, time, traceback
from . import ir, build
from .engine import *


def add_elem_specs(eng, specs):
    """specs: list of dicts
         r, seg : array region
         k      : ghost index (arbitrary, fixed)
         exp    : value the finished computation must leave at k
         old    : value at k before
       For each loop that writes the array, candidate invariants say which side
       of an integer loop variable already holds `exp` and which side still
       holds `old`."""
    def gen(L, probe, mod):
        out = []
        for sp in specs:
            seg = sp.get('seg', 0)
            if (sp['r'], 's', seg) not in mod:
                continue
            k, r = sp['k'], sp['r']
            key = sp.get('key', k)
            rn = r.name + sp.get('tag', '')
            sel = lambda v, r=r, seg=seg, k=k: z3.Select(v.st.mem[r.id].arrs[seg], k)
            exps = sp['exp'] if isinstance(sp['exp'], list) else [sp['exp']]
            entry = z3.Select(L.st0.mem[r.id].arrs[seg], k)
            vs = [(p.res, (lambda v, n=p.res: i2z(v.phi[n]))) for p in L.phis if p.ty.k == 'i' and p.ty.a > 1]
            vs.append(('it', lambda v: i2z(v.it)))
            for p in L.phis:
                if p.ty.k == 'ptr' and isinstance(L.entry[p.res], Ptr) and L.entry[p.res].r is r:
                    esz = r.segs[seg].esz
                    vs.append((p.res, lambda v, n=p.res, esz=esz: v.phi[n].o.idx(r.segs[seg].base, esz)))
            for g in sp.get('marks', []):
                vs.append(g)
            for nm, f in vs:
                for (pn, pr) in (('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)):
                    for xi, x in enumerate(exps):
                        out.append(('%s k%s%s->exp%d' % (rn, pn, nm, xi), lambda v, f=f, pr=pr, x=x, sel=sel, k=key: z3.Implies(pr(k, f(v)), x(sel(v)) if callable(x) else vsame(eng, sel(v), x))))
                    out.append(('%s k%s%s->same' % (rn, pn, nm), lambda v, f=f, pr=pr, sel=sel, k=key, entry=entry: z3.Implies(pr(k, f(v)), sel(v) == entry)))
            out.append(('%s k same' % rn, lambda v, sel=sel, entry=entry: sel(v) == entry))
        return out
    eng.cand_gens.append(gen)


def vsame(eng, a, b):
    return eng.fp.same(a, b) if eng.fp.is_fp(a) or a.sort() == z3.RealSort() else a == b


def add_fold_specs(eng, folds):
    """folds: list of dicts  S: z3 function Int->F ; step: (j)-> formula stating S(j+1) in terms of S(j); base: formula for S(0)
       candidates: float loop variable == S(i) for integer loop variables i and the iteration counter."""
    def gen(L, probe, mod):
        out = []
        vs = [(p.res, (lambda v, n=p.res: i2z(v.phi[n]))) for p in L.phis if p.ty.k == 'i' and p.ty.a > 1]
        vs.append(('it', lambda v: i2z(v.it)))
        for fo in folds:
            for p in L.phis:
                if p.ty.k in ('double', 'float'):
                    for nm, f in vs:
                        def c(v, f=f, p=p, fo=fo):
                            i = f(v)
                            if v.st is not L.st0:
                                # ghost unfolding of the recursive definition around the current index
                                for q in range(-4, 5):
                                    v.st.assume(fo['step'](z3.simplify(i + q)))
                            return fo.get('match', lambda a, b: vsame(eng, a, b))(v.phi[p.res], fo['S'](i))
                        out.append(('%s==%s(%s)' % (p.res, fo['name'], nm), c, 1 if fo.get('hard') else 0))
        return out
    eng.cand_gens.append(gen)


class Report:
    def __init__(self):
        self.units = []

    def ok(self):
        return all(u['status'] == 'proved' for u in self.units)


def run_unit(name, fn_desc, make, fp='ord', deadline=None, **kw):
    """One function under contract, one case.  make(eng) -> (Func, st, args, post)
       post(eng, st, ret) emits obligations at every return."""
    eng = Engine(fp=fp, **kw)
    eng.case = name
    t0 = time.time()
    u = dict(unit=name, function=fn_desc, status='proved', obligations=0, discharged=0, failed=[], reason=None)
    if deadline:
        eng.deadline = time.time() + deadline
    try:
        fn, st, args, post = make(eng)
        eng.curfn = fn.name
        # vacuity guard: the precondition must be satisfiable
        if eng._check(st, []) != z3.sat:
            s = eng._check(st, [], 1)
            if s == z3.unsat:
                u['status'] = 'vacuous'
                u['reason'] = 'precondition unsatisfiable'
                return u, eng
        outs = eng.call_fn(st, fn, args)
        eng.curfn = fn.name
        live = 0
        for s, r in outs:
            eng.curline = fn.line
            if not live and eng.feasible(s):
                live += 1
            post(eng, s, r)
        if not outs or not live:
            u['status'] = 'vacuous'
            u['reason'] = 'no feasible return path'
    except Unsupported as e:
        u['status'] = 'undischarged'
        u['reason'] = 'beyond the verifier: %s (at %s:%s)' % (e, eng.curfn, eng.curline)
    except Budget:
        u['status'] = 'undischarged'
        u['reason'] = 'time budget exhausted'
    except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception, AssertionError, RecursionError) as e:
        u['status'] = 'undischarged'
        u['reason'] = 'verifier error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    u['obligations'] = len(eng.obls)
    u['discharged'] = sum(1 for o in eng.obls.values() if o.status == 'discharged')
    u['failed'] = [dict(name=o.name, line=o.line, info=o.info) for o in eng.obls.values() if o.status == 'failed']
    open_ = [o.name for o in eng.obls.values() if o.status == 'unknown']
    if open_ and u['status'] in ('proved', 'vacuous') and not u['failed']:
        # neither proved nor refuted within the solver's limits
        u['status'] = 'undischarged'
        u['reason'] = 'the solver gave no answer for: ' + '; '.join(open_)[:800]
    if u['failed']:
        u['status'] = 'failed' if u['status'] in ('proved', 'vacuous') else u['status']
    u['wall'] = round(time.time() - t0, 2)
    u['stats'] = dict(eng.stats)
    u['functions'] = sorted('%s:%s' % f for f in eng.functions_executed)
    u['assumptions'] = sorted(eng.assumptions)
    return u, eng
