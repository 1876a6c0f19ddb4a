"""check driver:  python3-vt -m opkv.check C01 [--tier quick|thorough] [--jobs N] [--only REGEX] [-v]

Runs every unit (function x case) of the property's contract file, each in its
own process, on IR extracted from the current /repo sources.  Exit 0: every
obligation discharged.  Exit 1 + VIOLATION: an obligation failed (with the
failing input found by the replay harness on the real code when there is one).
"""
import sys, os, json, time, re, importlib, multiprocessing as mp, subprocess, shutil, tempfile, signal, traceback, resource

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from opkv import build          # noqa

LIBSRC = ['algebra.c', 'bobyqa.c', 'cobyla.c', 'dblvector.c', 'driver.c', 'fltvector.c', 'fmin.c', 'gqtpar.c', 'lcg.c',
          'linalg.c', 'lnsrch.c', 'newuoa.c', 'nlcg.c', 'utils.c', 'vmlmb.c']

TRUSTED = ['z3 4.x/5.x SMT solver (python z3-solver in /opt/veriftools/pyvenv)',
           'opkv verification-condition generator (/verif/opkv): LLVM-IR semantics, loop cut-points, Houdini invariant inference',
           'clang-18 front end and opt-18 sroa,simplifycfg,loop-simplify (extraction C -> LLVM IR; drops debug info only)',
           'memory model: distinct objects do not overlap; typed arrays; contract case enumerates which operands share storage',
           'C library contracts in /verif/opkv/libc.py (malloc, free, memset, memcpy, sqrt, fabs, errno, stdio)',
           'IEEE-754 axioms in /verif/opkv/fp.py (round-to-nearest; comparisons exact; operations uninterpreted with sound bounds)']


def _worker(q, mod, idx, tier, deadline, memmb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (memmb << 20, memmb << 20))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        from opkv.spec import run_unit
        m = importlib.import_module('contracts.' + mod)
        un = m.units(tier)[idx]
        kw = dict(un.get('opts', {}))
        u, eng = run_unit(un['name'], un['desc'], un['make'], deadline=un.get('deadline', deadline), **kw)
        u['obls'] = [(o.name, o.status) for o in eng.obls.values()]
        q.put((idx, u))
    except build.ExtractError as e:
        q.put((idx, dict(status='undischarged', reason='extraction: %s' % e)))
    except BaseException as e:
        q.put((idx, dict(status='undischarged', reason='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))))


def run_units(mod, units, tier, jobs, deadline, only=None, verbose=False, total=700):
    ctx = mp.get_context('fork')
    res = {}
    todo = [i for i, u in enumerate(units) if not only or re.search(only, u['name'])]
    todo.sort(key=lambda i: -units[i].get('cost', 1))
    live = {}
    t0 = time.time()
    q = ctx.Queue()
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            p = ctx.Process(target=_worker, args=(q, mod, i, tier, deadline, 6000))
            p.start()
            live[i] = (p, time.time())
        try:
            i, u = q.get(timeout=0.5)
            p, ts = live.pop(i)
            p.join(5)
            res[i] = u
            if verbose:
                print('%-60s %-12s %3s/%-3s %6.1fs %s' % (units[i]['name'], u['status'], u.get('discharged'), u.get('obligations'), time.time() - ts,
                                                         (u.get('reason') or '')[:300]), flush=True)
                for f in u.get('failed', []):
                    print('    FAILED %s line %s: %s' % (f['name'], f['line'], (f['info'] or '')[:400]), flush=True)
        except Exception:
            pass
        now = time.time()
        for i, (p, ts) in list(live.items()):
            lim = units[i].get('deadline', deadline) + 30
            if (not p.is_alive() and q.empty() and now - ts > 2) or now - ts > lim or now - t0 > total:
                if not p.is_alive():
                    time.sleep(0.2)
                    if not q.empty():
                        continue
                p.kill()
                live.pop(i)
                res[i] = dict(status='undischarged', reason='verifier process ended or exceeded its limits')
                if verbose:
                    print('%-60s killed' % units[i]['name'])
        if now - t0 > total:
            for i in todo:
                res[i] = dict(status='undischarged', reason='check time budget exhausted')
            todo = []
    return res


def sh(cmd, timeout, cwd=None, env=None):
    """run a command in its own session and end everything it started"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        out, _ = p.communicate()
        return 'timeout', out or ''


def run_harness(h, seed, tier, limit=200):
    """compile the concrete harness against the real sources, run it; returns dict"""
    d = tempfile.mkdtemp(prefix='opkvh')
    try:
        srcs = [os.path.join(build.REPO, 'src', s) for s in h.get('lib', LIBSRC) if os.path.exists(os.path.join(build.REPO, 'src', s))]
        objs = []
        procs = []
        fl = ['-O1', '-g', '-w', '-I' + os.path.join(build.REPO, 'src'), '-I' + os.path.join(ROOT, 'replay')]
        if h.get('san', True):
            fl += ['-fsanitize=address,undefined', '-fno-sanitize=function', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
        for s in srcs + [os.path.join(ROOT, 'replay', h['src'])]:
            o = os.path.join(d, os.path.basename(s) + '.o')
            objs.append(o)
            procs.append(subprocess.Popen([build.CLANG] + fl + h.get('cflags', []) + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in procs:
            out, _ = p.communicate(timeout=300)
            if p.returncode:
                return dict(status='error', output='compile: ' + out[-2000:])
        exe = os.path.join(d, 'h')
        rc, out = sh([build.CLANG] + fl + objs + ['-lm', '-o', exe], 120)
        if rc:
            return dict(status='error', output='link: ' + out[-2000:])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:allocator_may_return_null=1:max_allocation_size_mb=4096' % (1 if h.get('leaks') else 0), VERIF_SEED=str(seed), VERIF_TIER=tier, UBSAN_OPTIONS='print_stacktrace=1')
        rc, out = sh([exe, str(seed), tier] + h.get('args', []), h.get('timeout', limit), cwd=d, env=env)
        m = re.search(r'^CASES (\d+)', out, re.M)
        r = dict(status='pass' if rc == 0 else 'fail', rc=rc, output=out[-6000:], cases=int(m.group(1)) if m else 0, cmd='%s %d %s' % (h['src'], seed, tier))
        if rc == 'timeout':
            r['status'] = 'fail' if h.get('timeout_fails') else 'timeout'
            r['output'] += '\nFAIL: no end after %s s (normally a few seconds)' % h.get('timeout', limit)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('property') == pid and k.get('status') == 'known':
                    out.append(k)
    return out


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(os.environ.get('OPKV_JOBS', '8'))
    only = None
    verbose = '-v' in a
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--only' in a:
        only = a[a.index('--only') + 1]
    if '--jobs' in a:
        jobs = int(a[a.index('--jobs') + 1])
    t0 = time.time()
    mod = pid.lower()
    m = importlib.import_module('contracts.' + mod)
    deadline = getattr(m, 'DEADLINE', {}).get(tier, 240 if tier == 'quick' else 1500)
    total = 640 if tier == 'quick' else 7200
    # parse the sources once, before forking
    for s in getattr(m, 'SOURCES', []):
        try:
            build.module(s)
        except Exception as e:
            print('extraction of %s: %s' % (s, str(e)[-500:]))
    units = m.units(tier)
    res = run_units(mod, units, tier, jobs, deadline, only, verbose, total)
    known = known_findings(pid)
    bad, und, vac = [], [], []
    nob = ndis = bob = bdis = 0
    qs = dict(queries=0, solver_s=0.0, loops=0, invs=0, paths=0, escalated=0, unknown=0)
    funcs, assum, usum = set(), set(), []
    knownhit = []
    for i, un in enumerate(units):
        u = res.get(i)
        if u is None:
            continue
        if un.get('bounded'):
            bob += u.get('obligations', 0)
            bdis += u.get('discharged', 0)
        else:
            nob += u.get('obligations', 0)
            ndis += u.get('discharged', 0)
        for k in qs:
            qs[k] += u.get('stats', {}).get(k, 0)
        funcs |= set(u.get('functions', []))
        assum |= set(u.get('assumptions', []))
        usum.append(dict(unit=un['name'], contract=un['desc'], status=u['status'], **({'bounded': un['bounded']} if un.get('bounded') else {}), obligations=u.get('obligations', 0), discharged=u.get('discharged', 0), wall_s=u.get('wall')))
        if u['status'] == 'failed':
            fl = []
            for f in u['failed']:
                k = [k for k in known if k.get('obligation') and re.search(k['obligation'], f['name'])]
                if k:
                    knownhit.append((k[0], f))
                else:
                    fl.append(f)
            if fl:
                bad.append((un, u, fl))
        elif u['status'] == 'vacuous':
            vac.append((un, u))
        elif u['status'] == 'undischarged':
            fl = [f for f in u.get('failed', [])]
            if fl:
                bad.append((un, u, fl))
            und.append((un, u))
    harness = getattr(m, 'HARNESS', None)
    hs = harness if isinstance(harness, list) else [harness] if harness else []
    hres = []
    need = bool(bad or und or vac)
    for h in hs:
        if need or h.get('always') or tier == 'thorough':
            hr = run_harness(h, seed, tier)
            hr['src'] = h['src']
            hr['bounded'] = h.get('bounded', '')
            hres.append(hr)
    hfail = []
    for hr in hres:
        if hr['status'] == 'fail':
            ks = [k for k in known if k.get('harness') and re.search(k['harness'], hr['output'])]
            if ks:
                knownhit.append((ks[0], dict(name='harness')))
            else:
                hfail.append(hr)
    viol = 1 if (bad or hfail or vac) else 0
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(m, 'LEVEL', 'proof'),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='cd /verif && ./check %s' % pid, trusted_base=TRUSTED + getattr(m, 'TRUSTED', []),
                            units=len(usum), units_proved=sum(1 for u in usum if u['status'] == 'proved'), functions_under_contract=sorted(funcs),
                            backend='z3', solver_queries=qs['queries'], solver_s=round(qs['solver_s'], 2), loops_cut=qs['loops'], loop_invariants_proved=qs['invs'],
                            return_paths=qs['paths'], unit_results=usum,
                            undischarged=[dict(unit=un['name'], reason=u.get('reason')) for un, u in und],
                            bounded_obligations=dict(generated=bob, discharged=bdis, bounds=sorted({un['bounded'] for un in units if un.get('bounded')})),
                            bounded=[dict(harness=h['src'], result=h['status'], cases=h.get('cases'), bound=h.get('bounded')) for h in hres]),
              assumptions=sorted(assum) + getattr(m, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=viol)
    if only is None:
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    seen = set()
    for k, f in knownhit:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d/%d obligations discharged in %d units (%d functions)%s, %d queries, %.1f s solver, %.1f s wall' % (
        pid, ndis, nob, len(usum), len(funcs), ', %d/%d bounded' % (bdis, bob) if bob else '', qs['queries'], qs['solver_s'], time.time() - t0))
    for hr in hres:
        print('%s: bounded harness %s: %s (%s cases)' % (pid, hr['src'], hr['status'], hr.get('cases')))
        if hr['status'] not in ('pass', 'fail'):
            print(hr['output'][-500:])
    for un, u in und:
        print('%s: UNDECIDED by proof: %s: %s' % (pid, un['name'], (u.get('reason') or '')[:200]))
    if not viol:
        # units beyond the verifier: the bounded harness stands in (never counted as proved)
        sys.exit(0)
    rd = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, '%s.txt' % pid)
    with open(rp, 'w') as f:
        f.write('property %s\n' % pid)
        for un, u, fl in bad:
            f.write('\nunit %s -- %s\n' % (un['name'], un['desc']))
            for o in fl:
                f.write('  FAILED OBLIGATION %s (source line %s)\n    %s\n' % (o['name'], o['line'], (o['info'] or '').replace('\n', '\n    ')))
        for un, u in vac:
            f.write('\nunit %s: %s\n' % (un['name'], u.get('reason')))
        for hr in hres:
            f.write('\nharness /verif/replay/%s: %s\n%s\n' % (hr['src'], hr['status'], hr['output']))
    for un, u, fl in bad[:10]:
        print('failed obligation: %s' % fl[0]['name'])
    if hfail:
        print(hfail[0]['output'][-800:])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    sys.exit(1)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
