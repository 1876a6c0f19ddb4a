"""python3 tools/mkseed.py [ID...]: (re)generate and confirm the planted bugs described in tools/seeds/*.py
(the demonstration passes on a scratch copy of /repo's sources and fails with the patch)"""
import os, sys, json, subprocess, shutil, tempfile, importlib.util, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds the demonstration against the library's sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -g -O1 -w %s -I src -o "$t/demo" "$here/demo.c" %s -lm || exit 3
cd "$t" && timeout 60 ./demo
'''
LIB = ' '.join('"$PWD"/src/%s.c' % s for s in 'algebra dblvector fltvector driver fmin gqtpar lcg linalg lnsrch nlcg utils vmlmb'.split())
S = {}
for f in sorted(glob.glob(os.path.join(ROOT, 'tools/seeds/*.py'))):
    sp = importlib.util.spec_from_file_location('s', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for s in m.SEEDS:
        S[s['id']] = s
ids = sys.argv[1:] or list(S)
for i in ids:
    s = S[i]
    d = os.path.join(ROOT, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='opkseed')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        r = t + '/r'
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            x = open(p).read()
            n = s.get('count', {}).get(old, 1)
            if x.count(old) != n:
                sys.exit('%s: %d occurrences of %r in %s' % (i, x.count(old), old, f))
        open(d + '/demo.c', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % (s.get('flags', ''), s.get('lib', LIB)))
        os.chmod(d + '/demo.sh', 0o755)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            x = open(p).read()
            open(p, 'w').write(x.replace(old, new))
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(i, 'clean', a.returncode, 'patched', b.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else '', (b.stdout + b.stderr)[-200:])
    finally:
        shutil.rmtree(t)
