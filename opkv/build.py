"""Mechanical extraction: /repo C source -> LLVM IR (run on every check)."""
import os, re, subprocess, hashlib, tempfile, shutil
from . import ir

REPO = os.environ.get('OPKV_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'
CFLAGS = ['-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g',
          '-ffp-contract=off', '-fno-math-errno', '-w']
PASSES = 'strip-nonlinetable-debuginfo,function(sroa,simplifycfg<no-switch-to-lookup;no-sink-common-insts>,loop-simplify)'
# jumps into loops: made reducible and simplified before variables are moved to registers, so that loops keep one header each
PASSES_IRR = 'strip-nonlinetable-debuginfo,function(simplifycfg<no-switch-to-lookup;no-sink-common-insts>,fix-irreducible,loop-simplify,sroa)'
_cache = {}
_di = {}


class ExtractError(Exception):
    pass


def module(src, defs=(), incs=(), irreducible=False):
    key = (src, tuple(defs), irreducible)
    if key in _cache:
        return _cache[key]
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    d = tempfile.mkdtemp(prefix='opkv')
    try:
        a, b = os.path.join(d, 'a.ll'), os.path.join(d, 'b.ll')
        cmd = [CLANG] + CFLAGS + ['-I' + os.path.join(REPO, 'src')] + ['-I' + i for i in incs] + ['-D' + x for x in defs] + [path, '-o', a]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise ExtractError(r.stderr[-2000:])
        _di[key] = parse_di(open(a).read())
        r = subprocess.run([OPT, '-S', '-passes=' + (PASSES_IRR if irreducible else PASSES), a, '-o', b], capture_output=True, text=True)
        if r.returncode:
            raise ExtractError(r.stderr[-2000:])
        m = ir.parse_module(open(b).read(), os.path.relpath(path, REPO))
        m.layout = _di[key]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _cache[key] = m
    return m


_mac = {}


def macros(header='optimpack.h'):
    """object-like macros with integer values, as the preprocessor sees them"""
    if header not in _mac:
        r = subprocess.run([CLANG, '-E', '-dM', '-x', 'c', '-I' + os.path.join(REPO, 'src'), '-include', header, '/dev/null'], capture_output=True, text=True)
        raw = dict(m.groups() for m in re.finditer(r'^#define (\w+) +(.*)$', r.stdout, re.M))

        def val(n, d=0):
            t = raw.get(n)
            if t is None or d > 10:
                raise KeyError(n)
            t = re.sub(r'\b[A-Za-z_]\w*\b', lambda m: str(val(m.group(0), d + 1)), t)
            return int(eval(re.sub(r'(?<=\d)[uUlL]+\b', '', t), {'__builtins__': {}}))
        out = {}
        for n in raw:
            if n.startswith('OPK_') or n.isupper():
                try:
                    out[n] = val(n)
                except Exception:
                    pass
        _mac[header] = out
    return _mac[header]


_md = re.compile(r'^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$')
_tup = re.compile(r'^!(\d+) = (?:distinct )?!\{(.*)\}$')


def _attr(s, k):
    m = re.search(r'\b%s: (?:"([^"]*)"|([^,)]+))' % k, s)
    return (m.group(1) if m.group(1) is not None else m.group(2)) if m else None


def parse_di(text):
    """C struct layouts (tag or typedef name -> member -> byte offset) and
    enumerators, from the debug information the compiler emits"""
    nodes, tups = {}, {}
    for l in text.splitlines():
        if not l.startswith('!'):
            continue
        m = _md.match(l)
        if m:
            nodes[int(m.group(1))] = (m.group(2), m.group(3))
            continue
        m = _tup.match(l)
        if m:
            tups[int(m.group(1))] = [int(x) for x in re.findall(r'!(\d+)', m.group(2))]
    ref = lambda s: int(s[1:]) if s and s.startswith('!') else None

    def base(i):
        n = 0
        while i is not None and i in nodes and nodes[i][0] == 'DIDerivedType' and ('typedef' in nodes[i][1] or 'const' in nodes[i][1]) and n < 20:
            i = ref(_attr(nodes[i][1], 'baseType'))
            n += 1
        return i

    out, enums, sizes = {}, {}, {}

    def members(i):
        r = {}
        for e in tups.get(ref(_attr(nodes[i][1], 'elements')), []):
            k, s = nodes.get(e, ('', ''))
            if 'DW_TAG_member' in s:
                nm = _attr(s, 'name')
                off = int(_attr(s, 'offset') or 0) // 8
                if nm:
                    r[nm] = off
                b = base(ref(_attr(s, 'baseType')))
                if b is not None and nodes[b][0] == 'DICompositeType' and 'structure_type' in nodes[b][1] or (b is not None and 'union_type' in nodes[b][1]):
                    for q, o in members(b).items():
                        r[(nm + '.' if nm else '') + q] = off + o
        return r
    for i, (k, s) in nodes.items():
        if k == 'DICompositeType' and ('structure_type' in s) and _attr(s, 'elements'):
            n = _attr(s, 'name')
            if n:
                out[n] = members(i)
                sizes[n] = int(_attr(s, 'size') or 0) // 8
        if k == 'DIDerivedType' and 'DW_TAG_typedef' in s:
            b = base(i)
            if b is not None and b in nodes and 'structure_type' in nodes[b][1] and _attr(nodes[b][1], 'elements'):
                out[_attr(s, 'name')] = members(b)
                sizes[_attr(s, 'name')] = int(_attr(nodes[b][1], 'size') or 0) // 8
        if k == 'DIEnumerator':
            enums[_attr(s, 'name')] = int(_attr(s, 'value'))
    out['#enum'] = enums
    out['#size'] = sizes
    return out
