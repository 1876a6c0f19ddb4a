"""python3-vt -m opkv.harness C03 [seed [tier]]: run the replay harness of a property alone"""
import sys, importlib
from . import check
h = importlib.import_module('contracts.' + sys.argv[1].lower()).HARNESS
for x in (h if isinstance(h, list) else [h]):
    r = check.run_harness(x, int(sys.argv[2]) if len(sys.argv) > 2 else 1, sys.argv[3] if len(sys.argv) > 3 else 'quick')
    print(x['src'], r['status'], r.get('rc'), r['output'][-2500:])
