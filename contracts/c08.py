"""C08 -- the bound-constrained optimizer only ever asks for feasible points"""
from .c09 import iterate_fg, iterate_newx, start, refused, METHODS

SOURCES = ['src/vmlmb.c']
HARNESS = dict(src='c08.c', always=True, bounded='random histories of objective values, gradients and line search outcomes, n <= 8, 60 calls')


def units(tier):
    out = []
    for m in METHODS:
        for save in (0, 1):
            out.append(dict(name='start/%s/save=%d' % (m, save), desc='starting point', make=start(m, save, True)))
            out.append(dict(name='iterate/%s/save=%d/evaluated' % (m, save), desc='trial points along the search', make=iterate_fg(m, save, True)))
            for t in ('NEW_X', 'FINAL_X'):
                out.append(dict(name='iterate/%s/save=%d/%s' % (m, save, t), desc='first trial point of a search', make=iterate_newx(m, save, t, True)))
            out.append(dict(name='iterate/%s/save=%d/other state' % (m, save), desc='variables are not touched', make=refused(m, save, None, None)))
    return out
