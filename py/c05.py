"""C05: unification. Histories over shared variables go through llrl0's contexts in process and llrl1's in a
driver; the reference is a textbook unifier over a substitution, with levels computed from the result."""
import re
from common import *

NAMES = dict(n='new', u='unify', m='match', d='default', e='equal', l='deepest-level', c='vars', s='subst')


def check():
    c = Check('C05', 'histories with at least two unifications or matchings, counted distinct by text')
    h = build_harness('c05')
    run_workers(c, h, 'c05', scale(150000, 4000000))
    log('llrl0 part done')
    drv = build_driver(build_llrl0(), 'unify', feats=['chibi-backend'])
    log('driver built')

    def judge(row, got):
        text, want = row
        if got == want:
            return None
        ops = re.findall(r'\b[a-z] [^a-z]*', text[2:])
        for i, (w, g) in enumerate(zip(want.split('\n'), got.split('\n'))):
            if w != g:
                name = NAMES[ops[i][0]]
                kind = 'accepted' if w == 'err' else 'rejected' if g == 'err' else 'result'
                return ('llrl1-%s-%s-%s' % ('type' if text[0] == 'T' else 'kind', name, kind),
                        'llrl1: after\n%s\nexpected %s\nbut got  %s' % ('\n'.join(ops[:i + 1]), w, g))
        raise HarnessError('C05: the driver answered %r to %r' % (got, text))

    drive_texts(c, 'llrl1', h, drv, scale(40000, 1000000), lambda r: r[0], judge, None,
                lambda r: c.count('1' + r[0] if len(re.findall(r'\b[um] ', r[0])) >= 2 else None, classes=['llrl1']))
    return c
