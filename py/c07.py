"""C07: match checking. Generated types and clause lists go through the front end of llrl0 in process and
of llrl1 in a driver program; the verdict is the enumeration of all values to the depth the patterns look."""
from common import *


def check():
    c = Check('C07', 'matches of at least two clauses with a pattern of depth two or more, counted distinct by text')
    h = build_harness('c07')
    run_workers(c, h, 'c07', scale(60000, 1500000))
    log('llrl0 part done')
    drv = build_driver(build_llrl0(), 'front', feats=['chibi-backend'])
    log('driver built')

    def judge(row, got):
        text, want = row
        kind = 'non-exhaustive' if 'Non-exhaustive pattern' in got else 'useless' if 'Useless pattern' in got else '' if got.endswith('OK\n') else 'other'
        if kind == want or kind and kind in want.split(' '):
            return None
        return ('llrl1-%s-for-%s' % (kind or 'accepted', want.replace(' ', '+') or 'accepted'), 'expected %s but llrl1 says\n%s\nfor\n%s' % (want or 'acceptance', got, text))

    drive_texts(c, 'llrl1', h, drv, scale(3000, 100000), lambda r: '%s %s=%s' % (b'~'.hex(), b'~'.hex(), r[0].encode().hex()), judge, None,
                lambda r: c.count('1' + r[0] if r[0].count('\n    [') > 1 else None, classes=['llrl1 ' + (r[1] or 'accepted')]))
    return c
