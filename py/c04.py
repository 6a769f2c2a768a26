"""C04: name resolution. Module sets over a small pool of names, in which every definition has a type of its
own, go through the front ends of llrl0 (in process) and llrl1 (driver); a reference resolver says which
modules are accepted and what is wrong with the others."""
from common import *

KINDS = [('Multiple declarations', 'multi'), ('Conflicting exports', 'export'), ('Duplicated identifier', 'dup'), ('Unresolved', 'unres'),
         ('Wildcard port name', 'wild'), ('No matching instances', 'nomatch'), ('Cannot unify type', 'type'),
         ('Macro expansion failed', 'macro'), ('Cannot use macro defined', 'macro')]


def judge(r, got):
    text, w = r
    lines = got.split('\n')
    at = lambda sig, why: ('llrl1-' + sig, '%s\nllrl1 answers\n%s\nfor\n%s' % (why, got, text))
    if not lines[0].startswith('ORDER '):
        return at('sources', 'the sources are fine')
    if lines[1] == 'OK':
        return at('accepts-' + sorted(sorted(w['fail'].values())[0])[0], 'to fail: %s' % w['fail']) if w['fail'] else None
    path = lines[1][4:].split(': ')[0]
    kind = [k for t, k in KINDS if t in got] or ['other']
    if path not in w['fail']:
        return at('rejects-' + kind[0], '%s is fine' % path)
    if kind[0] not in w['fail'][path]:
        return at('error-' + kind[0], 'to fail: %s' % w['fail'])


def check():
    c = Check('C04', 'at least two modules with at least six checked uses, one of them of a name that something shadows, counted distinct by text; an evaluation is a checked use')
    h = build_harness('c04')
    run_workers(c, h, 'c04', scale(20000, 600000))
    log('llrl0 part done')
    drv = build_driver(build_llrl0(), 'front', feats=['chibi-backend'])
    log('driver built')
    hx = lambda s: s.encode().hex()
    line = lambda r: ' '.join([','.join(hx(e) for e in r[1]['entries'])] + ['%s=%s' % (hx(p), hx(t)) for p, t in r[1]['files']])
    drive_texts(c, 'llrl1', h, drv, scale(2400, 80000), line, judge, None,
                lambda r: c.count('1' + r[0] if r[1]['nt'] else None, classes=['llrl1'], n=r[1]['checks']),
                wrap=lambda w: [''.join('== %s\n%s' % tuple(f) for f in w['files'] if f[0] != 'p/base'), w])
    return c
