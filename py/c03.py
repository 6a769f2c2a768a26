"""C03: the module graph."""
from common import *


def prepare():
    os.environ['VH_LLRL0'] = build_llrl0()
    os.environ['VH_LLRL1'] = build_llrl1(os.environ['VH_LLRL0'])


def klass(msg):
    for a, b in (('Package not found', 'package'), ('Module not found', 'module'), ('Parse failed', 'parse'),
                 ('Invalid import path', 'invalid'), ('Cannot import module itself', 'self')):
        if msg.startswith(a):
            return b
    return 'other'


def judge(row, got):
    w = row[1]
    text = row[0]
    lines = got.split('\n')[:-1]
    at = lambda sig, msg: ('llrl1-' + sig, '%s\n%s\nllrl1 answers %s' % (text, msg, got))
    if w['src']:
        found = set()
        for l in lines:
            if not l.startswith('SRC '):
                return at('source-errors', 'has the errors %s' % w['src'])
            p, m = l[4:].split(': ', 1)
            found.add((p, klass(m)))
        if not set(map(tuple, w['src'])) <= found <= set(map(tuple, w['most'])):
            return at('source-errors', 'has the errors %s' % w['src'])
        return None
    if lines and lines[0].startswith('SRC'):
        return at('source-errors', 'has no import errors')
    if w['cycles']:
        if not lines[0].startswith('CYCLE '):
            return at('cycle-accepted', 'has the cycles %s' % w['cycles'])
        if sorted(lines[0][6:].split(' ')) not in [sorted(c) for c in w['cycles']]:
            return at('cycle-report', 'has the cycles %s' % w['cycles'])
        return None
    if not lines[0].startswith('ORDER '):
        return at('cycle-invented', 'has no cycle')
    order = lines[0][6:].split(' ')
    if sorted(order) != sorted(set(w['reach']) | {'builtin'}):
        return at('reachable', 'the reachable modules are %s' % w['reach'])
    for i, p in enumerate(order):
        for d in w['deps'].get(p, []):
            if d not in order[:i]:
                return at('order', '%s depends on %s' % (p, d))
    if w['bad']:
        if not lines[1].startswith('MOD ') or lines[1][4:].split(': ')[0] not in w['bad']:
            return at('built', 'the module to fail is one of %s' % w['bad'])
    elif lines[1] != 'OK':
        return at('built', 'every module is fine')
    return None


def rows(h, mode, a, b):
    p = subprocess.run([h, mode, str(SEED), str(a), str(b)], stdout=subprocess.PIPE)
    if p.returncode != 0:
        raise HarnessError('c03 %s ended with %s' % (mode, p.returncode))
    return [json.loads(x) for x in p.stdout.decode('utf8').split('\n') if x]


def check():
    c = Check('C03', 'graphs with at least four reachable modules (three for compiled ones), counted distinct by sources and entries')
    h = build_harness('c03')
    run_workers(c, h, 'c03', scale(20000, 600000))
    log('llrl0 part done')
    prepare()
    run_workers(c, h, 'c03', scale(400, 12000), part='trace')
    log('trace part done')
    drv = build_driver(build_llrl0(), 'front', feats=['chibi-backend'])
    log('driver built')
    hx = lambda s: s.encode().hex()
    line = lambda r: ' '.join([','.join(hx(e) for e in r[1]['entries'])] + ['%s=%s' % (hx(p), hx(t)) for p, t in r[1]['files']])
    drive_texts(c, 'llrl1', h, drv, scale(2400, 80000), line, judge, None,
                lambda r: c.count('1' + r[0] if len(r[1]['reach']) >= 4 else None, classes=['llrl1']),
                wrap=lambda w: ['entries %s\n%s' % (w['entries'], ''.join('== %s\n%s' % tuple(f) for f in w['files'])), w])
    return c
