"""C01: reading and printing. llrl0's lexer, parser and printer in process (harness/src/bin/c01.rs);
llrl1's in a driver program over the same generated texts and the same reference reader."""
import re, struct, subprocess
from common import *


def f64(bits):
    return struct.unpack('<d', struct.pack('<Q', int(bits)))[0]


def nan(c):
    return re.sub(r'(^|[( ])f(\d+)', lambda m: m.group(1) + 'fnan' if f64(m.group(2)) != f64(m.group(2)) else m.group(0), c, flags=re.M)


def same(a, b):
    """The same trees, but an integral float may be printed without a fraction (the existing tests say
    so): it is the same number when the integer read back is that floating-point value."""
    if a == b:
        return True
    x, y = re.findall(r'[()]|[^()\s]+|\n', a), re.findall(r'[()]|[^()\s]+|\n', b)
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p != q:
            if not (re.fullmatch(r'f\d+', p) and re.fullmatch(r'i-?\d+', q) and float(int(q[1:])) == f64(p[1:])):
                return False
    return True


def check():
    c = Check('C01', 'texts of at least 3 characters, counted distinct by text; each is read, every token and form location compared, printed and read again')
    h = build_harness('c01')
    log('harness built')
    run_workers(c, h, 'c01', scale(400000, 6000000), crash_sig='crash', hang_sig='hang', case_timeout=60)
    log('llrl0 part done')
    l0 = build_llrl0()
    drv = build_driver(l0, 'reader')
    log('reader driver built')
    def judge(row, got):
        """got is 'canonical @@SOH@@ canonical of what the printed form reads as'"""
        text, want = row[0], row[1]
        parts = got.split('@@SOH@@\n')
        if len(parts) != 2:
            return ('llrl1-output', 'unexpected driver output %r' % got)
        a, b = map(nan, parts)
        if want.startswith('ERR') != a.startswith('ERR'):
            return ('llrl1-accepts-invalid' if want.startswith('ERR') else 'llrl1-rejects-valid', 'text %r denotes\n%sbut llrl1 reads\n%s' % (text, want, a))
        if a != want and not want.startswith('ERR'):
            return ('llrl1-tree', 'text %r denotes\n%sbut llrl1 reads\n%s' % (text, want, a))
        if not want.startswith('ERR') and not same(a, b):
            return ('llrl1-print-read', 'text %r read by llrl1 as\n%sis printed by it as something that reads\n%s' % (text, a, b))
        return None

    def want(row, text):
        p = subprocess.run([h, 'want'], input=text.encode(), stdout=subprocess.PIPE)
        return [text, p.stdout.decode('utf8')]

    drive_texts(c, 'llrl1', h, drv, scale(48000, 400000), lambda r: '.' + r[0].encode().hex(), judge, want,
                lambda r: c.count(('1' + r[0]) if len(r[0]) > 2 else None, classes=['llrl1-rejected' if r[1].startswith('ERR') else 'llrl1-accepted']))
    c.assumptions = ['the grammar is the one documented by both readers: identifiers, numbers as Rust/IEEE decimal text, strings, characters, lists, prefix and suffix sugar']
    return c
