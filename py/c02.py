"""C02: preprocessing. llrl0's preprocessor in process, llrl1's in a driver program, both against
the scoped-substitution model harness/src/pp.rs."""
import subprocess
from common import *


def check():
    c = Check('C02', 'generated sources expanding at least two directives, counted distinct by text and features')
    h = build_harness('c02')
    run_workers(c, h, 'c02', scale(400000, 8000000))
    log('llrl0 part done')
    drv = build_driver(build_llrl0(), 'preprocess')
    log('driver built')

    def judge(row, got):
        text, mask, want = row[:3]
        if got == want or want == 'READ\n' or got == 'READ\n':
            return None
        if want == 'ERR\n':
            return ('llrl1-accepts-malformed', 'features %s, source %s must be rejected but llrl1 expands it to\n%s' % (mask, text, got))
        if got == 'ERR\n':
            return ('llrl1-rejects-valid', 'features %s, source %s denotes\n%sbut llrl1 rejects it' % (mask, text, want))
        return ('llrl1-expansion', 'features %s, source %s denotes\n%sbut llrl1 expands it to\n%s' % (mask, text, want, got))

    def want(row, text):
        p = subprocess.run([h, 'want', str(row[1])], input=text.encode(), stdout=subprocess.PIPE)
        return [text, row[1], p.stdout.decode('utf8'), 9]

    drive_texts(c, 'llrl1', h, drv, scale(48000, 600000), lambda r: '%d' % r[1] + r[0].encode().hex(), judge, want,
                lambda r: c.count('1%d%s' % (r[1], r[0]) if r[3] >= 2 else None, classes=['llrl1-rejected' if r[2] == 'ERR\n' else 'llrl1-expanded']))
    return c
