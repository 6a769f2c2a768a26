"""C14: object files, read back by a reader of our own and linked by the system linker."""
from common import *

FEATURE = 'xten'


def prepare():
    use_configs(['llrl0-chibi'])


def check():
    c = Check('C14', 'objects with at least two symbols and two relocations, sets of at least two linked objects with three references, and objects written by xten1; counted distinct by script')
    h = build_harness('c14', 'xten')
    run_workers(c, h, 'c14', scale(1600, 60000), case_timeout=120)
    run_workers(c, h, 'c14', scale(1600, 50000), case_timeout=120, part='link')
    use_configs(['llrl0-chibi'])
    run_workers(c, h, 'c14', scale(32, 800), case_timeout=240, part='peer')
    return c
