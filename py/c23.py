"""C23: mutated and faulty modules, in process and through the whole compiler."""
from common import *


def prepare():
    use_configs(['llrl0-chibi', 'llrl0-llvm-O'])


def check():
    c = Check('C23', 'mutated modules and modules with a fault put in, that are read; counted distinct by text')
    h = build_harness('c23')
    use_configs(scale(['llrl0-chibi'], ['llrl0-chibi', 'llrl0-llvm-O', 'llrl1-chibi']))
    run_workers(c, h, 'c23', scale(40000, 2000000), case_timeout=60, part='front')
    run_workers(c, h, 'c23', scale(300, 12000), case_timeout=600, part='batch')
    return c
