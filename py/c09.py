"""C09: arithmetic, on every backend, against the definition of each operation."""
from common import *


def check():
    c = Check('C09', 'single operations whose left operand is neither 0 nor 1, and expressions of at least two operations; counted distinct by text')
    h = build_harness('c09', 'llvm-backend')
    use_configs(scale(['llrl0-chibi', 'llrl0-llvm', 'llrl0-llvm-O', 'llrl1-chibi'],
                      ['llrl0-chibi', 'llrl0-chibi-O', 'llrl0-llvm', 'llrl0-llvm-O', 'llrl1-chibi', 'llrl1-llvm', 'llrl1-llvm-O']))
    run_workers(c, h, 'c09', scale(160, 6000), case_timeout=120)
    run_workers(c, h, 'c09', scale(200, 8000), case_timeout=120, part='programs')
    return c
