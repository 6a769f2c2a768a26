"""C08: matches, on every backend, against an evaluator of the source."""
from common import *


def check():
    c = Check('C08', 'programs in whose runs at least two different clauses are selected; counted distinct by text')
    h = build_harness('c08', 'llvm-backend')
    use_configs(scale(['llrl0-chibi', 'llrl0-llvm', 'llrl0-llvm-O'], ['llrl0-chibi', 'llrl0-llvm', 'llrl0-llvm-O', 'llrl1-chibi', 'llrl1-llvm', 'llrl1-llvm-O']))
    run_workers(c, h, 'c08', scale(320, 12000), case_timeout=180)
    return c
