"""C10: whole programs, on every backend, against an evaluator of the source."""
from common import *


def check():
    c = Check('C10', 'programs that make at least 3 calls and write at least 3 words; counted distinct by text')
    h = build_harness('c10', 'llvm-backend')
    use_configs(scale(['llrl0-chibi', 'llrl0-llvm', 'llrl0-llvm-O'], ['llrl0-chibi', 'llrl0-llvm', 'llrl0-llvm-O', 'llrl1-chibi', 'llrl1-llvm', 'llrl1-llvm-O']))
    run_workers(c, h, 'c10', scale(320, 12000), case_timeout=180)
    return c
