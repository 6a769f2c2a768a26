"""C12: values over the border to C, on every backend, against the C compilers."""
from common import *


def prepare():
    use_configs(['llrl0-chibi', 'llrl0-llvm'])


def check():
    c = Check('C12', 'signatures with a structure, and structures in memory; counted distinct by shape')
    h = build_harness('c12', 'llvm-backend')
    use_configs(scale(['llrl0-chibi', 'llrl0-llvm'], ['llrl0-chibi', 'llrl0-llvm', 'llrl0-llvm-O', 'llrl1-chibi', 'llrl1-llvm', 'llrl1-llvm-O']))
    run_workers(c, h, 'c12', scale(120, 8000), case_timeout=180)
    return c
