"""C22: macros: what they receive, build and return, captures, generated symbols, errors."""
from common import *


def prepare():
    use_configs(['llrl0-chibi', 'llrl0-llvm'])


def check():
    c = Check('C22', 'trees of more than 8 nodes, templates with at least 2 holes, matches, captured definitions and errors; counted distinct by content')
    h = build_harness('c22', 'llvm-backend')
    use_configs(scale(['llrl0-chibi', 'llrl0-llvm'], ['llrl0-chibi', 'llrl0-llvm', 'llrl0-llvm-O', 'llrl1-chibi', 'llrl1-llvm']))
    run_workers(c, h, 'c22', scale(160, 12000), case_timeout=180)
    return c
