"""C24: command lines over worlds of modules and packages."""
from common import *


def prepare():
    use_configs(['llrl0-chibi', 'llrl1-chibi'])


def check():
    c = Check('C24', 'command lines of at least three options; counted distinct by options, arguments, fault and layout')
    h = build_harness('c24')
    use_configs(scale(['llrl0-chibi', 'llrl1-chibi'], ['llrl0-chibi', 'llrl0-llvm', 'llrl1-chibi']))
    run_workers(c, h, 'c24', scale(200, 8000), case_timeout=180)
    return c
