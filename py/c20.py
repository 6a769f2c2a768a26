"""C20: values of generated types in generated programs, and histories on xxHash states."""
from common import *


def check():
    c = Check('C20', 'lists of values of one composite or derived type with at least two unequal ones, copies changed inside, and hash streams of at least two writes; counted distinct by text')
    h = build_harness('c20')
    os.environ['VH_LLRL0'] = build_llrl0()
    run_workers(c, h, 'c20', scale(280, 8000), case_timeout=120)
    if std_driver(c, 'xx'):
        run_workers(c, h, 'c20', scale(400, 20000), case_timeout=120, part='xx')
    return c
