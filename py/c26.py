"""C26: kinds of type parameters against a reference kind inference."""
from common import *


def check():
    c = Check('C26', 'ill-kinded modules and well-kinded ones with a parameter that is not a type; counted distinct by text')
    h = build_harness('c26')
    run_workers(c, h, 'c26', scale(2400, 200000), case_timeout=60)
    return c
