"""C06: acceptance and inferred types of generated programs against a reference type checker."""
from common import *


def check():
    c = Check('C06', 'ill-typed programs and well-typed ones with an inferred polymorphic type; counted distinct by text')
    h = build_harness('c06')
    run_workers(c, h, 'c06', scale(1600, 60000), case_timeout=60)
    return c
