"""C19: histories on strings, texts, characters and numbers as text, interpreted by drivers/strs.llrl and by Rust's strings."""
from common import *


def check():
    c = Check('C19', 'histories with a character outside ASCII and at least three operations on non-empty strings; counted distinct by text')
    h = build_harness('c19')
    if std_driver(c, 'strs'):
        run_workers(c, h, 'c19', scale(3000, 100000), case_timeout=120)
    return c
