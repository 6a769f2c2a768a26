"""C15: histories of objects loaded by the in-process linker, read back from memory and run."""
from common import *

FEATURE = 'xten'


def check():
    c = Check('C15', 'histories of at least two loaded objects with at least four references; counted distinct by script')
    h = build_harness('c15', 'xten')
    run_workers(c, h, 'c15', scale(24000, 1500000), case_timeout=120)
    return c
