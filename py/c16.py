"""C16: histories on arrays and vectors and iterator pipelines, interpreted by drivers/seq.llrl and by lists."""
from common import *


def check():
    c = Check('C16', 'histories of at least three operations that read elements back, and pipelines of at least two stages over a non-empty source; counted distinct by text')
    h = build_harness('c16')
    if std_driver(c, 'seq'):
        run_workers(c, h, 'c16', scale(1600, 60000), case_timeout=120)
    return c
