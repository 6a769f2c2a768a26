"""C17: histories on the mutable maps and sets, interpreted by drivers/maps.llrl and by a sorted map."""
from common import *


def check():
    c = Check('C17', 'histories of at least two updates and one query besides the final reading back of all three containers; counted distinct by text')
    h = build_harness('c17')
    if std_driver(c, 'maps'):
        run_workers(c, h, 'c17', scale(3000, 100000), case_timeout=120)
    return c
