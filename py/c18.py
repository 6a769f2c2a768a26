"""C18: histories of versions of the persistent maps, interpreted by drivers/pmaps.llrl and by a sorted map."""
from common import *


def check():
    c = Check('C18', 'histories in which some non-empty version has at least two descendants; counted distinct by text')
    h = build_harness('c18')
    if std_driver(c, 'pmaps'):
        run_workers(c, h, 'c18', scale(3000, 100000), case_timeout=120)
    return c
