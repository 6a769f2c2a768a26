"""C25: histories of processes, arguments, environment and standard streams, carried out by drivers/proc.llrl."""
from common import *


def check():
    c = Check('C25', 'histories with two or more processes started (or refused); counted distinct by text')
    h = build_harness('c25')
    if std_driver(c, 'proc'):
        run_workers(c, h, 'c25', scale(1500, 60000), case_timeout=120)
    return c
