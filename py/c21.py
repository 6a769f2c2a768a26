"""C21: histories of file and directory operations on a scratch tree, interpreted by drivers/io.llrl and by C's library
on a twin of the tree; path functions against a definition of paths."""
import os, subprocess
from common import *


def check():
    c = Check('C21', 'file histories with two effects and a refused or closing operation, and path histories with three '
                     'functions and a path with dots; counted distinct by text')
    h = build_harness('c21')
    shim = os.path.join(BUILD, 'jail.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', shim, os.path.join(VERIF, 'harness/shim/jail.c'), '-ldl'], check=True)
    os.environ['VH_SHIM'] = shim
    if std_driver(c, 'io'):
        run_workers(c, h, 'c21', scale(300, 20000), case_timeout=120)
    return c
