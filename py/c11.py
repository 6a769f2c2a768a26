"""C11: llrl1 beside llrl0: verdicts, behaviour, and reproducible output."""
from common import *
import threading


def check():
    c = Check('C11', 'valid programs of at least 3 statements, and edited programs on which both compilers come to a verdict; counted distinct by text')
    h = build_harness('c11', 'chibi-backend')
    use_configs(scale(['llrl0-chibi', 'llrl1-chibi'], ['llrl0-chibi', 'llrl1-chibi', 'llrl1-llvm']))
    l0, l1 = build_llrl0(), build_llrl1(build_llrl0())
    # llrl1 built by itself, meanwhile
    l2 = os.path.join(BUILD, 'llrl2-%d' % os.getpid())
    cmd = [l1, '-b', 'chibi', '-o', l2, '-fchibi-backend', '-pxten:../xten1', '-pllvm:../llvm1', '-O', 'main']
    p = subprocess.Popen(cmd, cwd=REPO + '/llrl1', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    box = []
    th = threading.Thread(target=lambda: box.append(p.communicate()[0]))
    th.start()
    try:
        run_workers(c, h, 'c11', scale(1000, 40000), case_timeout=180, part='edited')
        run_workers(c, h, 'c11', scale(150, 8000), case_timeout=180)
        th.join(600)
        if th.is_alive():
            raise RuntimeError('llrl1 does not compile itself within the time')
        if p.returncode != 0 or not os.path.exists(l2):
            c.fail('self-compile', 'llrl1 does not compile itself: %s' % box[0].decode('utf-8', 'replace')[-1500:])
        else:
            os.environ['VH_PEERS'] = l2
            run_workers(c, h, 'c11', scale(40, 2000), case_timeout=180, part='peers')
            if TIER == 'thorough':
                l3 = l2 + '-again'
                r = subprocess.run([l2] + cmd[1:4] + [l3] + cmd[5:], cwd=REPO + '/llrl1', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
                if r.returncode != 0 or open(l3, 'rb').read() != open(l2, 'rb').read():
                    c.fail('fixed-point', 'llrl1 built by itself, compiling itself, does not give itself')
    finally:
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
        th.join()
        for f in (l2, l2 + '-again'):
            if os.path.exists(f):
                os.unlink(f)
    return c
