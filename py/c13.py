"""C13: instructions against binutils, labels against a model of the layout, xten1 against xten0."""
from common import *

FEATURE = 'xten'


def prepare():
    use_configs(['llrl0-chibi'])


def regenerated(c):
    """The harness on a copy of the tree with the tables xtencg generates now, or None where these are the committed ones."""
    d = os.path.join(BUILD, 'regen')
    r = os.path.join(d, 'repo')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
    sh(['cargo', 'build', '--offline', '-p', 'xtencg', '--manifest-path', REPO + '/Cargo.toml', '--target-dir', os.path.join(BUILD, 'xtencg')], cwd=d, timeout=600)
    p = sh([os.path.join(BUILD, 'xtencg/debug/xtencg')], cwd=r, timeout=60, check=False)
    if p.returncode:
        c.fail('xtencg', 'xtencg does not generate the tables: %s' % p.stderr.decode('utf8', 'replace')[-600:])
        return None
    def same(f):
        return open(os.path.join(r, f), 'rb').read() == open(os.path.join(REPO, f), 'rb').read()
    if same('xten0/src/asm/inst.rs') and same('xten1/asm/inst.llrl'):
        return None
    print('xtencg generates other tables than the committed ones: running on those too', flush=True)
    h = os.path.join(d, 'harness')
    shutil.copytree(VERIF + '/harness', h, ignore=shutil.ignore_patterns('target'))
    m = open(h + '/Cargo.toml').read()
    open(h + '/Cargo.toml', 'w').write(m.replace('"/repo/', '"%s/' % r))
    t = os.path.join(BUILD, 'regen-target')
    p = sh(['cargo', 'build', '--release', '--offline', '--features', FEATURE, '--bin', 'c13', '--target-dir', t], cwd=h, timeout=850, check=False)
    if p.returncode:
        c.fail('xtencg-build', 'the assembler xtencg generates lacks what the committed one has: %s' % p.stderr.decode('utf8', 'replace')[-1200:])
        return None
    os.environ['VH_XTEN1'] = os.path.join(r, 'xten1')
    return os.path.join(t, 'release/c13')


def check():
    c = Check('C13', 'instructions with operands, and objects with at least two references to labels; counted distinct by form, operands and length (or by script), the two libraries apart')
    def parts(h):
        run_workers(c, h, 'c13', scale(900, 24000), case_timeout=120)
        run_workers(c, h, 'c13', scale(2400, 80000), part='labels')
        use_configs(['llrl0-chibi'])
        run_workers(c, h, 'c13', scale(48, 1200), case_timeout=240, part='peer')
    if not os.environ.get('VH_REGEN'):
        parts(build_harness('c13', 'xten'))
    before = set(c.fails)
    h = regenerated(c)
    if h:
        parts(h)
        for k, f in c.fails.items():
            if k not in before and f['replay']:
                f['replay']['regen'] = True
    return c
