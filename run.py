#!/usr/bin/env python3
"""run.py ID: decide one property. run.py replay FILE: run a saved failing case again. run.py setup: check the tools."""
import importlib, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py'))
sys.dont_write_bytecode = True
import common


def replay(path):
    d = json.load(open(path))
    common.TIER = d.get('tier', 'quick')
    m = importlib.import_module(d['property'].lower())
    r = d.get('replay') or {}
    if hasattr(m, 'replay') and 'tape' not in r:
        print(m.replay(r))
        return
    if 'tape' in r:
        # Everything the check does before it generates cases, and then this case alone.
        class Done(Exception):
            pass

        def one(c, h, kind, *a, **k):
            if kind != r['kind'] or k.get('part', '') != r.get('part', ''):
                return
            os.environ['VH_PART'] = r.get('part', '')
            f = tempfile.mkstemp(prefix='tape')[1]
            open(f, 'w').write(r['tape'])
            print(subprocess.run([h, 'tape', f], stdout=subprocess.PIPE, env=common.env()).stdout.decode())
            os.unlink(f)
            raise Done()

        if r.get('regen'):
            os.environ['VH_REGEN'] = '1'
        m.run_workers = one
        try:
            m.check()
        except Done:
            pass
        return
    print(json.dumps(d, indent=1))


if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        e = common.env()
        missing = [t for t in ('cargo', 'make', 'clang', 'gcc', 'python3') if not shutil.which(t, path=e['PATH'])]
        print('missing tools: %s' % missing if missing else 'tools present; every check builds what it needs')
        sys.exit(1 if missing else 0)
    if sys.argv[1] == 'replay':
        replay(sys.argv[2])
        sys.exit(0)
    m = importlib.import_module(sys.argv[1].lower())
    common.main(m.check)
