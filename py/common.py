"""Shared machinery: environment, builds, workers, findings, evidence, verdicts."""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
TARGET = os.path.join(BUILD, 'target')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1') & 0xffffffffffff
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
NCPU = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()


class HarnessError(Exception):
    """The check itself could not do its work: never a verdict."""


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    for d in ('/usr/lib/llvm-14/bin', ):
        e['PATH'] = d + ':' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    cb = os.path.join('/root', '.cargo', 'bin')
    if os.path.isdir(cb) and cb not in e['PATH']:
        e['PATH'] += ':' + cb
    e['LLVM_SYS_110_PREFIX'] = '/usr/lib/llvm-14'
    e['LLVM_SYS_110_FFI_WORKAROUND'] = 'YES'
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'LLRL_DEBUG', 'RUST_BACKTRACE', 'MAKEFLAGS', 'MFLAGS'):
        e.pop(k, None)
    e['CARGO_TARGET_DIR'] = TARGET
    e['LC_ALL'] = 'C.UTF-8'
    e['RAYON_NUM_THREADS'] = '2'
    return e


def base_env():
    """/opt/vp/env.sh where it exists, else our own copy of those settings."""
    return env()


def sh(cmd, cwd=None, timeout=600, check=True, input=None, env_=None):
    p = subprocess.run(cmd, cwd=cwd, env=env_ or env(), input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, shell=isinstance(cmd, str))
    if check and p.returncode != 0:
        raise HarnessError('command failed (%s): %r\n%s' % (p.returncode, cmd, (p.stdout + p.stderr).decode('utf8', 'replace')[-4000:]))
    return p


_done = set()


def _once(key, f):
    if key in _done:
        return
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        f()
    _done.add(key)


def stale():
    """Forget what cargo has built of the tree when the tree's content is another: it goes by timestamps."""
    h = hashlib.sha256()
    for d in ('llrl0', 'std', 'rt', 'xten0', 'llvm0', 'xtencg', 'Cargo.toml', 'Cargo.lock'):
        top = os.path.join(REPO, d)
        fs = [top] if os.path.isfile(top) else sorted(os.path.join(r, f) for r, ds, ff in os.walk(top) for f in ff
                                                      if f.endswith(('.rs', '.llrl', '.toml', '.c', '.h', '.cpp', '.inc')))
        for f in fs:
            h.update(f.encode() + b'\0')
            h.update(hashlib.sha256(open(f, 'rb').read()).digest())
    st = os.path.join(BUILD, 'stamp')
    old = open(st).read() if os.path.exists(st) else ''
    if old != h.hexdigest():
        fp = os.path.join(TARGET, 'release', '.fingerprint')
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(('llrl', 'llstd', 'llrt', 'xten', 'llvm0', 'vharness')):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        with open(st, 'w') as o:
            o.write(h.hexdigest())


def build_rt():
    def f():
        sh('make -B -C %s/rt' % REPO)
    _once('rt', f)


def build_llrl0(llvm=False):
    """The llrl0 executable, of the same cargo build as the harness. Without LLVM it builds faster; rt and std come from the tree."""
    build_harness(None, 'llvm-backend' if llvm else 'chibi-backend')
    return os.path.join(TARGET, 'release', 'llrl0')


_bins = set()


def build_harness(bin_, feature='chibi-backend'):
    """The check's program (and llrl0, unless only xten is asked for), from the tree as it is."""
    build_rt()
    if bin_ in _bins:
        return os.path.join(TARGET, 'release', bin_)
    if any(f == 'llvm-backend' for f in _bins):
        feature = 'llvm-backend'
    bins = [bin_] if bin_ else []
    if feature != 'xten' and 'llrl0' not in _bins:
        bins.append('llrl0')
    if bins:
        stale()
        sh(['cargo', 'build', '--release', '--offline', '--features', feature] + [x for b in bins for x in ('--bin', b)], cwd=VERIF + '/harness', timeout=850)
        _bins.update(bins + [feature])
    return os.path.join(TARGET, 'release', bin_ or 'llrl0')


def build_llrl1(llrl0, name='llrl1c', feats=('chibi-backend',)):
    """llrl1 built by llrl0 with the chibi backend."""
    out = os.path.join(BUILD, name)
    def f():
        cmd = [llrl0, '-b', 'chibi', '-o', out]
        for x in feats:
            cmd.append('-f' + x)
        cmd += ['-pxten:../xten1', '-pllvm:../llvm1', '-O', 'main']
        sh(cmd, cwd=REPO + '/llrl1', timeout=800)
    _once('llrl1-' + name, f)
    return out


def build_driver(llrl0, name, flags=('-b', 'chibi'), feats=()):
    """A driver program of ours, drivers/NAME.llrl, that imports code of the tree."""
    d = os.path.join(BUILD, 'drv')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name)
    if os.path.exists(out):
        os.unlink(out)
    # the sources of llrl1 embed files by paths relative to the working directory
    w = os.path.join(BUILD, 'dw')
    src = os.path.join(w, 'drivers')
    if not os.path.isdir(src):
        os.makedirs(src, exist_ok=True)
        for x in ('llrl0', 'std', 'rt'):
            os.symlink(os.path.join(REPO, x), os.path.join(w, x))
    for f in os.listdir(VERIF + '/drivers'):
        shutil.copy2(os.path.join(VERIF, 'drivers', f), src)
    p = sh([llrl0] + list(flags) + ['-f' + x for x in feats] +
           ['-p', 'llrl1:%s/llrl1' % REPO, '-p', 'xten:%s/xten1' % REPO, '-o', out, name], cwd=src, timeout=600, check=False)
    if p.returncode != 0 or not os.path.exists(out):
        raise BuildFailed('driver %s: %s' % (name, (p.stdout + p.stderr).decode('utf8', 'replace')[-3000:]))
    return out


class BuildFailed(HarnessError):
    pass


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    """(sig, line) of each listed finding of this property."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                f = dict(x.split('=', 1) for x in line.split(' ')[1:3])
                out.append((f['sig'], line[len('finding: '):]))
    return out


# ------------------------------------------------------------------ result of a check

class Check:
    current = None

    def __init__(self, prop, rule, level='exploration'):
        Check.current = self
        self.prop, self.rule, self.level = prop, rule, level
        self.evaluations = 0
        self.distinct = set()
        self.classes = {}
        self.samples = []
        self.fails = {}   # sig -> dict(msg, desc, replay)
        self.assumptions = []
        self.parts = {}
        self.excluded = {}

    def count(self, nontrivial_key=None, classes=(), sample=None, n=1):
        self.evaluations += n
        if nontrivial_key is not None:
            k = hashlib.blake2b(nontrivial_key.encode('utf8', 'surrogatepass') if isinstance(nontrivial_key, str) else nontrivial_key, digest_size=8).hexdigest()
            new = k not in self.distinct
            self.distinct.add(k)
            if new and sample is not None and len(self.samples) < 12 and len(self.distinct) % 5 == 1:
                self.samples.append(sample[:1500])
        for c in classes:
            self.classes[c] = self.classes.get(c, 0) + 1

    def fail(self, sig, msg, desc='', replay=None):
        f = self.fails.get(sig)
        if f is None:
            self.fails[sig] = dict(sig=sig, msg=msg, desc=desc, replay=replay, count=1)
        else:
            f['count'] += 1

    def finish(self):
        known = dict(known_findings(self.prop))
        bad = []
        seen = []
        for sig, f in sorted(self.fails.items()):
            if sig in known:
                seen.append(sig)
            else:
                bad.append(f)
        for sig, line in known.items():
            print('KNOWN-FINDING: %s' % line)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in bad:
            name = '%s-%s.json' % (self.prop, ''.join(c if c.isalnum() else '-' for c in f['sig'])[:60])
            f['path'] = os.path.join(rdir, name)
            with open(f['path'], 'w') as o:
                json.dump(dict(property=self.prop, seed=SEED, tier=TIER, **{k: f[k] for k in ('sig', 'msg', 'desc', 'replay', 'count')}), o, indent=1, ensure_ascii=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                                classes=self.classes, samples=self.samples or ['(none)'], parts=self.parts,
                                excluded_known=self.excluded, known_findings_seen=seen),
                  wall_s=round(time.time() - T0, 1), violations=len(bad), assumptions=self.assumptions)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1, ensure_ascii=True)
        log('%s: %d evaluations, %d distinct non-trivial, %d violations; classes %s' % (self.prop, self.evaluations, len(self.distinct), len(bad), json.dumps(self.classes)))
        for f in bad:
            log('  %s: %s' % (f['sig'], f['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, f['path']))
        sys.stdout.flush()
        return 1 if bad else 0


# ------------------------------------------------------------------ harness workers

def run_workers(check, binpath, name, cases, seed=None, args=(), case_timeout=60, crash_sig='crash', hang_sig=None, workers=NCPU, total_timeout=800, cwd=None, part=''):
    """Cases 0..cases of a harness binary over several processes.

    A case that ends its process, or does not end, is run again alone: only when it does so
    again is it reported; a hang is reported only for a property that claims termination."""
    seed = SEED if seed is None else seed
    os.environ['VH_PART'] = part
    tmp = tempfile.mkdtemp(prefix='vw')
    try:
        per = (cases + workers - 1) // workers
        ranges = [(i * per, min(cases, (i + 1) * per)) for i in range(workers) if i * per < cases]
        pend = []
        def start(k, a, b):
            j = os.path.join(tmp, 'j%d-%d' % (k, a))
            o = open(j + '.out', 'wb')
            p = subprocess.Popen([binpath, 'run', str(seed), str(a), str(b), j] + list(args), stdout=o, stderr=open(j + '.err', 'wb'), cwd=cwd, env=env(), start_new_session=True)
            return dict(k=k, a=a, b=b, j=j, p=p, last=None, t=time.time())
        pend = [start(k, a, b) for k, (a, b) in enumerate(ranges)]
        crashes = 0
        deadline = time.time() + total_timeout
        while pend:
            time.sleep(0.05)
            for w in list(pend):
                rc = w['p'].poll()
                cur = None
                try:
                    cur = open(w['j']).read().strip()
                except OSError:
                    pass
                if rc is None:
                    if cur != w['last']:
                        w['last'], w['t'] = cur, time.time()
                    elif time.time() - w['t'] > case_timeout + 40:
                        os.killpg(w['p'].pid, signal.SIGKILL)
                        w['p'].wait()
                        rc = 'hang'
                    elif time.time() > deadline:
                        os.killpg(w['p'].pid, signal.SIGKILL)
                        raise HarnessError('%s: workers did not finish in %d s' % (name, total_timeout))
                if rc is None:
                    continue
                pend.remove(w)
                txt = open(w['j'] + '.out', 'rb').read().decode('utf8', 'replace')
                line = txt.strip().split('\n')[-1] if txt.strip() else ''
                if rc == 0 and line.startswith('{"done":true'):
                    merge(check, json.loads(line), name, part)
                    continue
                # crash or hang at case cur
                if not cur:
                    raise HarnessError('%s worker died at start: %s' % (name, open(w['j'] + '.err', 'rb').read()[-2000:].decode('utf8', 'replace')))
                i = int(cur)
                again = confirm_case(binpath, seed, i, tmp, args, case_timeout, cwd)
                if again is None:
                    raise HarnessError('%s: case %d ended its process (%s) but not when run alone' % (name, i, rc))
                kind, text = again
                desc = subprocess.run([binpath, 'gen', str(seed), str(i)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, env=env()).stdout.decode('utf8', 'replace')
                if kind == 'hang':
                    if hang_sig is None:
                        raise HarnessError('%s: case %d does not end within %d s: %s' % (name, i, case_timeout, desc[:1000]))
                    check.fail(hang_sig, 'does not end within %d s' % case_timeout, desc, dict(kind=name, part=part, seed=seed, case=i))
                else:
                    check.fail(crash_sig, 'process ended: %s' % text, desc, dict(kind=name, part=part, seed=seed, case=i))
                crashes += 1
                check.evaluations += i - w['a']
                if i + 1 < w['b'] and crashes < 6:
                    pend.append(start(w['k'], i + 1, w['b']))
                    pend[-1]['a'] = i + 1
    finally:
        for w in pend if 'pend' in dir() else []:
            pass
        shutil.rmtree(tmp, ignore_errors=True)


def confirm_case(binpath, seed, i, tmp, args, case_timeout, cwd):
    j = os.path.join(tmp, 'confirm')
    try:
        p = subprocess.run([binpath, 'run', str(seed), str(i), str(i + 1), j] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=case_timeout + 40, cwd=cwd, env=env())
    except subprocess.TimeoutExpired:
        return ('hang', '')
    if p.returncode != 0:
        return ('crash', 'exit %s %s' % (p.returncode, p.stderr.decode('utf8', 'replace')[-600:]))
    return None


def merge(check, d, name, part=''):
    check.evaluations += d['evaluations']
    for h in d['distinct']:
        check.distinct.add(h if name is None else name + h)
    for k, v in d['classes'].items():
        check.classes[k] = check.classes.get(k, 0) + v
    for s in d['samples']:
        if len(check.samples) < 12:
            check.samples.append(s)
    for f in d['fails']:
        for _ in range(f['count']):
            check.fail(f['sig'], f['msg'], f['desc'], dict(kind=name, part=part, tape=f['tape']))
            break
        check.fails[f['sig']]['count'] += f['count'] - 1
    name += '-' + part if part else ''
    p = check.parts.setdefault(name, 0)
    check.parts[name] = p + d['evaluations']


# ------------------------------------------------------------------ generated texts through a driver program

def ddmin(text, bad, limit=150):
    """Smallest text found that is still bad (deleting blocks of characters)."""
    n = 0
    size = max(1, len(text) // 2)
    while size >= 1 and n < limit:
        i = 0
        while i < len(text) and n < limit:
            c = text[:i] + text[i + size:]
            n += 1
            if c and bad(c):
                text = c
            else:
                i += size
        size //= 2
    return text


def drive_texts(c, name, h, drv, n, line, judge, want, record, timeout=600, wrap=lambda r: r):
    """Rows [text, ...] of 'h texts' go line by line through the driver program drv, which ends each
    answer with @@STX@@. judge(row, answer) gives None or (signature, message); want(row, text) gives
    the row of another text, for shrinking."""
    from concurrent.futures import ThreadPoolExecutor
    per = (n + NCPU - 1) // NCPU

    def read(rows):
        inp = ''.join(line(r) + '\n' for r in rows)
        p = subprocess.run([drv], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace').split('@@STX@@\n')[:-1], p.stderr.decode('utf8', 'replace')

    def part(k):
        p = subprocess.run([h, 'texts', str(SEED), str(k * per), str((k + 1) * per)], stdout=subprocess.PIPE)
        if p.returncode != 0:
            raise HarnessError('%s texts ended with %s' % (h, p.returncode))
        rows = [wrap(json.loads(x)) for x in p.stdout.decode('utf8').split('\n') if x]
        bad = []
        todo = rows
        while todo:
            rc, outs, err = read(todo)
            for r, g in zip(todo, outs):
                j = judge(r, g)
                if j:
                    bad.append((r, j))
            if rc == 0 and len(outs) == len(todo):
                break
            if rc == 0 or len(outs) >= len(todo):
                raise HarnessError('%s: the driver answered %d of %d (%s)' % (name, len(outs), len(todo), rc))
            r = todo[len(outs)]
            rc2, outs2, err2 = read([r])
            if rc2 == 0:
                raise HarnessError('%s: the driver died (%s) but not on the single text: %r %s' % (name, rc, r, err[-500:]))
            bad.append((r, (name + '-crash', 'processing %r ends the process (%s): %s' % (r[0], rc2, err2[-300:]))))
            if len(bad) > 20:
                break
            todo = todo[len(outs) + 1:]
        return rows, bad

    with ThreadPoolExecutor(NCPU) as ex:
        for rows, bad in ex.map(part, range(NCPU)):
            for r in rows:
                record(r)
            for r, (sig, msg) in bad:
                if sig in c.fails:
                    c.fail(sig, msg)
                    continue
                if want is None:
                    c.fail(sig, msg, r[0], dict(row=r))
                    continue
                def j1(x):
                    w = want(r, x)
                    if w is None:
                        return None
                    rc, o, _ = read([w])
                    if rc != 0:
                        return (name + '-crash', 'processing %r ends the process (%s)' % (x, rc))
                    return judge(w, o[0])
                def still(x):
                    j = j1(x)
                    return j is not None and j[0] == sig
                t2 = ddmin(r[0], still)
                j = j1(t2)
                c.fail(sig, (j or (sig, msg))[1], t2, dict(text=t2, row=r[1:] if t2 == r[0] else None))


def std_driver(c, name, feats=(), what='uses only the public interface of the standard library'):
    """The driver for a check of the library, or None with the failure recorded: it compiles on the unchanged tree."""
    llrl0 = build_llrl0()
    try:
        exe = build_driver(llrl0, name, feats=feats)
    except BuildFailed as e:
        p = subprocess.run([llrl0, '--help'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
        c.fail('program-rejected', 'the program drivers/%s.llrl, which %s, is no longer compiled: %s' % (name, what, str(e)[-1500:]), 'drivers/%s.llrl' % name, dict(kind='driver'))
        return None
    os.environ['VH_DRIVER'] = exe
    return exe


def use_configs(names):
    """Builds the compilers these configurations need and tells the harness about them."""
    llvm = any('llvm' in n for n in names)
    l0 = build_llrl0(llvm=llvm)
    lines = []
    for n in names:
        who, backend = n.split('-')[:2]
        cc = l0 if who == 'llrl0' else build_llrl1(l0, 'llrl1l', ('chibi-backend', 'llvm-backend')) if backend == 'llvm' else build_llrl1(l0)
        lines.append('%s|%s|-b %s%s' % (n, cc, backend, ' -O' if n.endswith('-O') else ''))
    os.environ['VH_CONFIGS'] = '\n'.join(lines)


def scale(quick, thorough):
    return thorough if TIER == 'thorough' else quick


def main(fn):
    """Runs a check: 0, 1 with VIOLATION lines, or 2 for an error of the check."""
    try:
        c = fn()
        rc = c.finish()
    except HarnessError as e:
        log('CHECK ERROR:', e)
        rc = 2
        # what an earlier part of the check found stands, whatever stopped a later one
        if Check.current and Check.current.fails:
            rc = Check.current.finish() or 2
    except subprocess.TimeoutExpired as e:
        log('CHECK ERROR: timeout', str(e)[:500])
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
