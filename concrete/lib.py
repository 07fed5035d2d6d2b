"""runs the contract evaluations of one property on the really running code of /repo

usage: python -m concrete.lib <ID> OUT.json [--tier quick|thorough] [--seed n] [--only check]
"""
import sys, os, json, time, traceback, warnings, math, subprocess, hashlib, shutil, tempfile, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
warnings.simplefilter('ignore')

def scratch_ext():
    """the compiled extension must come from the current .pyx: rebuild it in a scratch directory when /repo's build is stale"""
    import glob, importlib.util
    srcs = [os.path.join(REPO, 'setup.py')] + sorted(glob.glob(REPO + '/pacal/*.pyx'))
    h = hashlib.sha256()
    for s in srcs: h.update(open(s, 'rb').read())
    want = h.hexdigest()
    stamp = REPO + '/build/bary_interp.sha256'
    sos = glob.glob(REPO + '/pacal/bary_interp.*.so')
    if sos and os.path.exists(stamp) and open(stamp).read().split()[:1] == [want]: return 'in place'
    d = tempfile.mkdtemp(prefix='pacal_ext_')
    try:
        shutil.copy(REPO + '/setup.py', d)
        os.makedirs(d + '/pacal')
        for f in glob.glob(REPO + '/pacal/*.py') + glob.glob(REPO + '/pacal/*.pyx'): shutil.copy(f, d + '/pacal')
        for f in ('README.md', 'README.txt', 'MANIFEST.in'):
            if os.path.exists(os.path.join(REPO, f)): shutil.copy(os.path.join(REPO, f), d)
        r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        so = glob.glob(d + '/pacal/bary_interp.*.so')
        if not so: return 'not built: ' + r.stdout[-300:]
        spec = importlib.util.spec_from_file_location('pacal.bary_interp', so[0])
        m = importlib.util.module_from_spec(spec)
        sys.modules['pacal.bary_interp'] = m
        spec.loader.exec_module(m)
        return 'scratch build'
    except Exception as e:
        return 'not built: %r' % e
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Skip(Exception): pass

class Rep:
    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self.n = 0
        self.checks = {}
        self.violations = []
        self.skipped = []
        self.samples = []
        self.cur = None
        self.per = 0
    @property
    def thorough(self): return self.tier == 'thorough'
    def scale(self, n): return n * 6 if self.thorough else n
    def ok(self, cond, label, input=None, expected=None, got=None, key=None):
        self.n += 1
        self.per += 1
        if len(self.samples) < 5 and self.per == 1: self.samples.append({'check': self.cur, 'label': label, 'input': str(input)[:200], 'got': str(got)[:100]})
        if not cond:
            if sum(1 for v in self.violations if v['check'] == self.cur) < 6:
                self.violations.append({'check': self.cur, 'label': label, 'input': str(input), 'expected': str(expected), 'got': str(got),
                                        'key': key or '%s/%s' % (self.cur, label.replace(' ', '_')), 'seed': self.seed, 'tier': self.tier})
        return bool(cond)
    def close(self, got, want, label, input=None, rtol=1e-7, atol=1e-9, key=None):
        import numpy as np
        try:
            g = np.asarray(got, dtype=float); w = np.asarray(want, dtype=float)
            if g.shape != w.shape and g.size != w.size:
                return self.ok(False, label + ' (shape)', input, w.shape, g.shape, key)
            g = g.reshape(w.shape)
            same = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= atol + rtol * np.abs(w))
            good = bool(np.all(same))
        except (TypeError, ValueError):
            good = False
        return self.ok(good, label, input, want, got, key)
    def same(self, got, want, label, input=None, key=None):
        return self.ok(got == want, label, input, want, got, key)
    def raises(self, fn, label, input=None, key=None):
        try: r = fn()
        except Exception as e:
            return self.ok(True, label, input)
        return self.ok(False, label, input, 'an exception', r, key)

class Driver:
    def __init__(self): self.c = []
    def check(self, fn):
        self.c.append(fn)
        return fn

def run_check(rep, fn):
    import numpy as np
    rep.cur = fn.__name__
    rep.per = 0
    s = (rep.seed * 1000003 + zlib.crc32(fn.__name__.encode())) % (2 ** 31)
    rng = np.random.default_rng(s)
    np.random.seed(s)
    t0 = time.time()
    try:
        with np.errstate(all='ignore'):
            fn(rep, rng)
    except Skip as e:
        rep.skipped.append('%s: %s' % (rep.cur, e))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)): raise
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + '/')]
        last = tb[-1]
        if last.filename.startswith(os.path.dirname(HERE) + '/') or not inrepo or isinstance(e, (ImportError, MemoryError)):
            rep.skipped.append('%s: %s: %s at %s:%d' % (rep.cur, type(e).__name__, e, last.filename, last.lineno))
        else:
            my = [f for f in tb if f.filename.startswith(HERE + '/')][-1]
            rep.ok(False, 'unexpected %s' % type(e).__name__, '%s:%d: %s' % (os.path.basename(my.filename), my.lineno, my.line), 'a result',
                   '%s: %s at %s:%d' % (type(e).__name__, e, inrepo[-1].filename, inrepo[-1].lineno))
    rep.checks[rep.cur] = {'evaluations': rep.per, 'wall_s': round(time.time() - t0, 2)}

def _job(a):
    pid, name, seed, tier = a
    import importlib
    m = importlib.import_module('concrete.' + pid.lower())
    rep = Rep(seed, tier)
    for fn in m.D.c:
        if fn.__name__ == name: run_check(rep, fn)
    return rep.n, rep.checks, rep.violations, rep.skipped, rep.samples

def main():
    a = sys.argv[1:]
    pid, outp = a[0], a[1]
    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    tier = opt('--tier', 'quick'); seed = int(opt('--seed', '1')); only = opt('--only', None)
    out = {'prop': pid, 'evaluations': 0, 'checks': {}, 'violations': [], 'skipped': [], 'samples': []}
    t0 = time.time()
    import importlib
    sys.path.insert(0, REPO)
    out['extension'] = scratch_ext()
    try:
        import pacal
        import pacal.params
        pacal.params.general.parallel = False
        m = importlib.import_module('concrete.' + pid.lower())
    except Exception as e:
        out['import_error'] = traceback.format_exc()[-1500:]
        json.dump(out, open(outp, 'w')) if outp != '-' else print(out)
        return 2
    jobs = [(pid, f.__name__, seed, tier) for f in m.D.c if not only or f.__name__ == only]
    import multiprocessing
    ctx = multiprocessing.get_context('fork')
    lim = 400 if tier == 'quick' else 2400
    with ctx.Pool(min(4, max(1, len(jobs))), maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(_job, (j,))) for j in jobs]
        for j, r in rs:
            try:
                n, ch, vi, sk, sa = r.get(timeout=max(1, t0 + lim - time.time()))
            except multiprocessing.TimeoutError:
                out['skipped'].append('%s: time limit' % j[1]); continue
            except BaseException as e:
                out['skipped'].append('%s: %r' % (j[1], e)); continue
            out['evaluations'] += n; out['checks'].update(ch); out['violations'] += vi; out['skipped'] += sk; out['samples'] += sa
        pool.terminate()
    out['wall'] = time.time() - t0
    if outp != '-': json.dump(out, open(outp, 'w'), default=str)
    if outp == '-' or '-v' in a:
        for k, v in out['checks'].items(): print(k, v)
        for v in out['violations']: print('FAIL', json.dumps(v, default=str)[:1200])
        for s in out['skipped']: print('SKIP', s)
        print('extension:', out['extension'], 'evaluations', out['evaluations'], 'wall %.1f' % out['wall'])
    return 1 if out['violations'] else 0

if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
