#!/usr/bin/env python3
"""decides one property:  python3-vt check.py <ID> [quick|thorough] [--replay FILE]

1. proof run  (python3-vt): contracts/<id>.py -- the real functions of /repo are loaded from its current
   source, executed symbolically under their contracts and every obligation is discharged (pyvc).
2. replay/bounded run (/opt/venv python, the interpreter the repository runs under): concrete/<id>.py -- the same
   contracts evaluated on the unmodified, really running code; gives failing inputs for failed obligations and
   is the labelled bounded stand-in for functions the verifier cannot reach.
3. verdict.
"""
import sys, os, json, time, subprocess, hashlib, threading
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PYVC_REPO', '/repo')
VENV = '/opt/venv/bin/python'
if not os.path.exists(VENV): VENV = sys.executable

def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + ':' + HERE, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
             OMP_NUM_THREADS='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYVC_REPO=REPO)
    e.setdefault('VERIF_SEED', '1')
    return e

def known():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                w = l[len('known: property='):].split(None, 2)
                out.append((w[0], w[1][4:] if w[1].startswith('key=') else w[1], w[2] if len(w) > 2 else ''))
    return out

def main():
    a = [x for x in sys.argv[1:]]
    pid = a[0]
    tier = a[1] if len(a) > 1 and a[1] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    if '--replay' in a:
        f = a[a.index('--replay') + 1]
        d = json.load(open(f))
        for w in d.get('witnesses', []):
            print('replaying', w['check'], 'seed', w['seed'], 'tier', w['tier'])
            r = subprocess.run([VENV, '-m', 'concrete.lib', pid, '-', '--only', w['check'], '--tier', w['tier'], '--seed', str(w['seed'])], cwd=HERE, env=env())
            return r.returncode
        print('\n'.join('%s: %s' % (o['harness'], o['label']) for o in d.get('failed_obligations', [])))
        cmd = [sys.executable, '-m', 'pyvc.run', pid, '/dev/null', '-v']
        return subprocess.run(cmd, cwd=HERE, env=env()).returncode
    pj = os.path.join(HERE, 'evidence', '.%s.proof.json' % pid)
    cj = os.path.join(HERE, 'evidence', '.%s.concrete.json' % pid)
    for p in (pj, cj):
        if os.path.exists(p): os.remove(p)
    pcmd = [sys.executable, '-m', 'pyvc.run', pid, pj, '--total', '420' if tier == 'quick' else '1500', '--deadline', '380' if tier == 'quick' else '1400',
            '--timeout', '10000' if tier == 'quick' else '40000'] + (['--cross'] if tier == 'thorough' else [])
    ccmd = [VENV, '-m', 'concrete.lib', pid, cj, '--tier', tier, '--seed', str(seed)]
    have_proof = os.path.exists(os.path.join(HERE, 'contracts', pid.lower() + '.py'))
    have_conc = os.path.exists(os.path.join(HERE, 'concrete', pid.lower() + '.py'))
    log = {}
    def run(tag, cmd, to):
        try:
            r = subprocess.run(cmd, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, text=True)
            log[tag] = r.stdout[-4000:]
        except subprocess.TimeoutExpired as ex:
            log[tag] = 'TIMEOUT'
    lim = 480 if tier == 'quick' else 3000
    ths = []
    if have_proof: ths.append(threading.Thread(target=run, args=('proof', pcmd, lim)))
    if have_conc: ths.append(threading.Thread(target=run, args=('concrete', ccmd, lim)))
    for t in ths: t.start()
    for t in ths: t.join()
    proof = json.load(open(pj)) if os.path.exists(pj) else None
    conc = json.load(open(cj)) if os.path.exists(cj) else None
    problems = []
    if have_proof and proof is None: problems.append('the proof run gave no result: %s' % log.get('proof', '')[-1500:])
    if have_conc and conc is None: problems.append('the concrete run gave no result: %s' % log.get('concrete', '')[-1500:])
    if have_conc and conc is not None and conc.get('import_error'): problems.append(conc['import_error'])

    failed, unknown, unsup, funcs, backends = [], [], [], {}, {}
    nobl = ndis = npaths = nq = 0
    solver_time = 0.0
    vac = []
    harn = []
    assumed = set()
    cross = {}
    if proof:
        for h in proof['harnesses']:
            st = {}
            for o in h['obligations']:
                nobl += 1
                st[o['status']] = st.get(o['status'], 0) + 1
                if o['status'] == 'proved':
                    ndis += 1
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
                else:
                    d = dict(o); d['harness'] = h['name']
                    (failed if o['status'] == 'failed' else unknown).append(d)
            npaths += h['paths']; nq += h['queries']; solver_time += h['solver_time']
            labels = set(o['label'] for o in h['obligations'])
            missing = [e for e in h['expect'] if not any(l.startswith(e) or e in l for l in labels)]
            if not h['unsupported']:
                if not h['obligations']: vac.append('%s: no obligation generated' % h['name'])
                elif not h['returned'] and not h['obligations'] and not any(o['status'] == 'failed' for o in h['obligations']): vac.append('%s: no path reached the postcondition' % h['name'])
                elif missing and not failed: vac.append('%s: obligations never generated: %s' % (h['name'], missing))
            for u in h['unsupported']: unsup.append('%s: %s' % (h['name'], u))
            full = not h['unsupported'] and all(o['status'] == 'proved' for o in h['obligations'])
            for f in h['funcs']: funcs[f] = funcs.get(f, True) and full
            harn.append({'contract': h['name'], 'functions': h['funcs'], 'paths': h['paths'], 'obligations': st, 'unsupported_paths': h['n_unsupported'], 'wall_s': h['wall']})
            for k, v in (h.get('cross') or {}).items(): cross[k] = cross.get(k, 0) + v if isinstance(v, (int, float)) else v
            assumed.update(h['np_used'])
    kn = known()
    wit, kfound, skipped = [], [], []
    if conc:
        for v in conc['violations']:
            m = [k for k in kn if k[0] == pid and k[1] == v['key']]
            if m: kfound.append((m[0], v))
            else: wit.append(v)
        skipped = conc.get('skipped', [])
    import importlib
    sys.path.insert(0, HERE)
    try:
        meta = importlib.import_module('meta').META.get(pid, {})
    except Exception as e:
        meta = {}
        problems.append('meta: %r' % e)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'proof'), 'wall_s': round(time.time() - t0, 2),
          'violations': len(wit) + (1 if failed and not wit else 0),
          'assumptions': meta.get('assumptions', []) + BASE_ASSUMPTIONS,
          'coverage': {
              'obligations': nobl, 'discharged': ndis, 'checker_cmd': ' '.join(['python3-vt', '-m', 'pyvc.run', pid, 'OUT.json', '-v']),
              'trusted_base': meta.get('trusted', []) + BASE_TRUSTED,
              'functions_under_contract': sorted(funcs), 'functions_fully_proved': sorted(f for f, ok in funcs.items() if ok),
              'backends': backends, 'solver_queries': nq, 'solver_time_s': round(solver_time, 2), 'paths': npaths, 'contracts': harn,
              'library_functions_given_meaning_by_the_verifier': sorted(assumed),
              'undischarged': [{'harness': o['harness'], 'label': o['label'], 'status': o['status']} for o in failed + unknown][:50],
              'outside_reach': unsup[:50], 'cross_checked_by_cvc5': cross,
              'bounded': {'what': 'contracts evaluated on the running code (bounded, not counted as proved)',
                          'evaluations': conc['evaluations'] if conc else 0, 'checks': conc['checks'] if conc else {}, 'skipped': skipped},
              'not_vacuous': not vac, 'problems': problems + vac}}
    if conc: ev['coverage']['evaluations'] = conc['evaluations']; ev['coverage']['samples'] = conc.get('samples', [])[:5]
    code = 0
    for (k, v) in kfound: print('KNOWN-FINDING: property=%s %s' % (pid, k[2] or v['label']))
    if wit or failed:
        rp = os.path.join(HERE, 'replay', '%s.json' % pid)
        json.dump({'property': pid, 'seed': seed, 'tier': tier, 'repo': REPO,
                   'failed_obligations': [{k: o.get(k) for k in ('harness', 'label', 'path', 'note', 'model', 'cond', 'pc')} for o in failed[:20]],
                   'witnesses': wit[:20], 'how': 'python3-vt check.py %s --replay %s' % (pid, rp)}, open(rp, 'w'), indent=1, default=str)
        for w in wit[:5]: print('failing input: [%s] %s | input %s | expected %s | got %s' % (w['check'], w['label'], str(w['input'])[:300], str(w['expected'])[:160], str(w['got'])[:300]))
        seen = set()
        for o in failed:
            if (o['harness'], o['label']) in seen: continue
            seen.add((o['harness'], o['label']))
            if len(seen) < 8: print('failed obligation: %s / %s %s' % (o['harness'], o['label'], o.get('note') or ''))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if wit else ' no-failing-input-found'))
        code = 1
    elif not nobl and not (conc and conc['evaluations']) or problems and (proof is None or (have_conc and conc is None)):
        print('CHECK ERROR property=%s: %s' % (pid, '; '.join(problems + vac)[:3000]))
        code = 3
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for p in (pj, cj):
        if os.path.exists(p): os.remove(p)
    print('property %s: %d obligations, %d discharged, %d failed, %d unknown, %d paths outside reach; %s bounded evaluations, %d failing; %.1fs' % (
        pid, nobl, ndis, len(failed), len(unknown), len(unsup), conc['evaluations'] if conc else 0, len(wit), time.time() - t0))
    for u in (unknown[:5]): print('  undecided: %s / %s' % (u['harness'], u['label']))
    for u in unsup[:5]: print('  outside reach:', u[:300])
    for s in skipped[:5]: print('  skipped:', str(s)[:300])
    return code

BASE_TRUSTED = ['CPython executing the loaded source', 'pyvc: symbolic values, loop rules and numpy shim (/verif/pyvc)', 'z3 and cvc5']
BASE_ASSUMPTIONS = ['machine floating point is treated as mathematical reals (machine epsilon = 0)',
                    'numpy/math functions on symbolic values have the meaning given in pyvc/npshim.py and pyvc/mathfn.py (axiomatised, not verified)',
                    'division by a value that may be zero is a total function (no exception or inf/nan result is modelled)']
if __name__ == '__main__':
    sys.exit(main())
