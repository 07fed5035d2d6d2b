"""runs the contract harnesses of one property and writes the list of obligations (JSON)

usage: python3-vt -m pyvc.run C01 OUT.json [--timeout ms] [--cross] [--only name]
"""
import sys, os, json, time, importlib, multiprocessing, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

def run_one(a):
    prop, k, opts = a
    import warnings; warnings.simplefilter('ignore')
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    sys.setrecursionlimit(20000)
    from . import core, loader, solve, npshim
    t0 = time.time()
    if opts.get('cross'): solve.CROSS['on'] = True
    m = importlib.import_module('contracts.' + prop.lower())
    h = m.P.h[k]
    res = {'name': h.name, 'funcs': h.funcs, 'expect': h.expect}
    kw = dict(h.kw)
    r = core.Run(h.name, timeout_ms=kw.pop('timeout_ms', opts.get('timeout', 10000)), deadline=t0 + kw.pop('deadline', opts.get('deadline', 400)), **kw)
    try:
        import numpy as np
        with np.errstate(all='ignore'):
            r.explore(h.fn)
    except BaseException as e:
        r.unsupported.append(("engine failure %s: %s" % (type(e).__name__, e), None))
        r.errors.append(traceback.format_exc())
    obls = []
    for o in r.obls:
        d = {'label': o.label, 'path': o.path, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 3)}
        if o.status != 'proved':
            d['model'] = o.model; d['note'] = o.note; d['cond'] = str(o.cond)[:1500]
            d['pc'] = [str(x)[:300] for x in o.pc][:40]
        obls.append(d)
    res.update(obligations=obls, paths=len(r.paths), returned=r.returned, unsupported=r.unsupported[:20], n_unsupported=len(r.unsupported), errors=r.errors[:5],
               queries=r.queries, solver_time=round(r.solver_time, 2), wall=round(time.time() - t0, 2), np_used=sorted(npshim.USED),
               cross={k: v for k, v in solve.CROSS.items() if k != 'on'})
    return res

def run_prop(prop, opts):
    from . import loader
    loader.install()
    m = importlib.import_module('contracts.' + prop.lower())
    jobs = [(prop, k, opts) for k, h in enumerate(m.P.h) if not opts.get('only') or opts['only'] in h.name]
    out = []
    ctx = multiprocessing.get_context('fork')
    n = min(opts.get('jobs', 8), max(1, len(jobs)))
    with ctx.Pool(n, maxtasksperchild=1) as pool:
        its = [(m.P.h[j[1]], pool.apply_async(run_one, (j,))) for j in jobs]
        t_end = time.time() + opts.get('total', 600)
        for h, r in its:
            try:
                out.append(r.get(timeout=max(1, t_end - time.time())))
            except BaseException as e:
                out.append({'name': h.name, 'funcs': h.funcs, 'expect': h.expect, 'obligations': [], 'paths': 0, 'returned': 0,
                            'unsupported': [["harness did not finish: %r" % (e,), None]], 'n_unsupported': 1, 'errors': [], 'queries': 0,
                            'solver_time': 0, 'wall': 0, 'np_used': [], 'cross': {}})
        pool.terminate()
    return out

def main():
    a = sys.argv[1:]
    prop, outp = a[0], a[1]
    opts = {}
    if '--timeout' in a: opts['timeout'] = int(a[a.index('--timeout') + 1])
    if '--only' in a: opts['only'] = a[a.index('--only') + 1]
    if '--cross' in a: opts['cross'] = True
    if '--total' in a: opts['total'] = int(a[a.index('--total') + 1])
    if '--deadline' in a: opts['deadline'] = int(a[a.index('--deadline') + 1])
    t0 = time.time()
    out = run_prop(prop, opts)
    json.dump({'prop': prop, 'harnesses': out, 'wall': time.time() - t0}, open(outp, 'w'), indent=1)
    if '-v' in a:
        for h in out:
            st = {}
            for o in h['obligations']: st[o['status']] = st.get(o['status'], 0) + 1
            print('%-45s paths %d returned %d %s unsup %d  %.1fs' % (h['name'], h['paths'], h['returned'], st, h['n_unsupported'], h['wall']))
            for u in h['unsupported'][:3]: print('    UNSUPPORTED', u)
            seen = set()
            for o in h['obligations']:
                if o['status'] != 'proved' and o['label'] not in seen:
                    seen.add(o['label'])
                    print('    %s: %s  note=%s model=%s' % (o['status'].upper(), o['label'], o.get('note'), str(o.get('model'))[:300]))
            if '-vv' in a:
                for e in h['errors'][:2]: print(e)

if __name__ == '__main__':
    main()
