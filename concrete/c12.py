"""C12 convergence controller, root bracketing and exponent estimates on the running code"""
import numpy as np
from types import SimpleNamespace
import pacal.utils as U
import pacal.integration as I
import pacal.interpolation as N
from pacal import params
from .lib import Driver, Skip
from contextlib import contextmanager
D = Driver()

def history(rng):
    n = int(rng.integers(1, 25))
    k = int(rng.integers(6))
    ae = np.abs(rng.normal(size=n)) if k < 2 else 2.0 ** -rng.integers(0, 60, n) if k == 2 else .7 ** np.arange(n) * rng.uniform(.5, 1.5, n) if k == 3 else np.cumprod(rng.choice([.4, .5, .51, 1.0, 2.0], n)) if k == 4 else rng.choice([0.0, 1.0, .5, .25], n)
    y = rng.normal(size=n) if rng.random() < .5 else np.cumsum(rng.choice([0.0, 0.0, 1e-3, -1e-3, 1.0], n))
    return [float(v) for v in ae], [float(v) for v in y]
def config(rng):
    return SimpleNamespace(abstol=float(rng.choice([0, 1e-12, 1e-3, .2])), reltol=float(rng.choice([0, 1e-12, 1e-3, .2])), min_quit_iter=int(rng.choice([0, 2, 3, 7, 10000])),
                           min_quit_no_improvement=int(rng.choice([0, 1, 2, 5])), min_improvement_ratio=float(rng.choice([.1, .5, .9, 1.0])), force_nonzero=bool(rng.integers(2)))

@D.check
def controller(rep, rng):
    for _ in range(rep.scale(400)):
        p = config(rng); ae, y = history(rng)
        m = U.convergence_monitor(p)
        good, bad = 0, 0
        for k, (e, v) in enumerate(zip(ae, y)):
            m.add(e, v, ('extra', k))
            got = m.test_convergence()
            desc = '%r %r %r' % (vars(p), ae[:k + 1], y[:k + 1])
            if e <= max(p.abstol, abs(v) * p.reltol) and not (p.force_nonzero and v == 0): want = (True, 'converged')
            else:
                if e < p.min_improvement_ratio * ae[good]: good, bad = k, 0
                else: bad += 1
                want = (True, 'did not converge') if k + 1 >= max(2, p.min_quit_iter) and bad >= p.min_quit_no_improvement else (False, 'continue')
            rep.ok(got == want, 'decision', desc, want, got)
            if got != want: return
            r = m.get_best_result()
            seen = list(zip(y, ae, [('extra', j) for j in range(k + 1)]))
            rep.ok(r in seen, 'the best result is one of the reported', desc, seen, r)
            if want[1] == 'converged': rep.ok(r == seen[k], 'the best result after convergence is the last one', desc, seen[k], r); break
            rel = [a / abs(v) if v else np.finfo(float).max for v, a, _ in seen]
            if r in seen: rep.ok(all(q >= .75 * rel[seen.index(r)] for q in rel), 'no reported result is much better than the best one', desc, min(rel), rel[seen.index(r)])

@contextmanager
def own_bisection(own):
    keep = U.have_scipy_opt; U.have_scipy_opt = keep and not own
    try: yield
    finally: U.have_scipy_opt = keep

def monotone(rng):
    s = float(rng.choice([1, -1])) * 10.0 ** float(rng.choice([0, 0, 3, -3, -40, -200, 150]))
    r = float(np.round(rng.normal() * 10.0 ** rng.integers(-2, 3), 4))
    g = [lambda t: t, lambda t: t ** 3, np.arctan, lambda t: np.sign(t) * np.sqrt(abs(t)), lambda t: t + np.floor(t)][int(rng.integers(5))]
    c = s * float(rng.choice([0, 0, 1, -.5]))
    return (lambda x: c + s * g(x - r)), r, c, s

@D.check
def bracket(rep, rng):
    for _ in range(rep.scale(300)):
        f, r, c, s = monotone(rng)
        a, b = r - float(rng.uniform(0, 9)), r + float(rng.uniform(0, 9))
        if rng.random() < .1: a = r
        if rng.random() < .1: b = r
        own = bool(rng.integers(2))
        desc = 'root %r of scale %r level %r in [%r,%r] own=%r' % (r, s, c, a, b, own)
        inside = []
        def h(x):
            inside.append(x); return f(x)
        with own_bisection(own):
            x = U.findinv(h, a, b, c, maxiter=5000, **({'rtol': 1e-15} if rng.random() < .5 else {}))
        rep.ok(a <= x <= b, 'root in the bracket', desc, (a, b), x)
        rep.ok(all(a <= v <= b for v in inside), 'function only evaluated in the bracket', desc, (a, b), [v for v in inside if not a <= v <= b])
        if abs(c) < 1e10 * abs(s): rep.close(x, r, 'root', desc, rtol=1e-6, atol=1e-6 if c == 0 else 1e-4)
        with own_bisection(True):
            try: U.findinv(f, r + 1.0, r + 2.0, c); rep.ok(False, 'no sign change is an error', desc, 'error', 'value')
            except (RuntimeError, ValueError): rep.ok(True, 'no sign change is an error', desc, '', '')

@D.check
def half_lines(rep, rng):
    for _ in range(rep.scale(200)):
        f, r, c, s = monotone(rng)
        if abs(s) > 1e100: continue
        up = s > 0
        own = bool(rng.integers(2))
        start = r - float(rng.choice([0.0, 1.0, 13.0, 2000.0])) * float(rng.uniform(.1, 1))
        desc = 'root %r scale %r level %r from %r own=%r' % (r, s, c, start, own)
        with own_bisection(own):
            x = U.findinv_pinf(f, start, c, increasing=up, maxiter=5000)
            rep.close(x, r, 'root on the right half line', desc, rtol=1e-6, atol=1e-5)
            if start < r:
                x = U.findinv_pinf(f, 2 * r - start, c, increasing=up)
                rep.ok(np.isnan(x), 'no root on the right half line', desc, 'nan', x)
            if up:
                x = U.findinv_minf(f, 2 * r - start, c, maxiter=5000)
                rep.close(x, r, 'root on the left half line', desc, rtol=1e-6, atol=1e-5)
                if start < r: rep.ok(np.isnan(U.findinv_minf(f, start, c)), 'no root on the left half line', desc, 'nan', 'x')

@D.check
def levels_not_reached(rep, rng):
    for g, c, want, name in [(lambda x: np.arctan(x), 2.0, np.inf, 'pinf'), (lambda x: -1 / (1 + abs(x)), 0.0, np.inf, 'pinf')]:
        x = U.findinv_pinf(g, -1.0, c)
        rep.ok(x == want or x > 1e10, 'level only reached at infinity', '%s level %r' % (name, c), want, x)
    x = U.findinv_minf(lambda x: np.arctan(x), 1.0, -2.0)
    rep.ok(x == -np.inf, 'level only reached at minus infinity', '-2', -np.inf, x)

@D.check
def adaptive(rep, rng):
    """the adaptive rules offer the best estimate of the history they saw"""
    for _ in range(rep.scale(12)):
        a = float(rng.uniform(-5, 5)); b = a + float(rng.uniform(.1, 9)); w = float(rng.uniform(.1, 40)); k = int(rng.integers(4))
        f = [lambda x: np.cos(w * x), lambda x: np.exp(-w * (x - a)), lambda x: np.sqrt(np.abs(x - (a + b) / 2)), lambda x: x ** 3 - w][k]
        for rule in (I.integrate_fejer2, I.integrate_clenshaw):
            i, e = rule(f, a, b)
            if k != 2:
                from scipy import integrate
                want = integrate.quad(f, a, b, limit=400, epsabs=1e-12)[0]
                rep.close(i, want, 'integral', '%s %r on (%r,%r) k=%d' % (rule.__name__, w, a, b, k), rtol=1e-9, atol=1e-9)
                rep.ok(abs(i - want) <= e + 1e-10 * (1 + abs(want)), 'error estimate', '%s %r on (%r,%r) k=%d' % (rule.__name__, w, a, b, k), 'at least %r' % abs(i - want), e)

@D.check
def exponents(rep, rng):
    for _ in range(rep.scale(40)):
        x0 = float(rng.choice([0.0, 1.0, -2.5])); d = float(np.round(rng.uniform(-2, 3), 2)); k = float(rng.uniform(.1, 10))
        desc = 'x0=%r exponent=%r factor=%r' % (x0, d, k)
        f = lambda x: k * np.abs(x - x0) ** d
        for pos in (True, False):
            rep.close(U.estimateDegreeOfPole(f, x0, pos), d, 'degree at a point', desc, rtol=1e-3, atol=1e-2)
            if d <= 2: rep.close(U.estimateTailExponent(lambda x: k * np.abs(x) ** (d - 2.5), pos=pos), d - 2.5, 'tail exponent', desc, rtol=1e-6, atol=1e-6)

@D.check
def step(rep, rng):
    for _ in range(rep.scale(20)):
        s = float(rng.choice([0.0, 1.0, -2.0])); x = np.round(rng.uniform(-4, 4, 9), 1); x[0] = s
        got = U.stepfun(x, s); want = np.array([U.stepfun(float(v), s) for v in x])
        rep.ok(np.array_equal(got, want), 'step function of an array', 'shift=%r x=%r' % (s, list(x)), want, got)
        rep.ok(np.array_equal(want, (x >= s) * 1.0), 'step function', 'shift=%r x=%r' % (s, list(x)), (x >= s) * 1.0, want)
