"""C11 interpolants, node sets and refinements on the running code"""
import numpy as np, warnings, math
from fractions import Fraction as Fr
import pacal.utils as U
import pacal.interpolation as N
import pacal.vartransforms as V
from pacal import params
from .lib import Driver, Skip
D = Driver()
params.general.parallel = False

def lagrange(Xs, Ys, x):
    """the polynomial through the nodes, in exact arithmetic"""
    Xs = [Fr(float(v)) for v in Xs]; Ys = [Fr(float(v)) for v in Ys]; x = Fr(float(x)); s = Fr(0)
    for i, xi in enumerate(Xs):
        w = Fr(1)
        for j, xj in enumerate(Xs):
            if j != i: w *= (x - xj) / (xi - xj)
        s += w * Ys[i]
    return float(s)
def interval(rng):
    a = float(rng.choice([0.0, -1.0, 1.0, rng.normal(), rng.normal() * 10]))
    return a, a + float(rng.choice([1.0, 2.0, rng.uniform(.1, 3), rng.uniform(3, 50)]))
NESTED = {'ChebyshevInterpolator': 3, 'ChebyshevInterpolatorNoL': 3, 'ChebyshevInterpolatorNoR': 3, 'LogXChebyshevInterpolator': 3, 'ChebyshevInterpolator1': 2}

def bare(name, n, a, b, f):
    """an interpolator of n nodes without the refinement loop"""
    k = getattr(N, name)
    s = k.__new__(k); s.a, s.b = float(a), float(b); s.f = f; s.interp_class = N.BarycentricInterpolator
    Xs = s.get_nodes(n)
    N.BarycentricInterpolator.__init__(s, Xs, f(Xs))
    return s
def agree(rep, s, name, desc):
    """order, stored values, the polynomial through the nodes, and the weights of it"""
    Xs, Ys = s.Xs, s.Ys
    rep.ok(len(Xs) == len(Ys) == len(s.weights), '%s: one value and weight for each node' % name, desc, len(Xs), (len(Ys), len(s.weights)))
    rep.ok(bool(np.all(np.diff(Xs) > 0)), '%s: nodes in order' % name, desc, 'increasing', Xs[:6])
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        try: rep.ok(bool(np.array_equal(s.interp_at(Xs), Ys)) and all(s.interp_at(float(x)) == y for x, y in zip(Xs[:5], Ys[:5])), '%s: stored value at the nodes' % name, desc, Ys[:5], s.interp_at(Xs)[:5])
        except Exception as e: rep.ok(False, '%s: stored value at the nodes' % name, desc, 'values', repr(e))
        if len(Xs) <= 14 and 'Log' not in name:
            pts = np.linspace(Xs[0], Xs[-1], 9)[1:-1] + (Xs[-1] - Xs[0]) * .0123
            scale = 1 + max(abs(Ys))
            for x in pts:
                rep.close(float(s.interp_at(float(x))) / scale, lagrange(Xs, Ys, x) / scale, '%s: polynomial through the nodes' % name, '%s at %r' % (desc, float(x)), rtol=1e-8, atol=1e-8)
@D.check
def nodes_and_polynomials(rep, rng):
    for _ in range(rep.scale(6)):
        for name, n0 in NESTED.items():
            a, b = interval(rng)
            if name[0] == 'L': a, b = abs(a) + .1, abs(a) + .1 + (b - a)
            table = {}
            f = lambda x: np.array([table.setdefault(float(v), float(rng.normal())) for v in x])
            n = n0; s = bare(name, n, a, b, f)
            desc = '%s on (%r, %r)' % (name, a, b)
            agree(rep, s, name, desc)
            for _k in range(2):
                old = dict(zip(s.Xs, s.Ys))
                n = 3 * n if name[-1] == '1' else 2 * n - 1
                new = (s.get_incremental_nodes1 if name[-1] == '1' else s.get_incremental_nodes)(n)
                s.add_nodes(new, f(new))
                full = s.get_nodes(n)
                rep.ok(len(full) == len(s.Xs), '%s: nested node count' % name, desc, len(full), len(s.Xs))
                if len(full) == len(s.Xs): rep.close(s.Xs, full, '%s: refinement gives the full node set' % name, desc, rtol=1e-12, atol=1e-12 * (1 + abs(a) + abs(b)))
                rep.ok(bool(np.all(s.Xs >= a) and np.all(s.Xs <= b)), '%s: nodes inside the interval' % name, desc, (a, b), (s.Xs[0], s.Xs[-1]))
                now = dict(zip(s.Xs, s.Ys))
                rep.ok(all(now.get(x) == y for x, y in old.items()), '%s: earlier data kept' % name, desc, len(old), sum(now.get(x) == y for x, y in old.items()))
                agree(rep, s, name, desc)
@D.check
def node_sets(rep, rng):
    for _ in range(rep.scale(10)):
        a, b = interval(rng); n = int(rng.integers(2, 40))
        d = '%d nodes on (%r, %r)' % (n, a, b)
        for nm, g, c in [('second kind', U.cheb_nodes(n, a, b), np.cos(np.arange(n) * np.pi / (n - 1))), ('space', U.chebspace(a, b, n), np.cos(np.arange(n) * np.pi / (n - 1))),
                      ('first kind', U.cheb_nodes1(n, a, b), np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n))), ('space of the first kind', U.chebspace1(a, b, n), np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n)))]:
            rep.close(g, (a + b) / 2 - (b - a) / 2 * c, 'nodes of the ' + nm, d, rtol=1e-12, atol=1e-12 * (1 + abs(a) + abs(b)))
            rep.ok(bool(np.all(g >= a) and np.all(g <= b)), 'inside: ' + nm, d, (a, b), (g[0], g[-1]))
        rep.ok(U.cheb_nodes(n, a, b)[0] == a and U.cheb_nodes(n, a, b)[-1] == b, 'ends of the interval', d, (a, b), None)
        rep.close(U.cheb_nodes(1, a, b), [(a + b) / 2], 'one node', d)
        g = U.cheb_nodes_log(n, abs(a) + .1, abs(a) + b - a + .2)
        rep.ok(bool(np.all(np.diff(g) > 0)) and g[0] == abs(a) + .1, 'logarithmic nodes in order', d, 'increasing', g[:5])
        for fn in (U.chebspace, U.chebspace1):
            X, W = fn(a, b, min(n, 12), returnWeights=True)
            agree(rep, N.BarycentricInterpolator(X, rng.normal(size=len(X)), W), fn.__name__, d)
        k = int(rng.integers(1, 9)); X = np.sort(rng.normal(size=2 * k + 1)); Y = rng.normal(size=2 * k + 1); Z = rng.normal(size=(2, 3, 2 * k + 1))
        for odd in (True, False):
            o, m = (slice(None, None, 2), slice(1, None, 2)) if odd else (slice(1, None, 2), slice(None, None, 2))
            cx, cy = U.combine_interpolation_nodes(X[o], Y[o], X[m], Y[m])
            rep.ok(np.array_equal(cx, X) and np.array_equal(cy, Y), 'combination of the nodes', d, X[:4], cx[:4])
        cx, cy = U.combine_interpolation_nodes_fast(X[::2], Y[::2], X[1::2], Y[1::2])
        rep.ok(np.array_equal(cx, X) and np.array_equal(cy, Y), 'fast combination', d, X[:4], cx[:4])
        cx, cy = U.combine_interpolation_nodes_fast_vector(X[::2], Z[..., ::2], X[1::2], Z[..., 1::2])
        rep.ok(np.array_equal(cx, X) and np.array_equal(cy, Z), 'fast combination of arrays', d, X[:4], cx[:4])
@D.check
def general(rep, rng):
    for _ in range(rep.scale(12)):
        n = int(rng.integers(2, 9)); X = np.cumsum(rng.uniform(.1, 1, n)); Y, Z = rng.normal(size=n), rng.normal(size=n)
        d = 'nodes %r values %r' % (list(X), list(Y))
        s, t = N.BarycentricInterpolator(X, Y), N.Interpolator(X, Y)
        agree(rep, s, 'general nodes', d)
        x = rng.uniform(X[0], X[-1], 5); al, be = rng.normal(size=2)
        for v in x: rep.close(float(t(float(v))), lagrange(X, Y, v), 'Lagrange form', d, rtol=1e-9, atol=1e-9)
        rep.close(N.BarycentricInterpolator(X, al * Y + be * Z)(x), al * s(x) + be * N.BarycentricInterpolator(X, Z)(x), 'linear in the values', d, rtol=1e-9, atol=1e-9)
        rep.close(s(x), [float(s(float(v))) for v in x], 'array and scalar', d)
        have = N.have_Cython
        try:
            N.have_Cython = False
            rep.close(s(x), [lagrange(X, Y, v) for v in x], 'without the compiled kernel', d, rtol=1e-9, atol=1e-9)
            rep.ok(np.array_equal(s(X), Y), 'stored values without the compiled kernel', d, Y, s(X))
            rep.close(float(s(float(X[0]))), Y[0], 'scalar without the compiled kernel', d)
        finally: N.have_Cython = have
        for q in (t, s):
            r = q.copyReverse()
            rep.ok(len(r.Xs) == n and np.allclose([r(float(v)) for v in x], [lagrange(X, Y, v) for v in x], rtol=1e-9, atol=1e-9), 'reversed copy', d, n, len(r.Xs))
        k = n // 2 + 1; p = rng.permutation(n); o, m = np.sort(p[:k]), np.sort(p[k:])
        if len(m):
            s = N.BarycentricInterpolator(X[o], Y[o]); s.add_nodes(X[m], Y[m])
            rep.ok(np.array_equal(s.Xs, X) and np.array_equal(s.Ys, Y), 'added nodes', d, X, s.Xs)
            agree(rep, s, 'general nodes after an addition', d)
        y = N.BarycentricInterpolator(np.arange(3), np.array([1, 2, 4]))
        rep.close(y(np.array([0, 1, 2])), [1, 2, 4], 'integer nodes and points', 'integers')
class Poly:
    def __init__(self, rts, lead): self.rts, self.lead = list(rts), lead
    def __call__(self, t): return self.lead * np.prod([np.asarray(t, float) - r for r in self.rts], axis=0)
    def deriv(self): return lambda t: sum(Poly(self.rts[:i] + self.rts[i + 1:], self.lead)(t) for i in range(len(self.rts)))
@D.check
def calculus(rep, rng):
    """derivatives, roots and trimmed copies of polynomials"""
    for _ in range(rep.scale(6)):
        a, b = interval(rng); k = int(rng.integers(2, 6)); rts = np.sort(rng.uniform(a, b, k)); lead = float(rng.choice([1.0, -2.0, .5])) / (b - a) ** k
        if k > 1 and np.min(np.diff(rts)) < (b - a) * .05: continue
        p = Poly(rts, lead); d = 'roots %r lead %r on (%r, %r)' % (list(rts), lead, a, b)
        x = np.linspace(a, b, 7)[1:-1]; sc = np.max(abs(p.deriv()(np.linspace(a, b, 50)))) + 1e-300
        for name in ('ChebyshevInterpolator', 'ChebyshevInterpolatorNoL', 'ChebyshevInterpolatorNoR', 'ChebyshevInterpolator1'):
            s = getattr(N, name)(lambda t: p(t), a, b)
            rep.close(s(x), p(x), name + ': polynomial', d, rtol=1e-9, atol=1e-9)
            try: rep.close(s.diff()(x) / sc, p.deriv()(x) / sc, name + ': derivative', d, rtol=1e-7, atol=1e-7)
            except Exception as e: rep.ok(False, name + ': derivative', d, 'values', repr(e))
            try: rep.close(s.trim(abstol=1e-13)(x), p(x), name + ': trimmed copy', d, rtol=1e-7, atol=1e-7)
            except Exception as e: rep.ok(False, name + ': trimmed copy', d, 'values', repr(e))
    for _ in range(rep.scale(6)):
        # as many nodes as the degree asks for
        a, b = interval(rng); k = int(rng.integers(2, 6)); rts = a + (b - a) * (np.arange(k) + rng.uniform(.2, .8, k)) / k
        p = Poly(rts, 1 / (b - a) ** k); d = 'roots %r on (%r, %r)' % (list(rts), a, b)
        X, W = U.chebspace(a, b, k + 1, returnWeights=True)
        s = N.BarycentricInterpolator(X, p(X), W)
        got = np.sort(s.roots())
        rep.ok(len(got) == k and np.allclose(got, rts, atol=1e-6 * (b - a)), 'roots of a polynomial', d, list(rts), list(got)[:8])
        x = np.linspace(a, b, 7)
        rep.close(s.diff()(x), p.deriv()(x), 'derivative of a polynomial', d, rtol=1e-8, atol=1e-8 * max(abs(p.deriv()(x))))
        # partial node sets are completed from the interpolant
        for nm, o in (('left', slice(1, None)), ('right', slice(None, -1))):
            X, W = U.chebspace(a, b, k + 2, returnWeights=True)
            q = N.BarycentricInterpolator(X[o], p(X[o]))
            r = q.diff(use_2nd=False)
            rep.ok(len(r.Xs) >= k, 'derivative without the %s end' % nm, d, k, len(r.Xs))
        c = rng.normal(size=k + 2)
        t = np.cos(np.arange(k + 2) * np.pi / (k + 1))[::-1]
        rep.close(U.chebt2(np.polynomial.chebyshev.chebval(t, c)), c[::-1], 'coefficients of the interpolant', list(c), atol=1e-12)
        rep.close(U.ichebt2(c[::-1])[::-1], np.polynomial.chebyshev.chebval(t, c), 'values of the coefficients', list(c), atol=1e-12)
def nodes_of(rep, s, f, name, d, tol=1e-9):
    """every reported node carries the value of the function, and the interpolant returns it"""
    Xs, Ys = s.getNodes()
    want = np.array([float(f(float(v))) for v in Xs])
    m = np.isfinite(want)
    rep.close(np.asarray(Ys)[m], want[m], name + ': values of the nodes', d, rtol=tol, atol=tol)
    with np.errstate(all='ignore'): got = np.asarray(s(np.asarray(Xs, float)))
    # the two transforms of a node are inverse to each other up to rounding only, which a pole magnifies
    Xs = np.asarray(Xs, float); m = m & (abs(want) > 1e-3) & (Xs - Xs.min() > 1e-6) & (Xs.max() - Xs > 1e-6)
    rep.close(got[m], want[m], name + ': interpolant at its nodes', d, rtol=1e-5, atol=1e-9)
@D.check
def transforms(rep, rng):
    for _ in range(rep.scale(3)):
        a = float(rng.choice([0.0, 1.0, -2.0, rng.normal()])); w = float(rng.uniform(.3, 3)); b = a + w; e = float(rng.uniform(.2, .8)); sg = float(rng.choice([1, -1]))
        d = 'end %r exponent %r sign %r' % (a, e, sg)
        x = a + w * rng.uniform(.02, .98, 6)
        f = lambda t: sg * (np.asarray(t, float) - a + 1e-300) ** -e
        s = N.PoleInterpolatorP(f, a, b, par=params.interpolation_pole)
        rep.close(s(x), f(x), 'pole at the left: values', d, rtol=1e-3)
        nodes_of(rep, s, f, 'pole at the left', d, 1e-5)
        rep.close([float(s(float(v))) for v in x], s(x), 'pole at the left: scalar and array', d)
        g = lambda t: sg * (b - np.asarray(t, float) + 1e-300) ** -e
        s = N.PoleInterpolatorN(g, a, b, par=params.interpolation_pole)
        rep.close(s(x), g(x), 'pole at the right: values', d, rtol=1e-3)
        nodes_of(rep, s, g, 'pole at the right', d, 1e-5)
        # zero in the middle of the interval decides no sign
        h = lambda t: np.maximum((np.asarray(t, float) - a) / w - .5, 0.0)
        h2 = lambda t: np.maximum(.5 - (np.asarray(t, float) - a) / w, 0.0)
        for nm, k, q in (('left', N.PoleInterpolatorP, h2), ('right', N.PoleInterpolatorN, h)):
            s = k(q, a, b, par=params.interpolation_pole); v = q(x)
            rep.close(s(x), v, 'function vanishing in the middle, pole at the %s' % nm, d, rtol=.05, atol=.02)
        lam = float(rng.uniform(.5, 2)); q = lambda t: np.exp(-lam * (np.asarray(t, float) - a))
        s = N.LogTransformInterpolator(q, a, a + 20 / lam)
        rep.close(s(a + np.array([.5, 3, 9])), q(a + np.array([.5, 3, 9])), 'logarithmic: values', d, rtol=1e-6)
        nodes_of(rep, s, q, 'logarithmic', d, 1e-6)
        rep.ok(s(a + 20 / lam + 1.0) == 0 and s(np.array([a + 20 / lam + 1, a + 1e9])).tolist() == [0, 0], 'logarithmic: zero beyond the interval', d, 0, None)
        rep.close(s(np.array([int(a + 2), int(a + 5)])), q(np.array([int(a + 2), int(a + 5)])), 'logarithmic: integers', d, rtol=1e-6)
        L = float(rng.choice([0, 1, -3, 2.5]))
        for nm, k, q in (('right tail', N.PInfInterpolator, lambda t: np.exp(-lam * (np.asarray(t, float) - L))), ('left tail', N.MInfInterpolator, lambda t: np.exp(lam * (np.asarray(t, float) - L)))):
            for cut in (q, ):
                s = k(cut, L); z = L + np.array([.01, .5, 2, 7, 30]) * (1 if nm[0] == 'r' else -1)
                d2 = '%s from %r rate %r' % (nm, L, lam)
                rep.close(s(z), q(z), nm + ': values', d2, rtol=1e-6, atol=1e-10)
                rep.close([float(s(float(v))) for v in z], s(z), nm + ': scalar and array', d2)
                zi = np.array([int(v) for v in z[2:]])
                rep.close(s(zi), q(zi), nm + ': integers', d2, rtol=1e-6, atol=1e-10)
                Xs, Ys = s.getNodes(); m = np.isfinite(Xs)
                rep.close(np.asarray(Ys)[m], q(Xs[m]), nm + ': values of the nodes', d2, rtol=1e-6, atol=1e-10)
        for vt, q, pts in [(V.VarTransformAlgebraic_PMInf(), lambda t: np.exp(-np.asarray(t) ** 2), np.array([-2., -.3, 0, 1, 5])), (V.VarTransformReciprocal_PInf(L), lambda t: 1 / (1 + (np.asarray(t) - L) ** 2), L + np.array([.1, 1, 4, 100])), (V.VarTransformReciprocal_MInf(L), lambda t: 1 / (1 + (np.asarray(t) - L) ** 2), L - np.array([.1, 1, 4, 100]))]:
            s = N.VarTransformInterpolator(q, vt)
            nm = type(vt).__name__
            rep.close(s(pts), q(pts), 'under %s' % nm, 'from %r' % L, rtol=1e-6, atol=1e-8)
            Xs, Ys = s.getNodes(); m = np.isfinite(Xs)
            rep.close(np.asarray(Ys)[m], q(Xs[m]), 'nodes under %s' % nm, 'from %r' % L, rtol=1e-8, atol=1e-10)
@D.check
def outside(rep, rng):
    """a point that a transform sends to infinity gives zero"""
    L = float(rng.choice([0, 1, -3, 2.5]))
    q = lambda t: np.ones_like(np.asarray(t, float))
    for vt in (V.VarTransformReciprocal_PInf(L), V.VarTransformReciprocal_MInf(L), V.VarTransformReciprocal_PMInf(), V.VarTransformAlgebraic_PInf(L), V.VarTransformAlgebraic_MInf(L), V.VarTransformAlgebraic_PMInf()):
        nm = type(vt).__name__; mid = (vt.var_min + vt.var_max) / 2 + .125
        for t in vt.var_inf:
            rep.ok(float(vt.apply_with_inv_transform(q, t)) == 0, 'at infinity of %s' % nm, t, 0, vt.apply_with_inv_transform(q, t))
            got = vt.apply_with_inv_transform(q, np.array([mid, t]))
            rep.ok(list(got) == [1, 0], 'at infinity of %s, array' % nm, t, [1, 0], got)
        rep.ok(float(vt.apply_with_inv_transform(q, mid)) == 1, 'inside %s' % nm, mid, 1, None)
@D.check
def refinement(rep, rng):
    """the adaptive loop evaluates at nested nodes and keeps every value"""
    for _ in range(rep.scale(4)):
        a, b = interval(rng); w = float(rng.uniform(.5, 8))
        for name in NESTED:
            if name[0] == 'L': a, b = abs(a) + .1, abs(a) + .1 + (b - a)
            calls = []
            def f(x):
                y = np.cos(w * (np.asarray(x) - a) / (b - a)); calls.append((np.array(x), y)); return y
            s = getattr(N, name)(f, a, b)
            d = '%s on (%r, %r) frequency %r' % (name, a, b, w)
            seen = {float(x): float(y) for xs, ys in calls for x, y in zip(xs, ys)}
            rep.ok(all(seen.get(float(x)) == float(y) for x, y in zip(s.Xs, s.Ys)), 'adaptive: stored values are values of the function', d, None, None)
            rep.ok(all(np.all(xs >= a) and np.all(xs <= b) for xs, ys in calls), 'adaptive: evaluated inside', d, (a, b), None)
            rep.ok(len(seen) == sum(len(xs) for xs, ys in calls), 'adaptive: no node twice', d, sum(len(xs) for xs, ys in calls), len(seen))
            agree(rep, s, 'adaptive ' + name, d)
            x = rng.uniform(a, b, 5)
            rep.close(s(x), np.cos(w * (x - a) / (b - a)), 'adaptive: accurate', d, rtol=1e-7, atol=1e-7)

def extracted():
    """the kernels of the .pyx text of this tree (the compiled module may be older), run as Python"""
    import os, importlib.util
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sp = importlib.util.spec_from_file_location('cyext', os.path.join(here, 'pyvc', 'cyext.py')); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    p = os.path.join(os.path.dirname(N.__file__), 'bary_interp.pyx'); g = {'malloc': lambda n: [None] * n}
    exec(compile(m.to_python(open(p).read()), p, 'exec'), g)
    return g
@D.check
def kernel_text(rep, rng):
    K = extracted()['bary_interp']
    for _ in range(rep.scale(15)):
        n = int(rng.integers(1, 9)); X = np.cumsum(rng.uniform(.1, 1, n)); Y = rng.normal(size=n); d = 'nodes %r values %r' % (list(X), list(Y))
        W = N.BarycentricInterpolator(X, Y).weights
        x = np.concatenate([rng.uniform(X[0] - .1, X[-1] + .1, 4), X])
        got = K(X, Y, W, x)
        rep.close(got, [lagrange(X, Y, v) for v in x], 'kernel text: the polynomial through the nodes', d, rtol=1e-8, atol=1e-8)
        rep.ok(np.array_equal(got[4:], Y), 'kernel text: stored values', d, Y, got[4:])
        rep.ok(np.array_equal(K(X, Y, W, X[::-1].copy()), Y[::-1]), 'kernel text: stored values in any order', d, Y[::-1], None)
    for q in ((np.array([0., 1.]), np.array([3., 5.]), np.array([1., 1.]), np.array([.5 - 1e-3, .5]))[:3],):
        # weights whose sum vanishes at the middle
        got = K(q[0], q[1], q[2], np.array([.5]))
        rep.ok(got[0] in (3., 5.), 'kernel text: vanishing sums', 'weights 1, 1 at the middle', (3., 5.), got[0])
