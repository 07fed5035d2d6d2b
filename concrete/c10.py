"""C10 variable transforms and integration routines on the running code"""
import numpy as np
import pacal.vartransforms as V
import pacal.integration as I
from pacal import params
from scipy import integrate, special, stats
from .lib import Driver, Rep, Skip
D = Driver()

def w_bad(desc): return '1000000' in desc            # numerical differentiation cancels
def u(rng, a, b): return float(round(rng.uniform(a, b), 4))
def transforms(rng):
    L = [0, 0.0, u(rng, -5, 5), -3.0, 2, 1e-6, -1e6][int(rng.integers(7))]
    e = [1, 2, 3, 4, u(rng, .5, 6)][int(rng.integers(5))]
    c = u(rng, .1, 9)
    w = u(rng, .1, 30)
    yield V.VarTransformIdentity(), (-1, 1), 'identity'
    yield V.VarTransformReciprocal_PMInf(), (-np.inf, np.inf), 'PMInf'
    yield V.VarTransformReciprocal_PInf(L, exponent=e), (L, np.inf), 'PInf(%r,%r)' % (L, e)
    yield V.VarTransformReciprocal_PInf(L, exponent=e, U=L + w), (L, L + w), 'PInf(%r,%r,U=%r)' % (L, e, L + w)
    yield V.VarTransformReciprocal_MInf(L, exponent=e), (-np.inf, L), 'MInf(%r,%r)' % (L, e)
    yield V.VarTransformReciprocal_MInf(L, exponent=e, L=L - w), (L - w, L), 'MInf(%r,%r,L=%r)' % (L, e, L - w)
    yield V.VarTransformAlgebraic_PMInf(c), (-np.inf, np.inf), 'AlgPM(%r)' % c
    yield V.VarTransformAlgebraic_PInf(L, c), (L, np.inf), 'AlgPInf(%r,%r)' % (L, c)
    yield V.VarTransformAlgebraic_MInf(L, c), (-np.inf, L), 'AlgMInf(%r,%r)' % (L, c)

@D.check
def change_of_variable(rep, rng):
    for _ in range(rep.scale(12)):
        for vt, (a, b), desc in transforms(rng):
            lo, hi = float(vt.var_min), float(vt.var_max)
            t = lo + (hi - lo) * np.sort(rng.uniform(.02, .98, 9))
            x = vt.inv_var_change(t)
            d = np.asarray(vt.inv_var_change_deriv(t)) + 0 * t
            rep.ok(bool(np.all((x > a) & (x < b))), 'values in the interval', desc, (a, b), x)
            rep.close(vt.var_change(x), t, 'inverse', desc, rtol=1e-7, atol=1e-9)
            rep.close([float(vt.inv_var_change(float(v))) for v in t], x, 'scalar and array', desc, rtol=1e-13, atol=0)
            rep.close([float(vt.inv_var_change_deriv(float(v))) for v in t], d, 'scalar and array (derivative)', desc, rtol=1e-13, atol=0)
            h = 1e-6 * (hi - lo) * .02
            if w_bad(desc): continue
            num = np.abs(vt.inv_var_change(t + h) - vt.inv_var_change(t - h)) / (2 * h)
            rep.close(d, num, 'derivative', desc, rtol=2e-4, atol=1e-6 * np.max(np.abs(x)) + 1e-9)
            ends = sorted(float(np.clip(vt.inv_var_change(v), -1e300, 1e300)) if v not in vt.var_inf else (a if np.isinf(a) and not (np.isinf(b) and v == max(vt.var_inf)) else b) for v in (lo, hi))
            rep.ok(all(p == q or abs(p - q) <= 1e-9 * max(1, abs(q)) for p, q in zip(ends, (a, b))), 'ends of the parameter interval', desc, (a, b), ends)

@D.check
def masks(rep, rng):
    for vt, (a, b), desc in transforms(rng):
        f = lambda x: np.cos(x) + 2.0
        lo, hi = float(vt.var_min), float(vt.var_max)
        t = np.concatenate([lo + (hi - lo) * rng.uniform(.05, .95, 5), [float(v) for v in vt.var_inf], [float(v) for v in vt.var_inf]])
        t = t[rng.permutation(len(t))]
        for mul in (False, True):
            want = np.array([7.5 if v in vt.var_inf else f(vt.inv_var_change(v)) * (vt.inv_var_change_deriv(v) if mul else 1) for v in t])
            t0 = t.copy()
            rep.close(vt.apply_with_inv_transform(f, t, def_val=7.5, mul_by_deriv=mul), want, 'function in the new variable (array)', desc + ' mul=%s' % mul, rtol=1e-12, atol=0)
            rep.ok(bool(np.all(t == t0)), 'argument unchanged', desc)
            rep.close([float(vt.apply_with_inv_transform(f, float(v), def_val=7.5, mul_by_deriv=mul)) for v in t], want, 'function in the new variable (scalar)', desc + ' mul=%s' % mul, rtol=1e-12, atol=0)
            if len(t) >= 4:
                r = vt.apply_with_inv_transform(f, t[:4].reshape(2, 2), def_val=7.5, mul_by_deriv=mul)
                rep.close(np.ravel(r), want[:4], 'function in the new variable (matrix)', desc, rtol=1e-12, atol=0)
            t0 = t.copy()
            vt.apply_with_inv_transform(lambda x: x, t, mul_by_deriv=mul)
            rep.ok(bool(np.all(t == t0)), 'argument unchanged', desc + ' identity function')

@D.check
def quadrature(rep, rng):
    """the rules are exact for polynomials of their degree"""
    for n in (3, 5, 9, 17, 33, 65, 129, 257):
        for rule, nodes in ((I.clenshaw_coefficients, lambda n: I.cheb_nodes(n, -1, 1)), (I.fejer2_coefficients, lambda n: I.cheb_nodes(n, -1, 1)[1:-1])):
            if n < 5 and rule is I.fejer2_coefficients: continue
            w, x = rule(n), nodes(n)
            if not rep.ok(len(w) == len(x), 'a weight for every node', '%s %d' % (rule.__name__, n), len(x), len(w)): continue
            for k in list(range(0, min(n - 2, 30))):
                rep.close(np.dot(w, x ** k), (1 - (-1) ** (k + 1)) / (k + 1), 'exact for polynomials', '%s n=%d x^%d' % (rule.__name__, n, k), rtol=1e-12, atol=1e-13)
            rep.ok(bool(np.all(np.abs(w - rule(n)) == 0)), 'cached weights', n)

def value(r): return float(np.ravel(r[0])[0])
@D.check
def finite(rep, rng):
    for _ in range(rep.scale(6)):
        a = u(rng, -6, 6); b = a + u(rng, .1, 5)
        k = u(rng, .2, 2)
        f = lambda x: np.exp(-k * x) * (2 + np.sin(x))
        want = integrate.quad(f, a, b, epsabs=1e-13, epsrel=1e-12)[0]
        desc = '[%g,%g] k=%g' % (a, b, k)
        cases = [('fejer2', lambda: I.integrate_fejer2(f, a, b)), ('clenshaw', lambda: I.integrate_clenshaw(f, a, b, debug_info=False)), ('Xn', lambda: I.integrate_fejer2_Xn_transform(f, a, b)), ('Xn 3', lambda: I.integrate_fejer2_Xn_transform(f, a, b, 3.0)),
                 ('XnP', lambda: I.integrate_fejer2_Xn_transformP(f, a, b)), ('XnN', lambda: I.integrate_fejer2_Xn_transformN(f, a, b)), ('XnP 2', lambda: I.integrate_fejer2_Xn_transformP(f, a, b, 2.0)), ('XnN 4', lambda: I.integrate_fejer2_Xn_transformN(f, a, b, 4.0)),
                 ('wide', lambda: I.integrate_wide_interval(f, a, b)), ('wide2', lambda: I.integrate_wide_interval2(f, a, b)), ('guess', lambda: I.integrate_with_pminf_guess(f, a, b)),
                 ('pinf b', lambda: I.integrate_fejer2_pinf(f, a, b)), ('minf a', lambda: I.integrate_fejer2_minf(f, b, a)), ('pinf b e', lambda: I.integrate_fejer2_pinf(f, a, b, exponent=2)), ('minf a e', lambda: I.integrate_fejer2_minf(f, b, a, exponent=3)),
                 ('vector', lambda: (I.integrate_fejer2_vector(lambda x: np.array([f(x), 2 * f(x)]), a, b)[0], 0)),
                 ('reversed', lambda: (-np.asarray(I.integrate_fejer2(f, b, a)[0]), 0))]
        for nm, g in cases:
            with np.errstate(all='ignore'): rep.close(value(g()), want, 'finite interval: ' + nm, desc, rtol=1e-8, atol=1e-10)
        for s in (1, -1):                        # wide positive and negative intervals
            lo = 10 ** u(rng, -3, 1); hi = lo * 10 ** u(rng, 1, 9)
            g = lambda x: abs(x) ** -1.5
            A, B = (lo, hi) if s > 0 else (-hi, -lo)
            rep.close(value(I.integrate_wide_interval(g, A, B)), 2 * (lo ** -.5 - hi ** -.5), 'wide interval', '[%g,%g]' % (A, B), rtol=1e-8)
        p = u(rng, .3, .8)
        rep.close(value(I.integrate_fejer2_Xn_transformP(lambda x: (x - 0.0) ** -p, 0.0, b - a)), (b - a) ** (1 - p) / (1 - p), 'singular left end', 'x^-%g on [0,%g]' % (p, b - a), rtol=1e-4)
        rep.close(value(I.integrate_fejer2_Xn_transformN(lambda x: (0.0 - x) ** -p, a - b, 0.0)), (b - a) ** (1 - p) / (1 - p), 'singular right end', '|x|^-%g' % p, rtol=1e-4)

@D.check
def infinite(rep, rng):
    for _ in range(rep.scale(8)):
        a = [0, 0.0, u(rng, -6, 6)][int(rng.integers(3))]
        s = u(rng, .3, 4)
        f = lambda x: (1 + ((x - a) / s) ** 2) ** -2.0
        half = s * np.pi / 4
        desc = 'centre %g scale %g' % (a, s)
        for nm, g, want in (('pinf', lambda: I.integrate_fejer2_pinf(f, a), half), ('minf', lambda: I.integrate_fejer2_minf(f, a), half), ('pminf', lambda: I.integrate_fejer2_pminf(f), 2 * half), ('pinf 1', lambda: I.integrate_fejer2_pinf(f, a, exponent=1), half), ('minf 1', lambda: I.integrate_fejer2_minf(f, a, exponent=1), half),
                            ('pinf 2', lambda: I.integrate_fejer2_pinf(f, a, exponent=2), half), ('minf 2', lambda: I.integrate_fejer2_minf(f, a, exponent=2), half),
                            ('clenshaw pinf', lambda: I.integrate_clenshaw_pinf(f, a), half), ('clenshaw minf', lambda: I.integrate_clenshaw_minf(f, a), half), ('clenshaw pminf', lambda: I.integrate_clenshaw_pminf(f), 2 * half)):
            with np.errstate(all='ignore'):
                import io, contextlib
                with contextlib.redirect_stdout(io.StringIO()): r = g()
            rep.close(value(r), want, 'infinite interval: ' + nm, desc, rtol=2e-4, atol=1e-9)
        for nm, g in (('pinf', lambda: I.integrate_fejer2_pinf(f, np.inf)), ('minf', lambda: I.integrate_fejer2_minf(f, -np.inf)), ('clenshaw pinf', lambda: I.integrate_clenshaw_pinf(f, np.inf)), ('clenshaw minf', lambda: I.integrate_clenshaw_minf(f, -np.inf))):
            rep.ok(value(g()) == 0, 'empty interval: ' + nm, desc, 0)
        # the whole line and half lines by the routine for wide intervals
        g = stats.norm(a, s).pdf
        for A, B, want in ((-np.inf, np.inf, 1.0), (a, np.inf, .5), (-np.inf, a, .5), (-5.0, np.inf, stats.norm(a, s).sf(-5)), (-np.inf, 5.0, stats.norm(a, s).cdf(5))):
            with np.errstate(all='ignore'): rep.close(value(I.integrate_wide_interval(g, A, B)), want, 'wide interval: infinite', 'N(%g,%g) on [%g,%g]' % (a, s, A, B), rtol=1e-6, atol=1e-8)

@D.check
def iterated(rep, rng):
    import io, contextlib
    for _ in range(rep.scale(1)):
        a, b, c, d = 0.5, 1.0 + u(rng, .1, 1), -1.0, u(rng, .1, 1)
        f = lambda x, y: np.exp(-x) * (x + y) ** 2
        want = integrate.dblquad(lambda y, x: f(x, y), a, b, c, d, epsabs=1e-12)[0]
        with contextlib.redirect_stdout(io.StringIO()):
            rep.close(value(I.integrate_iter(f, a, b, c, d)), want, 'iterated integral', '%r' % ((a, b, c, d),), rtol=1e-8)
            rep.close(value(I.integrate_iter2(f, a, b, c, d)), want, 'iterated integral 2', '%r' % ((a, b, c, d),), rtol=1e-8)

@D.check
def hard(rep, rng):
    """integrands on which the rules do not converge still give a finite answer"""
    import io, contextlib
    f = lambda x: np.sign(x - .123456) * np.sqrt(abs(x - .123456))
    want = (2 / 3) * ((1 - .123456) ** 1.5 - (1.123456) ** 1.5)
    with contextlib.redirect_stdout(io.StringIO()):
        for nm, g in (('fejer2', lambda: I.integrate_fejer2(f, -1, 1)), ('clenshaw', lambda: I.integrate_clenshaw(f, -1, 1, maxn=2 ** 10, debug_info=False)), ('clenshaw no plot', lambda: I.integrate_clenshaw(f, -1, 1, maxn=2 ** 10, debug_plot=False)), ('vector', lambda: (np.ravel(I.integrate_fejer2_vector(lambda x: np.array([f(x)]), -1, 1)[0]), 0))):
            try: r = value(g())
            except Exception as e: rep.ok(False, 'slow convergence: ' + nm, 'sign(x)sqrt|x|', want, repr(e)); continue
            rep.close(r, want, 'slow convergence: ' + nm, 'sign(x)sqrt|x|', rtol=1e-2)
