"""C12  convergence controller and root bracketing: every history, every function"""
import math, z3
from pyvc.spec import *
from pyvc.core import term, bterm, mkbool, Num, PathEnd, Unsupported, is_sym
from pyvc import loops
from . import c04 as sums
import numpy as np
P = Registry()
S, D = sums.S, sums.D
U = mod('pacal.utils')
I = mod('pacal.integration')

def fsym(n): return SymFun(z3.Function(n, z3.RealSort(), z3.RealSort()))
def If(q, a, b): return Num(z3.If(bterm(q), term(a), term(b)))
class Obj: pass
class Hist(loops.SymSeq):
    """what was reported, entry by entry"""
    def __init__(self, name, n):
        self.F = z3.Function(name, z3.IntSort(), z3.RealSort())
        loops.SymSeq.__init__(self, n, lambda i: Num(self.F(i)), name)
    def __getitem__(self, k):
        if isinstance(k, slice): return loops.SymSeq.__getitem__(self, k)
        k = loops.term_int(k)
        n = loops.term_int(self.n)
        k = z3.simplify(z3.If(k < 0, n + k, k))
        core_ctx().ensure(mkbool(z3.And(k >= 0, k < n)), 'index in the history')
        return Num(self.F(k))
def core_ctx():
    from pyvc import core
    return core.CTX

def config(c):
    p = Obj()
    for k in ('abstol', 'reltol', 'min_improvement_ratio'):
        v = c.real(k); c.assume(v >= 0); setattr(p, k, v)
    for k in ('min_quit_iter', 'min_quit_no_improvement'): setattr(p, k, Num(z3.Int(k)))
    p.force_nonzero = [True, False][c.choose(2, 'force_nonzero')]
    return p

def monitor(c, p):
    """a controller after n reports, with the state of the tests before the last one"""
    m = U.convergence_monitor(p)
    c.ensure(m.last_good == 0 and m.n_no_improvement == 0 and m.converged is False and len(m.ae_list) == len(m.y_list) == len(m.e_list) == 0, 'nothing is known at the start')
    n = Num(z3.Int('n')); c.assume(n >= 1)
    m.ae_list, m.y_list, m.e_list = Hist('ae', n), Hist('y', n), Hist('extra', n)
    return m, n

@P.contract(['utils.convergence_monitor.test_convergence', 'utils.convergence_monitor.__init__'], name='decision')
def decision(c):
    p = config(c)
    m, n = monitor(c, p)
    g, k = Num(z3.Int('good')), Num(z3.Int('idle'))
    c.assume(And(g >= 0, g < n, k >= 0))
    m.last_good, m.n_no_improvement = g, k
    ae, y = m.ae_list[-1], m.y_list[-1]
    c.assume(ae >= 0)
    r = m.test_convergence()
    ok = And(Or(ae <= p.abstol, ae <= abs(y) * p.reltol), Or(not p.force_nonzero, y != 0))
    if r[1] == 'converged':
        c.ensure(r[0] is True and m.converged is True, 'success is reported and kept')
        return c.ensure(ok, 'success only within the tolerance')
    c.ensure(Not(ok), 'success whenever within the tolerance'); c.ensure(m.converged is False, 'no success is kept')
    better = ae < p.min_improvement_ratio * m.ae_list[g]
    c.ensure_eq(m.last_good, If(better, n - 1, g), 'last report with an improvement')
    idle = If(better, 0, k + 1)
    c.ensure_eq(m.n_no_improvement, idle, 'reports without an improvement')
    c.ensure((r == (True, 'did not converge')) or (r == (False, 'continue')), 'stop or continue')
    stop = And(n >= 2, n >= p.min_quit_iter, idle >= p.min_quit_no_improvement)
    c.ensure(stop if r[0] else Not(stop), 'stops after the stated number of reports without an improvement, no earlier')

@P.contract('utils.convergence_monitor.add', name='report')
def report(c):
    p = config(c)
    m = U.convergence_monitor(p)
    old = [(c.real('a%d' % i), c.real('b%d' % i), object()) for i in range(2)]
    for a, y, e in old: m.ae_list.append(a); m.y_list.append(y); m.e_list.append(e)
    a, y, e = c.real('a'), c.real('y'), object()
    if c.choose(2, 'extra'): m.add(a, y, e)
    else: m.add(a, y); e = None
    for got, want in zip((m.ae_list, m.y_list, m.e_list), zip(*(old + [(a, y, e)]))):
        c.ensure(len(got) == 3 and all(u is v for u, v in zip(got, want)), 'reports are kept in order')

MAXD = 1.7976931348623157e308
@P.contract('utils.convergence_monitor.get_best_result', name='best')
def best(c):
    """the offered report K(n): each report replaces the best one before it if its relative error is less than err_decr times smaller"""
    p = config(c)
    m, n = monitor(c, p)
    if c.choose(2, 'converged'):
        m.converged = True
        r = m.get_best_result()
        for v, h in zip(r, (m.y_list, m.ae_list, m.e_list)): c.ensure_eq(v, h[-1], 'after success the last report')
        return
    AE, Y, EX = m.ae_list.F, m.y_list.F, m.e_list.F
    K = z3.Function('K', z3.IntSort(), z3.IntSort())
    q = c.real('err_decr'); c.assume(And(q > 0, q <= 1)); q = term(q)
    def rel(i):
        a = z3.If(Y(i) >= 0, Y(i), -Y(i))
        return z3.If(Y(i) == 0, term(MAXD), AE(i) / a)
    def law(i):
        c.axiom(K(z3.IntVal(0)) == 0)
        c.axiom(z3.Implies(i >= 0, K(i + 1) == z3.If(rel(i + 1) < q * rel(K(i)), i + 1, K(i))))
    class T:
        def __init__(self, f, label): self.f, self.label = f, label
        def value(self, i):
            law(i); return Num(self.f(K(i)))
        def check(self, x, i):
            from pyvc import core
            law(z3.IntVal(0))
            if not core.is_num(x): return False
            return term(x) == self.f(K(i))
    c.templates = [T(Y, 'value of the best report so far'), T(AE, 'error of the best report so far'), T(EX, 'data of the best report so far'), T(rel, 'relative error of the best report so far'), T(lambda k: k, 'index of the best report so far')]
    r = m.get_best_result(Num(q))
    c.templates = None
    last = loops.term_int(n) - 1
    for v, f, l in zip(r, (Y, AE, EX), ('value', 'error', 'data')): c.ensure_eq(v, Num(f(K(last))), l + ' of the best report')
    # what K(i) means, by induction on i: a report among 0..i, and no report j <= i is better by the factor
    j, i = z3.Int('j'), z3.Int('i')
    c.assume(mkbool(z3.And(i >= 0, j >= 0)))
    for t in (j, i, i + 1, K(i)): c.assume(mkbool(AE(t) >= 0))
    meaning = lambda i: z3.And(K(i) >= 0, K(i) <= i, z3.Implies(j <= i, rel(j) >= q * rel(K(i))))
    law(i)
    zero = z3.And(K(z3.IntVal(0)) == 0, z3.Implies(j <= 0, j == 0))
    c.ensure(mkbool(z3.Implies(AE(z3.IntVal(0)) >= 0, meaning(z3.IntVal(0)))), 'no report is better by the factor: first report')
    c.ensure(mkbool(z3.Implies(meaning(i), meaning(i + 1))), 'no report is better by the factor: one more report')

# ---------------------------------------------------------------- bisection
def evaluate(f, x): return term(f(x))
@P.contract('utils.bisect', name='bisection')
def bisection(c):
    f = fsym('f')
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    xtol, rtol = c.real('xtol'), c.real('rtol'); c.assume(And(xtol > 0, rtol > 0))
    maxiter = Num(z3.Int('maxiter')); c.assume(maxiter >= 1)
    fa, fb = f(a), f(b)
    W = z3.Function('width', z3.IntSort(), z3.RealSort())
    change = lambda l, r: Or(And(f(l) <= 0, f(r) >= 0), And(f(l) >= 0, f(r) <= 0))
    def inv(st, i):
        c.axiom(W(z3.IntVal(0)) == term(b - a)); c.axiom(z3.Implies(i >= 0, W(i + 1) == W(i) / 2))
        xa, dm = st['xa'], st['dm']
        return [('the bracket stays inside of the first one', And(xa >= a, xa + dm <= b, dm > 0)), ('the bracket keeps a sign change', change(xa, xa + dm)),
                ('the left end keeps its sign', If(fa > 0, f(xa) > 0, f(xa) < 0)),
                ('the bracket is halved', mkbool(term(dm) == W(i)))]
    c.loopinv = inv
    bad = Or(And(fa > 0, fb > 0), And(fa < 0, fb < 0))
    try: x = U.bisect(f, a, b, xtol=xtol, rtol=rtol, maxiter=maxiter)
    except RuntimeError: return c.ensure(bad, 'an error only without a sign change')
    c.ensure(Not(bad), 'no sign change is an error')
    c.ensure(And(x >= a, x <= b), 'the result is in the bracket')
    if getattr(c, 'loopstate', None) is None: return c.ensure_eq(f(x), 0, 'a zero at an end')
    st, i = c.loopstate, c.iteration
    l, w = st['xa'], st['dm']
    tol = If(xtol <= rtol * (abs(a) + abs(b)), xtol, rtol * (abs(a) + abs(b)))
    c.ensure(And(x >= l, x <= l + w), 'the result is in the last bracket')
    c.ensure(Or(f(x) == 0, w / 2 < tol, mkbool(i == loops.term_int(maxiter) - 1)), 'a zero, or a bracket within the tolerance, or the last iteration')

class Root:
    def __init__(self, c): self.c, self.l = c, []
    def __call__(self, f, a, b, *args, **kw):
        r = self.c.real('root'); self.l.append((f, a, b, args, kw, r)); return r

EPS = 2.0 ** -52
@P.contract('utils.findinv', name='inverse')
def inverse(c):
    f = fsym('f')
    a, b, lev = c.real('a'), c.real('b'), c.real('c')
    r, scipy = Root(c), [True, False][c.choose(2, 'scipy')]
    kw = {}
    if c.choose(2, 'rtol'): kw['rtol'] = c.real('rtol')
    if c.choose(2, 'xtol'): kw['xtol'] = c.real('xtol')
    with patched((U, 'have_scipy_opt', scipy), (U, 'brentq', r), (U, 'bisect', r)):
        x = U.findinv(f, a, b, lev, **dict(kw))
    c.ensure(len(r.l) == 1, 'one search'); g, A, B, ar, k2, root = r.l[0]
    c.ensure(x is root, 'its root'); c.ensure_eq(A, a, 'left end'); c.ensure_eq(B, b, 'right end'); c.ensure(not ar, 'options by name')
    t = c.real('t'); c.ensure_eq(g(t), f(t) - lev, 'function minus level')
    c.ensure(set(k2) == set(kw), 'the same options')
    if 'xtol' in kw: c.ensure_eq(k2['xtol'], kw['xtol'], 'tolerance')
    if 'rtol' in kw: c.ensure(Or(k2['rtol'] == kw['rtol'], And(scipy, kw['rtol'] < 4 * EPS, k2['rtol'] >= kw['rtol'])), 'relative tolerance')

@P.contract(['utils.findinv_minf', 'utils.findinv_pinf'], name='half_line')
def half_line(c):
    """the search is started on an interval beyond the start whose ends are on the two sides of the level; nan if the start is on the wrong side"""
    f = fsym('f')
    x0, lev = c.real('x0'), c.real('c')
    which = c.choose(3, 'direction')
    r = Root(c)
    kw = {'xtol': c.real('xtol')} if c.choose(2, 'options') else {}
    c.while_rule = True
    up = which != 2
    g = (lambda t: f(t)) if up else (lambda t: -f(t))
    L = lev if up else -lev
    def inv(st, i):
        a, b = st['a'], st['b']
        side = [('the ends lie beyond the start', And(a < b, b <= x0)), ('the inner end is above the level', f(b) >= lev)] if which == 0 else [('the ends lie beyond the start', And(a < b, a >= x0)), ('the inner end is on the side of the start', g(a) <= L)]
        return side + [('values at the ends', And(st['fa'] == f(a), st['fb'] == f(b)) )]
    c.loopinv = inv
    with patched((U, 'findinv', r)):
        x = U.findinv_minf(f, x0, lev, **kw) if which == 0 else U.findinv_pinf(f, x0, lev, **({} if up else {'increasing': False}), **kw)
    wrong = f(x0) < lev if which == 0 else g(x0) > L
    if not r.l:
        c.ensure(isinstance(x, float) and math.isnan(x), 'not found is nan'); return c.ensure(wrong, 'not found only if the start is on the wrong side')
    c.ensure(Not(wrong), 'not found if the start is on the wrong side')
    h, A, B, ar, k2, root = r.l[0]
    c.ensure(x is root, 'the root of the search'); t = c.real('t'); c.ensure_eq(h(t), f(t), 'the function')
    c.ensure(len(ar) == 1, 'the level is given'); c.ensure_eq(ar[0], lev, 'the level'); c.ensure(k2 == kw, 'options')
    c.ensure(And(A < B, B <= x0) if which == 0 else And(A < B, A >= x0), 'the interval lies beyond the start')
    c.ensure(And(g(A) <= L, g(B) >= L), 'the level is between the values at the ends')

# ---------------------------------------------------------------- the loops that report to the controller
class Controller:
    """any controller: stops whenever it wants"""
    def __init__(self, c): self.c, self.l, self.stopped, self.par = c, [], [], None
    def __call__(self, par=None):
        self.par = par; return self
    def add(self, err, y, extra=None): self.l.append((err, y))
    def test_convergence(self):
        s = bool(self.c.choose(2, 'stop')); self.stopped.append(s)
        return s, 'any'
    def get_best_result(self, *a):
        self.best = self.c.real('best'), self.c.real('best_err'), None
        return self.best

def rule(fn, coef, ends):
    @P.contract('integration.' + fn, name=fn)
    def h(c):
        """each estimate is the weighted sum of the values at the nodes of its rule; the controller is told the estimate and its distance from
        the one before; the loop ends when the controller says so or the nodes are used up, with the best estimate it offers"""
        f = fsym('f'); a, b = c.real('a'), c.real('b')
        con = Controller(c)
        size = {}
        base = 65 if coef.startswith('fejer') else 3
        def number(n):                # interior nodes: 1, 3, 7, ... stand for those of 65, 129, 257, ...
            k = 0
            while (base - 1) * 2 ** k + 1 < n: k += 1
            c.ensure((base - 1) * 2 ** k + 1 == n, 'the number of nodes is doubled')
            return k
        node = lambda n, i: Num(z3.Real('node_%d_%d' % (n, i)))
        def full(n, lo, hi):
            c.ensure_eq(lo, a, 'left end of the nodes'); c.ensure_eq(hi, b, 'right end of the nodes')
            k = number(n); m = 2 ** (k + 1) + 1
            return np.array([node(k, i) for i in range(m)], dtype=object)
        def more(n, lo, hi):
            c.ensure_eq(lo, a, 'left end of the nodes'); c.ensure_eq(hi, b, 'right end of the nodes')
            k = number(n); m = 2 ** (k + 1) + 1
            return np.array([node(k, i) for i in range(1, m, 2)], dtype=object)
        w = lambda k, i: Num(z3.Real('weight_%d_%d' % (k, i)))
        def weights(n):
            k = number(n); m = 2 ** (k + 1) + 1
            return np.array([w(k, i) for i in (range(m) if ends else range(1, m - 1))], dtype=object)
        maxn = ([130, 300, 513] if base == 65 else [5, 8, 12])[c.choose(3, 'maxn')]
        par = Obj(); par.maxn, par.debug_plot, par.debug_info, par.convergence = maxn, False, False, object()
        vector = fn.endswith('vector')
        g = (lambda x: np.array([[f(v) for v in x], [f(v) * 2 for v in x]], dtype=object)) if vector else f
        give = [dict(par=par), dict(maxn=maxn)][c.choose(2, 'given') if base == 65 else 1]
        with patched((I, 'convergence_monitor', con), (I, 'cheb_nodes', full), (I, 'incremental_cheb_nodes', more), (I, coef, weights), (U.np, 'empty', lambda *a, **k: np.empty(*a, dtype=object))):
            r = getattr(I, fn)(g, a, b, **give)
        c.ensure(con.par is (par.convergence if 'par' in give else None), 'tolerances of the caller')
        # the values at the nodes: level k has the nodes of level k - 1 at its even places
        def place(k, i): return place(k - 1, i // 2) if k and i % 2 == 0 else node(k, i)
        est = []
        K = max(k for k in range(9) if (base - 1) * 2 ** k + 1 <= maxn)
        for k in range(K + 1):
            m = 2 ** (k + 1) + 1
            s = 0
            for i in (range(m) if ends else range(1, m - 1)): s = s + w(k, i) * f(place(k, i))
            est.append(s * (b - a) / 2)
        n = len(con.l)
        c.ensure(n == K if not any(con.stopped) else con.stopped.index(True) == n - 1, 'ends when the controller says so or the nodes are used up')
        for k, (e, y) in enumerate(con.l):
            c.ensure_eq(y, est[k + 1], 'estimate'); c.ensure_eq(e, abs(est[k + 1] - est[k]), 'distance from the estimate before')
        if fn == 'integrate_clenshaw':
            c.ensure_eq(r[0], est[n], 'the last estimate'); c.ensure_eq(r[1], abs(est[n] - est[n - 1]), 'its distance from the one before')
        else: c.ensure(r[0] is con.best[0] and r[1] is con.best[1], 'the best estimate of the controller')
rule('integrate_fejer2', 'fejer2_coefficients', False)
rule('integrate_clenshaw', 'clenshaw_coefficients', True)
