"""C10  variable transforms are inverse pairs; integrals cover the whole interval, each part once"""
import math
import numpy as np
import z3
from pyvc.spec import *
from pyvc.core import Num, SBool, term, mkbool, is_sym
P = Registry()
V = mod('pacal.vartransforms')
I = mod('pacal.integration')
M = mathfn
F, POW = M.F, M.POW
from .c22 import logof, NotPositive, instantiate, same, resolve

# ---------------------------------------------------------------- differentiation (rules of calculus)
def derivative(c, t, v):
    """d t / d v; absolute values and other conditionals must be decided by the path condition"""
    D = lambda u: derivative(c, u, v)
    if t.eq(v): return z3.RealVal(1)
    ch, k = t.children(), t.decl().kind()
    if not ch or not occurs(v, t): return z3.RealVal(0)
    if k == z3.Z3_OP_ADD: return z3.Sum(*[D(u) for u in ch])
    if k == z3.Z3_OP_SUB: return D(ch[0]) - z3.Sum(*[D(u) for u in ch[1:]])
    if k == z3.Z3_OP_UMINUS: return -D(ch[0])
    if k == z3.Z3_OP_MUL:
        return z3.Sum(*[z3.Product(*([D(u)] + [w for j, w in enumerate(ch) if j != i])) for i, u in enumerate(ch)])
    if k == z3.Z3_OP_DIV: return (D(ch[0]) * ch[1] - ch[0] * D(ch[1])) / (ch[1] * ch[1])
    if k == z3.Z3_OP_ITE:
        for q, u in ((ch[0], ch[1]), (z3.Not(ch[0]), ch[2])):
            if c.prove_now(q): return D(u)
        raise Exception('undecided conditional in a derivative')
    d = t.decl()
    if d.eq(POW):
        if occurs(v, ch[1]): raise Exception('exponent depends on the variable')
        return ch[1] * POW(ch[0], ch[1]) / ch[0] * D(ch[0])
    if d.eq(F['sqrt']): return D(ch[0]) / (2 * t)
    if d.eq(F['exp']): return t * D(ch[0])
    if d.eq(F['log']): return D(ch[0]) / ch[0]
    raise Exception('no rule for %s' % d)

def occurs(v, t): return t.eq(v) or any(occurs(v, u) for u in t.children())

EXP = [1, 2, 'e']          # 'e': every other positive exponent
def exponent(c):
    e = EXP[c.choose(len(EXP), 'exponent')]
    if e == 'e':
        e = c.real('exponent'); c.assume(And(e > 0, e != 1, e != 2))
    return e

def transforms(c, kinds=None):
    """(transform, lower end, upper end) of the interval it stands for"""
    kinds = kinds or ['id', 'rpm', 'rp', 'rpu', 'rm', 'rml', 'apm', 'ap', 'am']
    k = kinds[c.choose(len(kinds), 'transform')]
    a, w, q = c.real('a'), c.real('w'), c.real('c')
    c.assume(And(w > 0, q > 0))
    if k == 'id': return V.VarTransformIdentity(), -1, 1
    if k == 'rpm': return V.VarTransformReciprocal_PMInf(), -INF, INF
    if k == 'rp': return V.VarTransformReciprocal_PInf(a, exponent=exponent(c)), a, INF
    if k == 'rpu': return V.VarTransformReciprocal_PInf(a, exponent=exponent(c), U=a + w), a, a + w
    if k == 'rm': return V.VarTransformReciprocal_MInf(a, exponent=exponent(c)), -INF, a
    if k == 'rml': return V.VarTransformReciprocal_MInf(a, exponent=exponent(c), L=a - w), a - w, a
    if k == 'apm': return V.VarTransformAlgebraic_PMInf(q), -INF, INF
    if k == 'ap': return V.VarTransformAlgebraic_PInf(a, q), a, INF
    if k == 'am': return V.VarTransformAlgebraic_MInf(a, q), -INF, a

def positive_eq(c, got, want, label):
    same(c, got, want, label)

@P.contract(['vartransforms.%s.%s' % (k, m) for k in ('VarTransformReciprocal_PMInf', 'VarTransformReciprocal_PInf', 'VarTransformReciprocal_MInf', 'VarTransformAlgebraic_PMInf', 'VarTransformAlgebraic_PInf', 'VarTransformAlgebraic_MInf') for m in ('var_change', 'inv_var_change')], name='inverse_pair')
def inverse_pair(c):
    vt, lo, hi = transforms(c)
    if c.choose(2, 'direction') == 0:
        t = c.real('t'); c.assume(And(t > vt.var_min, t < vt.var_max))
        x = vt.inv_var_change(t)
        hint(c, vt.inv_var_change, vt.var_min)
        if is_sym(lo) or not math.isinf(lo): c.ensure(x > lo, 'values above the lower end')
        if is_sym(hi) or not math.isinf(hi): c.ensure(x < hi, 'values below the upper end')
        eq(c, vt.var_change(x), t, 'the change of variable undoes its inverse')
    else:
        x = c.real('x'); c.assume(inside(x, lo, hi))
        t = vt.var_change(x)
        c.ensure(And(t > vt.var_min, t < vt.var_max), 'the new variable is in its interval')
        eq(c, vt.inv_var_change(t), x, 'the inverse undoes the change of variable')

def eq(c, got, want, label):
    """equality of two expressions, or of their distances from the same offset (powers)"""
    g, w = term(got), term(want)
    if c.prove_now(g == w): return c.ensure(mkbool(g == w), label)
    unpower(c, g)
    return c.ensure(mkbool(g == w), label)

def hint(c, f, e):
    """mentions the image of a finite end (instances of the laws of powers)"""
    if is_sym(e): unpower(c, term(f(e)))

def unpower(c, t):
    """(u**p)**q = u for q = 1/p: instances of the laws of powers for the occurring terms"""
    pows = []
    def go(u):
        if u.decl().eq(POW) or u.decl().eq(F['sqrt']) : pows.append(u)
        for w in u.children(): go(w)
    go(t)
    for u in pows:
        b = u.children()[0]
        try: s = z3.simplify(logof(c, b), som=True, sort_sums=True)
        except NotPositive: continue
        c.axiom(F['log'](b) == s)
        e = u.children()[1] if u.decl().eq(POW) else z3.Q(1, 2)
        r = z3.simplify(e * s, som=True, sort_sums=True)
        c.axiom(F['log'](u) == r); c.axiom(F['exp'](r) == u)
        M._inst('log', u); M._inst('exp', r)

@P.contract(['vartransforms.%s.inv_var_change_deriv' % k for k in ('VarTransformIdentity', 'VarTransformReciprocal_PMInf', 'VarTransformReciprocal_PInf', 'VarTransformReciprocal_MInf', 'VarTransformAlgebraic_PMInf', 'VarTransformAlgebraic_PInf', 'VarTransformAlgebraic_MInf')], name='derivatives')
def derivatives(c):
    vt, lo, hi = transforms(c)
    t = c.real('t'); c.assume(And(t > vt.var_min, t < vt.var_max, t != 0))
    bool(t > 0)
    d = vt.inv_var_change_deriv(t)
    x = vt.inv_var_change(t)
    q = z3.simplify(derivative(c, resolve(c, term(x)), term(t)))
    c.ensure(d > 0, 'derivative is positive')
    c.ensure(True, 'differentiable')
    up = sign_of(c, q)
    if up is None: return c.fail('the inverse is monotone')
    same(c, d, Num(q if up else z3.simplify(-q)), 'absolute value of the derivative of the inverse')

def sign_of(c, q):
    """True: positive, False: negative (proved), None: neither"""
    for up in (True, False):
        u = q if up else z3.simplify(-q)
        if c.prove_now(u > 0): return up
        try: logof(c, u); return up
        except NotPositive: pass
    return None

@P.contract(['vartransforms.VarTransformReciprocal_PInf.__init__', 'vartransforms.VarTransformReciprocal_MInf.__init__'], name='ends')
def ends(c):
    """the ends of the parameter interval stand for the ends of the interval"""
    vt, lo, hi = transforms(c)
    images = []
    for t in (vt.var_min, vt.var_max):
        if any(not is_sym(t) and t == v for v in vt.var_inf): images.append('inf'); continue
        images.append(vt.inv_var_change(t))
    finite = [e for e in (lo, hi) if is_sym(e) or not math.isinf(e)]
    c.ensure(sum(1 for i in images if isinstance(i, str)) == 2 - len(finite), 'an infinite end for every infinite end')
    got = [i for i in images if not isinstance(i, str)]
    for e in finite:
        r = [mkbool(term(g) == term(e)) for g in got]
        for g in got:
            if not c.prove_now(term(g) == term(e)): unpower(c, term(g))
        c.ensure(Or(*r) if len(r) > 1 else r[0], 'finite ends are the images of the ends')
    if len(vt.var_inf): c.ensure(all(not is_sym(v) and v in (vt.var_min, vt.var_max) for v in vt.var_inf), 'infinity only at the ends of the parameter interval')

# ---------------------------------------------------------------- functions in the new variable
class Mask:
    def __init__(self, b): self.b = b
    def any(self, axis=None): return self
    def __invert__(self): return Mask(Not(self.b))
    def __bool__(self): return bool(self.b)
class Outer:
    def __init__(self, l): self.l = l
    def any(self, axis=None):
        if not self.l: return None
        r = self.l[0]
        for v in self.l[1:]: r = r | v
        return r
class Equal:
    """numpy.equal.outer: compares every element with every number of a list"""
    def __init__(self, real): self.real = real
    def outer(self, t, l):
        if isinstance(t, Num): 
            r = False
            for v in l: r = Or(r, t == v)
            return Mask(r)
        if isinstance(t, LazyArr):
            if not len(l): return Outer([LazyArr(t.n, lambda i: False)])
            return Outer([t == v for v in l])
        return self.real.outer(t, l)

def fsym(name): return SymFun(z3.Function(name, z3.RealSort(), z3.RealSort()))

@P.contract(['vartransforms.VarTransform.apply_with_inv_transform', 'vartransforms.VarTransform.inv_var_change_with_mask'], name='apply')
def apply(c):
    vt, lo, hi = transforms(c)
    f, d = fsym('f'), c.real('default')
    mul = c.choose(2, 'multiply') == 0
    def go(t): return vt.apply_with_inv_transform(f, t, def_val=d, mul_by_deriv=mul)
    with patched((V, 'equal', Equal(V.equal))):
        if c.choose(2, 'array') == 0:
            t = c.real('t'); c.assume(And(t >= vt.var_min, t <= vt.var_max)); v = go(t)
        else:
            t, v = at_array(c, go); c.assume(And(t >= vt.var_min, t <= vt.var_max))
    at_inf = Or(False, *[t == w for w in vt.var_inf])
    if at_inf: c.ensure_eq(v, d, 'the default at infinity')
    else:
        want = f(vt.inv_var_change(t))
        if mul: want = want * vt.inv_var_change_deriv(t)
        c.ensure_eq(v, want, 'function of the old variable' + (' times the derivative' if mul else ''))

# ---------------------------------------------------------------- integration routines over their intervals
class Calls:
    """a quadrature routine as its contract: the integral of the integrand over the interval it is given"""
    def __init__(self, c, evaluate=False): self.c, self.l, self.evaluate, self.at = c, [], evaluate, {}
    def __call__(self, f, a, b, *args, **kw):
        c = self.c
        if self.evaluate and self.l:      # the integrand while the routine runs, at an arbitrary point
            x = c.real('x'); self.at[id(f)] = x, f(x)
        r = c.real('I%d' % len(self.l)), c.real('E%d' % len(self.l))
        self.l.append((f, a, b, args, kw, r))
        return r

LINE = {'pminf': ('integrate_fejer2_pminf', 'integrate_fejer2'), 'pinf': ('integrate_fejer2_pinf', 'integrate_fejer2'), 'minf': ('integrate_fejer2_minf', 'integrate_fejer2'),
        'cpminf': ('integrate_clenshaw_pminf', 'integrate_clenshaw'), 'cpinf': ('integrate_clenshaw_pinf', 'integrate_clenshaw'), 'cminf': ('integrate_clenshaw_minf', 'integrate_clenshaw')}

def old_variable(c, f, a, b, q, lo, hi, label):
    """the integral of q over (a, b) in a new variable is the integral of f over (lo, hi): q(t) = f(x(t)) |x'(t)| for a bijection x of the
    parameter interval onto (lo, hi).  x is read off the integrand: it is the argument given to f"""
    t = c.real('t'); c.assume(And(t > a, t < b, t != 0)); bool(t > 0)
    seen = []
    def rec(x):
        y = c.real('fx'); seen.append((x, y)); return y
    f.use = rec
    v = q(t)
    f.use = None
    c.ensure(len(seen) == 1, 'one value of the function in ' + label)
    x, y = seen[0]
    def at(s):
        l = []
        f.use = lambda x: (l.append(x), c.real('fy'))[1]
        q(s); f.use = None
        return l[0] if l else 0.0
    hint(c, at, a)
    if is_sym(lo) or not math.isinf(lo): c.ensure(x > lo, 'above the lower end')
    if is_sym(hi) or not math.isinf(hi): c.ensure(x < hi, 'below the upper end')
    dx = z3.simplify(derivative(c, resolve(c, term(x)), term(t)))
    up = sign_of(c, dx)
    if up is None: return c.fail('the old variable is monotone in the new one')
    c.assume(y > 0)
    same(c, v / y, Num(dx if up else z3.simplify(-dx)), 'weight is the derivative')
    return x, t, up

class Fun:
    """the integrand, an arbitrary function"""
    def __init__(self): self.use = None; self.g = fsym('f')
    def __call__(self, x): return self.use(x) if self.use else self.g(x)

@P.contract(['integration.%s' % v[0] for v in LINE.values()] + ['integration._integrate_with_vartransform'], name='infinite')
def infinite(c):
    k = sorted(LINE)[c.choose(len(LINE), 'routine')]
    fn, quad = LINE[k]
    f = Fun(); calls = Calls(c)
    a = c.real('a')
    args, lo, hi = {'pminf': ((), -INF, INF), 'pinf': ((a,), a, INF), 'minf': ((a,), -INF, a)}[k.lstrip('c')]
    kw = {}
    if quad == 'integrate_fejer2':
        par = object()
        if c.choose(2, 'par') == 0: kw['par'] = par
        if k != 'pminf':
            e = c.choose(3, 'exponents')
            if e == 1: kw['exponent'] = exponent(c)
            if e == 2:
                w = c.real('w'); c.assume(w > 0); kw['exponent'] = exponent(c)
                if k == 'pinf': kw['b'] = hi = a + w
                else: kw['a'] = lo = a - w
    vts, orig = [], I._integrate_with_vartransform
    def through(f, vt, *a, **k): vts.append(vt); return orig(f, vt, *a, **k)
    default = c.real('default_exponent'); c.assume(And(default > 0, default != 1, default != 2))
    with patched((I, quad, calls), (V, 'equal', Equal(V.equal)), (I, '_integrate_with_vartransform', through), (I.params.integration_infinite, 'exponent', default)):
        r = getattr(I, fn)(f, *args, **kw)
        c.ensure(len(calls.l) == 1, 'one quadrature')
        q, A, B, ar, k2, res = calls.l[0]
        c.ensure(r[0] is res[0], 'the value of the quadrature'); c.ensure(r[1] is res[1], 'the error of the quadrature')
        if 'par' in kw: c.ensure(k2.get('par') is kw['par'] or (ar and ar[0] is kw['par']), 'parameters are passed on')
        if c.choose(2, 'part') == 0: old_variable(c, f, A, B, q, lo, hi, fn)
        else: covers_ends(c, f, q, vts, A, B, lo, hi)

def covers_ends(c, f, q, vts, A, B, lo, hi):
    """every point of the open interval is the image of a value of the new variable strictly inside of its interval"""
    c.ensure(len(vts) == 1, 'one change of variable')
    p = c.real('p'); c.assume(inside(p, lo, hi))
    t = vts[0].var_change(p)
    for e in (A, B, t):
        if is_sym(e): unpower(c, term(e))
    c.ensure(And(t > A, t < B), 'every point of the interval is reached')
    if not bool(t != 0): c.assume(False)      # a point of measure 0
    seen = []
    f.use = lambda x: (seen.append(x), c.real('fz'))[1]
    q(t); f.use = None
    c.ensure(len(seen) == 1, 'one value of the function')
    eq(c, seen[0], p, 'every point of the interval is reached')

@P.contract(['integration.integrate_fejer2_pinf', 'integration.integrate_fejer2_minf', 'integration.integrate_clenshaw_pinf', 'integration.integrate_clenshaw_minf'], name='empty')
def empty(c):
    f = Fun(); calls = Calls(c)
    with patched((I, 'integrate_fejer2', calls), (I, 'integrate_clenshaw', calls)):
        for fn, e in ((I.integrate_fejer2_pinf, INF), (I.integrate_fejer2_minf, -INF), (I.integrate_clenshaw_pinf, INF), (I.integrate_clenshaw_minf, -INF)):
            r = fn(f, e)
            c.ensure(r[0] == 0 and r[1] == 0 and not calls.l, 'the integral over an empty interval is zero')

# ---------------------------------------------------------------- finite intervals
@P.contract(['integration.integrate_fejer2_Xn_transform', 'integration.integrate_fejer2_Xn_transformP', 'integration.integrate_fejer2_Xn_transformN'], name='singular')
def singular(c):
    """substitutions by powers: the whole interval up to one rounding unit at the singular end"""
    k = c.choose(3, 'routine')
    f = Fun(); calls = Calls(c)
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    N = [2.0, 4.0, 'e'][c.choose(3, 'exponent')]
    if N == 'e': N = c.real('N'); c.assume(N > 0)
    eps = c.real('eps'); c.assume(And(eps > 0))
    kw = {}
    par = object()
    if c.choose(2, 'par') == 0: kw['par'] = par
    e = 2.0 ** -52
    c.assume(b - a > 4 * e * (abs(a) + abs(b)))
    with patched((I, 'integrate_fejer2', calls)):
        r = [I.integrate_fejer2_Xn_transform, I.integrate_fejer2_Xn_transformP, I.integrate_fejer2_Xn_transformN][k](f, a, b, N, **kw)
        c.ensure(len(calls.l) == 1, 'one quadrature')
        q, A, B, ar, k2, res = calls.l[0]
        c.ensure(r[0] is res[0] and r[1] is res[1], 'the result of the quadrature')
        if kw: c.ensure(k2.get('par') is par or (ar and ar[0] is par), 'parameters are passed on')
        seen = []
        def at(t):
            f.use = lambda x: (seen.append(x), c.real('fz'))[1]
            q(t); f.use = None
            return seen[-1]
        lo, hi = at(A), at(B)
        if k == 2: lo, hi = hi, lo
        c.ensure(And(lo >= a, lo <= a + 2 * e * abs(a)), 'lower end'); c.ensure(And(hi <= b, hi >= b - 2 * e * abs(b)), 'upper end')
        if k != 1: c.ensure_eq(lo, a, 'lower end')
        if k != 2: c.ensure_eq(hi, b, 'upper end')
        old_variable(c, f, A, B, q, lo, hi, 'powers')

def tiles(c, calls, f, a, b, r):
    """the recorded quadratures of f cover [a, b], each part once; their sum is the result"""
    l = calls.l
    c.ensure(len(l) >= 1 and all(x[0] is f for x in l), 'quadratures of the integrand')
    # in the order of the interval
    rest, at, order = list(l), a, []
    while rest:
        for x in rest:
            if x[1] is at or c.prove_now(term(x[1]) == term(at)): break
        else: return c.fail('no gap between the parts of the interval')
        rest.remove(x); order.append(x); at = x[2]
    c.ensure_eq(at, b, 'the parts end at the upper end')
    c.ensure_eq(r[0], sum(x[5][0] for x in l), 'the value is the sum over the parts'); c.ensure_eq(r[1], sum(x[5][1] for x in l), 'the error is the sum over the parts')

@P.contract('integration.integrate_wide_interval', name='wide')
def wide(c):
    f = fsym('f'); calls = Calls(c)
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    m = 1 + c.choose(4, 'parts')
    def logspace(u, v, n, *k):
        c.ensure(n == m + 1, 'one node more than parts')
        x = [c.real('x%d' % i) for i in range(m + 1)]
        s = 1
        return np.array(x, dtype=object)
    par = object()
    with patched((I, 'integrate_fejer2', calls), (I, 'logspace', logspace), (I, 'ceil', lambda x: float(m))):
        r = I.integrate_wide_interval(f, a, b, par=par)
    tiles(c, calls, f, a, b, r)
    c.ensure(all(x[4].get('par') is par for x in calls.l), 'parameters are passed on')

@P.contract('integration.integrate_wide_interval', name='wide_infinite')
def wide_infinite(c):
    f = fsym('f')
    fin, pin, mi, pm = Calls(c), Calls(c), Calls(c), Calls(c)
    k = c.choose(3, 'ends')
    e = c.real('e')
    a, b = [(-INF, INF), (e, INF), (-INF, e)][k]
    if k == 1: c.assume(e <= 0)                 # positive and negative half lines are cut at 1e100 (documented limitation)
    if k == 2: c.assume(e >= 0)
    def P_(f, a, b=None, *r, **k): return pin(f, a, INF if b is None else b, *r, **k)
    def M_(f, b, a=None, *r, **k): return mi(f, -INF if a is None else a, b, *r, **k)
    def L_(f, *r, **k): return pm(f, -INF, INF, *r, **k)
    with patched((I, 'integrate_fejer2', fin), (I, 'integrate_fejer2_pinf', P_), (I, 'integrate_fejer2_minf', M_), (I, 'integrate_fejer2_pminf', L_)):
        r = I.integrate_wide_interval(f, a, b)
    l = fin.l + pin.l + mi.l + pm.l
    at = a
    for x in sorted(l, key=lambda x: 0 if x in mi.l or x in pm.l else 1):
        c.ensure_eq(x[1], at, 'no gap between the parts of the interval'); at = x[2]
    c.ensure_eq(at, b, 'the parts end at the upper end')
    c.ensure_eq(r[0], sum(x[5][0] for x in l), 'the value is the sum over the parts')

@P.contract(['integration.integrate_wide_interval2', 'integration.integrate_with_pminf_guess'], name='guess')
def guess(c):
    f = fsym('f'); calls = Calls(c)
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    def P_(f, a, b=None, *r, **k): return calls(f, a, INF if b is None else b, *r, **k)
    def M_(f, b, a=None, *r, **k): return calls(f, -INF if a is None else a, b, *r, **k)
    with patched((I, 'integrate_fejer2', calls), (I, 'integrate_fejer2_pinf', P_), (I, 'integrate_fejer2_minf', M_)):
        r = [I.integrate_wide_interval2, I.integrate_with_pminf_guess][c.choose(2, 'routine')](f, a, b)
    tiles(c, calls, f, a, b, r)

@P.contract(['integration.integrate_iter', 'integration.integrate_iter2'], name='iterated')
def iterated(c):
    """the outer integrand at a point is the inner integral at this point; both over their own intervals"""
    which = c.choose(2, 'routine')
    a1, b1, a2, b2 = [c.real(k) for k in ('a1', 'b1', 'a2', 'b2')]
    g = z3.Function('g', z3.RealSort(), z3.RealSort(), z3.RealSort())
    f = lambda x, y: Num(g(term(x), term(y)))
    calls = Calls(c, True)
    cheb = []
    def interp(fun, a, b): cheb.append((a, b)); return fun
    with patched((I, 'integrate_fejer2', calls), (I, 'ChebyshevInterpolator1', interp)):
        r = [I.integrate_iter, I.integrate_iter2][which](f, a1, b1, a2, b2)
        c.ensure(len(calls.l) == 1 and r[0] is calls.l[0][5][0], 'the outer quadrature gives the result')
        q, A, B = calls.l[0][:3]
        outer, inner = ((a2, b2), (a1, b1)) if which == 0 else ((a1, b1), (a2, b2))
        c.ensure_eq(A, outer[0], 'outer interval'); c.ensure_eq(B, outer[1], 'outer interval')
        for u in cheb: c.ensure_eq(u[0], outer[0], 'interval of the interpolant'); c.ensure_eq(u[1], outer[1], 'interval of the interpolant')
        ys = np.array([c.real('y0'), c.real('y1')], dtype=object)
        v = q(ys)
        c.ensure(len(calls.l) == 3, 'one inner quadrature for every node')
        for y, w, (p, A, B, _, _, res) in zip(ys, v, calls.l[1:]):
            c.ensure_eq(w, res[0], 'value of the inner integral')
            c.ensure_eq(A, inner[0], 'inner interval'); c.ensure_eq(B, inner[1], 'inner interval')
            x, v = calls.at[id(p)]
            c.ensure_eq(v, f(x, y) if which == 0 else f(y, x), 'inner integrand')
