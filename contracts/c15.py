"""C15  n-fold combinations and order statistics: loop invariants for every n"""
import operator, z3
from pyvc.spec import *
from pyvc.core import term, bterm, mkbool, Num, PathEnd
from pyvc import loops
from . import c04 as sums
P = Registry()
S, D = sums.S, sums.D
I = mod('pacal.stats.iid_ops')
U = mod('pacal.utils')
PAR = I.params

def fsym(n): return SymFun(z3.Function(n, z3.RealSort(), z3.RealSort()))
class Copies:
    """the combination of k independent copies (an element of the free semigroup of one generator; op joins two of them)"""
    def __init__(self, k): self.k = k if isinstance(k, Num) else Num(z3.IntVal(k))
def join(a, b):
    if not (isinstance(a, Copies) and isinstance(b, Copies)): raise TypeError('not a combination of copies')
    return Copies(a.k + b.k)
class IsCopies:
    """None before the first copy, then the combination of n(i) copies"""
    label = 'number of copies combined so far'
    def __init__(self, n): self.n = n
    def value(self, i):
        v = self.n(i)
        if core.CTX.branch(v == 0): return None
        return Copies(Num(v))
    def check(self, x, i):
        v = self.n(i)
        if x is None: return v == 0
        if isinstance(x, Copies): return z3.And(v >= 1, loops.term_int(x.k) == v)
        return False
class IsNumber:
    label = 'value of a number'
    def __init__(self, f): self.f = f
    def value(self, i): return Num(self.f(i))
    def check(self, x, i):
        if not core.is_num(x) or isinstance(x, bool): return False
        return term(x) == self.f(i)
class Content:
    label = 'element j combines j copies'
    def value(self, j): return Copies(Num(j))
    def check(self, v, j): return loops.term_int(v.k) == j if isinstance(v, Copies) else False
def digits(i):
    c = core.CTX
    return c.binstr.V(z3.simplify(i + c.offset)) if hasattr(c, 'binstr') else i
def bindings(c, weighted):
    # a loop over the digits: its state is the value of the digits read so far; any other loop: number of iterations
    c.templates = [IsCopies(digits), IsNumber(lambda i: z3.If(digits(i) == 0, z3.IntVal(1), digits(i)))]
    c.list_spec = Content()

def number(c, name, lo=1):
    n = Num(z3.Int(name)); c.assume(n >= lo)
    return n

@P.contract('stats.iid_ops._int_exp')
def doubling(c):
    """for every n: n copies, whatever the operation"""
    n = number(c, 'n'); bindings(c, False)
    r = I._int_exp(Copies(1), n, join)
    c.ensure(isinstance(r, Copies), 'a combination'); c.ensure(r.k == n, 'n copies')
@P.contract('stats.iid_ops._int_exp2')
def doubling_weighted(c):
    n = number(c, 'n'); bindings(c, True)
    def op(i, a, j, b):
        c.ensure(And(a.k == i, b.k == j), 'sizes passed to the operation')
        return join(a, b)
    r = I._int_exp2(Copies(1), n, op)
    c.ensure(isinstance(r, Copies), 'a combination'); c.ensure(r.k == n, 'n copies')
@P.contract('stats.iid_ops._int_exp_all')
def all_powers(c):
    n = number(c, 'n'); bindings(c, False)
    r = I._int_exp_all(Copies(1), n, join)
    everything(c, r, n)
@P.contract('stats.iid_ops._int_exp_all2')
def all_powers_weighted(c):
    n = number(c, 'n'); bindings(c, True)
    def op(i, a, j, b):
        c.ensure(And(a.k == i, b.k == j), 'sizes passed to the operation')
        return join(a, b)
    everything(c, I._int_exp_all2(Copies(1), n, op), n)
def everything(c, r, n):
    c.ensure(r.length() == n, 'n results')
    j = number(c, 'j', 0); c.assume(j < n)
    e = r[j]
    c.ensure(e.k == j + 1, 'result j combines j copies')

def bounded(lo, hi):
    @P.contract(['stats.iid_ops._int_exp', 'stats.iid_ops._int_exp_all', 'stats.iid_ops._int_exp2', 'stats.iid_ops._int_exp_all2', 'stats.iid_ops.iid_op', 'stats.iid_ops.iid_op2'], name='copies[%d..%d]' % (lo, hi - 1))
    def h(c):
        def two(i, a, j, b):
            c.ensure(And(a.k == i, b.k == j), 'sizes passed to the operation')
            return join(a, b)
        for n in range(lo, hi):
            for f, op in ((I.iid_op, join), (I.iid_op2, two)):
                for w in (True, False):
                    with patched((PAR.general, 'warn_on_dependent', w)):
                        r = f(Copies(1), n, op)
                        c.ensure(r.k == n, 'n copies')
                        a = f(Copies(1), n, op, all=True)
                        c.ensure(len(a) == n and And(*[e.k == j + 1 for j, e in enumerate(a)]), 'result j combines j copies')
                        c.ensure(PAR.general.warn_on_dependent is w, 'the setting is restored')
bounded(1, 18); bounded(18, 34)

@P.contract(['stats.iid_ops.iid_op', 'stats.iid_ops.iid_op2'])
def setting(c):
    w = c.choose(2, 'setting') == 0
    al = c.choose(2, 'all') == 0
    f = [I.iid_op, I.iid_op2][c.choose(2, 'function')]
    class Stop(Exception): pass
    seen = []
    def bad(*a):
        seen.append(PAR.general.warn_on_dependent)
        raise Stop()
    with patched((PAR.general, 'warn_on_dependent', w)):
        try: f(Copies(1), 5, bad, al)
        except Stop: pass
        c.ensure(PAR.general.warn_on_dependent is w, 'the setting is restored after an error')
        c.ensure(seen == [False], 'no warnings inside')

@P.contract(['stats.iid_ops.iid_sum', 'stats.iid_ops.iid_prod', 'stats.iid_ops.iid_min', 'stats.iid_ops.iid_max', 'stats.iid_ops.iid_average', 'stats.iid_ops.iid_average_geom'])
def operations(c):
    """the operation handed to the n-fold combination, and the normalisation of averages"""
    k = c.choose(6, 'which'); al = c.choose(2, 'all') == 0
    n = 1 + c.choose(3, 'n')
    xs = [c.real('x0')]
    class V:
        """an element: list of draws of copies -> value"""
        def __init__(self, m, f): self.m, self.f = m, f
        def _op(self, o, g): return V(self.m + o.m, lambda x: g(self.f(x[:self.m]), o.f(x[self.m:])))
        def __add__(self, o): return self._op(o, lambda a, b: a + b)
        def __mul__(self, o): return self._op(o, lambda a, b: a * b)
        def __truediv__(self, r): return V(self.m, lambda x: self.f(x) / r)
        def __pow__(self, r): return V(self.m, lambda x: ('root', self.f(x), r))
    X = V(1, lambda x: x[0])
    mn = lambda a, b: a._op(b, lambda u, v: arrays.select(u <= v, u, v)); mx = lambda a, b: a._op(b, lambda u, v: arrays.select(u <= v, v, u))
    xs = [c.real('x%d' % i) for i in range(n)]
    for x in xs: c.assume(x > 0)
    def red(g, xs):
        r = xs[0]
        for x in xs[1:]: r = g(r, x)
        return r
    want = [lambda x: red(operator.add, x), lambda x: red(operator.mul, x), lambda x: red(lambda u, v: arrays.select(u <= v, u, v), x), lambda x: red(lambda u, v: arrays.select(u <= v, v, u), x),
            lambda x: red(operator.add, x) / len(x), lambda x: ('root', red(operator.mul, x), 1.0 / len(x))][k]
    with patched((D, 'min', mn), (D, 'max', mx)):
        r = [I.iid_sum, I.iid_prod, I.iid_min, I.iid_max, I.iid_average, I.iid_average_geom][k](X, n, all=al)
    for j, e in enumerate(r if al else [r]):
        m = j + 1 if al else n
        c.ensure(e.m == m, 'copies')
        g, w = e.f(xs[:m]), want(xs[:m])
        if isinstance(w, tuple):
            c.ensure(isinstance(g, tuple) and g[2] == w[2], 'root'); g, w = g[1], w[1]
        c.ensure_eq(g, w, 'value of the combination of the copies')
    if al: c.ensure(len(r) == n, 'number of results')

# ---------------------------------------------------------------- order statistics
BC = z3.Function('binomial', z3.IntSort(), z3.IntSort(), z3.RealSort())
def choose_axioms(c, n, *ks):
    """the recursion that defines C(n, i) in i (definition), and its symmetry"""
    for k in ks:
        c.axiom(BC(n, z3.IntVal(0)) == 1)
        c.axiom(z3.Implies(z3.And(k >= 0, k < n), BC(n, k + 1) * z3.ToReal(k + 1) == BC(n, k) * z3.ToReal(n - k)))
        c.axiom(z3.Implies(z3.And(k >= 0, k <= n), BC(n, k) == BC(n, n - k)))
@P.contract('utils.binomial_coeff')
def binomial(c):
    n = number(c, 'n', 0); k = number(c, 'k', 0); c.assume(k <= n)
    choose_axioms(c, n.t, k.t)
    class Coef(IsNumber):
        label = 'the coefficient C(n, i)'
        def value(self, i):
            choose_axioms(core.CTX, n.t, i)
            return Num(self.f(i))
    c.templates = [Coef(lambda i: BC(n.t, i))]
    r = U.binomial_coeff(n, k)
    c.ensure_eq(r, Num(BC(n.t, k.t)), 'C(n, k)')

KINDS = [('finite',), ('minf', 'finite'), ('pinf',), ('minf', 'finite', 'pinf'), ('lpole', 'finite'), ('rpole',)]
def order_stat(ks, which):
    @P.contract(['stats.iid_ops.iid_order_stat', 'segments.PiecewiseFunction._operation__', 'segments.PiecewiseFunction.__pow__', 'segments.PiecewiseFunction.__rsub__'] if which == 'order' else ['stats.iid_ops.iid_median'], name='%s_statistic[%s]' % (which, '+'.join(ks)))
    def h(c):
        p, segs = few_pieces(c, S, 'f', ks, gaps=False)
        F = fsym('F')
        n = number(c, 'n')
        cum = S.CumulativePiecewiseFunction([])
        lo, hi = segs[0]._a, segs[-1]._b
        for s in segs:
            a, b = s._a, s._b
            cum.addSegment(S.MInfSegment(b, F) if isinf(a) else S.PInfSegment(a, F) if isinf(b) else S.Segment(a, b, F))
        if not isinf(lo): cum.addSegment(S.MInfSegment(lo, lambda x: 0.0 * x))
        if not isinf(hi): cum.addSegment(S.PInfSegment(hi, lambda x: 1.0 + 0.0 * x))
        class X(D.Distr):
            def init_piecewise_pdf(self): self.piecewise_pdf = p
            def get_piecewise_cdf(self): return cum
        if which == 'order':
            k = number(c, 'k'); c.assume(k <= n)
            call = lambda: I.iid_order_stat(X(), n, k)
        else:
            m = number(c, 'm', 0); c.assume(n == 2 * m + 1)
            k = m + 1
            call = lambda: I.iid_median(X(), n)
        coef = lambda nn, kk: Num(BC(loops.term_int(nn), loops.term_int(kk)))
        with patched((I, 'binomial_coeff', coef), *no_interpolation(S)):
            d = call()
            x = c.real('x')
            c.assume(Or(*[And(x > s._a, x < s._b) for s in segs]))
            c.assume(And(F(x) > 0, F(x) < 1))
            v = d.fun(x)
        f = density_of(segs, x)
        c.ensure_eq(v, k * coef(n, k) * M_pow(F(x), k - 1) * M_pow(1 - F(x), n - k) * f, 'density of the order statistic')
    return h
def M_pow(b, e): return mathfn.power(b, e)
for ks in KINDS: order_stat(ks, 'order')
for ks in KINDS[:1]: order_stat(ks, 'median')

@P.contract('stats.iid_ops.iid_unknown')
def average_of_order_statistics(c):
    n = 1 + c.choose(3, 'n'); k = 1 + c.choose(n, 'k')
    fs = {}
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    def stat(X, m, i, **kw):
        c.ensure(m == n, 'sample size')
        fs.setdefault(i, fsym('f%d' % i))
        q = S.PiecewiseDistribution([]); q.addSegment(S.Segment(a, b, fs[i]))
        class Y(D.Distr):
            def init_piecewise_pdf(self): self.piecewise_pdf = q
        return Y()
    with patched((I, 'iid_order_stat', stat), *no_interpolation(S)):
        class X(D.Distr):
            def init_piecewise_pdf(self):
                self.piecewise_pdf = S.PiecewiseDistribution([]); self.piecewise_pdf.addSegment(S.Segment(a, b, fsym('g')))
        d = I.iid_unknown(X(), n, k)
        x = c.real('x'); c.assume(And(x > a, x < b))
        v = d.fun(x)
    c.ensure_eq(v, sum([fsym('f%d' % i)(x) for i in range(k, n + 1)], 0.0) / (n + 1 - k), 'average of the order statistics k..n')
