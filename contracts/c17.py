"""C17  ranges of expressions, structure of the expression graph, identities"""
from pyvc.spec import *
P = Registry()
D = mod('pacal.distr')
R = mod('pacal.rv')
M = mathfn
PI2 = __import__('math').pi / 2
KINDS = ['finite', 'minf', 'pinf', 'both']

def bounds(c, n, kinds=KINDS):
    k = kinds[c.choose(len(kinds), n)]
    a = c.real(n + 'a') if k in ('finite', 'pinf') else -INF
    b = c.real(n + 'b') if k in ('finite', 'minf') else INF
    if k == 'finite': c.assume(a <= b)
    return a, b

def operand(c, n, distr, a, b, nonneg=None):
    if distr:
        class X(D.Distr):
            def range(self): return a, b
            def getName(self): return n
            def is_nonneg(self): return nonneg if nonneg is not None else a >= 0
        return X(sym=n)
    return R.RV(sym=n, a=a, b=b)

def value(c, n, a, b):
    x = c.real(n)
    if not isinf(a): c.assume(x >= a)
    if not isinf(b): c.assume(x <= b)
    return x

def covers(c, e, v, label):
    a, b = e.range()
    c.ensure(And(a <= v if not (not is_sym(a) and a == -INF) else True, v <= b if not (not is_sym(b) and b == INF) else True), label)

def graph(c, e, parents, label):
    c.ensure(len(e.parents) == len(parents) and all(p is q for p, q in zip(e.parents, parents)), label + ': operands')

def unary(name, make, fn, dom=None, kinds=KINDS, facts=None, classes=(0, 1)):
    @P.contract(['rv.RV.range'], name='range_' + name)
    def h(c):
        distr = classes[c.choose(len(classes), 'level')]
        a, b = bounds(c, 'x', kinds)
        if dom: c.assume(dom(a, b))
        if name == 'log' and c.choose(2, 'from'):
            c.assume(a == 0); a = 0.0
        elif name == 'log': c.assume(a > 0)
        e = make(operand(c, 'x', distr, a, b))
        x = value(c, 'x0', a, b)
        if name in ('log',): c.assume(x > 0)
        if name == 'sigmoid':
            for t in (x, a, b):
                if is_sym(t): c.assume(M.exp(t) * M.exp(-t) == 1)
        if name == 'inverse': c.assume(x != 0)
        covers(c, e, fn(x), name)
        graph(c, e, [e.parents[0]], name)

unary('exp', lambda d: D.exp(d), M.exp)
unary('log', lambda d: D.log(d), M.log, lambda a, b: a >= 0, ['finite', 'pinf'])
unary('atan', lambda d: D.atan(d), M.arctan)
unary('tanh', lambda d: D.tanh(d), M.tanh)
unary('sigmoid', lambda d: D.SigmoidDistr(d), lambda x: 1 / (1 + M.exp(-x)), classes=(1,))
unary('abs', lambda d: abs(d), lambda x: abs(x))
unary('square', lambda d: d ** 2, lambda x: x * x)
unary('inverse', lambda d: 1 / d, lambda x: 1 / x)
unary('reflected', lambda d: -d, lambda x: -x)

def monomial(r): return lambda x: M.exp(r * M.log(x))

@P.contract(['rv.RV.__pow__', 'rv.RV.__rpow__'])
def range_power(c):
    distr = c.choose(2, 'level')
    a, b = bounds(c, 'x', ['finite', 'pinf'])
    c.assume(a > 0)
    r = c.real('r'); c.assume(And(r != 0, r != 1, r != 2, r != -1))
    e = operand(c, 'x', distr, a, b) ** r
    x = value(c, 'x0', a, b)
    covers(c, e, M.exp(r * M.log(x)), 'power')

@P.contract(['rv.RV.__rpow__'])
def range_exponential(c):
    distr = c.choose(2, 'level')
    a, b = bounds(c, 'x')
    r = c.real('r'); c.assume(And(r > 0, r != 1))
    e = operand(c, 'x', distr, a, b).__rpow__(r)
    x = value(c, 'x0', a, b)
    covers(c, e, M.exp(x * M.log(r)), 'exponential')

@P.contract(['distr.SinDistr.__init__', 'distr.CosDistr.__init__', 'distr.TanDistr.range'])
def range_periodic(c):
    k = c.choose(3, 'f')
    a, b = bounds(c, 'x')
    d = operand(c, 'x', 1, a, b)
    x = value(c, 'x0', a, b)
    if k < 2:
        e = [D.sin, D.cos][k](d)
        v = c.real('v'); c.assume(And(v >= -1, v <= 1))      # every sine and cosine
        covers(c, e, v, 'sine or cosine')
    else:
        e = D.tan(d)
        for t in (x, a, b):
            if is_sym(t): c.assume(Or(t <= -PI2, t >= PI2, M.arctan(M.tan(t)) == t))
        if not isinf(a) and not isinf(b) and bool(And(a > -PI2, b < PI2)): covers(c, e, M.tan(x), 'tangent')
        else: covers(c, e, c.real('v'), 'tangent')

@P.contract(['rv.SignRV.__init__', 'distr.SignDistr.__init__'])
def range_sign(c):
    a, b = bounds(c, 'x')
    e = D.sign(operand(c, 'x', 0, a, b))
    x = value(c, 'x0', a, b)
    covers(c, e, arrays.select(x > 0, 1.0, arrays.select(x < 0, -1.0, 0.0)), 'sign')

BIN = {'sum': (lambda p, q: p + q, lambda x, y: x + y), 'difference': (lambda p, q: p - q, lambda x, y: x - y),
       'product': (lambda p, q: p * q, lambda x, y: x * y), 'quotient': (lambda p, q: p / q, lambda x, y: x / y),
       'minimum': (lambda p, q: D.min(p, q), lambda x, y: arrays.select(x <= y, x, y)), 'maximum': (lambda p, q: D.max(p, q), lambda x, y: arrays.select(x <= y, y, x))}

def denominator(c):
    """a zero end is the concrete 0.0 (of either sign): division by it is one of the cases"""
    k = c.choose(5, 'sign')
    if k == 0: a, b = bounds(c, 'y', ['finite', 'pinf']); c.assume(a > 0)
    elif k == 1: a, b = bounds(c, 'y', ['finite', 'minf']); c.assume(b < 0)
    elif k == 2:
        a, b = bounds(c, 'y')
        if not isinf(a): c.assume(a < 0)
        if not isinf(b): c.assume(b > 0)
    else:
        z = [0.0, -0.0][c.choose(2, 'zero')]
        if k == 3:
            a, b = z, (c.real('yb') if c.choose(2, 'end') else INF)
            if is_sym(b): c.assume(b > 0)
        else:
            a, b = (c.real('ya') if c.choose(2, 'end') else -INF), z
            if is_sym(a): c.assume(a < 0)
    return a, b

def binary(name):
    make, fn = BIN[name]
    @P.contract(['rv.RV.range'], name='range_' + name)
    def h(c):
        distr = c.choose(2, 'level')
        a1, b1 = bounds(c, 'x'); a2, b2 = bounds(c, 'y') if name != 'quotient' else denominator(c)
        p, q = operand(c, 'x', distr, a1, b1), operand(c, 'y', distr, a2, b2)
        e = make(p, q)
        x, y = value(c, 'x0', a1, b1), value(c, 'y0', a2, b2)
        if name == 'quotient': c.assume(y != 0)
        covers(c, e, fn(x, y), name)
        graph(c, e, [p, q], name)
for n in BIN: binary(n)

@P.contract(['rv.ShiftedScaledRV.__init__'])
def range_affine(c):
    distr = c.choose(2, 'level')
    a, b = bounds(c, 'x')
    s, t = c.real('scale'), c.real('shift'); c.assume(s != 0)
    d = operand(c, 'x', distr, a, b)
    e = (d * s) + t
    x = value(c, 'x0', a, b)
    covers(c, e, s * x + t, 'affine image')
    k = c.choose(5, 'op')
    e2, v = [lambda: (d + t, x + t), lambda: (d - t, x - t), lambda: (t - d, t - x), lambda: (d / s, x / s), lambda: (t + d, t + x)][k]()
    covers(c, e2, v, 'shift or scale by a number')
    if e2 is not d: graph(c, e2, [d], 'shift or scale by a number')

ST = mod('pacal.standard_distr')
from contracts import c04 as sums

@P.contract(['distr.CondGtDistr.range', 'distr.CondLtDistr.range', 'distr.CondBetweenDistr.range'])
def range_conditional(c):
    a, b = bounds(c, 'x')
    d = operand(c, 'x', 1, a, b)
    L, U = c.real('L'), c.real('U'); c.assume(L < U)
    k = c.choose(3, 'condition')
    e = [lambda: D.CondGtDistr(d, L), lambda: D.CondLtDistr(d, U), lambda: D.CondBetweenDistr(d, L, U)][k]()
    x = value(c, 'x0', a, b)
    if k != 1: c.assume(x > L)
    if k != 0: c.assume(x < U)
    covers(c, e, x, 'conditional law')
    lo, hi = e.range()
    c.ensure(And(lo == (a if k == 1 else arrays.select(a > L, a, L)) if not isinf(a) else (lo == L if k != 1 else isinf(lo)),
                 hi == (b if k == 0 else arrays.select(b < U, b, U)) if not isinf(b) else (hi == U if k != 0 else isinf(hi))), 'no more than the condition')

@P.contract(['standard_distr.MixDistr.range', 'standard_distr.ExtremeMixDistr.range'])
def range_mixture(c):
    n = 1 + c.choose(3, 'n')
    rs = [bounds(c, 'x%d' % i) for i in range(n)]
    ds = [operand(c, 'x%d' % i, 1, *r) for i, r in enumerate(rs)]
    e = ST.MixDistr([1.0 / n] * n, ds) if c.choose(2, 'class') else ST.ExtremeMixDistr([1.0 / n] * n, ds, [])
    i = c.choose(n, 'component')
    covers(c, e, value(c, 'x', *rs[i]), 'mixture')

@P.contract(['distr.DiscreteDistr.__init__', 'distr.ConstDistr.__init__'])
def range_discrete(c):
    n = 1 + c.choose(3, 'n')
    xs = [c.real('x%d' % i) for i in range(n)]; ps = [c.real('p%d' % i) for i in range(n)]
    for i in range(n):
        c.assume(ps[i] > 0)
        for j in range(i): c.assume(xs[i] != xs[j])
    e = D.DiscreteDistr(list(xs), list(ps)) if n > 1 or c.choose(2) else D.ConstDistr(xs[0])
    for x in xs: covers(c, e, x, 'discrete law')
    c.ensure(And(Or(*[e.range()[0] == x for x in xs]), Or(*[e.range()[1] == x for x in xs])), 'ends of a discrete law are attained')

@P.contract(['standard_distr.PDistr.range', 'standard_distr.FunDistr.range'])
def range_piecewise(c):
    p, segs = few_pieces(c, sums.S, 's', [('finite', 'pinf'), ('minf', 'finite'), ('dirac', 'finite'), ('finite',)][c.choose(4, 'shape')])
    e = ST.PDistr(p)
    lo, hi = e.range()
    c.ensure(And(lo == segs[0]._a if not isinf(segs[0]._a) else isinf(lo), hi == segs[-1]._b if not isinf(segs[-1]._b) else isinf(hi)), 'range of a piecewise law')
    a, b = bounds(c, 'x')
    f = ST.FunDistr(lambda x: x, [a, b])
    c.ensure(f.range() == (a, b), 'range of a law given by a function')

# ---- structure of the graph: every node, given what its operands report
@P.contract(['rv.RV.getAncestorIDs', 'rv.RV.getParentsAll', 'rv.RV.getParentsFree', 'rv.RV.getParentsDep', 'rv.RV.isFree', 'rv.RV.isLinked'])
def ancestors(c):
    n = c.choose(4, 'operands')
    shared = c.choose(2, 'shared')
    class Node(R.RV):
        def __init__(self, name, own):
            super().__init__([], sym=name); self.own = own
        def id(self): return ('id', str(self.sym))
        def getAncestorIDs(self, anc=None):
            r = {self.id()} | {('id', t) for t in self.own}
            if anc is None: return r
            anc.update(r); return anc
        def getParentsAll(self): return {self} | set(self.own)
        def getParentsFree(self): return {self} if not self.own else {t for t in self.own if t.startswith('free')}
        def getParentsDep(self): return set() if not self.own else {self} | {t for t in self.own if not t.startswith('free')}
    ps = [Node('p%d' % i, [[], ['free%d' % i], ['dep%d' % i, 'free' if shared else 'free%d' % i]][c.choose(3, 'depth%d' % i)]) for i in range(n)]
    if n > 1 and shared: ps[1] = ps[0]
    e = R.RV(ps, sym='e')
    c.ensure(e.getAncestorIDs() == {e.id()}.union(*[p.getAncestorIDs() for p in ps]), 'ancestors: the variable and the ancestors of every operand')
    c.ensure(e.getParentsAll() == {e}.union(*[p.getParentsAll() for p in ps]), 'all variables of the expression')
    c.ensure(e.getParentsFree() == (set().union(*[p.getParentsFree() for p in ps]) if n else {e}), 'free variables of the expression')
    c.ensure(e.getParentsDep() == (({e} if n else set()).union(*[p.getParentsDep() for p in ps])), 'dependent variables of the expression')
    c.ensure(e.isFree() == (n == 0) and e.isLinked() == (n > 0), 'free exactly when it has no operands')
    anc = {('id', 'other')}
    got = e.getAncestorIDs(anc)
    c.ensure(got >= e.getAncestorIDs() and ('id', 'other') in got, 'ancestors are added to the given set')

@P.contract(['rv.RV.id', 'rv.RV.setSym', 'rv.RV.make_free', 'rv.RV.getSymname'])
def identity(c):
    par = bool(c.choose(2, 'parallel'))
    old = R.params.general.parallel
    R.params.general.parallel = par
    try:
        x, y = R.RV(sym='x'), R.RV(sym='y')
        e = x + y
        ids = [v.id() for v in (x, y, e)]
        c.ensure(len(set(ids)) == 3 and [v.id() for v in (x, y, e)] == ids, 'identities are unique and stable')
        e2 = x + y
        c.ensure(len({v.getSymname() for v in (x, y, e, e2)}) == 4, 'names of different variables differ')
        z = R.RV(); w = R.RV()
        c.ensure(z.getSymname() != w.getSymname(), 'default names differ')
        e.setSym('u')
        c.ensure(str(e.getSymname()) == 'u' and e.getSym() == x.getSymname() + y.getSymname() and e.parents == [x, y], 'naming keeps the expression')
        f = e * y
        c.ensure(f.getSym() == e.getSymname() * y.getSymname(), 'expressions use the names of their operands')
        e.make_free()
        c.ensure(e.isFree() and e.getSym() == e.getSymname(), 'a freed variable has neither operands nor equation')
    finally: R.params.general.parallel = old

import sympy
UN = {'exp': (D.exp, sympy.exp), 'log': (D.log, sympy.log), 'atan': (D.atan, sympy.atan), 'tanh': (D.tanh, sympy.tanh), 'abs': (abs, sympy.Abs), 'sign': (lambda d: D.sign(d), sympy.sign),
      'square': (lambda d: d ** 2, lambda s: s ** 2), 'inverse': (lambda d: 1 / d, lambda s: 1 / s), 'power': (lambda d: d ** -1, lambda s: 1 / s), 'neg': (lambda d: -d, lambda s: -s), 'affine': (lambda d: 3 * d, lambda s: 3 * s), 'shift': (lambda d: 2 - d, lambda s: 2 - s)}
BN = {'sum': lambda p, q: p + q, 'difference': lambda p, q: p - q, 'product': lambda p, q: p * q, 'quotient': lambda p, q: p / q}

@P.contract(['rv.FuncRV.__init__', 'rv.OpRV', 'rv.ShiftedScaledRV.__init__', 'rv.SumRV.__init__', 'rv.SubRV.__init__', 'rv.MulRV.__init__', 'rv.DivRV.__init__', 'rv.MinRV.__init__', 'rv.MaxRV.__init__', 'distr.FuncDistr.__init__'])
def equations(c):
    distr = c.choose(2, 'level')
    x, y = operand(c, 'x', distr, 1.0, 2.0), operand(c, 'y', distr, 1.0, 2.0)
    X, Y = x.getSymname(), y.getSymname()
    for n, (f, g) in UN.items():
        if n == 'sign' and distr: continue          # SignDistr needs the law of its operand (C03)
        if n == 'inverse' and not distr: continue   # 1.0 times the reciprocal of a symbolic variable
        e = f(x)
        c.ensure(e.getSym() == g(X), 'equation of ' + n)
        c.ensure(e.parents == [x], 'operand of ' + n)
        c.ensure(e.getEquations() == ([g(X)], [e.getSymname()]), 'equations of ' + n)
    for n, f in list(BN.items()) + [('minimum', D.min), ('maximum', D.max)]:
        e = f(x, y)
        want = f(X, Y) if n in BN else {'minimum': sympy.Min, 'maximum': sympy.Max}[n](X, Y)
        c.ensure(e.getSym() == want, 'equation of ' + n)
        c.ensure(e.parents == [x, y], 'operands of ' + n)
    if distr:
        for f, g in ((D.sin, sympy.sin), (D.cos, sympy.cos), (D.tan, sympy.tan)): c.ensure(f(x).getSym() == g(X), 'equation of a periodic function')
        c.ensure(D.SigmoidDistr(x).getSym() == 1 / (1 + sympy.exp(-X)), 'equation of the sigmoid')
    big, small = D.max(x, x), D.min(x, x)
    c.ensure(len({big.getSymname(), small.getSymname(), X}) == 3, 'a variable with operands has a name of its own')
    u, v = x + y, x + y
    w = u * v
    l, r = w.getEquations()
    c.ensure(sorted(map(str, r)) == sorted(str(t.getSymname()) for t in (u, v, w)), 'an equation for every dependent variable')
    c.ensure(dict(zip(r, l)) == {u.getSymname(): X + Y, v.getSymname(): X + Y, w.getSymname(): u.getSymname() * v.getSymname()}, 'equations belong to their variables')

class Val:
    pass

def readable(name):
    import re
    return re.sub(r'\|([XYZ])\|', r'abs(\1)', name)

def operands_by_class(c, n, distr):
    """one operand of every class of expressions, its value"""
    def at(nm):
        if distr: d = operand(c, nm, 1, 1.0, 2.0)
        else:
            class A(R.RV):
                def getName(self): return nm
            d = A(sym=nm, a=1.0, b=2.0)
        return d
    p, q = at('X' if n == 0 else 'Z'), at('Y')
    return [p, p + q, p - q, p * q, p / q, p + 3, p - 2, 3 * p, 2 - p, -p, p ** 2, D.exp(p), 1 / p, abs(p), D.min(p, q), D.max(p, q), D.log(p)]
def values_by_class(x, y):
    return [x, x + y, x - y, x * y, x / y, x + 3, x - 2, 3 * x, 2 - x, -x, x * x, M.exp(x), 1 / x, abs(x), arrays.select(x <= y, x, y), arrays.select(x <= y, y, x), M.log(x)]

@P.contract(['rv._wrapped_name', 'rv.SumRV.getName', 'rv.SubRV.getName', 'rv.MulRV.getName', 'rv.DivRV.getName', 'rv.InvRV.getName', 'rv.ShiftedScaledRV.getName', 'rv.FuncRV.getName', 'rv.MinRV.getName', 'rv.MaxRV.getName'])
def names(c):
    """the name of an expression, read as a formula, has the value of the expression: every operation applied to operands of every class, all values"""
    distr = c.choose(2, 'level')
    op = c.choose(8, 'op')
    x, y, z = c.real('X'), c.real('Y'), c.real('Z')
    for t in (x, y, z): c.assume(t > 0)
    env = {'X': x, 'Y': y, 'Z': z, 'exp': M.exp, 'log': M.log, 'sqr': lambda t: t * t, 'min': lambda a, b: arrays.select(a <= b, a, b), 'max': lambda a, b: arrays.select(a <= b, b, a), 'abs': abs}
    A, B = operands_by_class(c, 0, distr), operands_by_class(c, 1, distr)
    VA, VB = values_by_class(x, y), values_by_class(z, y)
    def same(e, v, what):
        n = e.getName()
        try: got = eval(readable(n), dict(env))
        except SyntaxError: got = None
        c.ensure(got is not None and got == v, 'name of %s reads as its value' % what)
    i = c.choose(len(A), 'class')
    a, va = A[i], VA[i]
    if op < 4:
        f = [lambda p, q: p + q, lambda p, q: p - q, lambda p, q: p * q, lambda p, q: p / q][op]
        for b, vb in zip(B, VB):
            if op == 3 and is_sym(vb): c.assume(vb != 0)
            same(f(a, b), f(va, vb), ['a sum', 'a difference', 'a product', 'a quotient'][op])
    elif op == 4: same(a + 5, va + 5, 'a shifted variable'); same(a - 5, va - 5, 'a shifted variable')
    elif op == 5: same(-2 * a, -2 * va, 'a scaled variable'); same(4 - 2 * a, 4 - 2 * va, 'an affine image')
    elif op == 6 and i != 13:
        for b, vb in zip(B, VB): same(D.max(a, b), arrays.select(va <= vb, vb, va), 'an extreme')
    elif op == 7 and i != 13:
        c.assume(va != 0); same(1 / a, 1 / va, 'a reciprocal'); same(a ** 2, va * va, 'a square'); same(D.exp(a), M.exp(va), 'a function')
