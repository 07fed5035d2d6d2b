"""C18  copulas: distribution functions with uniform margins, densities, conditional laws, joint laws"""
import itertools, math
import numpy as np
import z3
from pyvc.spec import *
from pyvc.core import term, bterm, mkbool, Num, is_sym
from .c10 import derivative, unpower, sign_of, F, POW, M
from .c22 import logof, NotPositive, instantiate, same, resolve
P = Registry()
C = mod('pacal.depvars.copulas')
def fsym(n, k=1): return SymFun(z3.Function(n, *[z3.RealSort()] * (k + 1)))
def If(q, a, b): return Num(z3.If(bterm(q), term(a), term(b)))

class Margin:
    """a marginal law: its functions are arbitrary; the distribution function has values in [0, 1]"""
    def __init__(self, c, i):
        self.c, self.i = c, i
        self.F, self.f = fsym('F%d' % i), fsym('f%d' % i)
        self.lo, self.hi = c.real('lo%d' % i), c.real('hi%d' % i); c.assume(self.lo < self.hi)
        self.mu, self.sd = c.real('mu%d' % i), c.real('sd%d' % i); c.assume(self.sd > 0)
    def get_piecewise_cdf_interp(self): return self.F
    get_piecewise_cdf = get_piecewise_cdf_interp
    def get_piecewise_pdf(self):
        s = self
        class p:
            def __call__(_, x): return s.f(x)
            def range(_): return s.lo, s.hi
            def cumint(_): return s.F
        return p()
    def __call__(self, x): return self.f(x)
    def cumint(self): return self.F
    pdf = __call__
    def range(self): return self.lo, self.hi
    def mean(self): return self.mu
    def std(self): return self.sd
    def id(self): return id(self)
    def getSymname(self): return 'u%d' % self.i

def make(cls, d, marg=None, **at):
    """an object without the base class constructor"""
    o = object.__new__(cls)
    o.marginals = marg if marg is not None else [None] * d
    o.d = d
    for k, v in at.items(): setattr(o, k, v)
    return o

def unit(c, n, lo=0, hi=1):
    v = c.real(n); c.assume(And(v >= lo, v <= hi)); return v
def val(x):
    """the number in a result that may be a zero dimensional array"""
    while isinstance(x, np.ndarray):
        if x.shape == (): x = x.item()
        elif x.size == 1: x = x.ravel()[0]
        else: raise TypeError('one value expected')
    return x

DIM = (2, 3, 4)
@P.contract(['depvars.copulas.PiCopula.ccdf', 'depvars.copulas.MCopula.ccdf', 'depvars.copulas.WCopula.ccdf', 'depvars.copulas.PiCopula.cpdf'], name='bounds')
def bounds(c):
    k = c.choose(3, 'family'); d = DIM[c.choose(3, 'd')]
    o = make([C.PiCopula, C.MCopula, C.WCopula][k], d)
    arr = c.choose(2, 'array')
    u = [unit(c, 'u%d' % i) for i in range(d)]
    call = (lambda l: o.ccdf(*[np.array([v], dtype=object) for v in l])) if arr else (lambda l: o.ccdf(*l))
    r = val(call(u))
    s = sum(u[1:], u[0])
    if k == 0:
        w = u[0]
        for v in u[1:]: w = w * v
        c.ensure_eq(r, w, 'product of the arguments')
        c.ensure_eq(val(o.cpdf(*u)), 1, 'density of independence')
    if k == 1: c.ensure(And(*[r <= v for v in u], Or(*[r == v for v in u])), 'smallest argument')
    if k == 2: c.ensure(And(r >= 0, r >= s - (d - 1), Or(r == 0, r == s - (d - 1))), 'lower bound')
    i = c.choose(d, 'i')
    one = [1] * d; one[i] = u[i]
    if arr: one = [1.0 if j != i else u[i] for j in range(d)]
    c.ensure_eq(val(call(one)), u[i], 'uniform margin')
    z = list(u); z[i] = 0.0
    c.ensure_eq(val(call(z)), 0, 'zero')
    if d == 2:
        c.ensure(And(r <= u[0], r <= u[1]), 'below the upper bound')
        c.ensure(And(r >= 0, r >= s - 1), 'above the lower bound')

# ---------------------------------------------------------------- Archimedean families
@P.contract(['depvars.copulas.ArchimedeanCopula.ccdf', 'depvars.copulas.ArchimedeanCopula.cpdf', 'depvars.copulas.ArchimedeanCopula.__init__'], name='archimedean')
def archimedean(c):
    """for every generator: the pseudo-inverse of the sum of the generators; the density is the mixed derivative"""
    d = (1, 2, 3)[c.choose(3, 'd')]
    fi, fd, gi, gn = fsym('fi'), fsym('fi_deriv'), fsym('fi_inv'), fsym('fi_inv_nth')
    top = c.real('fi_at_zero'); c.assume(top > 0)
    strict = c.choose(2, 'strict')
    inits = []
    with patched((C.Copula, '__init__', lambda self, marginals=None: inits.append(marginals) or setattr(self, 'marginals', marginals) or setattr(self, 'd', len(marginals)))):
        m = [object() for _ in range(d)]
        def gen(x):
            if not is_sym(x) and not (isinstance(x, np.ndarray) and x.dtype == object) and float(x) == 0.0: return INF if strict else top
            return fi(x)
        o = C.ArchimedeanCopula(fi=gen, fi_deriv=fd, fi_inv=gi, fi_inv_nth_deriv=gn, marginals=m)
        c.ensure(inits and inits[0] is m, 'margins')
    u = [unit(c, 'u%d' % i) for i in range(d)]
    for v in u:
        c.assume(And(v > 0, fi(v) >= 0))
        if not strict: c.assume(fi(v) <= top)
    arr = c.choose(2, 'array')
    X = [np.array([v], dtype=object) for v in u] if arr else u
    s = sum([fi(v) for v in u[1:]], fi(u[0]))
    r = val(o.ccdf(*X))
    c.ensure_eq(r, gi(s) if strict else If(s >= top, 0, gi(s)), 'pseudo-inverse of the sum of the generators')
    w = gn(s)
    for v in u: w = w * fd(v)
    r = val(o.cpdf(*X))
    c.ensure_eq(r, w if strict else If(s >= top, 0, w), 'density')
    # the margin: fi(1) = 0, fi_inv(fi(u)) = u
    if d > 1:
        i = c.choose(d, 'i')
        c.assume(fi(Num(z3.RealVal(1))) == 0); c.assume(gi(fi(u[i])) == u[i])
        if not strict: c.assume(fi(u[i]) < top)
        one = [Num(z3.RealVal(1))] * d; one[i] = u[i]
        c.ensure_eq(val(o.ccdf(*[np.array([v], dtype=object) for v in one] if arr else one)), u[i], 'uniform margin')
        z = list(u); z[i] = 0.0
        if not arr and not strict: c.ensure_eq(val(o.ccdf(*z)), 0, 'zero')

@P.contract('depvars.copulas.ArchimedeanCopula.__init__', name='default_generator')
def default_generator(c):
    d = (1, 2, 3)[c.choose(3, 'd')]
    with patched((C.Copula, '__init__', lambda self, marginals=None: setattr(self, 'marginals', marginals))):
        o = C.ArchimedeanCopula(marginals=[object()] * d)
    t = unit(c, 't'); c.assume(t > 0); s = c.real('s'); c.assume(s > 0)
    same(c, o.fi_inv(o.fi(t)), t, 'generator and its inverse')
    D = derivative(c, resolve(c, term(o.fi(t))), term(t)); same(c, o.fi_deriv(t) * -1, Num(D) * -1, 'derivative of the generator')
    g = term(o.fi_inv(s))
    for _ in range(d): g = z3.simplify(derivative(c, g, term(s)))
    c.ensure_eq(o.fi_inv_nth_deriv(s), Num(g), 'derivative of the inverse of the generator')

class Sym:
    """functions of sympy by the laws of the mathematical functions"""
    log = staticmethod(lambda x: mathfn.log(x)); exp = staticmethod(lambda x: mathfn.exp(x))
    def __getattr__(self, k): raise Unsupported('sympy.' + k)
from pyvc.core import Unsupported
FAM = {'Gumbel': (C.GumbelCopula, 1), 'Clayton': (C.ClaytonCopula, 0), 'Frank': (C.FrankCopula, 0)}
def apps(t, d):
    out = [t] if t.decl().eq(d) else []
    for u in t.children(): out += apps(u, d)
    return out
def laws_of_exp(c, e, s, th, t):
    """instances of exp(a + b) = exp(a) exp(b), exp(log q) = q, log(exp x) = x for the terms of the Frank family"""
    E, L = F['exp'], F['log']
    Q = (E(-t * th) - 1) / (E(-th) - 1)
    c.axiom(E(-th) < 1); c.axiom(E(-t * th) < 1); c.axiom(E(-th) > 0); c.axiom(E(-t * th) > 0)
    for x in apps(e, E) + apps(s, E):
        a = x.children()[0]
        for want, v in ((-th, E(-th)), (-t * th, E(-t * th)), (-s, Q), (-s - th, Q * E(-th))):
            if c.prove_now(a == want): c.axiom(x == v); break
    for x in apps(e, L):
        if c.prove_now(x.children()[0] == E(-t * th)): c.axiom(x == -t * th)

@P.contract(['depvars.copulas.%s.%s' % (k, m) for k in ('GumbelCopula', 'ClaytonCopula', 'FrankCopula') for m in ('fi_', 'fi_inv_')] + ['depvars.copulas.GumbelCopula2d.fi', 'depvars.copulas.GumbelCopula2d.fi_inv'], name='generators')
def generators(c):
    """fi is a decreasing bijection of (0, 1] with fi(1) = 0; fi_inv is its inverse"""
    k = ['Gumbel', 'Clayton', 'Frank', 'Gumbel2d'][c.choose(4, 'family')]
    th = c.real('theta'); c.assume(th >= 1 if k.startswith('Gumbel') else th > 0)
    t = unit(c, 't'); c.assume(And(t > 0, t < 1))
    with patched((C, 'sympy', Sym())):
        if k == 'Gumbel2d':
            o = make(C.GumbelCopula2d, 2, theta=th, one_over_theta=1.0 / th)
            fi, inv = o.fi, o.fi_inv
        else:
            o = make(FAM[k][0], 2, theta=th)
            fi, inv = (lambda t: o.fi_(t, th)), (lambda s: o.fi_inv_(s, th))
        if k == 'Clayton': hints = lambda s: None
        s = fi(t)
        if k.startswith('Gumbel'): c.axiom(z3.And(F['log'](term(t)) < 0))
        back = inv(s)
    e = z3.simplify(resolve(c, term(back)))
    for v in (term(s), e): unpower(c, v)
    if k == 'Frank': laws_of_exp(c, e, term(s), term(th), term(t))
    c.ensure_eq(back, t, 'inverse of the generator')
    dx = z3.simplify(derivative(c, resolve(c, term(s)), term(t)))
    c.ensure(mkbool(dx < 0), 'the generator decreases')
    with patched((C, 'sympy', Sym())): c.ensure_eq(fi(Num(z3.RealVal(1))), 0, 'zero at one')

# ---------------------------------------------------------------- the two dimensional families in closed form
def fresh_terms(c, ts, decls):
    """the terms of the given functions replaced by variables (after their laws were stated as axioms)"""
    sub = []
    def go(t):
        if any(t.decl().eq(d) for d in decls):
            if not any(t.eq(a) for a, _ in sub): sub.append((t, z3.Real('w%d' % len(sub))))
            return
        for u in t.children(): go(u)
    for t in ts: go(t)
    return sub

def rational_identity(c, got, want, positive, label):
    """got = want as rational functions: numerator of the difference is zero (computer algebra on polynomials: z3 normal form)"""
    import sympy as sp
    table, names = {}, {}
    def conv(t):
        if z3.is_rational_value(t): f = t.as_fraction(); return sp.Rational(f.numerator, f.denominator)
        k = t.decl().kind(); ch = t.children()
        if k == z3.Z3_OP_ADD: return sp.Add(*[conv(u) for u in ch])
        if k == z3.Z3_OP_MUL: return sp.Mul(*[conv(u) for u in ch])
        if k == z3.Z3_OP_SUB: return conv(ch[0]) - sum(conv(u) for u in ch[1:])
        if k == z3.Z3_OP_UMINUS: return -conv(ch[0])
        if k == z3.Z3_OP_DIV: return conv(ch[0]) / conv(ch[1])
        if k == z3.Z3_OP_POWER: return conv(ch[0]) ** conv(ch[1])
        for a, b in table.items():
            if names[a].eq(t): return b
        s = sp.Symbol('s%d' % len(table)); table[s] = s; names[s] = t
        return s
    d = sp.together(conv(got) - conv(want))
    n = sp.expand(sp.numer(d))
    c.ensure(n == 0, label, note=None if n == 0 else 'numerator of the difference: %s' % str(n)[:200])

@P.contract(['depvars.copulas.GumbelCopula2d.ccdf', 'depvars.copulas.GumbelCopula2d.cpdf', 'depvars.copulas.GumbelCopula2d.fi', 'depvars.copulas.GumbelCopula2d.fi_inv', 'depvars.copulas.GumbelCopula2d.__init__'], name='gumbel2d')
def gumbel2d(c):
    th = c.real('theta'); c.assume(th > 1)
    with patched((C.Copula, '__init__', lambda self, marginals=None: setattr(self, 'marginals', marginals) or setattr(self, 'd', 2))):
        o = C.GumbelCopula2d(th, [object(), object()])
    u, v = unit(c, 'u'), unit(c, 'v'); c.assume(And(u > 0, u < 1, v > 0, v < 1))
    arr = c.choose(2, 'array')
    X = (np.array([u], dtype=object), np.array([v], dtype=object)) if arr else (u, v)
    L = F['log']; T = term(th)
    for w in (u, v): c.axiom(L(term(w)) < 0)
    C_ = val(o.ccdf(*X))
    a, b = -L(term(u)), -L(term(v))
    pa, pb = POW(a, T), POW(b, T)
    c.axiom(z3.And(pa > 0, pb > 0))
    s = pa + pb
    w = POW(s, 1 / T); c.axiom(w > 0)
    c.ensure_eq(C_, Num(F['exp'](-w)), 'distribution function')
    E = z3.Real('E'); W, PA, PB, LA, LB, U, V = z3.Real('W'), z3.Real('PA'), z3.Real('PB'), z3.Real('LA'), z3.Real('LB'), term(u), term(v)
    d2 = derivative(c, derivative(c, F['exp'](-w), U), V)
    got = term(val(o.cpdf(*X)))
    # terms of the density by the laws of powers
    table = []
    def go(t):
        for x in t.children(): go(x)
        if any(t.eq(x) for x, _ in table): return
        if t.decl().eq(F['exp']): cand = [(-w, E)]; arg = lambda q: c.prove_now(t.children()[0] == q)
        elif t.decl().eq(L): cand = [(U, LA), (V, LB)]; arg = lambda q: c.prove_now(t.children()[0] == q)
        elif t.decl().eq(POW):
            cand = [((a, T), PA), ((b, T), PB), ((s, 1 / T), W), ((s, 1 / T - 2), W / (PA + PB) / (PA + PB)), ((pa, 1 - 1 / T), PA / -LA), ((pb, 1 - 1 / T), PB / -LB)]
            arg = lambda q: c.prove_now(z3.And(t.children()[0] == q[0], t.children()[1] == q[1]))
        else: return
        for q, r in cand:
            if arg(q): table.append((t, r)); return
        raise Unsupported('no law for %s' % t)
    for t in (got, d2): go(t)
    table.sort(key=lambda p: -len(p[0].sexpr()))
    rational_identity(c, z3.substitute(got, *table), z3.substitute(d2, *table), None, 'density is the mixed derivative')

@P.contract(['depvars.copulas.FrankCopula2d.ccdf', 'depvars.copulas.FrankCopula2d.cpdf', 'depvars.copulas.FrankCopula2d.__init__'], name='frank2d')
def frank2d(c):
    th = c.real('theta'); c.assume(th != 0)
    with patched((C.Copula, '__init__', lambda self, marginals=None: setattr(self, 'marginals', marginals) or setattr(self, 'd', 2))):
        o = C.FrankCopula2d(th, [object(), object()])
    u, v = unit(c, 'u'), unit(c, 'v')
    arr = c.choose(2, 'array')
    X = (np.array([u], dtype=object), np.array([v], dtype=object)) if arr else (u, v)
    L, E = F['log'], F['exp']; T, U, V = term(th), term(u), term(v)
    cdf, pdf = term(val(o.ccdf(*X))), term(val(o.cpdf(*X)))
    eu, ev, e1 = E(-T * U), E(-T * V), E(-T)
    want = -L(1 + (eu - 1) * (ev - 1) / (e1 - 1)) / T
    EU, EV, E1 = z3.Real('EU'), z3.Real('EV'), z3.Real('E1')
    table = []
    def go(t):
        for x in t.children(): go(x)
        if t.decl().eq(E) and not any(t.eq(x) for x, _ in table):
            q = t.children()[0]
            for w, r in ((-T * U, EU), (-T * V, EV), (-T, E1), (-T * (U + V), EU * EV)):
                if c.prove_now(q == w): table.append((t, r)); return
            raise Unsupported('no law for %s' % t)
    d2 = derivative(c, derivative(c, want, U), V)
    for t in (cdf, pdf, d2): go(t)
    table.sort(key=lambda p: -len(p[0].sexpr()))
    rational_identity(c, z3.substitute(pdf, *table), z3.substitute(d2, *table), None, 'density is the mixed derivative')
    # the distribution function: logarithm of the same argument
    ls = apps(cdf, L)
    c.ensure(len(ls) == 1, 'one logarithm')
    rational_identity(c, z3.substitute(ls[0].children()[0], *table), 1 + (EU - 1) * (EV - 1) / (E1 - 1), None, 'argument of the logarithm')
    z = z3.Real('Z')
    rational_identity(c, z3.substitute(cdf, (ls[0], z)), -z / T, None, 'distribution function')

# ---------------------------------------------------------------- joint law of given margins
@P.contract(['depvars.copulas.Copula.pdf', 'depvars.copulas.Copula.cdf', 'depvars.copulas.Copula.dualcdf', 'depvars.copulas.Copula.jpdf_', 'depvars.copulas.Copula.jcdf_'], name='joint')
def joint(c):
    """the copula at the marginal distribution functions; the density times the marginal densities"""
    d = (1, 2, 3)[c.choose(3, 'd')]
    m = [Margin(c, i) for i in range(d)]
    g, G = fsym('c', d), fsym('C', d)
    o = make(C.PiCopula, d, m, cpdf=g, ccdf=G)
    x = [c.real('x%d' % i) for i in range(d)]
    arr = c.choose(2, 'array')
    if arr:
        g0, G0 = g, G
        o.cpdf = lambda *a: np.array([g0(*[val(v) for v in a])], dtype=object); o.ccdf = lambda *a: np.array([G0(*[val(v) for v in a])], dtype=object)
    X = [np.array([v], dtype=object) for v in x] if arr else x
    Fx = [m[i].F(x[i]) for i in range(d)]
    w = g(*Fx)
    for i in range(d): w = w * m[i].f(x[i])
    fin = lambda v: v
    with patched((C.np, 'nan_to_num', fin)): c.ensure_eq(val(o.pdf(*X)), w, 'joint density')
    c.ensure_eq(val(o.cdf(*X)), G(*Fx), 'joint distribution function')
    if d == 2:
        c.ensure_eq(val(o.dualcdf(*X)), Fx[0] + Fx[1] - G(*Fx), 'probability that one of the two is below')
        c.ensure_eq(val(o.jcdf_(m[0], m[1], *X)), G(*Fx), 'joint distribution function of given margins')
        with patched((C, 'Distr', Margin if c.choose(2, 'laws') else list)): c.ensure_eq(val(o.jpdf_(m[0], m[1], *X)), w, 'joint density of given margins')

class NF:
    """a function of several variables, as given to its constructor"""
    def __init__(self, d, Vars, fun): self.d, self.Vars, self.fun = d, Vars, fun

def orders(d):
    return [list(p) for k in range(1, d) for p in itertools.permutations(range(d), k)]
@P.contract(['depvars.copulas.ArchimedeanSymbolicCopula.%s' % k for k in ('condition', 'conditionCDF', 'condfun', 'ccond')], name='conditional')
def conditional(c):
    """given the variables of a list: each value at its own place, for every list of different variables in every order"""
    d = (2, 3)[c.choose(2, 'd')]
    m = [Margin(c, i) for i in range(d)]
    os_ = orders(d); var = os_[c.choose(len(os_), 'variables')]
    rest = [i for i in range(d) if i not in var]
    g = fsym('h', d)
    elim = []
    mg = fsym('marginal_density', len(var))
    class Marg:
        def pdf(self, *x): return mg(*x)
    joint = fsym('joint_density', d)
    o = make(C.ArchimedeanSymbolicCopula, d, m, Vars=m, symVars=['u%d' % i for i in range(d)], sym_C='C', pdf=joint)
    o.eliminate = lambda v: elim.append(sorted(v)) or Marg()
    o._prepare_single_var = lambda v: v
    trace = []
    class S_:
        def diff(self, e, *v): return ('d', e) + v
        def lambdify(self, v, e, mod=None): trace.append((tuple(v), e)); return g
    x = [c.real('x%d' % i) for i in range(d)]
    with patched((C, 'sympy', S_()), (C, 'NDFun', NF)):
        which = c.choose(4, 'function')
        arr = c.choose(2, 'array')
        Y = [np.array([x[i]], dtype=object) if arr else x[i] for i in rest]
        given = [x[i] for i in var]
        Fx = [m[i].F(x[i]) for i in range(d)]
        if arr:
            g2 = g; g = lambda *a: np.array([g2(*[val(v) for v in a])], dtype=object)
            j2 = joint; o.pdf = lambda *a: np.array([j2(*[val(v) for v in a])], dtype=object)
            want_g, want_j = g2, j2
        else: want_g, want_j = g, joint
        if which == 0:
            r = o.condition(var, *given)
            got = val(r.fun(*Y))
            c.assume(mg(*[x[i] for i in sorted(var)]) > 0)
            c.ensure_eq(got, want_j(*x) / mg(*[x[i] for i in sorted(var)]), 'joint density over the marginal density of the given values')
            c.ensure(elim == [rest], 'the margin of the given variables'); names = rest
        elif which == 1:
            r = o.conditionCDF(var, *given)
            c.ensure_eq(val(r.fun(*Y)), want_g(*Fx), 'derivative of the copula at the marginal distribution functions'); names = rest
        elif which == 2:
            r = o.condfun(var)
            c.ensure_eq(val(r.fun(*[np.array([v], dtype=object) if arr else v for v in x])), want_g(*Fx), 'derivative of the copula at the marginal distribution functions'); names = list(range(d))
        else:
            r = o.ccond(var); names = list(range(d))
            c.ensure_eq(val(r.fun(*x)), want_g(*x), 'derivative of the copula')
        c.ensure(r.d == len(names) and [v.i for v in r.Vars] == names, 'variables of the result')
        if which:
            want = 'C'
            vs, e = trace[-1]
            c.ensure(vs == tuple(o.symVars), 'arguments in order')
            got = []
            while isinstance(e, tuple): got += list(e[2:]); e = e[1]
            c.ensure(e == 'C' and sorted(got) == sorted('u%d' % i for i in var), 'one derivative in each given variable')

@P.contract('depvars.copulas.ArchimedeanSymbolicCopula.__init__', name='symbolic')
def symbolic(c):
    """the generator, its derivative, its inverse and the derivative of the inverse of the order of the dimension"""
    d = (1, 2, 3)[c.choose(3, 'd')]
    solve = c.choose(2, 'inverse given')
    class E(tuple):
        def __add__(s, o): return E(('+',) + tuple(sorted([x for u in (s, o) for x in (u[1:] if u[0] == '+' else [u])], key=repr)))
        def __radd__(s, o): return s if isinstance(o, int) and o == 0 else NotImplemented
        def __sub__(s, o): return E(('-', s, o))
        def subs(s, v, w):
            return w if s == v else E(tuple(x.subs(v, w) if isinstance(x, E) else x for x in s))
    sy = lambda n: E(('sym', n))
    class S_:
        def diff(self, e, v, n=1):
            for _ in range(n): e = E(('d', e, v))
            return e
        def solve(self, e, v): return [E(('root', e, v))]
        def lambdify(self, v, e, mod): return ('fun', v, e)
    base = {}
    def init(self, **k): base.update(k); self.symVars = [sy('u%d' % i) for i in range(d)]
    fi = lambda t, th: E(('fi', t)); inv = lambda s, th: E(('inv', s))
    m = [object() for _ in range(d)]
    with patched((C, 'sympy', S_()), (C, 'Symbol', sy), (C.ArchimedeanCopula, '__init__', init)):
        o = C.ArchimedeanSymbolicCopula(fi=fi, fi_inv=inv if solve == 0 else None, theta=2, marginals=m)
    t, s = sy('t'), sy('s')
    ft = E(('fi', t)); gs = E(('inv', s)) if solve == 0 else E(('root', E(('-', ft, s)), t))
    c.ensure(base.get('marginals') is m, 'margins')
    c.ensure(base.get('fi') == ('fun', t, ft), 'generator'); c.ensure(base.get('fi_deriv') == ('fun', t, E(('d', ft, t))), 'derivative of the generator')
    c.ensure(base.get('fi_inv') == ('fun', s, gs), 'inverse of the generator')
    n = gs
    for _ in range(d): n = E(('d', n, s))
    c.ensure(base.get('fi_inv_nth_deriv') == ('fun', s, n), 'derivative of the inverse, of the order of the dimension')
    total = E(('fi', sy('u0')))
    for i in range(1, d): total = total + E(('fi', sy('u%d' % i)))
    c.ensure(o.sym_C == gs.subs(s, total), 'the symbolic copula')

@P.contract(['depvars.copulas.Copula.%s' % k for k in ('cov', 'corrcoef', 'tau', 'ctau', 'rho_s', 'beta')], name='dependence')
def dependence(c):
    """integrals over the pair: its own margins, its own joint density, the whole ranges"""
    d = (2, 3)[c.choose(2, 'd')]
    m = [Margin(c, i) for i in range(d)]
    pairs = [(i, j) for i in range(d) for j in range(d)]
    i, j = pairs[c.choose(len(pairs), 'pair')]
    ax = sorted({i, j})
    fs = {n: fsym(n, len(ax)) for n in ('pdf', 'cdf', 'cpdf', 'ccdf')}
    o = make(C.PiCopula, d, m); elim = []
    pair = make(C.PiCopula, len(ax), [m[k] for k in ax], **fs)
    o.eliminate = lambda v: elim.append(sorted(v)) or pair
    o._prepare_single_var = lambda v: v
    calls = []
    def two(f, *ab): calls.append((f, ab)); return c.real('I'), 0
    def one(f, *ab): calls.append((f, ab)); return c.real('J'), 0
    x, y = c.real('x'), c.real('y')
    with patched((C, 'integrate_iter', two), (C, 'integrate_fejer2', one)):
        k = ['cov', 'corrcoef', 'tau', 'ctau', 'rho_s'][c.choose(5, 'measure')]
        if k == 'corrcoef':
            cv = c.real('cov'); o.cov = lambda a, b: cv if (a, b) == (i, j) else None
            r = o.corrcoef(i, j)
            return c.ensure_eq(r, cv / m[i].sd / m[j].sd, 'covariance over both standard deviations')
        r = getattr(o, k)(i, j)
        c.ensure(elim == [sorted(set(range(d)) - set(ax))], 'the other variables are integrated out')
        if i == j and k != 'cov': return c.ensure_eq(r, 1, 'a variable with itself')
        c.ensure(len(calls) == 1, 'one integral'); f, ab = calls[0]
        p, q = m[ax[0]], m[ax[-1]]
        if i == j:
            c.ensure_eq(f(x), (x - p.mu) * (x - p.mu) * p.f(x), 'integrand'); lim = (p.lo, p.hi)
            c.ensure_eq(r, Num(z3.Real('J')), 'the integral')
        else:
            w, coef, lim = {'cov': (lambda: (x - p.mu) * (y - q.mu) * fs['pdf'](x, y), (1, 0), (p.lo, p.hi, q.lo, q.hi)), 'tau': (lambda: fs['cdf'](x, y) * fs['pdf'](x, y), (4, -1), (p.lo, p.hi, q.lo, q.hi)),
                            'ctau': (lambda: fs['ccdf'](x, y) * fs['cpdf'](x, y), (4, -1), (0, 1, 0, 1)), 'rho_s': (lambda: fs['ccdf'](x, y), (12, -3), (0, 1, 0, 1))}[k]
            c.ensure_eq(f(x, y), w(), 'integrand'); c.ensure_eq(r, coef[0] * Num(z3.Real('I')) + coef[1], 'the integral')
        for u, v in zip(ab, lim): c.ensure_eq(u, v, 'limits of the integral')

@P.contract('depvars.copulas.ArchimedeanSymbolicCopula.eliminate', name='eliminate')
def eliminate(c):
    """the same family with the same parameter over the remaining margins, for every list of variables"""
    d = (2, 3)[c.choose(2, 'd')]
    L = [list(p) for k in range(d + 1) for p in itertools.permutations(range(d), k)]; l = L[c.choose(len(L), 'variables')]
    m = [Margin(c, i) for i in range(d)]
    th, fi, inv = c.real('theta'), object(), object()
    built = []
    def init(self, fi=None, fi_inv=None, theta=2, marginals=None): built.append((self, fi, fi_inv, theta, marginals))
    with patched((C.ArchimedeanSymbolicCopula, '__init__', init)):
        o = make(C.ArchimedeanSymbolicCopula, d, m, fi_=fi, fi_inv_=inv, theta=th, id_to_idx={v.id(): i for i, v in enumerate(m)}, Vars=m)
        r = o.eliminate([m[i] for i in l] if c.choose(2, 'as variables') else l)
    if not l: return c.ensure(r is o, 'nothing to eliminate')
    c.ensure(len(built) == 1 and built[0][0] is r and built[0][1] is fi and built[0][2] is inv, 'the same generator')
    c.ensure_eq(built[0][3], th, 'the same parameter')
    c.ensure(list(built[0][4]) == [v for i, v in enumerate(m) if i not in l], 'the remaining margins, in order')
