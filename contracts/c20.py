"""C20  joint laws: values, marginals, conditional laws, products and substitutions"""
import itertools, math
import numpy as np
import z3
from pyvc.spec import *
from pyvc.core import term, bterm, mkbool, Num, is_sym
from pyvc.arrays import LazyArr
from .c18 import Margin, fsym, If, val
P = Registry()
N = mod('pacal.depvars.nddistr')

class Var(Margin):
    """a variable: an arbitrary law with an arbitrary finite range"""
    def __init__(self, c, i, name=None):
        super().__init__(c, i); self.name = name or 'u%d' % i
        self.mass = c.real('mass%d' % i)
        self.Vars = None
    def getSymname(self): return self.name
    def getSym(self): return self.name
    def get_piecewise_pdf(self):
        s = self
        class p:
            def __call__(_, x): return s.f(x)
            def range(_): return s.lo, s.hi
            def integrate(_, *a): return s.mass
        return p()

# ---------------------------------------------------------------- integrals, up to the name of the variable of integration
class Ints:
    def __init__(self, c, arrays=0):
        self.c, self.arrays, self.table, self.dummies, self.arrs = c, arrays, [], [], set()
    def __call__(self, fun, L, U, *r, arrays=None, **k):
        c = self.c
        t = c.real('t'); self.dummies.append(t)
        c.assume(And(t >= L, t <= U))
        if self.arrays if arrays is None else arrays:
            X = sym_array(c, 'T'); self.arrs.add(term(X.at(0)).decl().name()); i = skolem_index(c, X.n); c.assume(X.at(i) == t)
            v = fun(X)
            v = v.at(i) if isinstance(v, LazyArr) else val(v)
            v = Num(z3.substitute(term(v), (term(X.at(i)), term(t))))
        else: v = val(fun(t))
        return self.value(t, v, L, U), 0.0
    def value(self, t, v, L, U):
        """one symbol for one integral: iterated integrals are integrals over a box, whatever the order and the names"""
        v = z3.simplify(term(v))
        while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            if self.c.prove_now(v.arg(0)): v = v.arg(1)
            elif self.c.prove_now(z3.Not(v.arg(0))): v = v.arg(2)
            else: break
        return self.box([(term(t), term(L), term(U))], v)
    def mark(self, e, names):
        """the names among these that occur in e"""
        out, seen = set(), set()
        def walk(x):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().name() in names: out.add(x.decl().name())
            for y in x.children(): walk(y)
        walk(e); return out
    def box(self, dims, body):
        """the integral of a product over a box: factors without the variables stand outside, independent parts are separate integrals,
        integrals among the factors are merged (Fubini)"""
        factors, todo = [], [body]
        while todo:
            e = todo.pop()
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL: todo += e.children(); continue
            inner = [q for q in self.table if z3.is_app(e) and e.decl().eq(q[3])]
            if inner and self.mark(e, {d[0].decl().name() for d in dims}):
                ds, b0, out0, _ = inner[0]
                fresh = [(term(self.c.real('t')), l, u) for _, l, u in ds]
                for tt, _, _ in fresh: self.dummies.append(Num(tt))
                rep = [(x[0], y[0]) for x, y in zip(ds, fresh)] + [(o, e.arg(k)) for k, o in enumerate(out0)]
                s = lambda x: z3.substitute(x, *rep)
                fresh = [(tt, s(l), s(u)) for tt, l, u in fresh]
                for tt, l, u in fresh: self.c.assume(mkbool(z3.And(tt >= l, tt <= u)))
                dims = dims + fresh; todo.append(s(b0)); continue
            factors.append(e)
        names = {d[0].decl().name() for d in dims}
        result, groups = 1, []
        for e in factors:
            use = self.mark(e, names)
            if not use: result = result * Num(e); continue
            hit = [g for g in groups if g[0] & use]
            groups = [g for g in groups if g not in hit] + [(use.union(*[g[0] for g in hit]), [e] + [x for g in hit for x in g[1]])]
        for use, es in groups:
            result = result * self.symbol([d for d in dims if d[0].decl().name() in use], z3.simplify(z3.Product(*es)) if len(es) > 1 else es[0])
        for d in dims:
            if not any(d[0].decl().name() in g[0] for g in groups): result = result * Num(d[2] - d[1])
        return result
    def symbol(self, dims, body):
        own = {d[0].decl().name() for d in dims}
        names = {term(d).decl().name(): d for d in self.dummies}
        found, elems = [], []
        def walk(e):
            if z3.is_app(e) and e.decl().name() in self.arrs:
                if not any(e.eq(x) for x in elems): elems.append(e)
                return
            if z3.is_const(e) and e.decl().name() in names and e.decl().name() not in found and e.decl().name() not in own: found.append(e.decl().name())
            for x in e.children(): walk(x)
        for e in [body] + [x for d in dims for x in d[1:]]: walk(e)
        outer = [term(names[n]) for n in sorted(found)] + elems
        for (ds, b0, out0, decl) in self.table:
            if len(out0) != len(outer) or len(ds) != len(dims): continue
            for rho in itertools.permutations(dims):
                for pi in itertools.permutations(outer):
                    rep = [(x[0], y[0]) for x, y in zip(ds, rho)] + list(zip(out0, pi))
                    s = lambda e: z3.substitute(e, *rep)
                    if self.c.prove_now(z3.And(s(b0) == body, *[z3.And(s(x[1]) == y[1], s(x[2]) == y[2]) for x, y in zip(ds, rho)])):
                        return Num(decl(*pi)) if pi else Num(decl())
        decl = z3.Function(self.c.fresh('INT'), *[z3.RealSort()] * (len(outer) + 1))
        self.table.append((dims, body, outer, decl))
        return Num(decl(*outer))
    def over(self, f, V, out, at):
        """f of {variable: value}, integrated over the variables of out"""
        if not out: return f(at)
        v = out[0]
        return self(lambda t: self.over(f, V, out[1:], {**at, v: t}), v.lo, v.hi, arrays=0)[0]

def cell(x): return LazyArr(1, lambda i: x)
class Grid:
    """the interpolant of a joint function: agrees with it on its box (C19)"""
    log = []
    def __init__(self, f, d, a=None, b=None):
        self.f, self.d, self.a, self.b, self.Ys = f, d, a, b, Scale()
        Grid.log.append(self)
    def interp_at(self, *X):
        arr = isinstance(X[0], LazyArr)
        r = self.f(*[x if isinstance(x, LazyArr) else cell(x) for x in X])
        if not arr: r = r.at(0) if isinstance(r, LazyArr) else val(r)
        return r / self.Ys.by if self.Ys.scaled else r
class Scale:
    def __init__(self): self.by, self.scaled = 1, False
    def __itruediv__(self, x): self.by, self.scaled = x, True; return self
class Line:
    """a function of one variable over the break points"""
    def __init__(self, fun=None, breakPoints=None): self.fun, self.breaks = fun, breakPoints
    def __call__(self, x): return self.fun(x)

def rows(X):
    """rows of several arrays of the same length, which the runner maps over"""
    if isinstance(X, (list, tuple)) and X and isinstance(X[0], LazyArr): return Rows(X)
    return np.array(X, dtype=object)
class Rows:
    def __init__(self, X): self.X = X
def turned(r): return r if isinstance(r, Rows) else np.transpose(r)
def mapped(f, R):
    X = R.X
    return LazyArr(X[0].n, lambda i: f(np.array([x.at(i) for x in X], dtype=object)))
def same_arr(r): return r if isinstance(r, LazyArr) else rows(r)

def world(c, arrays=0):
    Grid.log.clear()
    I = Ints(c, arrays)
    inf = [(N, 'integrate_fejer2', I), (N, 'AdaptiveSparseGridInterpolator', Grid), (N, 'PiecewiseFunction', Line), (N, 'get_parmap', lambda: mapped), (N, 'Distr', Var),
           (N, 'array', same_arr), (N, 'transpose', turned)]
    inf.append((N, 'zeros', zeros_of))
    return I, patched(*inf)
zeros0 = N.zeros
def zeros_of(n):
    if isinstance(n, int): return np.array([0.0] * n, dtype=object)
    if isinstance(n, tuple) and len(n) == 1: return LazyArr(n[0], lambda i: 0.0)
    return zeros0(n)

class J(N.NDDistr):
    def __init__(self, fun, V):
        self.ff = fun
        super().__init__(len(V), V)
    def pdf(self, *x): return self.ff(*x)

def variables(c, d, order=None):
    return [Var(c, i, None if order is None else order[i]) for i in range(d)]
def values(c, V, inside=True):
    at = {}
    for v in V:
        x = c.real('x_' + v.name); at[v] = x
        if inside: c.assume(And(x >= v.lo, x <= v.hi))
    return at
def lists(d, lo=1, hi=None):
    return [list(p) for k in range(lo, (hi or d) + 1) for p in itertools.permutations(range(d), k)]
def call(m, at): return val(m(*[at[v] for v in m.Vars])) if m.Vars else val(m())
def same_vars(c, m, want): c.ensure(list(m.Vars) == list(want) and m.d == len(want), 'the remaining variables, in order')

@P.contract(['depvars.nddistr.NDFun.__call__', 'depvars.nddistr.NDFun.__init__', 'depvars.nddistr.getRanges'], name='call')
def call_(c):
    """the function inside the box of the ranges, zero outside"""
    d = (1, 2, 3)[c.choose(3, 'd')]; kind = c.choose(2, 'arrays')
    I, w = world(c)
    with w:
        V = variables(c, d); f = fsym('f', d); j = J(f, V)
        if kind:
            n = c.int('n'); c.assume(n >= 1); X = [sym_array(c, 'x%d' % i, n) for i in range(d)]; i = skolem_index(c, n)
            r = j(*X).at(i); x = [a.at(i) for a in X]
        else:
            x = [c.real('x%d' % i) for i in range(d)]; r = val(j(*x))
    inside_ = And(*[And(t >= v.lo, t <= v.hi) for t, v in zip(x, V)])
    c.ensure(Implies(inside_, r == f(*x)), 'the function inside the ranges')
    c.ensure(Implies(Not(inside_), r == 0), 'zero outside the ranges')
    c.ensure(j.d == d and list(j.Vars) == V, 'variables')

@P.contract(['depvars.nddistr.NDFun.eliminate', 'depvars.nddistr.NDFun.prepare_var', 'depvars.nddistr.NDFun._prepare_single_var', 'depvars.nddistr.InterpRunner.integ_f', 'depvars.nddistr.InterpRunner.interp_fx', 'depvars.nddistr.InterpRunner.interpxx', 'depvars.nddistr.NDInterpolatedDistr.__init__', 'depvars.nddistr.NDInterpolatedDistr.pdf'], name='eliminate')
def eliminate(c):
    """the integral over the whole range of every variable of the list, for every list in every order"""
    d = (1, 2, 3)[c.choose(3, 'd')]
    L = lists(d); l = L[c.choose(len(L), 'variables')]; how = c.choose(2, 'by number'); arrays = c.choose(2, 'arrays')
    I, w = world(c, arrays)
    with w:
        V = variables(c, d); f = fsym('f', d); j = J(f, V); at = values(c, V)
        m = j.eliminate(l if how else [V[i] for i in l]) if len(l) > 1 or c.choose(2, 'list') else j.eliminate(l[0] if how else V[l[0]])
        out = [V[i] for i in l]
        same_vars(c, m, [v for v in V if v not in out])
        want = I.over(lambda a: f(*[a[v] for v in V]), V, out, at)
        c.ensure_eq(call(m, at), want, 'integral over the eliminated variables')
        for g in Grid.log:
            for k in range(g.d): c.ensure(And(*[Or(*[And(g.a[k] == v.lo, g.b[k] == v.hi) for v in V])]), 'interpolated over the ranges')

@P.contract(['depvars.nddistr.NDDistr.condition', 'depvars.nddistr._cond_f'], name='condition')
def condition(c):
    """given values stand at the places of their variables; normalised by the integral over the rest"""
    d = (2, 3)[c.choose(2, 'd')]
    L = lists(d, 1, d - 1); l = L[c.choose(len(L), 'variables')]; norm = c.choose(2, 'normalize')
    I, w = world(c)
    with w:
        V = variables(c, d); f = fsym('f', d); j = J(f, V); at = values(c, V)
        on = [V[i] for i in l]; keep = [v for v in V if v not in on]
        whole = lambda a: f(*[a[v] for v in V])
        if norm:
            n = I.over(whole, V, keep, at); c.assume(n > 0)
        m = j.condition(l if c.choose(2, 'by number') else on, *[at[v] for v in on], **({} if norm else {'normalize': False}))
        same_vars(c, m, keep)
        c.ensure_eq(call(m, at), whole(at) / n if norm else whole(at), 'conditional density')

@P.contract(['depvars.nddistr.NDProductDistr.__init__', 'depvars.nddistr.NDProductDistr.pdf', 'depvars.nddistr.NDProductDistr.optimize', 'depvars.nddistr.Factor1DDistr.__init__', 'depvars.nddistr.Factor1DDistr.pdf', 'depvars.nddistr.NDConstFactor.__init__', 'depvars.nddistr.NDConstFactor.pdf'], name='product')
def product(c):
    """the product of the factors at the values of their own variables, on the common box"""
    I, w = world(c)
    with w:
        p, V, fs, whole, k0, at, box = chain(c)
        c.ensure([v.name for v in p.Vars] == sorted(v.name for v in V) and p.d == len(V), 'every variable once, in the order of the names')
        c.ensure_eq(call(p, at), whole(at), 'the product of the factors')
        for i, v in enumerate(p.Vars): c.ensure(And(p.a[i] == v.lo, p.b[i] == v.hi), 'the common range of the factors')

def chain(c, joint=True):
    """f(A, B) g(B, C) h(D) and constants, each factor with its variables in either order"""
    V = variables(c, 4, ['B', 'D', 'A', 'C'])
    o1, o2 = c.choose(2, 'order of f'), c.choose(2, 'order of g')
    f, g = fsym('f', 2), fsym('g', 2)
    a = [V[0], V[1]][::1 if o1 == 0 else -1]; b = [V[1], V[2]][::1 if o2 == 0 else -1]
    ks = c.choose(3, 'constants')
    k0 = c.real('k'); c.assume(k0 != 0)
    fs = [J(f, a), J(g, b)]
    fac = [lambda at: f(*[at[v] for v in a]), lambda at: g(*[at[v] for v in b])]
    if ks: fs.insert(1, N.NDConstFactor(k0)); fac.append(lambda at: k0)
    if ks == 2: fs.insert(0, N.NDOneFactor())
    one = c.choose(2, 'one variable factor')
    if one: fs.append(V[3]); fac.append(lambda at: V[3].f(at[V[3]]))
    else: V = V[:3]
    def whole(at):
        y = 1
        for q in fac: y = y * q(at)
        return y
    return N.NDProductDistr(fs), V, fs, whole, k0, values(c, V), None

@P.contract(['depvars.nddistr.NDProductDistr.eliminate', 'depvars.nddistr.NDProductDistr.factor_out', 'depvars.nddistr._NDProductDistr.eliminate', 'depvars.nddistr.Factor1DDistr.eliminate', 'depvars.nddistr.NDConstFactor.eliminate', 'depvars.nddistr.NDProductDistr.as_constant'], name='product_eliminate')
def product_eliminate(c):
    """factors without the variable stay, those with it are multiplied and integrated over it"""
    I, w = world(c)
    with w:
        p, V, fs, whole, k0, at, box = chain(c)
        L = lists(len(p.Vars), 1, 2); l = L[c.choose(len(L), 'variables')]
        out = [p.Vars[i] for i in l]
        m = p.eliminate(l if fs[-1] is V[-1] else out)
        same_vars(c, m, [v for v in p.Vars if v not in out])
        got = call(m, at)
        c.ensure_eq(got, factored(I, c, whole, fs, V, out, at, k0), 'integral over the eliminated variables')

def factored(I, c, whole, fs, V, out, at, k0):
    """the integral of the product over the variables of out, taken factor by factor (Fubini for factors without common variables)"""
    y = 1; parts = []
    for g in fs:
        if isinstance(g, N.NDOneFactor): continue
        if isinstance(g, N.NDConstFactor): y = y * g.c; continue
        if isinstance(g, Var):
            y = y * (g.mass if g in out else g.f(at[g])); continue
        parts.append(([v for v in g.Vars], g))
    groups = []
    for vs, g in parts:
        hit = [q for q in groups if set(q[0]) & set(vs) & set(out)]
        new = (set(vs).union(*[q[0] for q in hit]), [g] + [h for q in hit for h in q[1]])
        groups = [q for q in groups if q not in hit] + [new]
    for vs, gs in groups:
        def prod(a, gs=gs):
            r = 1
            for g in gs: r = r * g.ff(*[a[v] for v in g.Vars])
            return r
        o = [v for v in out if v in vs]
        y = y * I.over(prod, V, o, at)
    return y

@P.contract(['depvars.nddistr.NDDistrWithVarSubst.__init__', 'depvars.nddistr.NDDistrWithVarSubst.pdf', 'depvars.nddistr.NDProductDistr.varschange', 'depvars.nddistr.NDFun.varschange'], name='substitution')
def substitution(c):
    """the new expression stands at the place of the variable it replaces"""
    d = (2, 3)[c.choose(2, 'd')]; k = c.choose(d, 'variable')
    I, w = world(c)
    with w:
        V = variables(c, d); f = fsym('f', d); j = J(f, V); new = Var(c, 7, 'new')
        others = [v for v in V if v is not V[k]]
        args = [[new], [new] + others[:1], others[:1] + [new], [new] + others[::-1]][c.choose(4, 'arguments')]
        g = fsym('g', len(args)); at = values(c, V + [new])
        s = N.NDDistrWithVarSubst(j, V[k] if c.choose(2, 'by number') else k, g, args)
        x = g(*[at[v] for v in args]); c.assume(And(x >= V[k].lo, x <= V[k].hi))
        c.ensure(set(s.Vars) == set(others) | {new} and s.d == d and len(s.Vars) == d, 'the variables')
        want = f(*[x if v is V[k] else at[v] for v in V])
        c.ensure_eq(val(s.pdf(*[at[v] for v in s.Vars])), want, 'substituted value')
        jac = fsym('jac', 1); jf = J(jac, [new])
        r = j.varschange(V[k], g, args, jf)
        c.ensure(set(r.Vars) == set(others) | {new}, 'the variables')
        c.ensure_eq(call(r, at), want * jac(at[new]), 'change of variables')
        h = fsym('h', 1); p = N.NDProductDistr([j, J(h, [others[0]])])
        r = p.varschange(V[k], g, args, jf)
        c.ensure_eq(call(r, at), want * jac(at[new]) * h(at[others[0]]), 'change of variables in a product')

@P.contract(['depvars.nddistr.NDFun.condition', 'depvars.nddistr._cond_f'], name='fixed_arguments')
def fixed_arguments(c):
    """a function (not a density, e.g. the Jacobian of an exchange) with some variables fixed: its values, never normalised, modulus and range kept"""
    d = (1, 2, 3)[c.choose(3, 'd')]
    L = lists(d, 1); l = L[c.choose(len(L), 'fixed')]; num = c.choose(2, 'by number')
    I, w = world(c)
    with w:
        V = variables(c, d); f = fsym('f', d); at = values(c, V)
        mod_ = c.choose(2, 'modulus') == 1
        j = N.NDFun(d, V, f, abs=mod_)
        on = [V[i] for i in l]; rest = [v for v in V if v not in on]
        want = f(*[at[v] for v in V])
        if mod_: want = If(want >= 0, want, -want)
        kw = {'normalize': False} if c.choose(2, 'keyword') else {}
        with patched((N, 'float', lambda x: x)): r = j.condition(l if num else on, *[at[v] for v in on], **kw)
        c.ensure(set(r.Vars) == set(rest) and r.d == len(rest), 'the variables that are not fixed')
        if rest:
            c.ensure_eq(call(r, at), want, 'value with the fixed arguments')
        else: c.ensure_eq(val(r.as_constant()), want, 'value with all arguments fixed')

@P.contract(['depvars.nddistr.ConditionalDistr.__init__', 'depvars.nddistr.ConditionalDistr.pdf', 'depvars.nddistr.ConditionalDistr.eliminate', 'depvars.nddistr.ConditionalDistr.condition'], name='given')
def given(c):
    """the joint density over the density of the given variables, each at its own place"""
    d = (2, 3)[c.choose(2, 'd')]
    L = lists(d, 1, d - 1); l = L[c.choose(len(L), 'given')]; num = c.choose(2, 'by number')
    I, w = world(c)
    with w:
        V = variables(c, d); f = fsym('f', d); j = J(f, V); at = values(c, V)
        on = [V[i] for i in l]; free = [v for v in V if v not in on]
        whole = lambda a: f(*[a[v] for v in V])
        n = I.over(whole, V, free, at); c.assume(n > 0)
        o = N.ConditionalDistr(j, l if num else on)
        c.ensure_eq(call(o, at), whole(at) / n, 'conditional density')
        c.ensure(isinstance(o.eliminate(free), N.NDOneFactor), 'one, integrated over the free variables')
        if len(free) > 1:
            k = c.choose(len(free), 'free variable')
            c.ensure_eq(call(o.eliminate([free[k]]), at), I.over(whole, V, [free[k]], at) / n, 'a free variable integrated out')
        K = lists(len(on), 1); fix = [on[i] for i in K[c.choose(len(K), 'fixed')]]
        # the values of the other given variables are arbitrary, so are the two normalising constants below
        rest = [v for v in V if v not in fix]; rg = [v for v in on if v not in fix]
        tot = I.over(whole, V, rest, at); c.assume(tot > 0)
        r = o.condition([V.index(v) for v in fix] if num else fix, *[at[v] for v in fix])
        c.ensure([v for v in r.Vars] == rest, 'the variables that are not fixed')
        got = call(r, at)
        if rg:
            # marginal of the given variables, normalised over those that are not fixed
            inner = {'a': at}
            m = I.over(lambda a: I.over(whole, V, free, a), V, rg, at)
            c.ensure_eq(got, whole(at) / n, 'conditional density with some values fixed')
        else: c.ensure_eq(got, whole(at) / tot, 'conditional density with the values fixed')

@P.contract('depvars.nddistr.NDProductDistr.condition', name='product_condition')
def product_condition(c):
    """the factors at the given values, over the integral of their product"""
    I, w = world(c)
    with w:
        p, V, fs, whole, k0, at, box = chain(c)
        L = lists(len(p.Vars), 1, 1) + [[0, 1], [2, 0], [2, 1]]; l = L[c.choose(len(L), 'variables')]
        on = [p.Vars[i] for i in l]; keep = [v for v in p.Vars if v not in on]
        n = factored(I, c, whole, fs, V, keep, at, k0); c.assume(n > 0)
        m = p.condition(l if fs[-1] is V[-1] else on, *[at[v] for v in on])
        same_vars(c, m, keep)
        c.ensure_eq(call(m, at) * n, whole(at), 'the product over its integral')

@P.contract(['depvars.nddistr.integrate_range', 'depvars.nddistr.NDFun.eliminate'], name='whole_range')
def whole_range(c):
    """each integrator once over its own part of the range; nothing left out"""
    k = c.choose(4, 'range')
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    calls = []
    def kind(n): return lambda f, *ab, **k: calls.append((n, f, ab, k)) or (c.real('I'), c.real('E'))
    v = Var(c, 0); inf = math.inf
    lo, hi = [(a, b), (a, inf), (-inf, b), (-inf, inf)][k]
    v.lo, v.hi = lo, hi
    f = fsym('f', 1); x = c.real('x')
    ps = [(N, n, kind(n)) for n in ('integrate_fejer2', 'integrate_fejer2_pinf', 'integrate_fejer2_minf', 'integrate_fejer2_pminf')]
    with world(c)[1], patched(*ps):
        m = J(f, [v]).eliminate([0])
        c.assume(And(x >= lo if k in (0, 1) else True, x <= hi if k in (0, 2) else True))
        parts = []
        for n, g, ab, kw in calls:
            c.ensure_eq(val(g(x)), f(x), 'integrand')
            parts.append({'integrate_fejer2': lambda p: p, 'integrate_fejer2_pinf': lambda p: (p[0], inf), 'integrate_fejer2_minf': lambda p: (-inf, p[0]), 'integrate_fejer2_pminf': lambda p: (-inf, inf)}[n](ab))
        got = call(m, {})
    def low(p): return -inf if p[0] is -inf or (not is_sym(p[0]) and p[0] == -inf) else p[0]
    parts = sorted(parts, key=lambda p: 0 if not is_sym(p[0]) and p[0] == -inf else 1)
    def eq(u, w):
        if not is_sym(u) and not is_sym(w): return u == w
        return (u == w) if not (isinf(u) or isinf(w)) else False
    c.ensure(eq(parts[0][0], lo) and eq(parts[-1][1], hi), 'from end to end')
    for p, q in zip(parts, parts[1:]): c.ensure(eq(p[1], q[0]), 'the parts meet')
    want = sum([Num(z3.Real('I' if i == 0 else 'I!%d' % i)) for i in range(len(calls))], 0)
    c.ensure_eq(got, want, 'sum of the parts')

@P.contract('depvars.nddistr.NDDistr.cov', name='covariance')
def covariance(c):
    """the centred second moment of the pair, other variables integrated out"""
    d = (2, 3)[c.choose(2, 'd')]
    pairs = [(i, j) for i in range(d) for j in range(d)]; i, j = pairs[c.choose(len(pairs), 'pair')]
    V = variables(c, d); f = fsym('f', d); ax = sorted({i, j})
    calls = []
    def two(g, *ab): calls.append((g, ab, c.real('I'))); return calls[-1][2], 0
    def one(g, *ab): calls.append((g, ab, c.real('I'))); return calls[-1][2], 0
    with world(c)[1], patched((N, 'integrate_iter', two), (N, 'integrate_range', one)):
        jj = J(f, V); h = fsym('h', len(ax)); pair = J(h, [V[k] for k in ax]); elim = []
        jj.eliminate = lambda v, *a: elim.append(sorted(jj.prepare_var(v)[0])) or pair
        r = jj.cov(i, V[j]) if c.choose(2, 'as variables') else jj.cov(i, j)
        c.ensure(elim == [sorted(set(range(d)) - set(ax))], 'the others are integrated out')
        pt = [c.real('x'), c.real('y')][:len(ax)]
        for x, k in zip(pt, ax): c.assume(And(x >= V[k].lo, x <= V[k].hi))
        hx = h(*pt)
        for g, ab, q in calls:
            for u, k in zip(range(0, len(ab), 2), ax): c.ensure(And(ab[u] == V[k].lo, ab[u + 1] == V[k].hi), 'whole ranges')
        means = [q for g, ab, q in calls[:-1]]
        got = [val(g(*pt)) for g, ab, q in calls]
        if i == j:
            c.ensure(len(calls) == 2, 'a mean and a variance')
            c.ensure_eq(got[0], pt[0] * hx, 'mean'); c.ensure_eq(got[1], (pt[0] - means[0]) ** 2 * hx, 'centred square')
        else:
            c.ensure(len(calls) == 3, 'two means and a product')
            sw = c.prove_now(bterm(got[0] == pt[1] * hx))
            mx, my = (means[1], means[0]) if sw else (means[0], means[1])
            c.ensure_eq(got[0] + got[1], (pt[0] + pt[1]) * hx, 'means'); c.ensure_eq(got[1] if sw else got[0], pt[0] * hx, 'mean')
            c.ensure_eq(got[2], (pt[0] - mx) * (pt[1] - my) * hx, 'product of the deviations')
        c.ensure_eq(r, calls[-1][2], 'the integral')

# ---------------------------------------------------------------- normal law
class Mat:
    """a matrix of numbers"""
    def __init__(self, rows): self.r = [list(x) for x in rows]
    shape = property(lambda s: (len(s.r), len(s.r[0]) if s.r else 0))
    def __getitem__(self, k):
        i, j = k
        if isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)): return self.r[i][j]
        I = [int(x) for x in np.asarray(i).ravel()]; Jx = [int(x) for x in np.asarray(j).ravel()]
        if np.asarray(i).ndim == 2: return Mat([[self.r[a][b] for b in Jx] for a in I])
        return Mat([[self.r[a][b] for a, b in zip(I, Jx)]])
    def __mul__(self, o):
        if not isinstance(o, Mat): return NotImplemented
        return Mat([[sum((self.r[i][k] * o.r[k][j] for k in range(len(o.r))), 0) for j in range(len(o.r[0]))] for i in range(len(self.r))])
    __matmul__ = __mul__
    def __sub__(self, o): return Mat([[a - b for a, b in zip(x, y)] for x, y in zip(self.r, o.r)])
    def __add__(self, o): return Mat([[a + b for a, b in zip(x, y)] for x, y in zip(self.r, o.r)])
    T = property(lambda s: Mat(list(zip(*s.r))))
    @property
    def I(self):
        n = len(self.r); D = det(self.r)
        return Mat([[(-1) ** (i + j) * det([[self.r[a][b] for b in range(n) if b != i] for a in range(n) if a != j]) / D for j in range(n)] for i in range(n)])
    def arr(self): 
        out = np.empty(self.shape, dtype=object)
        for i, x in enumerate(self.r):
            for j, y in enumerate(x): out[i, j] = y
        return out
def det(m):
    m = m.r if isinstance(m, Mat) else [list(x) for x in m]
    if not m: return 1
    if len(m) == 1: return m[0][0]
    return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), 0)
def matrix(x): return x if isinstance(x, Mat) else Mat([list(r) for r in x])
def arr_of(x): return x.arr() if isinstance(x, Mat) else (np.array(x, dtype=object) if isinstance(x, (list, tuple)) else x)
def dele(x, idx, axis=None):
    idx = [idx] if isinstance(idx, int) else list(idx)
    if isinstance(x, Mat):
        return Mat([r for i, r in enumerate(x.r) if i not in idx]) if axis == 0 else Mat([[v for i, v in enumerate(r) if i not in idx] for r in x.r])
    return np.array([v for i, v in enumerate(x) if i not in idx], dtype=object)
def quad(x, A): return sum((x[i] * A.r[i][j] * x[j] for i in range(len(x)) for j in range(len(x))), 0)

@P.contract(['depvars.nddistr.NDNormalDistr.__init__', 'depvars.nddistr.NDNormalDistr.pdf', 'depvars.nddistr.NDNormalDistr.eliminate', 'depvars.nddistr.NDNormalDistr.condition'], name='normal')
def normal(c):
    """density, marginal and conditional laws of up to three variables, for every list of variables in every order"""
    d = (2, 3)[c.choose(2, 'd')]
    mu = np.array([c.real('m%d' % i) for i in range(d)], dtype=object)
    S = [[None] * d for _ in range(d)]
    for i in range(d):
        for j in range(i, d): S[i][j] = S[j][i] = c.real('s%d%d' % (i, j))
    Sm = Mat(S)
    for k in range(1, d + 1):
        for sub in itertools.combinations(range(d), k): c.assume(det([[S[a][b] for b in sub] for a in sub]) > 0)
    laws = []
    class NormalLaw:
        def __init__(self, mu, sigma, sym=None): self.mu, self.sigma, self.sym = mu, sigma, sym; laws.append(self)
        def id(self): return id(self)
        def getSymname(self): return self.sym
        def range(self): return -math.inf, math.inf
    class NP_:
        def __getattr__(self, n): return getattr(N_np, n)
        def asarray(self, x, *a): return x if isinstance(x, Mat) else (np.array(list(x), dtype=object) if isinstance(x, (tuple, list)) else x)
        def squeeze(self, x): return x
    N_np = N.np
    fl = lambda x: x
    with patched((N, 'NormalDistr', NormalLaw), (N, 'np', NP_()), (N, 'asmatrix', matrix), (N, 'array', arr_of), (N, 'det', det), (N, 'delete', dele), (N, 'float', fl)):
        what = c.choose(3, 'what')
        n = N.NDNormalDistr(mu, Sm)
        x = [c.real('x%d' % i) for i in range(d)]
        if what == 0:
            from pyvc import mathfn
            for i in range(d):
                c.ensure(And(n.Vars[i].mu == mu[i], n.Vars[i].sigma * n.Vars[i].sigma == S[i][i]), 'default marginals')
            r = n.pdf(*x)
            z = [a - b for a, b in zip(x, mu)]
            logs = resolve_exp(c, r)
            c.ensure_eq(logs[0] * Num(term(det(S))), quad(z, Mat([[(-1) ** (i + j) * det([[S[a][b] for b in range(d) if b != i] for a in range(d) if a != j]) for j in range(d)] for i in range(d)])) * Num(z3.RealVal('-1/2')), 'half of the quadratic form of the inverse')
            roots = [a for a in found_apps(term(logs[1])) if 'sqrt' in a.decl().name().lower() or 'pow' in a.decl().name().lower()]
            if len(roots) != 1: raise Unsupported('one root expected, got %s' % logs[1])
            c.ensure_eq(logs[1], 1 / Num(roots[0]), 'one over the root')
            identity(c, Num(roots[0].arg(0)), det(S) * (2 * math.pi) ** d, 'normalised')
            return
        L = lists(d, 1, d - 1); l = L[c.choose(len(L), 'variables')]; keep = [i for i in range(d) if i not in l]
        if what == 1: m = n.eliminate(l)
        else: m = n.condition(l, *[x[i] for i in l])
        c.ensure(list(m.Vars) == [n.Vars[i] for i in keep] and m.d == len(keep), 'the remaining variables')
        c.ensure(len(m.mu) == len(keep) and m.Sigma.shape == (len(keep),) * 2, 'sizes')
        if what == 1:
            for a, i in enumerate(keep):
                c.ensure_eq(m.mu[a], mu[i], 'mean')
                for b, j in enumerate(keep): c.ensure_eq(m.Sigma.r[a][b], S[i][j], 'covariance of the remaining variables')
            return
        # the joint quadratic form splits and so does the determinant
        O = Mat([[S[a][b] for b in l] for a in l])
        names = mu.tolist() + x + [S[i][j] for i in range(d) for j in range(i, d)]
        zk = [x[i] - m.mu[a] for a, i in enumerate(keep)]; zo = [x[i] - mu[i] for i in l]
        identity(c, quad([a - b for a, b in zip(x, mu)], Sm.I), quad(zk, m.Sigma.I) + quad(zo, O.I), 'quadratic form of the conditional law')
        identity(c, det(S), det(m.Sigma) * det(O), 'determinant of the conditional covariance')

def identity(c, got, want, label):
    """equality of rational functions of the inputs, by normal forms"""
    import sympy
    from .c18 import rational_identity
    return rational_identity(c, term(got), term(want), True, label)
def resolve_exp(c, r):
    """(exponent, factor) of factor * exp(exponent)"""
    e = z3.simplify(term(val(r))); apps = []
    def walk(x):
        if z3.is_app(x) and 'exp' in x.decl().name().lower() and x.num_args() == 1 and not any(x.eq(y) for y in apps): apps.append(x)
        for y in x.children(): walk(y)
    walk(e)
    if len(apps) != 1: raise Unsupported('one exponential expected')
    return Num(apps[0].arg(0)), Num(z3.simplify(z3.substitute(e, (apps[0], z3.RealVal(1)))))
def found_apps(e):
    out = []
    def walk(x):
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(x.eq(y) for y in out): out.append(x)
        for y in x.children(): walk(y)
    walk(e); return out

@P.contract(['depvars.nddistr.NDNoisyFun.pdf', 'depvars.nddistr.NDNoisyFun.condition', 'depvars.nddistr.NDNoisyFun.eliminate'], name='noisy')
def noisy(c):
    """the noise density at the difference; zero outside the range of the noise; given values at their own places"""
    d = (1, 2)[c.choose(2, 'd')]
    I, w = world(c)
    with w:
        V = variables(c, d); z = Var(c, 9, 'z'); f, g = fsym('f', d), fsym('g')
        o = object.__new__(N.NDNoisyFun); J.__init__(o, None, V + [z]) if False else N.NDDistr.__init__(o, d + 1, V + [z])
        o.f, o.noise_distr, o.fun_value_var = f, g, z
        o.noise_a, o.noise_b = c.real('na'), c.real('nb'); c.assume(o.noise_a < o.noise_b)
        at = values(c, V + [z]); diff = at[z] - f(*[at[v] for v in V])
        want = If(And(diff >= o.noise_a, diff <= o.noise_b), g(diff), Num(z3.RealVal(0)))
        k = c.choose(3, 'what')
        if k == 0: return c.ensure_eq(call(o, at), want, 'the noise at the difference')
        if k == 1:
            n = c.int('n'); c.assume(n >= 1); X = [sym_array(c, 'a%d' % i, n) for i in range(d + 1)]; i = skolem_index(c, n)
            y = [a.at(i) for a in X]; e = y[-1] - f(*y[:-1])
            return c.ensure_eq(o.pdf(*X).at(i), If(And(e >= o.noise_a, e <= o.noise_b), g(e), Num(z3.RealVal(0))), 'the noise at the difference')
        L = lists(d + 1, 1, d); l = L[c.choose(len(L), 'given')]; on = [o.Vars[i] for i in l]
        r = o.condition(l if c.choose(2, 'by number') else on, *[at[v] for v in on])
        same_vars(c, r, [v for v in o.Vars if v not in on])
        got = val(r(*[cell(at[v]) for v in r.Vars]).at(0))
        c.ensure_eq(got, want, 'given values at their own places')
        c.ensure(isinstance(o.eliminate(z), N.NDOneFactor), 'a density in the value')

@P.contract(['depvars.nddistr.NDNoisyFun.__init__'], name='noisy_range')
def noisy_range(c):
    """the range of the value holds every value of the function plus noise, for a function monotonic in all variables"""
    I, w = world(c)
    with w:
        V = variables(c, 2); f = fsym('f', 2); e = Var(c, 5, 'e')
        up = c.choose(2, 'decreasing') == 0
        at = values(c, V); x = [at[v] for v in V]; nz = c.real('noise'); c.assume(And(nz >= e.lo, nz <= e.hi))
        lo, hi, mid = f(*[v.lo for v in V]), f(*[v.hi for v in V]), f(*x)
        c.assume(And(lo <= mid, mid <= hi) if up else And(hi <= mid, mid <= lo))
        new = []
        def RV_(sym=None, a=None, b=None): v = Var(c, 8, sym); v.lo, v.hi = a, b; new.append(v); return v
        with patched((N, 'RV', RV_), (N, 'concatenate', lambda ls: np.array([v for l in ls for v in l], dtype=object))):
            given_ = c.choose(2, 'given range')
            r = (c.real('ra'), c.real('rb'))
            if given_: c.assume(And(r[0] <= mid, mid <= r[1]))
            o = N.NDNoisyFun(f, list(V), e, value_sym='val', **({'f_range': r} if given_ else {}))
        c.ensure(And(o.a[2] <= mid + nz, mid + nz <= o.b[2]), 'every value of the function with noise')
        for i in range(2): c.ensure(And(o.a[i] == V[i].lo, o.b[i] == V[i].hi), 'ranges of the variables')
        c.ensure(o.fun_value_var is new[0] and list(o.Vars) == V + new and o.d == 3, 'variables')

@P.contract('depvars.nddistr.IJthOrderStatsNDDistr.pdf', name='order_statistics')
def order_statistics(c):
    """the joint density of the i-th and j-th of n"""
    S = [(n, i, j) for n in range(2, 7) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    n, i, j = S[c.choose(len(S), 'n i j')]
    o = object.__new__(N.IJthOrderStatsNDDistr); o.i, o.j, o.n = i, j, n
    o.f, o.F = fsym('f'), fsym('F'); x, y = c.real('x'), c.real('y')
    Fx, Fy = o.F(x), o.F(y); c.assume(And(Fx > 0, Fy < 1, Fx < Fy) if True else True)
    less = c.choose(2, 'order') == 0
    c.assume(x < y if less else x >= y)
    k = math.factorial(n) // (math.factorial(i - 1) * math.factorial(j - i - 1) * math.factorial(n - j))
    w = Num(z3.RealVal(k))
    for b, e in ((Fx, i - 1), (Fy - Fx, j - i - 1), (1 - Fy, n - j)):
        for _ in range(e): w = w * b
    c.ensure_eq(val(o.pdf(x, y)), w * o.f(x) * o.f(y) if less else 0, 'joint density')
