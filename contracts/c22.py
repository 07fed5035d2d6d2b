"""C22  standard laws: textbook densities, supports, pieces and samplers, for every admissible parameter"""
import math
import z3
from pyvc.spec import *
from pyvc.core import Num, term, SBool, mkbool, is_sym
from . import c04 as sums
P = Registry()
S, D = sums.S, sums.D
ST = mod('pacal.standard_distr')
M = mathfn
F, POW = M.F, M.POW

# ---------------------------------------------------------------- logarithm of a positive expression
class NotPositive(Exception): pass

def factors_signed(t, e=1):
    k, ch = t.decl().kind(), t.children()
    if k == z3.Z3_OP_MUL: return [x for u in ch for x in factors_signed(u, e)]
    if k == z3.Z3_OP_DIV: return factors_signed(ch[0], e) + factors_signed(ch[1], -e)
    return [(t, e)]
def factors(t): return [u for u, e in factors_signed(t)]

def logof(c, t, depth=0):
    """log t as a linear combination of exponents and logarithms of sums; every factor is proved positive (laws of exp and log)"""
    t = z3.simplify(t) if depth == 0 else t
    k = t.decl().kind()
    if z3.is_rational_value(t):
        v = t.as_fraction()
        if v <= 0: raise NotPositive(t)
        return z3.RealVal(repr(math.log(v)))
    ch = t.children()
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        r, neg = [], 0
        for u, e in factors_signed(t):
            if z3.is_rational_value(u):
                v = u.as_fraction()
                if v == 0: raise NotPositive(t)
                neg += v < 0
                r.append(e * z3.RealVal(repr(math.log(abs(v))))); continue
            if (not u.children() or k_add(u)) and not c.prove_now(u > 0) and c.prove_now(u < 0):
                neg += 1; r.append(e * F['log'](norm(-expand(c, u)))); continue
            r.append(e * logof(c, u, depth + 1))
        if neg % 2: raise NotPositive(t)
        return z3.Sum(*r)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]): return ch[1] * logof(c, ch[0], depth + 1)
    if z3.is_app(t) and ch:
        if t.decl().eq(F['exp']): return expand(c, ch[0])
        if t.decl().eq(F['sqrt']): return logof(c, ch[0], depth + 1) / 2
        if t.decl().eq(POW): return expand(c, ch[1]) * logof(c, ch[0], depth + 1)
    return factor(c, t)

def factor(c, t):
    if k_add(t):
        t2 = common(t)
        if t2 is not None: return z3.Sum(*[logof(c, u, 1) for u in t2])
    if not c.prove_now(t > 0): raise NotPositive(t)
    e = expand(c, t)
    return F['log'](z3.simplify(e, som=True, sort_sums=True))

def k_add(t): return t.decl().kind() == z3.Z3_OP_ADD
def common(t):
    """x*a + x*b -> [x, a+b] when one symbol divides every summand"""
    terms = []
    for u in t.children():
        u = [u] if u.decl().kind() != z3.Z3_OP_MUL else list(u.children())
        terms.append(u)
    for f in terms[0]:
        if z3.is_rational_value(f): continue
        if all(any(f.eq(g) for g in u) for u in terms):
            rest = []
            for u in terms:
                u = list(u); j = next(i for i, g in enumerate(u) if f.eq(g)); del u[j]
                rest.append(z3.Product(*u) if len(u) > 1 else u[0] if u else z3.RealVal(1))
            return [f, z3.Sum(*rest)]
    return None

def expand(c, t):
    """the exponent with log, power and exp inside it brought to normal form"""
    ch = t.children()
    if not ch: return t
    d = t.decl()
    if d.eq(F['log']): return logof(c, z3.simplify(ch[0]), 1)
    if d.eq(POW): return F['exp'](norm(expand(c, ch[1]) * logof(c, ch[0], 1)))
    if d.eq(F['exp']): return F['exp'](norm(expand(c, ch[0])))
    return d(*[expand(c, u) for u in ch])

def norm(t): return z3.simplify(t, som=True, sort_sums=True)

def resolve(c, t):
    """conditionals decided by the path condition are replaced by the branch taken"""
    seen = {}
    def go(u):
        k = u.get_id()
        if k not in seen:
            if u.decl().kind() == z3.Z3_OP_ITE and z3.is_real(u):
                q = u.children()
                if c.prove_now(q[0]): v = go(q[1])
                elif c.prove_now(z3.Not(q[0])): v = go(q[2])
                else: v = z3.If(q[0], go(q[1]), go(q[2]))
            else:
                ch = u.children()
                v = u.decl()(*[go(x) for x in ch]) if ch else u
            seen[k] = (u, v)
        return seen[k][1]
    return go(t)

def undecided(t):
    if t.decl().kind() == z3.Z3_OP_ITE: return t.children()[0]
    for u in t.children():
        q = undecided(u)
        if q is not None: return q

def instantiate(t):
    if t.decl().eq(F['log']): M._inst('log', t.children()[0])
    for u in t.children(): instantiate(u)

def same(c, got, want, label, note=None, negligible=False):
    """got == want for positive values, decided on their logarithms; or directly by arithmetic"""
    if not is_sym(got) and not is_sym(want):
        return c.ensure(got == want or abs(got - want) <= 1e-13 * abs(want), label, note)
    g, w = resolve(c, term(got)), term(want)
    for _ in range(8):
        q = undecided(g)
        if q is None: break
        bool(mkbool(q)); g = resolve(c, g)
    if negligible and z3.is_rational_value(z3.simplify(g)): return c.ensure(mkbool(z3.simplify(g) == 0), label, note)
    if c.prove_now(g == w): return c.ensure(mkbool(g == w), label, note)
    try:
        d = z3.simplify(logof(c, g) - logof(c, w), som=True, sort_sums=True)
    except NotPositive as e:
        return c.ensure(mkbool(g == w), label, note or 'not positive: %s' % e)
    instantiate(d)
    if c.prove_now(z3.And(d <= 1e-11, d >= -1e-11)): return c.ensure(True, label, note)
    return c.ensure(mkbool(z3.And(d <= 1e-11, d >= -1e-11)), label, note)

# ---------------------------------------------------------------- samplers of numpy.random, by standard ghosts
class Draws:
    def __init__(self, c, n): self.c, self.n, self.rec = c, n, []
    def fresh(self, fam, shape, n, lo=None, hi=None):
        c = self.c
        nm = 'z%s%d' % (fam, len(self.rec))
        c.ensure(n is self.n or (n is not None and self.n is not None and c.prove_now(term(n) == term(self.n))), 'sampler asked for the number of values requested')
        if n is None: v = at = c.real(nm)
        else:
            v = sym_array(c, nm); c.assume(v.n == n)
            i = skolem_index(c, v.n) if not hasattr(self, 'i') else self.i
            self.i = i; at = v.at(i)
        if lo is not None: c.assume(at > lo)
        if hi is not None: c.assume(at < hi)
        if lo is None: c.assume(at != 0)                      # with probability one
        self.rec.append((fam, shape, at))
        return v
    def prims(self):
        return dict(normal=lambda m=0.0, s=1.0, n=None: m + s * self.fresh('N', (), n), uniform=lambda a=0.0, b=1.0, n=None: a + (b - a) * self.fresh('U', (), n, 0, 1),
            gamma=lambda k, t=1.0, n=None: t * self.fresh('G', (k,), n, 0), exponential=lambda s=1.0, n=None: s * self.fresh('E', (), n, 0),
            pareto=lambda a, n=None: M.exp(self.fresh('E', (), n, 0) / a) - 1, weibull=lambda k, n=None: self.fresh('E', (), n, 0) ** (1.0 / k),
            gumbel=lambda m=0.0, s=1.0, n=None: m - s * M.log(self.fresh('E', (), n, 0)), laplace=lambda m=0.0, s=1.0, n=None: m + s * self.fresh('L', (), n),
            chisquare=lambda d, n=None: 2 * self.fresh('G', (d / 2,), n, 0), standard_t=lambda d, n=None: self.fresh('T', (d,), n), f_rand=lambda a, b, n=None: self.fresh('F', (a, b), n, 0),
            beta=lambda a, b, n=None: self.fresh('B', (a, b), n, 0, 1))

def exponential_of(fam, z): return z if fam == 'E' else -M.log(z) if fam == 'U' else None

# ---------------------------------------------------------------- the laws
class Spec:
    """par: admissible parameters; pdf(a, x) inside of the open support; lo, hi: its ends; ends: values there; draw: textbook representation"""
    def __init__(self, par, pdf, sup, draw, at=None, poles=None, negl=None): self.negl = negl; self.par, self.pdf, self.sup, self.draw, self.at, self.poles = par, pdf, sup, draw, at, poles

def reals(*conds):
    def make(c):
        v = []
        for nm, f in conds:
            x = c.real(nm)
            if f is not None: c.assume(f(x, *v))
            v.append(x)
        return v
    return make
pos = lambda x, *_: x > 0
free = None
half = lambda v: v / 2
def jump(k, v):
    """value at an end where the density is like x**(k-1)"""
    if k < 1: return INF
    if k == 1: return v
    return 0
lg = M.gammaln
LINE = lambda a: (-INF, INF)
HALF = lambda a: (0, INF)
def affine(fam, shape, f): return lambda c, a, z: [(fam, shape(*a), f(a, z))]

LAWS = {
 'NormalDistr': Spec(reals(('mu', free), ('sigma', pos)), lambda a, x: M.exp(-((x - a[0]) / a[1]) ** 2 / 2) / (a[1] * math.sqrt(2 * math.pi)), LINE, {'N': ((), lambda a, z: a[0] + a[1] * z)}),
 'CauchyDistr': Spec(reals(('gamma', pos), ('center', free)), lambda a, x: a[0] / (math.pi * (a[0] ** 2 + (x - a[1]) ** 2)), LINE, {'NN': ((), lambda a, z, w: a[1] + a[0] * z / w)}),
 'ChiSquareDistr': Spec(reals(('df', pos)), lambda a, x: x ** (a[0] / 2 - 1) * M.exp(-x / 2) / (M.exp(math.log(2) * a[0] / 2) * M.exp(lg(a[0] / 2))), HALF, {'G': (lambda a: (a[0] / 2,), lambda a, z: 2 * z)},
                        at=(lambda a: jump(a[0] / 2, 0.5), None), poles=(lambda a: a[0] < 2, None)),
 'ExponentialDistr': Spec(reals(('lambda', pos)), lambda a, x: a[0] * M.exp(-a[0] * x), HALF, {'E': ((), lambda a, e: e / a[0])}, at=(lambda a: a[0], None)),
 'GammaDistr': Spec(reals(('k', pos), ('theta', pos)), lambda a, x: x ** (a[0] - 1) * M.exp(-x / a[1]) / (a[1] ** a[0] * M.exp(lg(a[0]))), HALF, {'G': (lambda a: (a[0],), lambda a, z: a[1] * z)},
                    at=(lambda a: jump(a[0], 1 / a[1]), None), poles=(lambda a: a[0] < 1, None)),
 'BetaDistr': Spec(reals(('alpha', pos), ('beta', pos)), lambda a, x: x ** (a[0] - 1) * (1 - x) ** (a[1] - 1) * M.exp(lg(a[0] + a[1])) / (M.exp(lg(a[0])) * M.exp(lg(a[1]))), lambda a: (0, 1), {'B': (lambda a: (a[0], a[1]), lambda a, z: z)},
                   at=(lambda a: jump(a[0], a[1]), lambda a: jump(a[1], a[0])), poles=(lambda a: a[0] < 1 - 1e-2, lambda a: a[1] < 1 - 1e-2)),
 'ParetoDistr': Spec(reals(('alpha', pos), ('xmin', pos)), lambda a, x: a[0] / a[1] * (a[1] / x) ** (a[0] + 1), lambda a: (a[1], INF), {'E': ((), lambda a, e: a[1] * M.exp(e / a[0]))}, at=(lambda a: a[0] / a[1], None)),
 'LevyDistr': Spec(reals(('c', pos), ('xmin', free)), lambda a, x: M.sqrt(a[0] / (2 * math.pi)) * M.exp(-a[0] / (2 * (x - a[1]))) * M.exp(-1.5 * M.log(x - a[1])), lambda a: (a[1], INF), {'N': ((), lambda a, z: a[1] + a[0] / z ** 2)}, at=(lambda a: 0, None)),
 'LaplaceDistr': Spec(reals(('lambda', pos), ('mu', free)), lambda a, x: M.exp(-abs(x - a[1]) / a[0]) / (2 * a[0]), LINE, {'L': ((), lambda a, z: a[1] + a[0] * z)}),
 'StudentTDistr': Spec(reals(('df', pos)), lambda a, x: (1 + x * x / a[0]) ** (-(a[0] + 1) / 2) * M.exp(lg((a[0] + 1) / 2)) / (M.sqrt(a[0] * math.pi) * M.exp(lg(a[0] / 2))), LINE, {'T': (lambda a: (a[0],), lambda a, z: z)}),
 'SemicircleDistr': Spec(reals(('R', pos)), lambda a, x: 2 / (math.pi * a[0] ** 2) * M.sqrt(a[0] ** 2 - x * x), lambda a: (-a[0], a[0]), {'UU': ((), lambda a, u, v: a[0] * M.sqrt(u) * M.cos(math.pi * v))}, at=(lambda a: 0, lambda a: 0), poles=(lambda a: True, lambda a: True)),
 'FDistr': Spec(reals(('d1', pos), ('d2', pos)), lambda a, x: a[0] ** (a[0] / 2) * a[1] ** (a[1] / 2) * x ** (a[0] / 2 - 1) * (a[0] * x + a[1]) ** (-(a[0] + a[1]) / 2) * M.exp(lg((a[0] + a[1]) / 2)) / (M.exp(lg(a[0] / 2)) * M.exp(lg(a[1] / 2))),
                HALF, {'F': (lambda a: (a[0], a[1]), lambda a, z: z)}, at=(lambda a: jump(a[0] / 2, 1), None), poles=(lambda a: a[0] < 2, None)),
 'WeibullDistr': Spec(reals(('k', pos), ('lambda', pos)), lambda a, x: a[0] / a[1] * (x / a[1]) ** (a[0] - 1) * M.exp(-(x / a[1]) ** a[0]), HALF, {'E': ((), lambda a, e: a[1] * M.exp(M.log(e) / a[0]))}, at=(lambda a: jump(a[0], a[0] / a[1]), None), poles=(lambda a: a[0] < 1, None)),
 'GumbelDistr': Spec(reals(('mu', free), ('sigma', pos)), lambda a, x: M.exp((a[0] - x) / a[1] - M.exp((a[0] - x) / a[1])) / a[1], LINE, {'E': ((), lambda a, e: a[0] - a[1] * M.log(e))}, negl=lambda a, x: a[0] - x > 700 * a[1]),     # exp(-exp(700)) is below the smallest number
 'FrechetDistr': Spec(reals(('alpha', pos), ('s', pos), ('m', free)), lambda a, x: a[0] / a[1] * ((x - a[2]) / a[1]) ** (-1 - a[0]) * M.exp(-((x - a[2]) / a[1]) ** (-a[0])), lambda a: (a[2], INF), {'E': ((), lambda a, e: a[2] + a[1] * M.exp(-M.log(e) / a[0]))}, at=(lambda a: 0, None)),
 'LogLogisticDistr': Spec(reals(('k', pos), ('s', pos)), lambda a, x: a[0] * a[1] ** a[0] * x ** (a[0] - 1) / (a[1] ** a[0] + x ** a[0]) ** 2, HALF, {'U': ((), lambda a, u: a[1] * (u / (1 - u)) ** (1 / a[0]))}, at=(lambda a: jump(a[0], 1 / a[1]), None), poles=(lambda a: a[0] < 1, None)),
 'MollifierDistr': Spec(reals(('epsilon', pos)), lambda a, x: 2.252283621043581 / a[0] * M.exp(-1 / (1 - (x / a[0]) ** 2)), lambda a: (-a[0], a[0]), None, at=(lambda a: 0, lambda a: 0)),
}
def make(c, n):
    sp = LAWS[n]
    a = sp.par(c)
    d = getattr(ST, n)(*a)
    if n == 'LogLogisticDistr': d.pdf = Zero(d, c)
    return sp, a, d

class Zero:
    """numbers turned into arrays without dimensions (numpy.asarray) behave as arrays of one element"""
    def __init__(self, d, c): self.d, self.f, self.c, self.__self__ = d, type(d).pdf, c, d
    def __call__(self, x):
        if not isinstance(x, Num): return self.f(self.d, x)
        old = ST.np.asarray
        def asarray(v, *a, **k): return LazyArr(1, lambda i: v) if isinstance(v, Num) else old(v, *a, **k)
        with patched((ST.np, 'asarray', asarray)):
            r = self.f(self.d, x)
        return r.at(0) if isinstance(r, LazyArr) else r

def value(c, sp, a, x, v, label):
    """v is the density at x (x may be anywhere)"""
    lo, hi = sp.sup(a)
    if inside(x, lo, hi): return same(c, v, sp.pdf(a, x), label, negligible=sp.negl is not None and bool(sp.negl(a, x)))
    for e, k in ((lo, 0), (hi, 1)):
        if not is_sym(e) and math.isinf(e): continue
        if x == e:
            if sp.at is None or sp.at[k] is None: return
            w = sp.at[k](a)
            if w is INF: return c.ensure(v is INF or (not is_sym(v) and float(v) == INF), label + ' (end of the support)')
            return same(c, v, w, label + ' (end of the support)') if not (not is_sym(w) and w == 0) else c.ensure_eq(v, 0, label + ' (end of the support)')
    return c.ensure_eq(v, 0, label + ' (outside of the support)')

def register(n):
    sp = LAWS[n]
    @P.contract('standard_distr.%s.pdf' % n, name=n + '_scalar')
    def scalar(c):
        sp, a, d = make(c, n)
        x = c.real('x')
        value(c, sp, a, x, d.pdf(x), 'density of a scalar')
    @P.contract('standard_distr.%s.pdf' % n, name=n + '_array')
    def array(c):
        sp, a, d = make(c, n)
        x, v = at_array(c, d.pdf)
        value(c, sp, a, x, v, 'density of an array')
    @P.contract(['standard_distr.%s.init_piecewise_pdf' % n, 'standard_distr.%s.range' % n], name=n + '_pieces')
    def pieces(c):
        sp, a, d = make(c, n)
        covers(c, sp, a, d)
    if sp.draw is not None:
        @P.contract('standard_distr.%s.rand_raw' % n, name=n + '_sampler')
        def sampler(c):
            sp, a, d = make(c, n)
            m = None if c.choose(2, 'number') == 0 else c.int('n')
            if m is not None: c.assume(m >= 1)
            g = Draws(c, m)
            with patched(*[(ST, k, f) for k, f in g.prims().items() if hasattr(ST, k)]):
                r = d.rand_raw(m)
            fam = ''.join(x[0] for x in g.rec)
            z = [x[2] for x in g.rec]
            if fam == 'U' and 'E' in sp.draw and 'U' not in sp.draw: fam, z = 'E', [-M.log(z[0])]; c.assume(z[0] > 0)
            if fam not in sp.draw: return c.fail('a sampler of the law', 'draws %s' % fam)
            sh, f = sp.draw[fam]
            for u, w in zip(g.rec[0][1], sh(a) if callable(sh) else sh): c.ensure_eq(u, w, 'shape parameter of the sampler')
            want = f(a, *z)
            got = r if m is None else r.at(g.i)
            c.ensure(m is None or c.prove_now(term(r.n) == term(m)), 'number of values')
            lo = sp.sup(a)[0]
            if is_sym(lo) or not math.isinf(lo) and fam not in ('B', 'UU'): same(c, got - lo, want - lo, 'value of the sample')
            else: c.ensure_eq(got, want, 'value of the sample')

def covers(c, sp, a, d):
    lo, hi = sp.sup(a)
    r = d.range()
    c.ensure_eq(r[0], lo, 'range'); c.ensure_eq(r[1], hi, 'range')
    seg = d.get_piecewise_pdf().segments
    c.ensure_eq(seg[0].a, lo, 'pieces start at the lower end of the support')
    c.ensure_eq(seg[-1].b, hi, 'pieces end at the upper end of the support')
    for s, t in zip(seg, seg[1:]): c.ensure_eq(s.b, t.a, 'no gaps between the pieces')
    k = c.choose(len(seg), 'piece')
    s = seg[k]
    cls = S.MInfSegment if not is_sym(s.a) and math.isinf(s.a) else S.PInfSegment if not is_sym(s.b) and math.isinf(s.b) else None
    c.ensure(type(s) is cls if cls is not None else type(s) in (S.Segment, S.SegmentWithPole, S.ConstSegment), 'infinite pieces and only they are of an infinite type')
    if cls is None: c.ensure(s.a < s.b, 'pieces are not empty')
    if sp.poles is not None and k == 0 and sp.poles[0] is not None:
        q = sp.poles[0](a)
        if q: c.ensure(type(s) is S.SegmentWithPole and s.left_pole, 'singularity at the lower end is declared')
    if sp.poles is not None and k == len(seg) - 1 and sp.poles[1] is not None:
        q = sp.poles[1](a)
        if q: c.ensure(type(s) is S.SegmentWithPole and not s.left_pole, 'singularity at the upper end is declared')
    x = c.real('x')
    c.assume(inside(x, s.a, s.b))
    value(c, sp, a, x, s.f(x), 'piece is the density')

for _n in LAWS: register(_n)

# ---------------------------------------------------------------- laws given by their pieces
def one_piece(c, d, spec, lo, hi):
    r = d.range()
    c.ensure_eq(r[0], lo, 'range'); c.ensure_eq(r[1], hi, 'range')
    seg = d.get_piecewise_pdf().segments
    c.ensure(len(seg) >= 1, 'a law has a piece')
    c.ensure_eq(seg[0].a, lo, 'pieces start at the lower end of the support'); c.ensure_eq(seg[-1].b, hi, 'pieces end at the upper end of the support')
    for s, t in zip(seg, seg[1:]): c.ensure_eq(s.b, t.a, 'no gaps between the pieces')
    for s in seg: c.ensure(s.a < s.b, 'pieces are not empty')
    s = seg[c.choose(len(seg), 'piece')]
    x = c.real('x'); c.assume(And(x > s.a, x < s.b))
    c.ensure_eq(s.f(x), spec(x), 'piece is the density')
    t, v = at_array(c, s.f)
    c.assume(And(t > s.a, t < s.b))
    c.ensure_eq(v, spec(t), 'piece is the density (array)')
    y = c.real('y')
    c.ensure_eq(d.pdf(y), spec(y) if inside(y, s.a, s.b) else d.pdf(y), 'density of the law')
    if Or(y < lo, y > hi): c.ensure_eq(d.pdf(y), 0, 'density outside of the support')

@P.contract(['standard_distr.UniformDistr.init_piecewise_pdf', 'standard_distr.UniformDistr.range'], name='UniformDistr_pieces')
def uniform_pieces(c):
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    one_piece(c, ST.UniformDistr(a, b), lambda x: 1 / (b - a), a, b)
@P.contract('standard_distr.UniformDistr.rand_raw', name='UniformDistr_sampler')
def uniform_sampler(c):
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    m = None if c.choose(2, 'number') == 0 else c.int('n')
    if m is not None: c.assume(m >= 1)
    g = Draws(c, m)
    with patched(*[(ST, k, f) for k, f in g.prims().items() if hasattr(ST, k)]): r = ST.UniformDistr(a, b).rand_raw(m)
    c.ensure([x[0] for x in g.rec] == ['U'], 'a sampler of the law')
    z = g.rec[0][2]; v = r if m is None else r.at(g.i)
    c.ensure(Or(v == a + (b - a) * z, v == b - (b - a) * z), 'value of the sample')

@P.contract(['standard_distr.TrapezoidalDistr.init_piecewise_pdf', 'standard_distr.TrapezoidalDistr.range'], name='TrapezoidalDistr_pieces')
def trapezoid(c):
    a, b, e, d = [c.real(k) for k in 'abcd']
    c.assume(And(a <= b, b <= e, e <= d, a < d))
    def spec(x):
        u = 2 / (d + e - a - b)
        if x < b: return u * (x - a) / (b - a)
        if x <= e: return u
        return u * (d - x) / (d - e)
    one_piece(c, ST.TrapezoidalDistr(a, b, e, d), spec, a, d)

def weights(c, d, want, label=''):
    got = {}
    for s in d.get_piecewise_pdf().segments:
        if not s.isDirac():
            x = c.real('between'); c.ensure_eq(s.f(x) if callable(s.f) else s.f, 0, 'no density between the atoms'); continue
        got[s.a if not is_sym(s.a) else None] = s.f
    c.ensure(sorted(got) == sorted(want), 'atoms', note='%r' % sorted(got))
    for k in want:
        if k in got: c.ensure_eq(got[k], want[k], 'weight of an atom')

def power(x, n):
    r = 1.0
    for _ in range(n): r = r * x
    return r
@P.contract('standard_distr.BinomialDistr.__init__', name='BinomialDistr')
def binomial(c):
    n = 1 + c.choose(5, 'n')
    p = c.real('p'); c.assume(And(p >= 0, p <= 1))
    if c.choose(2, 'interior') == 0:
        c.assume(And(p > 0, p < 1))
    else: c.assume(Or(p == 0, p == 1))
    weights(c, ST.BinomialDistr(n, p), {k: math.comb(n, k) * power(p, k) * power(1 - p, n - k) for k in range(n + 1)})
@P.contract('standard_distr.BernoulliDistr.__init__', name='BernoulliDistr')
def bernoulli(c):
    p = c.real('p'); c.assume(And(p >= 0, p <= 1))
    weights(c, ST.BernoulliDistr(p), {0: 1 - p, 1: p})
@P.contract('standard_distr.PoissonDistr.__init__', name='PoissonDistr')
def poisson(c):
    l = c.real('lambda'); c.assume(And(l > 0, l <= 1))
    d = ST.PoissonDistr(l, trunk_eps=0.05)
    n = len(d.get_piecewise_pdf().getDiracs())
    c.ensure(n <= 7, 'few atoms')
    weights(c, d, {float(k): M.exp(-l) * power(l, k) / math.factorial(k) for k in range(n)})
    S_ = sum(M.exp(-l) * power(l, k) / math.factorial(k) for k in range(n))
    last = M.exp(-l) * power(l, n - 1) / math.factorial(n - 1)
    c.ensure(Or(1 - S_ <= 0.05, last <= 0.025), 'atoms are dropped only once the weights are negligible')
@P.contract('standard_distr.TruncDiscreteFunDistr.__init__', name='TruncDiscreteFunDistr')
def truncated(c):
    w = [c.real('w%d' % k) for k in range(4)]
    for x in w: c.assume(x > 0)
    c.assume(And(w[0] + w[1] + w[2] + w[3] == 1))
    eps = c.real('eps'); c.assume(And(eps > 0, eps < 1))
    d = ST.TruncDiscreteFunDistr(lambda k: w[int(k)] if k < 4 else 0.0, trunk_eps=eps)
    n = len(d.get_piecewise_pdf().getDiracs())
    T = sum(w[:n])
    c.ensure(1 - T < eps, 'the weights dropped are negligible')
    weights(c, d, {float(k): w[k] / T for k in range(n)})
@P.contract(['standard_distr.ZeroDistr.__init__', 'standard_distr.OneDistr.__init__'], name='points')
def points(c):
    weights(c, ST.ZeroDistr(), {0.0: 1}); weights(c, ST.OneDistr(), {1.0: 1})

# ---------------------------------------------------------------- noncentral laws are the compositions of the textbooks
NC = mod('pacal.stats.noncentral_distr')
@P.contract(['stats.noncentral_distr.NoncentralChiSquareDistr.__init__', 'stats.noncentral_distr.NoncentralTDistr.__init__', 'stats.noncentral_distr.NoncentralFDistr.__init__', 'stats.noncentral_distr.NoncentralBetaDistr.__init__'], name='noncentral')
def noncentral(c):
    k = c.choose(4, 'law')
    df, l = c.real('df'), c.real('lambda'); c.assume(And(df >= 1, l >= 0))
    m = c.real('df2'); c.assume(m > 0)
    if k == 0: d = NC.NoncentralChiSquareDistr(df, l)
    if k == 1: d = NC.NoncentralTDistr(df, l)
    if k == 2: d = NC.NoncentralFDistr(df, m, l)
    if k == 3: c.assume(2 * df >= 1); d = NC.NoncentralBetaDistr(df, m, l)
    g = Draws(c, None)
    with patched(*[(ST, q, f) for q, f in g.prims().items() if hasattr(ST, q)]): r = d.rand(None)
    N = [x for x in g.rec if x[0] == 'N']; G = [x for x in g.rec if x[0] == 'G']
    def nchi(df):
        """(Z + sqrt(lambda))**2 + chi-square(df - 1)"""
        v = (N[0][2] + M.sqrt(l)) ** 2
        if df > 1:
            c.ensure_eq(2 * G[-1][1][0], df - 1, 'remaining degrees of freedom')
            return v + 2 * G[-1][2], G[:-1]
        return v, G
    def chi(G, df):
        c.ensure(len(G) == 1, 'one further chi-square law'); c.ensure_eq(2 * G[0][1][0], df, 'degrees of freedom')
        return 2 * G[0][2]
    c.ensure(len(N) == 1, 'one normal law')
    if k == 0:
        v, rest = nchi(df); c.ensure(not rest, 'no further law'); c.ensure_eq(r, v, 'noncentral chi-square law')
    if k == 1:
        u, den = N[0][2] + l, M.sqrt(chi(G, df) / df)
        if u > 0 or u < 0: same(c, r / u, 1 / den, 'noncentral t law')
    if k == 2:
        if df > 1: G.reverse() if c.prove_now(term(2 * G[0][1][0]) == term(df - 1)) else None
        v, rest = nchi(df); c.ensure_eq(r, (v / df) / (chi(rest, m) / m), 'noncentral F law')
    if k == 3:
        v, rest = nchi(2 * df); c.ensure_eq(r, v / (v + chi(rest, 2 * m)), 'noncentral beta law')
