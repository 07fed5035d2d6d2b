"""C08  distribution functions integrate the density, quantiles invert them"""
import itertools
from pyvc import integ
from pyvc.spec import *
from pyvc.integ import Target, check_integrals
from . import c04 as sums
P = Registry()
S, D = sums.S, sums.D
CONT = [k for k in KINDS if k != 'dirac']
CUM = {'finite': 'Segment', 'minf': 'MInfSegment', 'pinf': 'PInfSegment', 'lpole': 'SegmentWithPole', 'rpole': 'SegmentWithPole', 'dirac': 'DiracSegment'}

def upto(s, x): return lambda t: And(inside(t, s._a, s._b), t < x)
def density(s): return lambda t: s._f(t)

# ---------------------------------------------------------------- one piece
def within(c, s, x, closed=True):
    for e, lo in ((s._a, True), (s._b, False)):
        if not isinf(e): c.assume((e <= x if lo else x <= e) if closed else (e < x if lo else x < e))

for kind in CONT:
    def h(c, kind=kind):
        s = sym_segment(c, S, 's', [kind])
        y0 = c.real('y0')
        r = s.cumint(y0)
        c.ensure_eq(r.a, s._a, 'cumulative piece: left end'); c.ensure_eq(r.b, s._b, 'cumulative piece: right end')
        c.ensure(bool(r.isMInf()) == (kind == 'minf') and bool(r.isPInf()) == (kind == 'pinf'), 'cumulative piece: infinite ends')
        x = c.real('x'); within(c, s, x)
        def check(x, v, lab):
            if kind == 'pinf': check_integrals(c, v, [Target(lambda t: And(inside(t, s._a, s._b), t > x), lambda t: -s._f(t))], lab, const=y0)
            else: check_integrals(c, v, [Target(upto(s, x), density(s))], lab, const=y0)
        check(x, r.f(x), 'value (scalar)')
        X = sym_array(c, 'X'); i = skolem_index(c, X.n)
        xi = X.at(i); within(c, s, xi)
        v = r.f(X)
        v = v.at(i) if isinstance(v, LazyArr) else v.elem(i) if isinstance(v, SymSeq) else v
        check(xi, v, 'value (array of any length)')
    P.contract(['segments.%s.cumint' % CUM[kind], 'segments.%s.integrate' % CUM[kind], 'segments.%s.segIntegral' % ('Segment' if 'Pole' in CUM[kind] else CUM[kind]), 'segments.call_segint' + ('2' if kind == 'pinf' else '')],
               name='cumulative_piece[%s]' % kind)(h)

# ---------------------------------------------------------------- integral of a piece between two arbitrary points
for kind in KINDS:
    def h(c, kind=kind):
        s = sym_segment(c, S, 's', [kind])
        la, lb = c.choose(2, 'lower'), c.choose(2, 'upper')
        a = -INF if la else c.real('a')
        b = INF if lb else c.real('b')
        if not la and not lb: c.assume(a <= b)
        if kind == 'dirac':
            if not la: c.assume(a != s._a)
            if not lb: c.assume(b != s._a)
            return c.ensure_eq(s.integrate(a, b), arrays.select(inside(s._a, a, b), s._f, 0.0), 'mass of an atom in an interval')
        I = s.integrate(a, b)
        check_integrals(c, I, [Target(lambda t: And(inside(t, s._a, s._b), inside(t, a, b)), density(s))], 'integral over an interval')
    P.contract('segments.%s.integrate' % CUM[kind], name='integral_of_a_piece[%s]' % kind)(h)

@P.contract('segments.PiecewiseFunction.integrate')
def integral_of_container(c):
    """the integral of a function with any number of pieces is the sum of the integrals of the pieces over the same interval"""
    segs = sym_segments(c, S, 's')
    f = piecewise(S, 'PiecewiseFunction', segs)
    which = c.choose(4, 'limits')
    a = None if which & 1 else c.real('a'); b = None if which & 2 else c.real('b')
    seen = []
    def integ(self, *p):
        v = c.real('I'); seen.append((self, p)); core.CTX.effects.append(('integrate', self, p, v)); return v
    with patched(*[(k, 'integrate', integ) for k in (S.Segment, S.MInfSegment, S.PInfSegment, S.SegmentWithPole, S.DiracSegment)]):
        r = f.integrate(a, b)
    if not is_sym(r): return c.ensure(False, 'integral: sum over the pieces')
    F = c.folds.get(str((r - 0.0).t))
    c.ensure(F is not None and F.seq is segs, 'integral: sum over all the pieces', str(r))
    if F is None: return
    for cs in F.cases:
        with loops.under(cs.conds):
            ev = [e for e in cs.effects if e[0] == 'integrate']
            ok = len(ev) == 1 and ev[0][1] is cs.elem
            c.ensure(ok, 'integral: one term per piece')
            if not ok: continue
            lo, hi = ev[0][2]
            c.ensure(And(lo == (-INF if a is None else a), hi == (INF if b is None else b)), 'integral: the interval')
            c.ensure_eq(Num(cs.delta), ev[0][3], 'integral: the term is the integral of the piece')

# ---------------------------------------------------------------- any number of pieces
def mass(s): return lambda t: inside(t, s._a, s._b)

def cumulative(c, peel):
    segs = sym_segments(c, S, 's', middle=None if peel == 'loop' else 'finite'); segs.peel = peel
    c.assume(segs.n >= (2 if peel == 'loop' else 1))
    if peel != 'loop': c.pc.append(segs.K(z3.simplify(segs.n.t - 1)) == KINDS.index(peel))
    f = piecewise(S, 'PiecewiseFunction', segs)
    class First:
        """the leftmost piece of the cumulative function (contract of addSegment: the container is ordered)"""
        def __getitem__(self, k):
            assert k == 0
            s = segs.elem(z3.IntVal(0))
            return S.MInfSegment(s._b, c.fun('first')) if s._k == 'minf' else S.Segment(s._a, s._b, c.fun('first'))
    class Cum(S.CumulativePiecewiseFunction):
        def __init__(self, segments): self.segments = First()
        def addSegment(self, seg): core.CTX.effects.append(('add', self, seg))
    def cumint(self, y0=0.0):
        # contract of SegmentWithPole.cumint (cumulative_piece[lpole], [rpole])
        return S.Segment(self.a, self.b, lambda x: y0 + integ.new_integral(self.f, self.a, x))
    with patched((S, 'CumulativePiecewiseFunction', Cum), (S.SegmentWithPole, 'cumint', cumint)):
        try: return segs, f.cumint()
        except loops.LoopDone: return segs, None

def piece(c, s, prev_b, acc, ad):
    """pieces added for the piece s, when the mass before is acc and the previous piece ended at prev_b; what is left of the list"""
    if prev_b is not None and bool(prev_b < s._a):
        c.ensure(len(ad) >= 1, 'gap: constant piece')
        if not ad: return []
        g = ad.pop(0)
        x = c.real('x')
        c.ensure(And(g.a == prev_b, g.b == s._a), 'gap: from the end of the piece before to the start of the next')
        c.ensure(not g.isDirac() and not g.isMInf() and not g.isPInf(), 'gap: a piece')
        c.ensure_eq(g.f(x), acc, 'gap: the mass before')
    if s._k != 'dirac':
        c.ensure(len(ad) >= 1, 'piece: one cumulative piece')
        if not ad: return []
        p = ad.pop(0)
        c.ensure(And(p.a == s._a, p.b == s._b), 'piece: same ends')
        c.ensure(bool(p.isMInf()) == (s._k == 'minf') and bool(p.isPInf()) == (s._k == 'pinf'), 'piece: infinite ends')
        x = c.real('x'); within(c, s, x)
        if s._k == 'pinf': 
            whole = integ.new_integral(s._f, s.a, INF)
            check_integrals(c, p.f(x) - (acc + whole), [Target(lambda t: And(mass(s)(t), t > x), lambda t: -s._f(t))], 'piece: mass before and integral up to x')
        else: check_integrals(c, p.f(x), [Target(upto(s, x), density(s))], 'piece: mass before and integral up to x', const=acc)
    return ad

@P.contract('segments.PiecewiseFunction.cumint', name='cumulative_function_pieces')
def _(c):
    """the cumulative function of a function with any number of pieces: on every piece but the last the mass before it plus the integral up to x, and the next
    mass before is the mass of the piece more"""
    segs, r = cumulative(c, 'loop')
    fe = [e for e in c.effects if e[0] == 'foreach']
    def each(cases, check):
        for cs in cases:
            with loops.under(cs.conds):
                loops.subexplore(lambda: check(cs))
    def added(cs):
        k = cs.elem._i
        prev = None if not c.run.feasible(c.axioms, c.pc + [k > 0]) else segs.elem(z3.simplify(k - 1))._b
        if prev is not None and not is_sym(prev) and isinf(prev): return           # only the last piece reaches +inf
        ad = piece(c, cs.elem, prev, list(cs.acc.values())[0], [e[2] for e in adds_of(cs.effects)])
        c.ensure(not ad, 'piece: nothing else is added', '%d more' % len(ad))
    def next_mass(cs):
        s = cs.elem
        if s._k == 'dirac': c.ensure_eq(Num(cs.delta), s._f, 'mass before the next piece: atom')
        else: check_integrals(c, Num(cs.delta), [Target(mass(s), density(s))], 'mass before the next piece: integral of the piece')
    c.ensure(len(fe) == 1 and len(c.folds) == 1, 'one pass over the pieces, summing their masses')
    if fe: each(fe[0][2], added)
    for F in c.folds.values(): each(F.cases, next_mass)

def ends(c, kind):
    """... on the last piece likewise, 0 before the first piece, the whole mass after the last"""
    segs, r = cumulative(c, kind)
    n1 = z3.simplify(segs.n.t - 1)
    s = segs.elem(n1)
    many = bool(segs.n >= 2)
    acc = 0.0
    if many:
        c.ensure(len(c.folds) == 1, 'the mass before the last piece is the sum over the pieces before')
        acc = Num(z3.Real(list(c.folds)[0])) + 0.0
    prev = segs.elem(z3.simplify(segs.n.t - 2))._b if many else None
    ad = piece(c, s, prev, acc, [e[2] for e in c.effects if e[0] == 'add'])
    first = segs.elem(z3.IntVal(0))
    for q in ad:
        x = c.real('x')
        if q.isMInf():
            c.ensure_eq(q.f(x), 0.0, 'before the first piece: 0')
            c.ensure(q.b == first._a, 'before the first piece: up to its left end')
        else:
            c.ensure(q.isPInf(), 'after the last piece: constant up to infinity')
            c.ensure(q.a == s._b, 'after the last piece: from its right end')
            v = q.f(x)
            if s._k == 'dirac': c.ensure_eq(v, acc + s._f, 'after the last piece: the whole mass')
            else: check_integrals(c, v, [Target(mass(s), density(s))], 'after the last piece: the whole mass', const=acc)
    want = (0 if s._k == 'pinf' else 1) + (0 if first._k == 'minf' else 1)
    c.ensure(len(ad) == want, 'both sides of the support are covered once', '%d pieces' % len(ad))

for kind in KINDS:
    P.contract('segments.PiecewiseFunction.cumint', name='cumulative_function_ends[%s]' % kind)(lambda c, kind=kind: ends(c, kind))

# ---------------------------------------------------------------- the cumulative function, evaluated
SHAPES = [('finite',), ('dirac',), ('finite', 'finite'), ('finite', 'dirac'), ('dirac', 'finite'), ('dirac', 'dirac'), ('minf', 'pinf'), ('minf', 'dirac', 'pinf'), ('lpole', 'rpole')]

def cumulative_value(c, kinds):
    """F(x) = mass of the atoms at or below x + integral of the density up to x, for every x, scalar or in an array"""
    p, segs = few_pieces(c, S, 's', kinds)
    F = p.cumint()
    x = c.real('x')
    arr = c.choose(2, 'array')
    if arr:
        X = sym_array(c, 'X'); i = skolem_index(c, X.n); x = X.at(i)
        v = F(X).at(i)
    else: v = F(x)
    acc = 0.0; T = []
    for s in segs:
        if s._k == 'dirac': acc = acc + arrays.select(s._a <= x, s._f, 0.0)
    cont = [s for s in segs if s._k != 'dirac']
    off = lambda t: t != x                # integrals are compared off the (finitely many) ends
    e = z3.simplify(term(v - acc))
    tail = 0.0
    for s in cont:
        # total mass of a right-infinite piece as a number of its own
        if s._k == 'pinf':
            w = integ.new_integral(s._f, s.a, INF)
            if (bool(x > s.a) if bool(x != s.a) else w.t.decl().name() in integ.const_of(e)): tail = w
    if is_sym(tail):
        last = cont[-1]
        below = [Target(upto(s, x), density(s), name='piece %d' % i) for i, s in enumerate(cont) if s is not last]
        return check_integrals(c, v - acc - tail, below + [Target(lambda t: And(mass(last)(t), t > x), lambda t: -last._f(t))], 'cdf', assume=off)
    check_integrals(c, v - acc, [Target(upto(s, x), density(s), name='piece %d' % i) for i, s in enumerate(cont)], 'cdf', assume=off)

for kinds in SHAPES:
    P.contract(['segments.PiecewiseFunction.cumint', 'segments.PiecewiseFunction.addSegment', 'segments.PiecewiseFunction.__call__'],
               name='cumulative_value[%s]' % ','.join(kinds))(lambda c, kinds=kinds: cumulative_value(c, kinds))

# ---------------------------------------------------------------- quantiles
class Inverted(Exception): pass

def patched_inverses(c):
    def findinv(fun, a=0.0, b=1.0, c=0.5, **kw):
        # contract: the ends bracket the level; the result is a point of [a, b] where the function has that level
        cx = core.CTX
        fa, fb = fun(a), fun(b)
        cx.ensure(Or(And(fa <= c, c <= fb), And(fb <= c, c <= fa)), 'root finding is called with a bracket')
        x = cx.real('root'); cx.assume(And(a <= x, x <= b, fun(x) == c))
        return x
    def minf(fun, b=0.0, c=0.5, **kw):
        cx = core.CTX
        cx.ensure(And(fun(b) >= c, fun(-INF) <= c), 'root finding below the end is called with a bracket')
        x = cx.real('root'); cx.assume(And(x <= b, fun(x) == c))
        return x
    def pinf(fun, a=0.0, c=0.5, **kw):
        cx = core.CTX
        cx.ensure(And(fun(a) <= c, fun(INF) >= c), 'root finding above the end is called with a bracket')
        x = cx.real('root'); cx.assume(And(a <= x, fun(x) == c))
        return x
    return patched((S, 'findinv', findinv), (S, 'findinv_minf', minf), (S, 'findinv_pinf', pinf))

def lims(s):
    """limits of the cumulative piece at its ends"""
    return s.f(s.a), s.f(s.b)

def cdf_shape(c, kinds):
    """cumulative function with the pieces that cumint builds: contiguous, non-decreasing, 0 at -inf; may stop short of 1 by rounding"""
    F, segs = few_pieces(c, S, 'F', kinds, cls='CumulativePiecewiseFunction', gaps=False)
    last = 0.0
    for j, s in enumerate(segs):
        lo, hi = lims(s)
        if j == 0: c.assume(lo == 0.0)
        else: c.assume(last <= lo)
        c.assume(lo <= hi)
        last = hi
    c.assume(last <= 1.0)
    return F, segs

def quantile_of(c, F, segs, y, x, label):
    """F(x-) <= y <= F(x)"""
    top = lims(segs[-1])[1]
    if not is_sym(x) and core._inf_of(x) is not None:
        if x != x: return c.ensure(False, label + ': a number')
        return c.ensure(y <= 0.0 if x < 0 else y >= top, label + ': infinite only for the end levels')
    opts = []
    for j, s in enumerate(segs):
        # inside a piece (the limit of the piece at its left end, its own value elsewhere)
        opts.append(And(inside_closed(x, s), s.f(x) == y))
        if j: opts.append(And(x == s.a, lims(segs[j - 1])[1] <= y, y <= lims(s)[0]))
    c.ensure(Or(*opts), label + ': the level lies between the left limit and the value of F')

def inside_closed(x, s):
    r = []
    if not isinf(s.a): r.append(s.a <= x)
    if not isinf(s.b): r.append(x <= s.b)
    return And(*r)

QSHAPES = [('minf', 'pinf'), ('minf', 'finite', 'pinf'), ('minf', 'finite', 'finite', 'pinf')]
for kinds in QSHAPES:
    def h(c, kinds=kinds):
        """the quantile at any level in [0, 1] of a cumulative function with jumps and flat parts"""
        F, segs = cdf_shape(c, kinds)
        y = c.real('y'); c.assume(And(0.0 <= y, y <= 1.0))
        with patched_inverses(c): x = F.inverse(y)
        quantile_of(c, F, segs, y, x, 'quantile')
    P.contract('segments.PiecewiseFunction.inverse_scalar', name='quantile[%s]' % ','.join(kinds))(h)

@P.contract('segments.PiecewiseFunction.inverse')
def quantile_array(c):
    """an array of levels gives the quantile of each"""
    F = S.CumulativePiecewiseFunction([])
    q = c.fun('quantile')
    Y = arrays.obj_array([c.real('y0'), c.real('y1'), c.real('y2')])
    with patched((S.PiecewiseFunction, 'inverse_scalar', lambda self, y, *a: q(y)), (S, 'zeros', lambda n: arrays.obj_array([0.0] * int(n)))):
        r = F.inverse(Y)
        c.ensure(len(r) == 3, 'one quantile per level')
        for i in range(3): c.ensure_eq(r[i], q(Y[i]), 'quantile of the level')
        c.ensure_eq(F.inverse(Y[0]), q(Y[0]), 'scalar level')

# ---------------------------------------------------------------- distributions
def fixed(c):
    """a distribution whose density is f and whose cumulative function is F"""
    f = S.PiecewiseDistribution([]); Fc = S.CumulativePiecewiseFunction([])
    val = c.fun('F'); q = c.fun('Q'); made = []
    def cumint(self): made.append(self); return Fc
    class X(D.Distr):
        def init_piecewise_pdf(self): self.piecewise_pdf = f
        def init_vars(self): pass
    return X(), f, Fc, val, q, made, patched((S.PiecewiseFunction, 'cumint', cumint), (S.PiecewiseFunction, '__call__', lambda self, x: val(x) if self is Fc else c.fun('other')(x)),
                                             (S.PiecewiseFunction, 'inverse', lambda self, y: q(y) if self is Fc else c.fun('other')(y)))

@P.contract(['distr.Distr.cdf', 'distr.Distr.quantile', 'distr.Distr.ci', 'distr.Distr.interval', 'distr.Distr.iqrange', 'distr.Distr.median', 'distr.Distr.get_piecewise_cdf'])
def distribution_level(c):
    """cdf and quantile are those of the cumulative function of the density; the symmetric intervals are cut at the two quantiles of their levels"""
    X, f, Fc, val, q, made, pt = fixed(c)
    x = c.real('x'); y = c.real('y'); p = c.real('p')
    c.assume(And(0.0 < p, p < 1.0))
    with pt:
        c.ensure_eq(X.cdf(x), val(x), 'cdf')
        c.ensure_eq(X.cdf(y), val(y), 'cdf, asked again')
        c.ensure(len(made) >= 1 and all(m is f for m in made), 'the cumulative function is that of the density')
        c.ensure_eq(X.quantile(y), q(y), 'quantile')
        a, b = X.ci(p)
        c.ensure_eq(a, q(p / 2), 'ci: lower'); c.ensure_eq(b, q(1 - p / 2), 'ci: upper')
        a, b = X.interval(p)
        c.ensure_eq(a, q((1 - p) / 2), 'interval: lower'); c.ensure_eq(b, q((1 + p) / 2), 'interval: upper')
        c.ensure_eq(X.iqrange(p), q(1 - p) - q(p), 'iqrange')
        c.ensure_eq(X.median(), q(0.5), 'median')

@P.contract(['distr.Distr.ccdf', 'distr.Distr.get_piecewise_ccdf', 'segments.PiecewiseFunction.__rsub__'])
def complementary(c):
    """ccdf(x) = 1 - cdf(x)"""
    k = c.choose(len(QSHAPES), 'shape')
    F, segs = cdf_shape(c, QSHAPES[k])
    X, f, _, _, _, _, _ = fixed(c)
    with patched((S.PiecewiseFunction, 'cumint', lambda self: F)):
        x = c.real('x')
        c.ensure_eq(X.ccdf(x), 1.0 - X.cdf(x), 'ccdf')
        c.ensure_eq(X.cdf(x), F(x), 'cdf is left as it was')

for kind in KINDS:
    def h(c, kind=kind):
        """upper tail: 1 - cdf, or the integral of the last piece above x"""
        s = sym_segment(c, S, 's', [kind])
        X, f, Fc, val, q, made, pt = fixed(c)
        f.segments = [s]
        x = c.real('x')
        with pt: v = X.ccdf_value(x)
        if kind == 'pinf' and bool(x > s._a): check_integrals(c, v, [Target(lambda t: And(mass(s)(t), t > x), density(s))], 'ccdf_value above the last break')
        else: c.ensure_eq(v, 1.0 - val(x), 'ccdf_value')
    P.contract('distr.Distr.ccdf_value', name='ccdf_value[%s]' % kind)(h)
