"""C03  square, absolute value, sign, sine and cosine: every preimage counted once"""
from pyvc.spec import *
P = Registry()
S = mod('pacal.segments')
D = mod('pacal.distr')
M = mathfn
PI = __import__('math').pi

# ---------------------------------------------------------------- images of one segment on one side of zero
def side_segment(c):
    """segment of any kind that does not have zero inside"""
    w = c.choose(5, 'where')
    if w == 0:                                     # anywhere away from zero
        s = sym_segment(c, S, 's')
        if s._k == 'minf': c.assume(s._b < 0)
        elif s._k in ('pinf', ): c.assume(s._a > 0)
        elif s._k != 'dirac': c.assume(Or(s._a > 0, s._b < 0))
        return s
    f = c.fun('f')
    if w in (1, 2):                                # right of zero, starting at zero
        b = c.real('b'); c.assume(b > 0)
        k = ['finite', 'lpole', 'rpole', 'pinf'][c.choose(4)] if w == 1 else 'finite'
        s = mk_segment(S, k, 0.0, b, f)
        s._a, s._b = 0.0, (INF if k == 'pinf' else b)
    else:
        a = c.real('a'); c.assume(a < 0)
        k = ['finite', 'lpole', 'rpole', 'minf'][c.choose(4)] if w == 3 else 'finite'
        s = mk_segment(S, k, a, 0.0, f)
        s._a, s._b = (-INF if k == 'minf' else a), 0.0
    s._k, s._f = k, f
    return s

def sgn(s):
    """side of zero the segment is on"""
    if isinf(s._a): return -1
    if isinf(s._b): return 1
    if bool(s._b <= 0): return -1
    return 1

@P.contract(['segments.Segment.squareComposition', 'segments._prob_composition', 'segments._prob_composition2', 'segments._op_square', 'segments._op_sqrt', 'segments._op_half_over_sqrt'])
def square_image(c):
    s = side_segment(c)
    r = s.squareComposition()
    if s._k == 'dirac': return check_atom(c, r, s._a * s._a, s._f, 'square')
    sq = lambda x: INF if isinf(x) else x * x
    g = sgn(s)
    lo, hi = (sq(s._a), sq(s._b)) if g > 0 else (sq(s._b), sq(s._a))
    check_image(c, r, lo, hi, lambda y: s._f(g * M.sqrt(y)) / (2 * M.sqrt(y)), 'square')

@P.contract(['segments.Segment.absComposition', 'segments._prob_composition', 'segments._prob_composition2'])
def abs_image(c):
    s = side_segment(c)
    r = s.absComposition()
    ab = lambda x: INF if isinf(x) else abs(x)
    if s._k == 'dirac': return check_atom(c, r, ab(s._a), s._f, 'abs')
    g = sgn(s)
    lo, hi = (ab(s._a), ab(s._b)) if g > 0 else (ab(s._b), ab(s._a))
    check_image(c, r, lo, hi, lambda y: s._f(g * y), 'abs')

# ---------------------------------------------------------------- containers: each piece goes to exactly one summand, all summands are added
class GhostSegs(SymSeq):
    """the pieces of a container being built: only its length is observable, as an unknown number"""
    def __init__(self, c, name):
        n = c.int('len_' + name); c.assume(n >= 0)
        def elem(i): raise Unsupported('element of a container under construction')
        super().__init__(n, elem, name)

class Part:
    """value obtained from containers by operations known to keep or add the values at every point"""
    def __init__(self, terms): self.terms = list(terms)
    def __add__(self, o): return Part(self.terms + parts(o))
    def __radd__(self, o): return Part(parts(o) + self.terms)
    def splitByPoints(self, p): return self
    def getBreaks(self): return []
    def add_diracs(self, o): raise Unsupported('add_diracs')

def parts(x):
    if isinstance(x, Part): return x.terms
    return [x]

def ghost_world(c, segs2):
    """constructor, splitting and addition of containers by contract"""
    made = []
    oldinit = S.PiecewiseFunction.__init__
    def init(self, *a, **k):
        self.segments = GhostSegs(c, 'cont%d' % len(made))
        made.append(self)
    src = []
    def split(self, points):
        c.effects.append(('split', self, list(points) if isinstance(points, (list, tuple)) else points))
        if any(self is m for m in made): return Part([self])
        r = object.__new__(type(self)); r.segments = segs2
        return r
    def add(self, o): return Part(parts(self) + parts(o))
    def breaks(self): return SymSeq(c.int('nb'), lambda i: c.real('brk'), 'breaks')
    K = S.PiecewiseFunction
    return made, [(K, '__init__', init), (K, 'splitByPoints', split), (K, '__add__', add), (K, 'getBreaks', breaks)]

def two_sided(c, meth, segmeth, lab):
    segs, segs2 = sym_segments(c, S), sym_segments(c, S, 'split')
    pw = piecewise(S, 'PiecewiseDistribution', segs)
    def image(self, *a, **k):
        r = mk_segment(S, 'dirac', 0.0, 0.0, 1.0); r._of = self
        return r
    made, patches = ghost_world(c, segs2)
    with patched(recorded_adds(S), (S.Segment, segmeth, image), *patches):
        r = getattr(pw, meth)()
    sp = [e for e in c.effects if e[0] == 'split' and e[1] is pw]
    c.ensure(len(sp) == 1 and 0.0 in [float(x) for x in sp[0][2]], lab + ': pieces are split at zero', sp)
    pr = parts(r)
    c.ensure(all(any(p is m for m in made) for p in pr), lab + ': result is built from the images only')
    c.ensure(len(set(map(id, pr))) == len(pr), lab + ': no part is added twice', '%d parts' % len(pr))
    fe = foreach_of(c, segs2)
    c.ensure(len(fe) == 1 and not adds_of(c.effects), lab + ': one pass over all pieces', '%d' % len(fe))
    if len(fe) != 1: return
    for cs in fe[0][2]:
        ad = adds_of(cs.effects)
        with loops.under(cs.conds):
            c.ensure(len(ad) == 1, lab + ': each piece has exactly one image', '%d images of a %s piece' % (len(ad), cs.elem._k))
        if len(ad) != 1: continue
        _, tgt, im = ad[0]
        # addSegment makes the container nonempty
        with loops.under(list(cs.conds) + [tgt.segments.n.t > 0]):
            c.ensure(im._of is cs.elem, lab + ': image of this piece')
            c.ensure(any(tgt is p for p in pr), lab + ': the image is part of the result', '%s piece' % cs.elem._k)

@P.contract(['segments.PiecewiseFunction.copySquareComposition'])
def container_square(c): two_sided(c, 'copySquareComposition', 'squareComposition', 'copySquareComposition')

@P.contract(['segments.PiecewiseFunction.copyAbsComposition'])
def container_abs(c): two_sided(c, 'copyAbsComposition', 'absComposition', 'copyAbsComposition')

# ---------------------------------------------------------------- branches of sine, cosine and square
def draws(c, d): return [k for k in c.effects if k[0] == 'rand' and k[1] is d]

BR = [('sin', 'SinDistr', lambda x: M.sin(x), (-1.0, 1.0), (-PI / 2, 3 * PI / 2)),
      ('cos', 'CosDistr', lambda x: M.cos(x), (-1.0, 1.0), (0.0, 2 * PI)),
      ('square', 'Sq2Distr', lambda x: x * x, (0.0, INF), (-INF, INF))]

@P.contract(['segments.PiecewiseFunction.copyCompositionNoninjective', 'distr.FuncNoninjectiveDistr.init_piecewise_pdf', 'distr.SinDistr.__init__', 'distr.CosDistr.__init__', 'distr.Sq2Distr.__init__',
             'distr._pi_m_arcsin', 'distr._arcsin_der1', 'distr._twopi_m_arccos', 'distr._arccos_der1', 'distr._arccos_der2', 'distr.sin', 'distr.cos'])
def branches(c):
    nm, cls, fn, (lo, hi), (A, B) = BR[c.choose(len(BR), 'function')]
    d = abstract_distr(c, D, 'd')
    e = getattr(D, nm)(d) if nm != 'square' else D.Sq2Distr(d)
    segs = sym_segments(c, S)
    pw = piecewise(S, 'PiecewiseDistribution', segs)
    d._pw = pw
    calls = []
    class Restr:
        def __init__(self, a, b): self.a, self.b = a, b
        def copyComposition(self, f, fi, fd, *a, **k):
            p = Part([(self.a, self.b, f, fi, fd)]); calls.append(p); return p
    def restrict(self, a, b):
        c.ensure(self is pw, nm + ': the density of the argument is restricted')
        return Restr(a, b)
    made, patches = ghost_world(c, segs)
    with patched((S.PiecewiseFunction, 'restrictToInterval', restrict), (S.PiecewiseDistribution, 'range', lambda self: (d.a, d.b)), *patches):
        e.init_piecewise_pdf()
    r = e.piecewise_pdf
    terms = [t for t in parts(r) if isinstance(t, tuple)]
    empties = [t for t in parts(r) if not isinstance(t, tuple)]
    c.ensure(all(any(t is m for m in made) for t in empties) and len(terms) + len(empties) == len(parts(r)), nm + ': sum of the branches only')
    # the intervals tile one period exactly
    iv = sorted([(float(t[0]), float(t[1])) for t in terms])
    close = lambda x, y: x == y or abs(x - y) < 1e-12
    tiled = len(iv) > 0 and close(iv[0][0], A) and close(iv[-1][1], B) and all(close(iv[k][1], iv[k + 1][0]) for k in range(len(iv) - 1)) and all(x < y for x, y in iv)
    c.ensure(tiled, nm + ': branches tile the period, each part once', str(iv))
    y = c.real('y')
    for (a, b, f, fi, fd) in terms:
        c.assume(inside(y, lo, hi))
        x = fi(y)
        c.ensure(inside(x, float(a) - 1e-9, float(b) + 1e-9, closed=True), nm + ': inverse takes values in its own branch', 'branch %s' % [a, b])
        c.ensure_eq(fn(x), y, nm + ': inverse of the branch', 'branch %s' % [a, b])
        c.ensure_eq(f(x), y, nm + ': function of the branch', 'branch %s' % [a, b])
        sl = abs(fd(y))
        if nm == 'square': c.ensure_eq(sl * 2 * M.sqrt(y), 1, nm + ': slope of the inverse', 'branch %s' % [a, b])
        else: c.ensure_eq(sl * M.sqrt(1 - y * y), 1, nm + ': slope of the inverse', 'branch %s' % [a, b])

@P.contract(['distr.FuncNoninjectiveDistr.rand_op'])
def branch_samples(c):
    nm, cls, fn, (lo, hi), (A, B) = BR[c.choose(len(BR), 'function')]
    d = abstract_distr(c, D, 'd')
    e = getattr(D, cls)(d)
    X = sym_array(c, 'x'); i = skolem_index(c, X.n)
    k = []
    def draw(n, cache=None): k.append((n, cache)); return X
    d.rand = draw
    n = c.int('n'); cache = {}
    cond = inside(X.at(i), A, B)
    if cond is not True: c.assume(cond)
    if nm == 'square': c.assume(Not(X.at(i) == 0))
    r = e.rand_op(n, cache)
    c.ensure(len(k) == 1 and k[0][1] is cache, nm + ': one draw of the argument, with the shared cache')
    c.ensure_eq(r.at(i), fn(X.at(i)), nm + ': every sample is the function of the draw')

# ---------------------------------------------------------------- distributions
@P.contract(['distr.AbsDistr.pdf', 'distr.AbsDistr.rand_op', 'distr.AbsDistr.init_piecewise_pdf', 'distr.Distr.__abs__'])
def abs_distribution(c):
    d = abstract_distr(c, D, 'd')
    e = abs(d)
    y = c.real('y'); c.assume(Not(y == 0))
    want = lambda t: ite(t > 0, d._f(t) + d._f(-t), 0)
    c.ensure_eq(e.pdf(y), want(y), '|X|: density adds both preimages, zero on the left')
    X = sym_array(c, 'x'); i = skolem_index(c, X.n); c.assume(Not(X.at(i) == 0))
    c.ensure_eq(e.pdf(X).at(i), want(X.at(i)), '|X|: density on arrays')
    cache = {}
    r = e.rand_op(c.int('n'), cache)
    ds = draws(c, d)
    c.ensure(len(ds) == 1 and ds[0][3] is cache, '|X|: one draw')
    if len(ds) == 1: c.ensure_eq(r, ite(ds[0][4] >= 0, ds[0][4], -ds[0][4]), '|X|: sample')
    delegated(c, d, e, 'copyAbsComposition', '|X|')

@P.contract(['distr.SquareDistr.pdf', 'distr.SquareDistr.rand_op', 'distr.SquareDistr.init_piecewise_pdf', 'distr.Distr.__pow__'])
def square_distribution(c):
    d = abstract_distr(c, D, 'd')
    e = d ** 2 if c.choose(2) else D.SquareDistr(d)
    c.ensure(isinstance(e, D.Distr), 'X**2: a distribution')
    y = c.real('y'); c.assume(Not(y == 0))
    want = lambda t: ite(t > 0, (d._f(M.sqrt(t)) + d._f(-M.sqrt(t))) / (2 * M.sqrt(t)), 0)
    c.ensure_eq(e.pdf(y), want(y), 'X**2: density adds both preimages, zero on the left')
    X = sym_array(c, 'x'); i = skolem_index(c, X.n); c.assume(Not(X.at(i) == 0))
    c.ensure_eq(e.pdf(X).at(i), want(X.at(i)), 'X**2: density on arrays')
    cache = {}
    r = e.rand_op(c.int('n'), cache)
    ds = draws(c, d)
    c.ensure(len(ds) == 1 and ds[0][3] is cache, 'X**2: one draw')
    if len(ds) == 1: c.ensure_eq(r, ds[0][4] * ds[0][4], 'X**2: sample')
    delegated(c, d, e, 'copySquareComposition', 'X**2')

def ite(cond, a, b): return Num(z3.If(bterm(cond), term(a), term(b)))

def delegated(c, d, e, meth, lab):
    got = []
    class Rec:
        def __getattr__(self, n2):
            def f(*a, **k): got.append((n2, a, k)); return 'PW'
            return f
    d._pw = Rec()
    e.init_piecewise_pdf()
    c.ensure(e.piecewise_pdf == 'PW' and [g[0] for g in got] == [meth], lab + ': piecewise density of the image', str(got))

@P.contract(['distr.SignDistr.__init__', 'distr.sign'])
def sign_masses(c):
    d = abstract_distr(c, D, 'd')
    F0, z = c.real('cdf0'), c.real('atom0')
    has = c.choose(2, 'atom at zero')
    c.assume(And(z > 0, z <= F0, F0 <= 1) if has else And(F0 >= 0, F0 <= 1))
    d.cdf = lambda x: need0(c, x, F0)
    d.ccdf = lambda x: need0(c, x, 1 - F0)
    d.ccdf_value = lambda x: need0(c, x, 1 - F0)
    class PW:
        def getDirac(self, x):
            c.ensure(x == 0, 'sign: mass at zero is read at zero')
            return mk_segment(S, 'dirac', 0.0, 0.0, z) if has else None
    d._pw = PW()
    e = D.sign(d)
    w = {-1: F0 - z if has else F0, 0: z if has else 0.0, 1: 1 - F0}
    got = {}
    for x, p in zip(e.xi, e.pi): got[float(x)] = got.get(float(x), 0.0) + p
    c.ensure(set(got) <= {-1.0, 0.0, 1.0} and -1.0 in got and 1.0 in got, 'sign: values -1, 0, 1', str(sorted(got)))
    for x in (-1, 0, 1): c.ensure_eq(got.get(float(x), 0.0), w[x], 'sign: mass at %d' % x)

def need0(c, x, v):
    c.ensure(x == 0, 'sign: probabilities are read at zero')
    return v
