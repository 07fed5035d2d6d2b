"""C16  conditioning on a half line or an interval: the density restricted to it, divided by its probability"""
from pyvc.spec import *
from pyvc import integ
from pyvc.integ import Target, check_integrals
from . import c04 as sums
P = Registry()
S, D = sums.S, sums.D
SHAPES = [('finite',), ('dirac', 'dirac'), ('dirac', 'finite'), ('finite', 'dirac'), ('lpole',), ('rpole',), ('minf', 'pinf'), ('minf', 'dirac', 'pinf'), ('finite', 'finite')]

def region(L, U): return lambda t: inside(t, L, U)

def conditional(c, kinds, which):
    p, segs = few_pieces(c, S, 's', kinds)
    class X(D.Distr):
        def init_piecewise_pdf(self): self.piecewise_pdf = p
        def range_(self): return segs[0]._a, segs[-1]._b
        range = range_
        def getName(self): return 'X'
    d = X()
    L = c.real('L') if which != 'lt' else -INF
    U = c.real('U') if which != 'gt' else INF
    if which == 'between': c.assume(L < U)
    if which == 'gt' and not isinf(segs[-1]._b): c.assume(L < segs[-1]._b)
    if which == 'lt' and not isinf(segs[0]._a): c.assume(segs[0]._a < U)
    # ends that hit an atom or a break point exactly are cases of their own
    seen = []
    orig = S.PiecewiseFunction.integrate
    def integrate(self, *a):
        I = orig(self, *a)
        core.CTX.assume(I > 0) if is_sym(I) else None
        M = core.CTX.real('M'); core.CTX.assume(M > 0)
        seen.append((I, M)); return M
    with patched((S.PiecewiseFunction, 'integrate', integrate)):
        Z = d | (D.Gt(L) if which == 'gt' else D.Lt(U) if which == 'lt' else D.Between(L, U))
        f = Z.get_piecewise_pdf()
    c.ensure(len(seen) == 1, 'the probability of the condition is computed once')
    if len(seen) != 1: return
    I, M = seen[0]
    acc = 0.0
    cont = [s for s in segs if s._k != 'dirac']
    for s in segs:
        if s._k == 'dirac': acc = acc + arrays.select(inside(s._a, L, U), s._f, 0.0)
    check_integrals(c, I - acc, [Target(lambda t, s=s: And(inside(t, s._a, s._b), inside(t, L, U)), lambda t, s=s: s._f(t), name='piece %d' % i) for i, s in enumerate(cont)], 'probability of the condition')
    # density
    x = c.real('x')
    for s in segs:
        for e in (s._a, s._b):
            if not isinf(e): c.assume(x != e)
    for e in (L, U):
        if not isinf(e): c.assume(x != e)
    c.ensure_eq(f(x) * M, arrays.select(inside(x, L, U), density_of(segs, x), 0.0), 'conditional density')
    # atoms
    got = [(q.a, q.f) for q in f.segments if q.isDirac()]
    for s in segs:
        if s._k != 'dirac': continue
        at = sum([arrays.select(a == s._a, m, 0.0) for a, m in got], 0.0)
        c.ensure_eq(at * M, arrays.select(inside(s._a, L, U), s._f, 0.0), 'conditional point mass')
    for a, m in got: c.ensure(Or(*[a == s._a for s in segs if s._k == 'dirac']) if any(s._k == 'dirac' for s in segs) else m == 0, 'no other point masses')
    for q in f.segments: c.ensure(And(q.a <= q.b, *([L <= q.a] if which != 'lt' else []), *([q.b <= U] if which != 'gt' else [])), 'pieces inside of the condition')

FUN = {'gt': 'CondGtDistr', 'lt': 'CondLtDistr', 'between': 'CondBetweenDistr'}
for which in FUN:
    for kinds in SHAPES:
        P.contract(['distr.Distr.__or__', 'distr.%s.init_piecewise_pdf' % FUN[which], 'segments.PiecewiseFunction.restrictToInterval', 'segments.PiecewiseFunction.splitByPoints'],
                   name='%s[%s]' % (which, ','.join(kinds)))(lambda c, kinds=kinds, which=which: conditional(c, kinds, which))

@P.contract(['distr.CondGtDistr.range', 'distr.CondLtDistr.range', 'distr.CondBetweenDistr.range'])
def ranges(c):
    """the support of a conditional law is inside of the condition and of the range of the law"""
    lo, hi = c.real('lo'), c.real('hi'); L, U = c.real('L'), c.real('U'); c.assume(And(lo < hi, L < U))
    class X(D.Distr):
        def range(self): return lo, hi
        def range_(self): return lo, hi
    d = X()
    which = c.choose(3)
    if which == 0: c.assume(And(L < hi)); a, b = (d | D.Gt(L)).range(); ok = And(a >= L, b <= hi)
    elif which == 1: c.assume(And(lo < U)); a, b = (d | D.Lt(U)).range(); ok = And(a >= lo, b <= U)
    else: a, b = (d | D.Between(L, U)).range(); ok = And(a >= L, b <= U)
    c.ensure(ok, 'range of the conditional')

@P.contract(['distr.CondGtDistr.rand_raw', 'distr.CondLtDistr.rand_raw', 'distr.CondBetweenDistr.rand_raw'])
def samples(c):
    """samples satisfy the condition and are samples of the law, in order (at most three rounds of drawing, bounded)"""
    L, U = c.real('L'), c.real('U'); c.assume(L < U)
    drawn = []
    class X(D.Distr):
        def rand(self, n=None, cache=None):
            k = len(drawn) // n
            xs = [c.real('x%d' % (len(drawn) + j)) for j in range(n)]
            if k == 2:
                for x in xs: c.assume(And(L < x, x < U))
            drawn.extend(xs)
            return arrays.obj_array(xs)
        def range_(self): return L - 1, U + 1
    d = X()
    which = c.choose(3, 'condition')
    Z = d | (D.Gt(L) if which == 0 else D.Lt(U) if which == 1 else D.Between(L, U))
    ok = lambda x: And(*([L < x] if which != 1 else []), *([x < U] if which != 0 else []))
    one = c.choose(2, 'one')
    r = Z.rand_raw(None) if one else Z.rand_raw(2)
    if one: r = [r]
    r = list(r)
    c.ensure(len(r) == (1 if one else 2), 'as many samples as asked for')
    good = [x for x in drawn if bool(ok(x))]
    for j, x in enumerate(r):
        c.ensure(ok(x), 'sample satisfies the condition')
        c.ensure_eq(x, good[j], 'sample is a draw from the law')
