"""C04  density of a sum / difference of independent variables: the whole line x+y=z, integrated once"""
import itertools
from pyvc.spec import *
from pyvc.integ import Target, check_integrals
P = Registry()
S = mod('pacal.segments')
A = mod('pacal.indeparith')
D = mod('pacal.distr')
integ.install(A)

def dom(s, t): return inside(t, s._a, s._b)
def dens(s, t): return s._f(t)

def runner(*pairs): return A.Convxrunner(list(pairs), None)

def overlap_add(x, s, r):
    """the open rectangle of the pair meets the line x1+x2=x"""
    return And(x - s._a > r._a, x - s._b < r._b)

def sum_targets(x, pairs):
    """integral over the line t + u = x of f(t) g(u)"""
    T = []
    for s, r in pairs:
        if s._k == 'dirac' or r._k == 'dirac': continue
        T.append(Target(lambda t, s=s, r=r: And(dom(s, t), dom(r, x - t)), lambda t, s=s, r=r: s._f(t) * r._f(x - t), subs=[(lambda u: x - u, lambda u: 1.0)]))
    return T

def sum_atoms(x, pairs):
    v = 0.0
    for s, r in pairs:
        if s._k == 'dirac' and r._k != 'dirac': v = v + s._f * r._f(x - s._a)
        if s._k != 'dirac' and r._k == 'dirac': v = v + r._f * s._f(x - r._a)
    return v

def pair_contract(ki, kj, call, lab):
    def h(c):
        s = sym_segment(c, S, 's', [ki]); r = sym_segment(c, S, 'r', [kj])
        x = c.real('x')
        c.assume(overlap_add(x, s, r))
        v = call(A, x, (s, r))
        check_integrals(c, v, sum_targets(x, [(s, r)]), lab, const=sum_atoms(x, [(s, r)]))
    return h

for ki, kj in itertools.product(KINDS, KINDS):
    if ki == kj == 'dirac': continue
    P.contract(['indeparith.Convxrunner.conv_at_point', 'indeparith._testConvPole', 'indeparith.fun_c1', 'indeparith.fun_c2'], name='pair_sum[%s,%s]' % (ki, kj))(
        pair_contract(ki, kj, lambda A, x, p: runner(p).conv_at_point(x), 'sum of a %s and a %s piece' % (ki, kj)))

# ---------------------------------------------------------------- any number of pairs: the contributions are added
@P.contract('indeparith.Convxrunner.conv_at_point')
def contributions_are_added(c):
    """the value for a list of pairs is the sum of the values of the single pairs (any number of pairs)"""
    ki, kj = [('finite', 'finite'), ('finite', 'pinf'), ('dirac', 'finite'), ('finite', 'dirac'), ('dirac', 'dirac')][c.choose(5, 'kinds')]
    n = c.int('n'); c.assume(n >= 0)
    s = sym_segment(c, S, 's', [ki]); r = sym_segment(c, S, 'r', [kj])
    x = c.real('x')
    c.assume(overlap_add(x, s, r))
    seq = SymSeq(n, lambda i: (s, r), 'pairs')
    v = A.Convxrunner(seq, None).conv_at_point(x)
    if not is_sym(v): return c.ensure(ki == kj == 'dirac' and v == 0, 'pairs of atoms have no density', '%r' % (v,))
    f = c.folds.get(str(v.t))
    c.ensure(f is not None and f.seq is seq, 'the value is a sum over all the pairs', str(v))
    if f is None: return
    for cs in f.cases:
        with loops.under(cs.conds):
            d = cs.delta
            check_integrals(c, Num(d), sum_targets(x, [(s, r)]), 'contribution of one pair', const=sum_atoms(x, [(s, r)]))

# ---------------------------------------------------------------- calling conventions
@P.contract(['indeparith.Convxrunner.convx'])
def elementwise(c):
    """arrays of any length are mapped element by element, scalars give one value"""
    F = c.fun('at_point')
    R = runner()
    def pmap(): 
        return lambda f, xs: xs.map(f) if isinstance(xs, LazyArr) else [f(v) for v in xs]
    with patched((A, 'get_parmap', pmap), (A.Convxrunner, 'conv_at_point', lambda self, x: F(x))):
        X = sym_array(c, 'X'); i = skolem_index(c, X.n)
        r = R.convx(X)
        c.ensure_eq(r.at(i), F(X.at(i)), 'element of the array')
        c.ensure(r.n.t.eq(X.n.t), 'length of the result')
        x = c.real('x')
        q = R.convx(x)
        import numpy as np
        c.ensure(np.size(q) == 1, 'one value for a scalar')
        c.ensure_eq(q[0], F(x), 'value for a scalar')

# ---------------------------------------------------------------- choice of the pairs: any numbers of pieces
def pairs_of(res, c):
    """(conditions, pair or None) for every path of the nested loops over both containers"""
    out = []
    def walk(fam, conds):
        if isinstance(fam, loops.Spread): return walk(fam.seq, conds)
        if isinstance(fam, loops.Family):
            for it in fam.initial: one(it, conds)
            for cs in fam.cases:
                c2 = conds + cs.conds
                if not cs.items: out.append((c2, None, cs.elem))
                for it in cs.items: one(it, c2, cs.elem)
    def one(it, conds, el=None):
        if isinstance(it, loops.Spread): walk(it.seq, conds)
        else: out.append((conds, it, el))
    walk(res, [])
    return out

def select_contract(call, pred, lab, kinds=KINDS, make=sym_segments, facts=None, first=None):
    def h(c):
        ki = (first or kinds)[c.choose(len(first or kinds), 'kind of the first piece')]
        fs, gs = make(c, S, 'f', kinds=[ki]), make(c, S, 'g', kinds=kinds)
        c.assume(fs.n >= 1); c.assume(gs.n >= 1)
        f, g = piecewise(S, 'PiecewiseDistribution', fs), piecewise(S, 'PiecewiseDistribution', gs)
        z = c.real('z')
        if facts is not None: facts(c, z)
        res = call(f, g, z)
        seen = [0, 0]
        if isinstance(res, list):
            return c.fail(lab + ': pairs are collected', 'a list of %d pairs' % len(res))
        for conds, pr, el in pairs_of(res, c):
            with loops.under(conds):
                if pr is not None:
                    s, r = pr
                    ok = hasattr(s, '_i') and hasattr(r, '_i')
                    c.ensure(ok, lab + ': pairs of pieces of the two operands')
                    if ok: c.ensure(pred(z, s, r), lab + ': only pairs that meet the line')
                    seen[0] += 1
        # completeness: an arbitrary pair that meets the line is in the list
        for case in res.cases:
            s = case.elem
            with loops.under(case.conds):
                inner = [it.seq for it in case.items if isinstance(it, loops.Spread)]
                flat = [it for it in case.items if not isinstance(it, loops.Spread)]
                c.ensure(len(inner) <= 1 and not flat, lab + ': each pair is listed once', '%d inner lists, %d single items' % (len(inner), len(flat)))
                if not inner: continue
                seen[1] += 1
                for cs in inner[0].cases:
                    r = cs.elem
                    with loops.under(cs.conds):
                        n = len(cs.items)
                        c.ensure(n <= 1, lab + ': each pair is listed once', '%d times' % n)
                        if n == 0: c.ensure(Not(pred(z, s, r)), lab + ': no pair that meets the line is left out', '%s %s' % (s._k, r._k))
                        else: c.ensure(cs.items[0][0] is s and cs.items[0][1] is r, lab + ': the pair is the pair looked at')
        c.ensure(seen[1] > 0 and seen[0] > 0, lab + ': every piece of the first operand is combined with those of the second', str(seen))
    return h

P.contract('indeparith._findSegListAdd', name='choice_of_pairs_sum')(
    select_contract(lambda f, g, z: A._findSegListAdd(f, g, z), overlap_add, 'pairs for a sum'))

# ---------------------------------------------------------------- whole operation, for small numbers of pieces at arbitrary places
CONF = [('finite',), ('minf', 'pinf'), ('finite', 'finite'), ('dirac',), ('finite', 'dirac'), ('dirac', 'pinf'), ('lpole',), ('rpole',), ('pinf',), ('dirac', 'dirac')]
SMALL = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (0, 3), (3, 0), (4, 0), (0, 4), (5, 0), (0, 5), (6, 0), (0, 7), (6, 7), (8, 8), (8, 0), (0, 8), (3, 4), (4, 3), (3, 3), (9, 0), (0, 9), (9, 3), (3, 9), (3, 1), (1, 3)]

def whole(call, op, lab, fi, gi, targets, atomterm):
    def h(c):
        f, fs = few_pieces(c, S, 'f', CONF[fi]); g, gs = few_pieces(c, S, 'g', CONF[gi])
        at = [op(s._a, t._a) for s in fs for t in gs if s._k == 'dirac' and t._k == 'dirac']
        for p, q in itertools.combinations(at, 2): c.assume(Or(p == q, abs(p - q) > 1e-3))     # closer atoms are merged (rounding)
        # the outcome of testPole only selects the kind of interpolation, which is replaced by its contract
        with patched((A, 'testPole', lambda *a, **k: False), (A.params.pole_detection, 'continuity_eps', -INF), (A, 'get_parmap', lambda: (lambda F, xs: [F(v) for v in xs])), *no_interpolation(S)):
            r = call(f, g)
            segs = list(r.segments)
            x = c.real('x')
            fin = []
            for s in segs:
                for e in (s.a, s.b):
                    if not isinf(e) and not any(e is q for q in fin): fin.append(e)
            for e in fin: c.assume(x != e)
            val = 0.0; n = 0
            for s in segs:
                if s.isDirac(): continue
                if bool(inside(x, s.a, s.b)):
                    n += 1
                    v = s.f(x)
                    v = v[0] if hasattr(v, '__len__') else v
                    val = val + v
        c.ensure(n <= 1, lab + ': pieces of the result do not overlap')
        check_integrals(c, val, targets(x, fs, gs), lab, const=atomterm(x, fs, gs))
        # atoms
        y = c.real('y')
        got = 0.0
        for s in segs:
            if s.isDirac(): got = got + arrays.select(s.a == y, s.f, 0.0)
        want = 0.0
        for s in fs:
            for t in gs:
                if s._k == 'dirac' and t._k == 'dirac': want = want + arrays.select(op(s._a, t._a) == y, s._f * t._f, 0.0)
        c.ensure_eq(got, want, lab + ': masses of the result at every point')
    return h

def whole_sum_targets(x, fs, gs):
    T = []
    fc = [s for s in fs if s._k != 'dirac']; gc = [s for s in gs if s._k != 'dirac']
    if not fc or not gc: return T
    ins = lambda L, t: Or(False, *[inside(t, s._a, s._b) for s in L])
    return [Target(lambda t: And(ins(fc, t), ins(gc, x - t)), lambda t: density_of(fc, t) * density_of(gc, x - t), subs=[(lambda u: x - u, lambda u: 1.0)])]
def whole_sum_atoms(x, fs, gs):
    v = 0.0
    for s in fs:
        if s._k == 'dirac': v = v + s._f * density_of(gs, x - s._a)
    for s in gs:
        if s._k == 'dirac': v = v + s._f * density_of(fs, x - s._a)
    return v

def law(c, p, name):
    d = abstract_distr(c, D, name)
    d._pw = p
    return d
def by_distr(c, build):
    def call(f, g): return build(law(c, f, 'X'), law(c, g, 'Y')).get_piecewise_pdf()
    return call

def whole_diff_targets(x, fs, gs):
    fc = [s for s in fs if s._k != 'dirac']; gc = [s for s in gs if s._k != 'dirac']
    if not fc or not gc: return []
    ins = lambda L, t: Or(False, *[inside(t, s._a, s._b) for s in L])
    return [Target(lambda t: And(ins(fc, t), ins(gc, t - x)), lambda t: density_of(fc, t) * density_of(gc, t - x), subs=[(lambda u: x - u, lambda u: 1.0)])]
def whole_diff_atoms(x, fs, gs):
    v = 0.0
    for s in fs:
        if s._k == 'dirac': v = v + s._f * density_of(gs, s._a - x)
    for s in gs:
        if s._k == 'dirac': v = v + s._f * density_of(fs, x + s._a)
    return v

def add_whole(tag, build, op, lab, fi, gi, targets, atoms, funcs):
    def h(c): return whole(by_distr(c, build), op, lab, fi, gi, targets, atoms)(c)
    P.contract(funcs, name='whole_%s[%s | %s]' % (tag, '+'.join(CONF[fi]), '+'.join(CONF[gi])))(h)

FUNCS = ['indeparith.conv', 'indeparith.convdiracs', 'indeparith._unique_breakpoints', 'segments.PiecewiseFunction.getBreaksExtended', 'segments.PiecewiseFunction.addSegment', 'distr.SumDistr.init_piecewise_pdf']
for fi, gi in SMALL:
    add_whole('sum', lambda a, b: a + b, lambda a, b: a + b, 'sum', fi, gi, whole_sum_targets, whole_sum_atoms, FUNCS)
for fi, gi in [(0, 0), (0, 1), (5, 0), (0, 5), (0, 8), (8, 8), (4, 3), (3, 3), (3, 9), (0, 4), (6, 7), (3, 1), (0, 9)]:
    add_whole('difference', lambda a, b: a - b, lambda a, b: a - b, 'difference', fi, gi, whole_diff_targets, whole_diff_atoms,
              FUNCS + ['distr.SubDistr.init_piecewise_pdf', 'segments.PiecewiseFunction.copyShiftedAndScaled'])

# ---------------------------------------------------------------- the common integration routine: every part of the interval once
@P.contract('segments._segint', name='segint')
def segint_contract(c):
    """_segint(fun, L, U) is the integral over (L,U) for L<U and 0 otherwise, for every choice of the hints"""
    k = c.choose(4, 'limits')
    L = -INF if k in (1, 3) else c.real('L')
    U = INF if k in (2, 3) else c.real('U')
    hint = c.choose(6, 'hint')
    kw = {}
    if hint == 1: kw = dict(force_poleL=True)
    if hint == 2: kw = dict(force_poleU=True)
    if hint == 3: kw = dict(force_poleL=True, force_poleU=True)
    if hint == 4 and not isinf(L): kw = dict(force_minf=True)
    if hint == 5 and not isinf(U): kw = dict(force_pinf=True)
    f = c.fun('f')
    r = SEGINT(f, L, U, **kw)
    I = r[0]
    check_integrals(c, I, [Target(lambda t: inside(t, L, U), lambda t: f(t))], 'integral over an interval')
SEGINT = S._segint
integ.install(S, names=['integrate_fejer2', 'integrate_wide_interval', 'integrate_fejer2_Xn_transformP', 'integrate_fejer2_Xn_transformN', 'integrate_fejer2_minf', 'integrate_fejer2_pinf', 'integrate_fejer2_pminf'])

# ---------------------------------------------------------------- break points of a container (any number of pieces): checked on small containers with gaps, poles and atoms
@P.contract('segments.PiecewiseFunction.getBreaksExtended')
def break_points_are_all_ends(c):
    kinds = [('finite',), ('finite', 'finite'), ('finite', 'finite', 'finite'), ('minf', 'finite', 'pinf'), ('finite', 'dirac', 'finite'), ('dirac', 'finite'), ('rpole', 'lpole'), ('lpole', 'rpole', 'dirac'), ('dirac', 'dirac')][c.choose(9, 'pieces')]
    f, fs = few_pieces(c, S, 'f', kinds)
    with patched((S.params.pole_detection, 'continuity_eps', [INF, -INF][c.choose(2, 'jumps')])):
        br = f.getBreaksExtended()
    xs = [b.x for b in br]
    fin = [e for s in fs for e in (s._a, s._b)]
    for e in fin:
        if isinf(e): c.ensure(any(isinf(x) and x == e for x in xs), 'infinite ends are break points', str(e)); continue
        c.ensure(Or(False, *[x == e for x in xs if not isinf(x)]), 'every end of a piece is a break point')
    for x in xs:
        if isinf(x): continue
        c.ensure(Or(False, *[x == e for e in fin if not isinf(e)]), 'nothing else is a break point')
    for s in fs:
        for e, has, flag in ((s._a, s._k == 'lpole', 'posPole'), (s._b, s._k == 'rpole', 'negPole')):
            if isinf(e): continue
            if has: c.ensure(Or(False, *[x.x == e for x in br if not isinf(x.x) and getattr(x, flag)]), 'poles are reported at the end they are at')
        if s._k == 'dirac': c.ensure(Or(False, *[x.x == s._a for x in br if not isinf(x.x) and x.dirac]), 'atoms are reported where they are')
    for b in br:
        for flag, k, end in (('posPole', 'lpole', '_a'), ('negPole', 'rpole', '_b')):
            if getattr(b, flag): c.ensure(Or(False, *[b.x == getattr(s, end) for s in fs if s._k == k and not isinf(b.x)]), 'only poles are reported as poles')
        if b.dirac: c.ensure(Or(False, *[b.x == s._a for s in fs if s._k == 'dirac' and not isinf(b.x)]), 'only atoms are reported as atoms')
