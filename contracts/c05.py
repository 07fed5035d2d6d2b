"""C05  product and quotient of independent variables: the whole hyperbola xy=z (line x=zy), integrated once"""
import itertools, operator
import z3
from pyvc.spec import *
from pyvc import npshim
from pyvc.integ import Target, check_integrals
from . import c04 as sums
P = Registry()
S, A, D = sums.S, sums.A, sums.D
dom = sums.dom
runner = sums.runner

# ---------------------------------------------------------------- pieces of one sign (the operands are split at -1, 0, 1)
def signed(c, name, sg, inner, outer, kind=None):
    """piece on one side of 0: inner end 0 ('zero') or away from 0 ('gap'), outer end finite ('fin') or infinite ('inf')"""
    if inner == 'zero': lo = 0.0
    else:
        lo = c.real(name + '.lo'); c.assume(lo > 0)
    if outer == 'inf': hi = None
    else:
        hi = c.real(name + '.hi'); c.assume(hi > lo)
    if sg > 0: a, b = lo, hi
    else: a, b = (None if hi is None else -hi), (0.0 if inner == 'zero' else -lo)
    k = ('pinf' if sg > 0 else 'minf') if outer == 'inf' else (kind or 'finite')
    f = c.fun(name + '.f')
    s = mk_segment(S, k, a, b, f)
    s._k = k; s._a = -INF if a is None else a; s._b = INF if b is None else b; s._f = f
    s._sg, s._lo, s._hi = sg, lo, (INF if hi is None else hi)
    return s

def point(c, name, sg=None, zero=False):
    p = 0.0 if zero else c.real(name + '.p')
    if not zero: c.assume(p > 0 if sg > 0 else p < 0)
    m = c.real(name + '.mass'); c.assume(m > 0)
    s = mk_segment(S, 'dirac', p, p, m)
    s._k = 'dirac'; s._a = s._b = p; s._f = m
    s._sg = sg; s._lo = s._hi = abs(p)
    return s

def lo_hi(s):
    """(sign, smallest, largest absolute value); the sign is +1/-1 (a term for a generic piece)"""
    if hasattr(s, '_lo'): return s._sg, s._lo, s._hi
    if s._k == 'pinf': return 1, s._a, INF
    if s._k == 'minf': return -1, -s._b, INF
    pos = s._a >= 0
    return arrays.select(pos, 1.0, -1.0), arrays.select(pos, s._a, -s._b), arrays.select(pos, s._b, -s._a)

def meets_mul(z, s, r):
    """the rectangle of the pair (pieces of one sign) meets the curve xy=z"""
    g1, l1, h1 = lo_hi(s); g2, l2, h2 = lo_hi(r)
    w = g1 * g2 * z
    if isinf(h1) and isinf(h2): up = True
    elif isinf(h1): up = h2 > 0
    elif isinf(h2): up = h1 > 0
    else: up = w < h1 * h2
    return And(l1 * l2 < w, up)

def meets_div(z, s, r):
    """the rectangle of the pair meets the line x = z y"""
    def ends(sgn):
        L, U = (r._a, r._b) if sgn > 0 else (r._b, r._a)
        lo = None if isinf(L) else z * L
        up = None if isinf(U) else z * U
        conds = []
        if up is not None and not isinf(s._a): conds.append(s._a < up)
        if lo is not None and not isinf(s._b): conds.append(lo < s._b)
        return And(True, *conds)
    return Or(And(z > 0, ends(1)), And(z < 0, ends(-1)))

def prod_targets(x, pairs):
    T = []
    for s, r in pairs:
        if 'dirac' in (s._k, r._k): continue
        T.append(Target(lambda t, s=s, r=r: And(t != 0, dom(s, t), dom(r, x / t)), lambda t, s=s, r=r: s._f(t) * r._f(x / t) / abs(t)))
    return T
def prod_atoms(x, pairs):
    v = 0.0
    for s, r in pairs:
        if s._k == 'dirac' and r._k != 'dirac': v = v + s._f * r._f(x / s._a) / abs(s._a)
        if s._k != 'dirac' and r._k == 'dirac': v = v + r._f * s._f(x / r._a) / abs(r._a)
    return v
def quot_targets(x, pairs):
    T = []
    for s, r in pairs:
        if 'dirac' in (s._k, r._k): continue
        T.append(Target(lambda u, s=s, r=r: And(dom(r, u), dom(s, x * u)), lambda u, s=s, r=r: s._f(x * u) * r._f(u) * abs(u), subs=[(lambda u: x * u, lambda u: abs(x))]))
    return T
def quot_atoms(x, pairs):
    v = 0.0
    for s, r in pairs:
        if s._k == 'dirac' and r._k != 'dirac': v = v + s._f * r._f(s._a / x) * abs(s._a) / x / x
        if s._k != 'dirac' and r._k == 'dirac': v = v + r._f * s._f(x * r._a) * abs(r._a)
    return v

OPS = {'product': ('convprod_at_point', meets_mul, prod_targets, prod_atoms),
       'quotient': ('convdiv_at_point', meets_div, quot_targets, quot_atoms),
       'quotient2': ('convdiv2_at_point', meets_div, quot_targets, quot_atoms)}
SIGNS = [(1, 1), (1, -1), (-1, 1), (-1, -1)]

def pair(op, oi, oj, lab):
    at, pred, targets, atoms = OPS[op]
    def h(c):
        c.zero_division = True
        gi, gj = SIGNS[c.choose(4, 'signs')]
        kinds = {1: ['finite', 'lpole', 'rpole'], -1: ['finite', 'rpole', 'lpole']}
        def piece(o, g, n):
            if o == 'atom': return point(c, n, g)
            inner = ['gap', 'zero'][c.choose(2, n + ' end')]
            kind = kinds[g][1] if (inner == 'zero' and o == 'pole') else 'finite'
            return signed(c, n, g, inner, 'inf' if o == 'inf' else 'fin', kind)
        s, r = piece(oi, gi, 's'), piece(oj, gj, 'r')
        x = c.real('x')
        c.assume(x != 0)
        c.assume(pred(x, s, r))
        v = getattr(runner((s, r)), at)(x)
        check_integrals(c, v, targets(x, [(s, r)]), lab, const=atoms(x, [(s, r)]))
    return h

for op in OPS:
    for oi, oj in itertools.product(('fin', 'inf', 'pole', 'atom'), repeat=2):
        if oi == oj == 'atom' or 'pole' in (oi, oj) and oi != oj: continue
        P.contract('indeparith.Convxrunner.' + OPS[op][0], name='pair_%s[%s,%s]' % (op, oi, oj))(
            pair(op, oi, oj, '%s of a %s and a %s piece' % (op, oi, oj)))

def folded(op):
    at, pred, targets, atoms = OPS[op]
    def h(c):
        k = c.choose(3, 'kinds')
        g = SIGNS[c.choose(2, 'signs')]
        n = c.int('n'); c.assume(n >= 0)
        s = point(c, 's', g[0]) if k == 2 else signed(c, 's', g[0], 'gap', 'fin')
        r = point(c, 'r', g[1]) if k == 1 else signed(c, 'r', g[1], 'gap', 'fin')
        x = c.real('x'); c.assume(x != 0); c.assume(pred(x, s, r))
        seq = SymSeq(n, lambda i: (s, r), 'pairs')
        v = getattr(A.Convxrunner(seq, None), at)(x)
        f = c.folds.get(str(v.t)) if is_sym(v) else None
        c.ensure(f is not None and f.seq is seq, 'the value is a sum over all the pairs', str(v))
        if f is None: return
        for cs in f.cases:
            with loops.under(cs.conds):
                check_integrals(c, Num(cs.delta), targets(x, [(s, r)]), 'contribution of one pair', const=atoms(x, [(s, r)]))
    return h
for op in OPS:
    P.contract('indeparith.Convxrunner.' + OPS[op][0], name='contributions_are_added_' + op)(folded(op))

def one_signed(c, S, name, kinds):
    """sequence of any number of pieces of one sign each"""
    seq = sym_segments(c, S, name, kinds=kinds)
    elem = seq._elem
    def signed_elem(i):
        s = elem(i)
        if s._k == 'pinf': f = s._a >= 0
        elif s._k == 'minf': f = s._b <= 0
        else: f = Or(s._a >= 0, s._b <= 0)
        core.CTX.pc.append(bterm(f))
        return s
    seq._elem = signed_elem
    return seq

def nonzero(c, z): c.assume(z != 0)
for kind in KINDS:
    mk = lambda c, S, name, kinds, kind=kind: one_signed(c, S, name, [kind] if name == 'f' else kinds)
    P.contract('indeparith._findSegList', name='choice_of_pairs_product[%s]' % kind)(
        sums.select_contract(lambda F, G, z: A._findSegList(F, G, z, operator.mul), meets_mul, 'pairs for a product', make=mk, facts=nonzero, first=[kind]))
P.contract('indeparith._findSegListDiv', name='choice_of_pairs_quotient')(
    sums.select_contract(lambda F, G, z: A._findSegListDiv(F, G, z), meets_div, 'pairs for a quotient', make=one_signed, facts=nonzero))

@P.contract(['indeparith.Convxrunner.convprodx', 'indeparith.Convxrunner.fun_div'])
def elementwise(c):
    """arrays of any length are mapped element by element; the two integration axes of a quotient give the same values"""
    F = c.fun('at_point')
    R = runner()
    mul = bool(c.choose(2, 'which'))
    pm = lambda: (lambda f, xs: xs.map(f) if isinstance(xs, LazyArr) else [f(v) for v in xs])
    with patched((A, 'get_parmap', pm), *[(A.Convxrunner, n, lambda self, x: F(x)) for n in ('convprod_at_point', 'convdiv_at_point', 'convdiv2_at_point')]):
        call = R.convprodx if mul else R.fun_div
        X = sym_array(c, 'X'); i = skolem_index(c, X.n)
        r = call(X)
        c.ensure_eq(r.at(i), F(X.at(i)), 'element of the array')
        c.ensure(r.n.t.eq(X.n.t), 'length of the result')
        x = c.real('x')
        q = call(x)
        import numpy as np
        c.ensure(np.size(q) == 1, 'one value for a scalar')
        c.ensure_eq(np.asarray(q, dtype=object).flatten()[0], F(x), 'value for a scalar')

# ---------------------------------------------------------------- whole operation
def pieces(c, name, spec):
    """container with the given pieces; spec gives the ends of the pieces (numbers or variables between the numbers)"""
    out = []
    for j, (k, a, b) in enumerate(spec(c, name)):
        if k == 'dirac':
            f = c.real('%s%d.mass' % (name, j)); c.assume(f > 0)
            s = mk_segment(S, k, a, a, f); s._a = s._b = a
        else:
            f = c.fun('%s%d.f' % (name, j))
            s = mk_segment(S, k, a, b, f); s._a = -INF if a is None else a; s._b = INF if b is None else b
        s._k = k; s._f = f; s._i = j
        out.append(s)
    p = S.PiecewiseDistribution([]); p.segments = list(out)
    return p, out
def var(c, name, *bounds):
    """variable strictly between the bounds"""
    v = c.real(name)
    lo, hi = bounds
    if lo is not None: c.assume(v > lo)
    if hi is not None: c.assume(v < hi)
    return v
def two(c, n, lo, hi):
    a = var(c, n + '.a', lo, hi); return a, var(c, n + '.b', a, hi)

SPEC = {
    'big': lambda c, n: [('finite',) + two(c, n, 1.0, None)],
    'small': lambda c, n: [('finite',) + two(c, n, 0.0, 1.0)],
    'neg': lambda c, n: [('finite',) + two(c, n, None, -1.0)],
    'unit': lambda c, n: [('finite', 0.0, var(c, n + '.b', 0.0, 1.0))],
    'upto': lambda c, n: [('finite', 0.0, var(c, n + '.b', 1.0, None))],
    'pole': lambda c, n: [('lpole', 0.0, var(c, n + '.b', 0.0, 1.0))],
    'negunit': lambda c, n: [('finite', var(c, n + '.a', -1.0, 0.0), 0.0)],
    'cross': lambda c, n: [('finite', var(c, n + '.a', -1.0, 0.0), var(c, n + '.b', 0.0, 1.0))],
    'tail': lambda c, n: [('pinf', var(c, n + '.a', 1.0, None), None)],
    'half': lambda c, n: [('pinf', 0.0, None)],
    'mhalf': lambda c, n: [('minf', None, 0.0)],
    'line': lambda c, n: [('minf', None, 0.0), ('pinf', 0.0, None)],
    'atom': lambda c, n: [('dirac', var(c, n + '.p', 1.0, None), None)],
    'natom': lambda c, n: [('dirac', var(c, n + '.p', None, -1.0), None)],
    'zero': lambda c, n: [('dirac', 0.0, None)],
    'zero+unit': lambda c, n: [('dirac', 0.0, None), ('finite', 0.0, var(c, n + '.b', 0.0, 1.0))],
    'zero+atom': lambda c, n: [('dirac', 0.0, None), ('dirac', var(c, n + '.p', 1.0, None), None)],
    'atoms': lambda c, n: [('dirac', var(c, n + '.p', None, -1.0), None), ('dirac', var(c, n + '.q', 1.0, None), None)],
    'atom+big': lambda c, n: (lambda p: [('dirac', p, None), ('finite',) + two(c, n, p, None)])(var(c, n + '.p', 1.0, None)),
}

def ins(L, t): return Or(False, *[inside(t, s._a, s._b) for s in L if s._k != 'dirac'])
def cont(L): return [s for s in L if s._k != 'dirac']
def whole_targets(x, fs, gs, mul):
    if not cont(fs) or not cont(gs): return []
    if mul: return [Target(lambda t: And(t != 0, ins(fs, t), ins(gs, x / t)), lambda t: density_of(fs, t) * density_of(gs, x / t) / abs(t))]
    return [Target(lambda u: And(ins(gs, u), ins(fs, x * u)), lambda u: density_of(fs, x * u) * density_of(gs, u) * abs(u), subs=[(lambda u: x * u, lambda u: abs(x))])]
def whole_atoms(x, fs, gs, mul):
    v = 0.0
    for s in fs:
        if s._k != 'dirac' or not is_sym(s._a): continue
        v = v + (s._f * density_of(gs, x / s._a) / abs(s._a) if mul else s._f * density_of(gs, s._a / x) * abs(s._a) / x / x)
    for s in gs:
        if s._k != 'dirac' or not is_sym(s._a): continue
        v = v + (s._f * density_of(fs, x / s._a) / abs(s._a) if mul else s._f * density_of(fs, x * s._a) * abs(s._a))
    return v

def whole(fi, gi, mul):
    lab = 'product' if mul else 'quotient'
    op = operator.mul if mul else operator.truediv
    def h(c):
        c.zero_division = True
        f, fs = pieces(c, 'f', SPEC[fi]); g, gs = pieces(c, 'g', SPEC[gi])
        at = [op(s._a, t._a) for s in fs for t in gs if s._k == 'dirac' and t._k == 'dirac']
        for p, q in itertools.combinations(at, 2):
            if is_sym(p) or is_sym(q): c.assume(Or(p == q, abs(p - q) > 1e-3))
        eu = A.epsunique
        poles = bool(c.choose(2, 'pole')) if ('unit' in fi or 'pole' in fi) else False
        with patched((A, 'testPole', lambda *a, **k: poles), (A, 'epsunique', lambda tab, eps=0.0: eu(tab, 0.0)), (A, 'get_parmap', lambda: (lambda F, xs: [F(v) for v in xs])), *no_interpolation(S)):
            res = A.convprod(f, g) if mul else A.convdiv(f, g)
            for I in list(c.integrals.values()): c.assume(Num(z3.Real(I.name)) > 0)       # the pieces of a law have a positive mass
            segs = list(res.segments)
            x = c.real('x'); c.assume(x != 0)
            ends = []
            for s in segs:
                for e in (s.a, s.b):
                    if is_sym(e) and not any(e is q for q in ends): ends.append(e)
            for e in ends: c.assume(x != e)
            for s in segs:
                if not s.isDirac():
                    for e in (s.a, s.b):
                        if not is_sym(e) and not isinf(e): c.assume(x != e)
            val = 0.0; n = 0
            for s in segs:
                if s.isDirac(): continue
                if bool(inside(x, s.a, s.b)):
                    n += 1
                    v = s.f(x)
                    while hasattr(v, '__len__'): v = v[0]
                    val = val + v
        c.ensure(n <= 1, lab + ': pieces of the result do not overlap')
        check_integrals(c, val, whole_targets(x, fs, gs, mul), lab, const=whole_atoms(x, fs, gs, mul))
        # masses away from 0
        y = c.real('y'); c.assume(y != 0)
        got = 0.0
        for s in segs:
            if s.isDirac(): got = got + arrays.select(s.a == y, s.f, 0.0)
        want = 0.0
        for s in fs:
            for t in gs:
                if s._k == t._k == 'dirac': want = want + arrays.select(op(s._a, t._a) == y, s._f * t._f, 0.0)
        c.ensure_eq(got, want, lab + ': masses of the result away from 0')
        got = 0.0
        for s in segs:
            if s.isDirac() and bool(s.a == 0): got = got + s.f
        T = []; const = 0.0; zero = lambda L: [s for s in L if s._k == 'dirac' and not is_sym(s._a)]
        for u, v, both in ((fs, gs, True), (gs, fs, False)):
            if not mul and not both: continue
            for s in zero(u):
                for t in v:
                    if t._k == 'dirac': const = const + (s._f * t._f if both or is_sym(t._a) else 0.0)
                    else: T.append(Target(lambda w, t=t: inside(w, t._a, t._b), lambda w, s=s, t=t: s._f * t._f(w)))
        check_integrals(c, got, T, lab + ': mass of the atom at 0', const=const)
    return h

FUNCS = ['indeparith.convdiracs', 'indeparith._findSegList', 'utils.epsunique', 'segments.PiecewiseFunction.splitByPoints', 'segments.PiecewiseFunction.addSegment']
PROD = ['big big', 'big neg', 'neg neg', 'small small', 'unit unit', 'unit big', 'upto small', 'upto big', 'pole big', 'cross big', 'cross cross', 'negunit big', 'tail big', 'tail tail', 'half half', 'half mhalf', 'line big', 'line line',
        'atom big', 'big natom', 'atom cross', 'natom half', 'atom atom', 'atoms natom', 'zero unit', 'zero line', 'unit zero', 'zero zero', 'zero+unit unit', 'zero+unit zero+unit', 'zero+atom atoms', 'atom+big big', 'atom+big natom']
QUOT = ['big big', 'big neg', 'neg neg', 'small small', 'small big', 'unit unit', 'unit big', 'big unit', 'upto small', 'pole big', 'cross big', 'big cross', 'negunit big', 'tail big', 'big tail', 'tail tail', 'half half', 'half mhalf', 'line big', 'big line', 'line line', 'cross line', 'negunit cross', 'cross unit',
        'atom big', 'big natom', 'atom cross', 'cross atom', 'natom half', 'half natom', 'atom atom', 'atoms natom', 'zero unit', 'zero line', 'zero atom', 'zero+unit big', 'zero+unit unit', 'zero+atom atoms', 'atom+big big', 'atom+big natom']
for L, mul in ((PROD, True), (QUOT, False)):
    for pr in L:
        fi, gi = pr.split()
        P.contract(FUNCS + (['indeparith.convprod', 'indeparith._probDiracAtZeroInProd'] if mul else
                            ['indeparith.convdiv', 'indeparith._split_for_prod_and_div', 'indeparith._probDiracAtZeroInDiv', 'indeparith._distr_signs', 'indeparith._distr_zero_signs']),
                   name='whole_%s[%s | %s]' % ('product' if mul else 'quotient', fi, gi))(whole(fi, gi, mul))

@P.contract(['distr.MulDistr.init_piecewise_pdf', 'distr.DivDistr.init_piecewise_pdf'])
def distribution_of_product_and_quotient(c):
    """the density of X*Y (X/Y) is that of the operation on the densities of X and Y, in this order"""
    f, fs = pieces(c, 'f', SPEC['big']); g, gs = pieces(c, 'g', SPEC['big'])
    mul = bool(c.choose(2, 'which'))
    got = []
    op = lambda nm: (lambda a, b: got.append((nm, a, b)) or 'result')
    with patched((D, 'convprod', op('mul')), (D, 'convdiv', op('div'))):
        X, Y = sums.law(c, f, 'X'), sums.law(c, g, 'Y')
        res = (X * Y if mul else X / Y).get_piecewise_pdf()
    c.ensure(len(got) == 1 and res == 'result', 'the density is the result of one operation')
    c.ensure(got and got[0][0] == ('mul' if mul else 'div') and got[0][1] is f and got[0][2] is g, 'operation and operands')
