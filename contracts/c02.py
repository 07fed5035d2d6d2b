"""C02  images under strictly monotone functions: exp, log, atan, tanh, sigmoid, 1/x, powers"""
from pyvc.spec import *
P = Registry()
S = mod('pacal.segments')
D = mod('pacal.distr')
M = mathfn
PI2 = __import__('math').pi / 2

def ends(fn, s, minf, pinf):
    lo = minf if s._k == 'minf' else fn(s._a)
    hi = pinf if s._k == 'pinf' else fn(s._b)
    return lo, hi

def seg_at(c, kinds, lo=None, hi=None, zero_left=False):
    s = sym_segment(c, S, 's', kinds)
    if lo is not None: c.assume(s._a >= lo) if not isinf(s._a) else None
    if hi is not None and not isinf(s._b): c.assume(s._b <= hi)
    return s

def one(c, cls, s, fn, inv, invd, minf, pinf, pole, lab):
    d = abstract_distr(c, D, 'd', nonneg=True)
    e = cls(d)
    r = s.probComposition(e.f, e.f_inv, e.f_inv_deriv, pole_at_zero=pole)
    if s._k == 'dirac': return check_atom(c, r, fn(s._a), s._f, lab)
    lo, hi = ends(fn, s, minf, pinf)
    check_image(c, r, lo, hi, lambda y: s._f(inv(y)) * abs(invd(y)), lab)

PC = ['segments.Segment.probComposition', 'segments.prob_comp_fun']

@P.contract(PC + ['distr.ExpDistr.f', 'distr.ExpDistr.f_inv', 'distr.ExpDistr.f_inv_deriv'])
def exp_image(c):
    s = sym_segment(c, S, 's')
    one(c, D.ExpDistr, s, M.exp, M.log, lambda y: 1 / y, 0.0, INF, bool(c.choose(2)), 'exp')

@P.contract(PC + ['distr.LogDistr.f', 'distr.LogDistr.f_inv', 'distr.LogDistr.f_inv_deriv'])
def log_image(c):
    k = c.choose(3, 'where')
    if k == 0:                                   # (0, b)
        b = c.real('b'); c.assume(And(b > 0, b <= 0.5))
        f = c.fun('f')
        s = mk_segment(S, ['finite', 'lpole'][c.choose(2)], 0.0, b, f); s._k = 'finite'; s._a, s._b, s._f = 0.0, b, f
        fn = lambda x: -INF if not is_sym(x) and x == 0 else M.log(x)
    else:
        s = sym_segment(c, S, 's', ['finite', 'pinf', 'lpole', 'rpole', 'dirac'])
        c.assume(s._a > 0)
        # segments come from a container already split at 0.5, 1 and 2
        if s._k == 'pinf': c.assume(s._a >= 2)
        fn = M.log
    one(c, D.LogDistr, s, fn, M.exp, M.exp, None, INF, False, 'log')

@P.contract(PC + ['distr.AtanDistr.f', 'distr.AtanDistr.f_inv', 'distr.AtanDistr.f_inv_deriv'])
def atan_image(c):
    s = sym_segment(c, S, 's')
    one(c, D.AtanDistr, s, M.arctan, M.tan, lambda y: 1 + M.tan(y) * M.tan(y), -PI2, PI2, False, 'atan')

@P.contract(PC + ['distr.TanhDistr.f', 'distr.TanhDistr.f_inv', 'distr.TanhDistr.f_inv_deriv'])
def tanh_image(c):
    s = sym_segment(c, S, 's')
    one(c, D.TanhDistr, s, M.tanh, lambda y: 0.5 * M.log((1 + y) / (1 - y)), lambda y: 1 / (1 - y * y), -1.0, 1.0, False, 'tanh')

@P.contract(PC + ['distr.SigmoidDistr.f', 'distr.SigmoidDistr.f_inv', 'distr.SigmoidDistr.f_inv_deriv'])
def sigmoid_image(c):
    s = sym_segment(c, S, 's')
    one(c, D.SigmoidDistr, s, lambda x: 1 / (1 + M.exp(-x)), lambda y: M.log(y / (1 - y)), lambda y: 1 / (y * (1 - y)), 0.0, 1.0, False, 'sigmoid')

@P.contract(['segments.Segment.probInverse', 'segments._op_one_over_x', 'segments._op_one_over_xsqaure', 'segments._prob_composition_safe'])
def reciprocal_image(c):
    k = c.choose(3, 'where')
    inv = lambda x: 0.0 if isinf(x) else 1 / x
    if k == 0:
        b = c.real('b'); c.assume(b > 0)
        f = c.fun('f')
        s = mk_segment(S, ['finite', 'lpole', 'pinf'][c.choose(3)], 0.0, b, f)
        if s.isPInf(): lo, hi = 0.0, INF
        else: lo, hi = 1 / b, INF
        s._k = ''; s._f = f
    elif k == 1:
        a = c.real('a'); c.assume(a < 0)
        f = c.fun('f')
        s = mk_segment(S, ['finite', 'rpole', 'minf'][c.choose(3)], a, 0.0, f)
        if s.isMInf(): lo, hi = -INF, 0.0
        else: lo, hi = -INF, 1 / a
        s._k = ''; s._f = f
    else:
        s = sym_segment(c, S, 's')
        c.assume(s._b < 0 if isinf(s._a) else s._a > 0 if isinf(s._b) else Or(s._a > 0, s._b < 0))
        lo, hi = inv(s._b), inv(s._a)
    r = s.probInverse(pole_at_zero=bool(c.choose(2)))
    if s._k == 'dirac': return check_atom(c, r, 1 / s._a, s._f, '1/x')
    check_image(c, r, lo, hi, lambda y: s._f(1 / y) / (y * y), '1/x')

# ---------------------------------------------------------------- containers
def recording_split(c, segs2):
    def splitByPoints(self, points):
        c.effects.append(('split', self, list(points)))
        r = self.__class__([]); r.segments = segs2
        return r
    return (S.PiecewiseFunction, 'splitByPoints', splitByPoints)

def container(c, call, segmeth, want_points, lab):
    segs, segs2 = sym_segments(c, S), sym_segments(c, S, 'split')
    pw = piecewise(S, 'PiecewiseDistribution', segs)
    def image(self, *a, **k):
        r = mk_segment(S, 'dirac', 0.0, 0.0, 1.0); r._of, r._args = self, (a, k)
        return r
    with patched(recorded_adds(S), recording_split(c, segs2), *[(K, segmeth, image) for K in (S.Segment,)]):
        r = call(pw)
    sp = [e for e in c.effects if e[0] == 'split']
    pts = set(float(p) for e in sp for p in e[2])
    c.ensure(sp and sp[0][1] is pw and set(want_points) <= pts, lab + ': segments are split where the function changes branch', 'split at %s' % sorted(pts))
    c.ensure(type(r) is type(pw), lab + ': a container of the same class')
    return segs2, r

@P.contract(['segments.PiecewiseFunction.copyComposition'])
def container_composition(c):
    f, g, h = (lambda x: x), (lambda x: x), (lambda x: x)
    segs, r = container(c, lambda pw: pw.copyComposition(f, g, h, pole_at_zero=True), 'probComposition', [0], 'copyComposition')
    def chk(s, im):
        c.ensure(im._of is s, 'copyComposition: image of this segment')
        a, k = im._args
        al = list(a) + [k.get(n) for n in ('g', 'ginv', 'ginvderiv')[len(a):]]
        c.ensure(al[0] is f and al[1] is g and al[2] is h, 'copyComposition: function, inverse and derivative passed on')
    one_image_per_segment(c, r, segs, chk, 'copyComposition')

@P.contract(['segments.PiecewiseFunction.copyLogComposition'])
def container_log_composition(c):
    f, g, h = (lambda x: x), (lambda x: x), (lambda x: x)
    segs, r = container(c, lambda pw: pw.copyLogComposition(f, g, h), 'probComposition', [1, 2], 'copyLogComposition')
    def chk(s, im):
        c.ensure(im._of is s, 'copyLogComposition: image of this segment')
        a, k = im._args
        al = list(a) + [k.get(n) for n in ('g', 'ginv', 'ginvderiv')[len(a):]]
        c.ensure(al[0] is f and al[1] is g and al[2] is h, 'copyLogComposition: function, inverse and derivative passed on')
    one_image_per_segment(c, r, segs, chk, 'copyLogComposition')

@P.contract(['segments.PiecewiseFunction.copyProbInverse'])
def container_reciprocal(c):
    segs, r = container(c, lambda pw: pw.copyProbInverse(), 'probInverse', [0], 'copyProbInverse')
    one_image_per_segment(c, r, segs, lambda s, im: c.ensure(im._of is s, 'copyProbInverse: image of this segment'), 'copyProbInverse')

# ---------------------------------------------------------------- distributions
FUNCS = [('exp', 'ExpDistr', M.exp, M.log, lambda y: 1 / y, (0.0, INF)),
         ('log', 'LogDistr', M.log, M.exp, M.exp, (-INF, INF)),
         ('atan', 'AtanDistr', M.arctan, M.tan, lambda y: 1 + M.tan(y) * M.tan(y), (-PI2, PI2)),
         ('tanh', 'TanhDistr', M.tanh, lambda y: 0.5 * M.log((1 + y) / (1 - y)), lambda y: 1 / (1 - y * y), (-1.0, 1.0)),
         ('sigmoid', 'SigmoidDistr', lambda x: 1 / (1 + M.exp(-x)), lambda y: M.log(y / (1 - y)), lambda y: 1 / (y * (1 - y)), (0.0, 1.0))]

def draws(c, d):
    return [k for k in c.effects if k[0] == 'rand' and k[1] is d]

@P.contract(['distr.FuncDistr.pdf', 'distr.FuncDistr.rand_op', 'distr.FuncDistr.init_piecewise_pdf', 'distr.exp', 'distr.log', 'distr.atan', 'distr.tanh',
             'distr.sigmoid', 'distr.LogDistr.init_piecewise_pdf'])
def function_distributions(c):
    nm, cls, fn, inv, invd, (lo, hi) = FUNCS[c.choose(len(FUNCS), 'function')]
    d = abstract_distr(c, D, 'd', nonneg=True)
    e = getattr(D, nm)(d)
    y = c.real('y')
    cond = inside(y, lo, hi)
    if cond is not True: c.assume(cond)
    c.ensure_eq(e.pdf(y), d._f(inv(y)) * abs(invd(y)), nm + ': density f(inverse(y))*|inverse\'(y)|')
    t, v = at_array_in(c, e.pdf, lo, hi)
    c.ensure_eq(v, d._f(inv(t)) * abs(invd(t)), nm + ': density on arrays')
    n = c.int('n'); cache = {}
    r = e.rand_op(n, cache)
    ds = draws(c, d)
    c.ensure(len(ds) == 1 and ds[0][3] is cache, nm + ': sample is taken from one draw of the argument (with the shared cache)')
    if len(ds) == 1:
        if nm == 'log': c.assume(ds[0][4] > 0)
        c.ensure_eq(r, fn(ds[0][4]), nm + ': sample is the function of the draw')
    class Rec:
        def __getattr__(self, n2):
            def f(*a, **k):
                c.effects.append(('pw', n2, a, k)); return 'PW'
            return f
    d._pw = Rec()
    e.init_piecewise_pdf()
    ef = [k for k in c.effects if k[0] == 'pw']
    c.ensure(len(ef) == 1 and e.piecewise_pdf == 'PW', nm + ': piecewise density comes from one composition of the argument\'s piecewise density')
    c.ensure(len(ef) == 1 and ef[0][1] == ('copyLogComposition' if nm == 'log' else 'copyComposition'), nm + ': composition used', ef[0][1] if ef else '')
    if len(ef) == 1:
        g, gi, gd = ef[0][2][:3]
        x = c.real('x')
        if nm == 'log': c.assume(x > 0)
        c.ensure_eq(g(x), fn(x), nm + ': function of the composition')
        c.ensure_eq(gi(y), inv(y), nm + ': inverse of the composition')
        c.ensure_eq(gd(y), invd(y), nm + ': derivative of the inverse')

@P.contract(['distr.InvDistr.pdf', 'distr.InvDistr.rand_op', 'distr.InvDistr.init_piecewise_pdf'])
def reciprocal_distribution(c):
    d = abstract_distr(c, D, 'd')
    e = D.InvDistr(d)
    y = c.real('y'); c.assume(Not(y == 0))
    c.ensure_eq(e.pdf(y), d._f(1 / y) / (y * y), '1/X: density')
    X = sym_array(c, 'x'); i = skolem_index(c, X.n)
    t = X.at(i); c.assume(Not(t == 0))
    c.ensure_eq(e.pdf(X).at(i), d._f(1 / t) / (t * t), '1/X: density on arrays')
    r = e.rand_op(c.int('n'), None)
    ds = draws(c, d)
    c.ensure(len(ds) == 1, '1/X: one draw')
    if len(ds) == 1: c.ensure_eq(r, 1 / ds[0][4], '1/X: sample is the reciprocal of the draw')
    class Rec:
        def copyProbInverse(self, *a, **k):
            c.effects.append(('pw', a, k)); return 'PW'
    d._pw = Rec()
    e.init_piecewise_pdf()
    c.ensure(e.piecewise_pdf == 'PW' and len([k for k in c.effects if k[0] == 'pw']) == 1, '1/X: piecewise density of the reciprocal')

# ---------------------------------------------------------------- power operators: what the built expression computes
@P.contract(['distr.Distr.__pow__', 'distr.Distr.__rpow__', 'distr.Distr.__rtruediv__'])
def power_operators(c):
    d = abstract_distr(c, D, 'd', nonneg=True)
    r = c.real('r')
    op = c.choose(3, 'op')
    if op == 0: e = d ** r; nm = 'X**r'
    elif op == 1:
        c.assume(r > 0); e = d.__rpow__(r); nm = 'r**X'
    else:
        e = d.__rtruediv__(r); nm = 'r/X'
    if not isinstance(e, D.Distr):
        # constants
        if op == 0: c.ensure(r == 0, nm + ': constant only when the exponent is zero'); c.ensure_eq(e, 1, nm + ': X**0 = 1')
        elif op == 1: c.ensure(r == 1, nm + ': constant only for base one'); c.ensure_eq(e, 1, nm + ': 1**X = 1')
        else: c.ensure(r == 0, nm + ': constant only for a zero numerator'); c.ensure_eq(e, 0, nm + ': 0/X = 0')
        return
    if e is d:
        c.ensure(op == 0, nm + ': the argument itself'); c.ensure(r == 1, nm + ': the argument itself only for exponent one'); return
    v = e.rand(c.int('n'), {})
    ds = draws(c, d)
    c.ensure(len(ds) == 1, nm + ': the expression draws its argument once')
    if len(ds) != 1: return
    x = ds[0][4]
    if op == 0:
        c.assume(x > 0)
        if r == -1: want = 1 / x
        elif r == 2: want = x * x
        else: want = M.exp(r * M.log(x))
    elif op == 1: want = M.exp(x * M.log(r))
    else:
        c.assume(Not(x == 0)); want = r / x
    c.ensure_eq(v, want, nm + ': value of the expression')
    # density
    y = c.real('y')
    if op == 0:
        c.assume(y > 0)
        if r == 2: return
        if r == -1: want = d._f(1 / y) / (y * y)
        else:
            u = M.exp(M.log(y) / r)
            want = d._f(u) * u / (y * abs(r))
    elif op == 1:
        c.assume(y > 0)
        want = d._f(M.log(y) / M.log(r)) / (abs(M.log(r)) * y)
    else:
        c.assume(Not(y == 0)); want = d._f(r / y) * abs(r) / (y * y)
    c.ensure_eq(e.pdf(y), want, nm + ': density of the expression')
