"""contract harness registry + symbolic inputs shared by the contract files"""
import z3, itertools
from . import core, loader, loops, integ, arrays, mathfn
from .core import Num, SBool, term, bterm, mkbool, Unsupported, PathEnd, is_sym, INF
from .arrays import LazyArr, sym_array, skolem_index, SymFun, obj_array
from .loops import SymSeq

class Harness:
    def __init__(self, name, fn, funcs, expect, kw):
        self.name, self.fn, self.funcs, self.expect, self.kw = name, fn, funcs, expect, kw

class Registry:
    def __init__(self): self.h = []
    def contract(self, funcs, expect=(), name=None, **kw):
        if isinstance(funcs, str): funcs = [funcs]
        def d(fn):
            self.h.append(Harness(name or fn.__name__, fn, list(funcs), list(expect), kw))
            return fn
        return d

# ---------------------------------------------------------------- helpers
def mod(name): return loader.load(name)

class patched:
    """temporarily replace attributes (callee -> its contract)"""
    def __init__(self, *triples): self.t = triples
    def __enter__(self):
        self.old = []
        for o, n, v in self.t:
            d = o.__dict__ if isinstance(o, type) else None
            self.old.append((o, n, d[n] if d is not None and n in d else getattr(o, n, None), (d is None) or (n in d)))
            setattr(o, n, v)
        return self
    def __exit__(self, *a):
        for o, n, v, had in reversed(self.old):
            if had: setattr(o, n, v)
            else: delattr(o, n)
        return False

KINDS = ['finite', 'minf', 'pinf', 'lpole', 'rpole', 'dirac']

def mk_segment(S, kind, a, b, f):
    """a real Segment object of the module S with symbolic ends/values"""
    if kind in ('finite', 'closed'): return S.Segment(a, b, f)
    if kind == 'minf': return S.MInfSegment(b, f)
    if kind == 'pinf': return S.PInfSegment(a, f)
    if kind == 'lpole': return S.SegmentWithPole(a, b, f, left_pole=True)
    if kind == 'rpole': return S.SegmentWithPole(a, b, f, left_pole=False)
    if kind == 'dirac': return S.DiracSegment(a, f)
    raise ValueError(kind)

def sym_segment(c, S, name, kinds=KINDS):
    """segment of any kind: a<b arbitrary, f an arbitrary real function (Dirac: arbitrary mass)"""
    kind = kinds[c.choose(len(kinds), 'kind_' + name)]
    a = c.real(name + '.a'); b = c.real(name + '.b')
    if kind == 'dirac':
        m = c.real(name + '.mass')
        s = mk_segment(S, kind, a, a, m)
        s._k = kind; s._a, s._b, s._f = a, a, m
        return s
    if kind in ('finite', 'lpole', 'rpole'): c.assume(a < b)
    f = c.fun(name + '.f')
    s = mk_segment(S, kind, a, b, f)
    s._k = kind
    s._a = -INF if kind == 'minf' else a
    s._b = INF if kind == 'pinf' else b
    s._f = f
    return s

def alive(cx, m):
    """the path facts recorded with a memoised element are still part of the current path"""
    return m[0] is cx and len(cx.pc) >= m[1] and cx.pc[m[1] - 1] is m[2]

def sym_segments(c, S, name='seg', kinds=KINDS, sorted_=True, middle=None):
    """sequence of unknown length of segments of every kind; invariant of PiecewiseFunction:
    sorted, disjoint, only the first may start at -inf and only the last may end at +inf"""
    n = c.int('n_' + name)
    c.assume(n >= 0)
    A = z3.Function(c.fresh(name + '.a'), z3.IntSort(), z3.RealSort())
    B = z3.Function(c.fresh(name + '.b'), z3.IntSort(), z3.RealSort())
    M = z3.Function(c.fresh(name + '.mass'), z3.IntSort(), z3.RealSort())
    F = z3.Function(c.fresh(name + '.f'), z3.IntSort(), z3.RealSort(), z3.RealSort())
    K = z3.Function(c.fresh(name + '.kind'), z3.IntSort(), z3.IntSort())
    memo = {}
    ks = list(kinds)
    def code(k): return (KINDS + ['closed']).index(k)
    def elem(i):
        cx = core.CTX
        i = z3.simplify(i)
        key = i.sexpr()
        for k2 in [k2 for k2, (m, _) in memo.items() if not alive(cx, m)]: del memo[k2]
        if key in memo: return memo[key][1]
        kind = None
        if 'minf' in ks: cx.pc.append(z3.Implies(K(i) == code('minf'), i == 0))
        if middle: cx.pc.append(z3.Or(i == 0, i == n.t - 1, K(i) == code(middle)))
        if 'pinf' in ks: cx.pc.append(z3.Implies(K(i) == code('pinf'), i == n.t - 1))
        for j, k in enumerate(ks[:-1]):
            if cx.branch(K(i) == code(k)): kind = k; break
        if kind is None:
            kind = ks[-1]
            cx.pc.append(K(i) == code(kind))
        a, b = Num(A(i)), Num(B(i))
        if kind == 'dirac':
            cx.pc.append(A(i) == B(i))
            s = mk_segment(S, kind, a, a, Num(M(i)))
            s._a = s._b = a; s._f = s.f
        else:
            if kind in ('finite', 'lpole', 'rpole'): cx.pc.append(A(i) < B(i))
            if kind == 'closed': cx.pc.append(A(i) <= B(i))
            if kind == 'minf': cx.pc.append(i == 0)
            if kind == 'pinf': cx.pc.append(i == n.t - 1)
            d = F
            f = IdxFun(F, i)
            s = mk_segment(S, kind, a, b, f)
            s._a = -INF if kind == 'minf' else a
            s._b = INF if kind == 'pinf' else b
            s._f = f
        s._k = kind
        s._i = i
        # ordering against the elements seen so far
        if sorted_:
            for k2, (_, s2) in list(memo.items()):
                j = s2._i
                if s2._b is not INF and s._a is not -INF and is_sym(s2._b) and is_sym(s._a):
                    cx.pc.append(z3.Implies(j < i, term(s2._b) <= term(s._a)))
                else: cx.pc.append(z3.Not(j < i))
                if is_sym(s._b) and is_sym(s2._a):
                    cx.pc.append(z3.Implies(i < j, term(s._b) <= term(s2._a)))
                else: cx.pc.append(z3.Not(i < j))
        cx.pc.append(z3.And(i >= 0, i < n.t))
        memo[key] = ((cx, len(cx.pc), cx.pc[-1]), s)
        return s
    seq = SymSeq(n, elem, name)
    seq.A, seq.B, seq.M, seq.F, seq.K = A, B, M, F, K
    seq._memo = memo
    return seq

class IdxFun:
    """f_i: an arbitrary real function per segment index"""
    def __init__(self, F, i): self.F, self.i = F, i
    def __call__(self, x):
        if isinstance(x, LazyArr): return x.map(self)
        import numpy as np
        if isinstance(x, (np.ndarray, list, tuple)) and not (isinstance(x, np.ndarray) and x.ndim == 0): return arrays.map_any(self, x)
        inf = core._inf_of(x) if not is_sym(x) else None
        if inf is not None:
            return Num(z3.Function(self.F.name() + ('_pinf' if inf > 0 else '_minf'), z3.IntSort(), z3.RealSort())(self.i))
        return Num(self.F(self.i, term(x)))
    def __repr__(self): return 'f[%s]' % self.i

def piecewise(S, cls, segs):
    p = getattr(S, cls)([])
    p.segments = segs
    return p

def inside(t, a, b, closed=False):
    conds = []
    if not (not is_sym(a) and core._inf_of(a) is not None): conds.append(bterm(a <= t) if closed else bterm(a < t))
    elif a > 0: return SBool(z3.BoolVal(False))
    if not (not is_sym(b) and core._inf_of(b) is not None): conds.append(bterm(t <= b) if closed else bterm(t < b))
    elif b < 0: return SBool(z3.BoolVal(False))
    return mkbool(z3.And(conds)) if conds else True

def And(*a): return mkbool(z3.And([bterm(x) for x in a]))
def Or(*a): return mkbool(z3.Or([bterm(x) for x in a]))
def Not(a): return mkbool(z3.Not(bterm(a)))
def Implies(a, b): return mkbool(z3.Implies(bterm(a), bterm(b)))
def Iff(a, b): return mkbool(bterm(a) == bterm(b))

def seg_kind(s):
    if s.isDirac(): return 'dirac'
    if s.isMInf() and s.isPInf(): return 'all'
    if s.isMInf(): return 'minf'
    if s.isPInf(): return 'pinf'
    if s.hasLeftPole(): return 'lpole'
    if s.hasRightPole(): return 'rpole'
    return 'finite'

def at(f, c, t, n=None):
    """value of a pdf-like callable at t, through both calling conventions (scalar; element of an array of any length)"""
    return f(t)

def at_array(c, f, name='x'):
    """(t, f(array)[i]) for an arbitrary element of an array of arbitrary length"""
    X = sym_array(c, name)
    i = skolem_index(c, X.n)
    r = f(X)
    import numpy as np
    if isinstance(r, LazyArr): v = r.at(i)
    elif isinstance(r, np.ndarray) and r.ndim == 0: v = r.item()
    else: v = r
    return X.at(i), v

# ---------------------------------------------------------------- containers and distributions under contract
def recorded_adds(S):
    """addSegment replaced by its contract (proved separately): the segment joins the container"""
    def addSegment(self, segment):
        core.CTX.effects.append(('add', self, segment))
    return (S.PiecewiseFunction, 'addSegment', addSegment)

def adds_of(effects, target=None):
    return [e for e in effects if e[0] == 'add' and (target is None or e[1] is target)]

def foreach_of(c, seq):
    """cases of the (single) loop over `seq` that had effects"""
    return [e for e in c.effects if e[0] == 'foreach' and e[1] is seq]

def one_image_per_segment(c, result, segs, check, label):
    """every segment of the container `segs` contributed exactly one segment to `result`, and nothing else did"""
    fe = foreach_of(c, segs)
    c.ensure(len(fe) == 1 and len(adds_of(c.effects)) == 0, label + ': exactly one pass over all segments', '%d passes' % len(fe))
    if len(fe) != 1: return
    for cs in fe[0][2]:
        with loops.under(cs.conds):
            ad = adds_of(cs.effects)
            good = len(ad) == 1 and ad[0][1] is result
            c.ensure(good, label + ': each segment contributes exactly one image', '%d images of a %s segment' % (len(ad), getattr(cs.elem, '_k', '?')))
            if good: check(cs.elem, ad[0][2])

def abstract_distr(c, D, name, rng=True, nonneg=None):
    """an arbitrary distribution: uninterpreted density, symbolic range, symbolic piecewise pdf, sampling observed"""
    f = c.fun(name + '.pdf')
    class AnyDistr(D.Distr):
        def pdf(self, x): return f(x)
        def getName(self): return name
        def get_piecewise_pdf(self): return self._pw
        def init_piecewise_pdf(self): self.piecewise_pdf = self._pw
        def is_nonneg(self): return self._nonneg
        def rand_raw(self, n=None): return self._draw(n, None)
        def rand(self, n=None, cache=None):
            return self._draw(n, cache)
        def _draw(self, n, cache):
            v = core.CTX.real(name + '.sample')
            core.CTX.effects.append(('rand', self, n, cache, v))
            return v
    d = AnyDistr()
    d._f = f; d._pw = None
    d._nonneg = nonneg
    d.a, d.b = c.real(name + '.lo'), c.real(name + '.hi')
    if rng: c.assume(d.a < d.b)
    return d

def at_array_in(c, f, lo, hi, name='x'):
    """as at_array, for an arbitrary element strictly inside (lo,hi)"""
    X = sym_array(c, name)
    i = skolem_index(c, X.n)
    cond = inside(X.at(i), lo, hi)
    if cond is not True: c.assume(cond)
    r = f(X)
    import numpy as np
    if isinstance(r, LazyArr): v = r.at(i)
    elif isinstance(r, np.ndarray) and r.ndim == 0: v = r.item()
    else: v = r
    return X.at(i), v

def isinf(x): return not is_sym(x) and core._inf_of(x) is not None

def check_image(c, r, lo, hi, dens, lab, kind=None):
    """r is a segment on (lo,hi) (infinite ends in the infinite kinds) with density dens"""
    c.ensure(not r.isDirac(), lab + ': continuous segment is mapped to a continuous segment')
    if r.isDirac(): return
    c.ensure_eq(r.a, lo, lab + ': left end')
    c.ensure_eq(r.b, hi, lab + ': right end')
    c.ensure(bool(r.isMInf()) == isinf(lo) and bool(r.isPInf()) == isinf(hi), lab + ': infinite ends are in infinite segments')
    y = c.real('y')
    cond = inside(y, lo, hi)
    if cond is not True: c.assume(cond)
    c.ensure_eq(r.f(y), dens(y), lab + ': density (scalar)')
    t, v = at_array_in(c, r.f, lo, hi)
    c.ensure_eq(v, dens(t), lab + ': density (array of any length)')

def check_atom(c, r, pos, mass, lab):
    c.ensure(r.isDirac(), lab + ': an atom is mapped to an atom')
    if not r.isDirac(): return
    c.ensure_eq(r.a, pos, lab + ': position of the atom')
    c.ensure_eq(r.b, pos, lab + ': position of the atom (right end)')
    c.ensure_eq(r.f, mass, lab + ': mass of the atom')

def few_pieces(c, S, name, kinds, cls='PiecewiseDistribution', gaps=True):
    """container with the given kinds of pieces at arbitrary places, in order (each piece starts at or after the end of the one before)"""
    out = []; last = None
    for j, k in enumerate(kinds):
        f = c.fun('%s%d.f' % (name, j))
        if k == 'dirac':
            a = c.real('%s%d.p' % (name, j)); m = c.real('%s%d.mass' % (name, j)); c.assume(m > 0)
            if last is not None: c.assume(last + 1e-3 < a if out[-1]._k == 'dirac' else last <= a)      # closer atoms are one atom (rounding)
            s = mk_segment(S, k, a, a, m); s._a = s._b = a; s._f = m; last = a
        else:
            adj = last is not None and (not gaps or c.choose(2, '%s%d_adjacent' % (name, j)) == 0)
            a = None if k == 'minf' else (last if adj else c.real('%s%d.a' % (name, j)))
            b = None if k == 'pinf' else c.real('%s%d.b' % (name, j))
            if a is not None and last is not None and not adj: c.assume(last < a)
            if a is not None and b is not None: c.assume(a < b)
            s = mk_segment(S, k, a, b, f)
            s._a = -INF if a is None else a
            s._b = INF if b is None else b
            s._f = f; last = b
        s._k = k; s._i = j
        out.append(s)
    p = getattr(S, cls)([])
    p.segments = list(out)
    return p, out

def density_of(segs, t):
    """value at t of the density with the given pieces (no atoms), as a term"""
    v = 0.0
    for s in segs:
        if s._k == 'dirac': continue
        v = arrays.select(inside(t, s._a, s._b), s._f(t), v)
    return v

def no_interpolation(S):
    """toInterpolatedSegment by its contract: a segment of the same kind with the same values (C11)"""
    T = []
    for n, k in list(S.__dict__.items()):
        if isinstance(k, type) and 'toInterpolatedSegment' in k.__dict__:
            T.append((k, 'toInterpolatedSegment', lambda self, *a, **kw: self))
    return T
