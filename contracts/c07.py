"""C07  piecewise functions: order, splitting, restriction, pointwise arithmetic, lookup"""
from pyvc.spec import *
P = Registry()
S = mod('pacal.segments')
K = S.PiecewiseFunction

# ---------------------------------------------------------------- binary search on an ordered container
class Bisect:
    """contract of the bisect module on a container of unknown length: needs the container to be partitioned by the key"""
    def __init__(self, c, part=False): self.c, self.facts, self.inserted, self.part = c, [], [], part
    def _part(self, seq, pred, lab):
        c = self.c
        i, j = z3.Int(c.fresh('pi')), z3.Int(c.fresh('pj'))
        base = len(c.pc)
        def one():
            c.pc.append(z3.And(i >= 0, i < j, j < seq.n.t))
            a, b = seq.elem(i), seq.elem(j)
            if bool(pred(b)): c.ensure(pred(a), lab)
            return True
        loops.subexplore(one)
    def _find(self, seq, pred, lab):
        c = self.c
        if self.part:
            self._part(seq, pred, lab)
            raise PathEnd('only the precondition is checked here')
        p = c.int('p'); c.assume(And(p >= 0, p <= seq.n))
        if bool(p > 0):
            if not bool(pred(seq[p - 1])): raise PathEnd('contract')
        if bool(p < seq.n):
            if bool(pred(seq[p])): raise PathEnd('contract')
        self.facts.append((seq, p, pred))
        return p
    def bisect_left(self, seq, x): return self._find(seq, lambda e: e < x, 'binary search: container is ordered')
    def bisect_right(self, seq, x): return self._find(seq, lambda e: neg(x < e), 'binary search: container is ordered')
    bisect = bisect_right
    def insort_right(self, seq, x):
        self.inserted.append((seq, self.bisect_right(seq, x), x))
    insort = insort_right
    def insort_left(self, seq, x): self.inserted.append((seq, self.bisect_left(seq, x), x))
    def use(self, k):
        """consequences for the element at index k"""
        for seq, p, pred in self.facts:
            if bool(Num(k) < p):
                if not bool(pred(seq.elem(k))): raise PathEnd('contract')
            elif bool(pred(seq.elem(k))): raise PathEnd('contract')

def neg(x): return (not x) if isinstance(x, bool) else ~core.bb(x)
def le(a, b): return True if isinf(a) and a < 0 or isinf(b) and b > 0 else (False if isinf(a) or isinf(b) else a <= b)

def apart(s, t):
    """the two pieces do not overlap (an atom may sit at an end)"""
    same = And(eqv(s._a, t._a), eqv(s._b, t._b))
    return And(Or(le(s._b, t._a), le(t._b, s._a)), Not(same))

# ---------------------------------------------------------------- insertion
CMP = ['finite', 'minf', 'pinf', 'dirac']      # the comparison of pieces is the same function of the ends for every class
for _k in CMP:
    P.contract(['segments.PiecewiseFunction.addSegment', 'segments.Segment.__lt__', 'segments.Segment.__gt__'], name='insertion of a %s piece' % _k)(lambda c, k=_k: insert(c, False, k))

@P.contract(['segments.PiecewiseFunction.addSegment', 'segments.PiecewiseFunction.findSegment', 'segments.Segment.__lt__', 'segments.Segment.__gt__'])
def search_precondition(c):
    """the order of pieces makes the predicates of the binary searches monotone"""
    if c.choose(2): insert(c, True, CMP[c.choose(4)])
    else:
        pw = piecewise(S, 'PiecewiseFunction', sym_segments(c, S))
        B = Bisect(c, True)
        with patched((S, 'bisect', B)): pw.findSegment(c.real('x'))

def insert(c, part, kind):
    # 'closed' pieces (a<=b) stand for finite pieces and atoms alike
    segs = sym_segments(c, S, kinds=['minf', 'pinf', 'closed'])
    pw = piecewise(S, 'PiecewiseFunction', segs)
    new = sym_segment(c, S, 'new', kinds=[kind])
    for k in KINDS if part else ():
        t = type(mk_segment(S, k, c.real('u'), c.real('u'), None))
        c.ensure(t.__lt__ is S.Segment.__lt__ and t.__gt__ is S.Segment.__gt__, 'comparison of pieces is the same for all kinds')
    B = Bisect(c, part)
    noatoms = lambda self: []
    eps = c.real('eps')
    # the new piece overlaps none of those present
    olde = segs._elem
    def elem(i):
        e = olde(i)
        c2 = apart(e, new)
        if c2 is not True: core.CTX.pc.append(bterm(c2))
        return e
    segs._elem = elem
    S.params.segments.unique_eps, keep = 0.0, S.params.segments.unique_eps
    try:
        with patched((S, 'bisect', B), (K, 'getDiracs', noatoms)):
            pw.addSegment(new)
    finally: S.params.segments.unique_eps = keep
    c.ensure(len(B.inserted) == 1 and B.inserted[0][0] is segs and B.inserted[0][2] is new, 'addSegment: the piece is inserted once')
    if len(B.inserted) != 1: return
    k = z3.Int(c.fresh('k'))
    c.assume(And(Num(k) >= 0, Num(k) < segs.n))
    B.use(k)
    e = segs.elem(k)
    p = B.inserted[0][1]
    c.ensure(Implies(Num(k) < p, le(e._b, new._a)), 'addSegment: every piece before it lies to the left')
    c.ensure(Implies(Num(k) >= p, le(new._b, e._a)), 'addSegment: every piece after it lies to the right')

@P.contract(['segments.PiecewiseFunction.addSegment'])
def insertion_atom(c):
    """an atom at the place of an atom adds its mass and nothing else"""
    segs = sym_segments(c, S, 'atoms', kinds=['dirac'])
    pw = piecewise(S, 'PiecewiseFunction', GhostSeq(c))
    x, m = c.real('x'), c.real('m')
    new = mk_segment(S, 'dirac', x, x, m)
    B = Bisect(c)
    S.params.segments.unique_eps, keep = 0.0, S.params.segments.unique_eps
    try:
        with patched((S, 'bisect', B), (K, 'getDiracs', lambda self: segs)):
            pw.addSegment(new)
    except Unsupported:
        fs = [s for s in getattr(c, 'searches', []) if s[1] is segs]
        if not fs or fs[-1][0] != 'none': raise
    finally: S.params.segments.unique_eps = keep
    fs = [s for s in getattr(c, 'searches', []) if s[1] is segs]
    if fs and fs[-1][0] == 'none':
        none_left(c, segs, lambda s: bool(s._a == x), 'addSegment: inserted only without an atom at the place')
        return
    c.ensure(len(fs) == 1, 'addSegment: the atoms present are searched')
    if fs and fs[-1][0] == 'found':
        e2 = fs[-1][3]
        c.ensure_eq(e2.a, x, 'addSegment: mass is added to the atom at the same place')
        c.ensure_eq(e2.f, Num(segs.M(fs[-1][2])) + m, 'addSegment: masses add up')
        c.ensure(not B.inserted, 'addSegment: nothing is inserted besides')

class GhostSeq(SymSeq):
    def __init__(self, c):
        n = c.int('n_ghost'); c.assume(n >= 0)
        def elem(i): raise Unsupported('element of an unspecified container')
        super().__init__(n, elem, 'ghost')

# ---------------------------------------------------------------- lookup
@P.contract(['segments.PiecewiseFunction.findSegment', 'segments.PiecewiseFunction.__call__', 'segments.Segment.__lt__'])
def lookup(c):
    segs = sym_segments(c, S, kinds=['minf', 'pinf', 'finite', 'dirac'])
    pw = piecewise(S, 'PiecewiseFunction', segs)
    x = c.real('x')
    k = z3.Int(c.fresh('k')); c.assume(And(Num(k) >= 0, Num(k) < segs.n))
    e = segs.elem(k)
    B = Bisect(c)
    with patched((S, 'bisect', B)):
        r = pw.findSegment(x)
        B.use(k)
        inn = inside(x, e._a, e._b)
        if r is None:
            c.ensure(Not(inn) if inn is not True else False, 'findSegment: a point of a piece is found')
            c.ensure(Not(And(le(e._a, x), le(x, e._b))), 'findSegment: a point of a closed piece is found')
        else:
            c.ensure(And(le(r.a, x), le(x, r.b)), 'findSegment: the piece found contains the point')
        if e._k != 'dirac':
            if inn is not True: c.assume(inn)
            c.ensure_eq(pw(x), e._f(x), 'value inside a piece is the value of the piece')

@P.contract(['segments.PiecewiseFunction.__call__', 'segments.PiecewiseFunction.findSegment'])
def outside_is_zero(c):
    segs = sym_segments(c, S)
    pw = piecewise(S, 'PiecewiseFunction', segs)
    x = c.real('x')
    olde = segs._elem
    def elem(i):
        e = olde(i)
        t = Not(And(le(e._a, x), le(x, e._b)))
        if t is False: raise PathEnd('contract')
        if t is not True: core.CTX.pc.append(bterm(t))
        return e
    segs._elem = elem
    B = Bisect(c)
    with patched((S, 'bisect', B)):
        c.ensure_eq(pw(x), 0, 'value outside of all pieces is zero')

@P.contract(['segments.PiecewiseFunction.getDiracs', 'segments.PiecewiseFunction.getSegments', 'segments.PiecewiseFunction.getDirac', 'segments.PiecewiseFunction.findSegmentByEnds'])
def selections(c):
    segs = sym_segments(c, S)
    pw = piecewise(S, 'PiecewiseFunction', segs)
    w = c.choose(4)
    if w < 2:
        r = (pw.getDiracs if w == 0 else pw.getSegments)()
        lab = ('getDiracs', 'getSegments')[w]
        if not isinstance(r, loops.Family): return c.ensure(False, lab + ': selected pieces', str(type(r)))
        c.ensure(r.base is segs and not r.initial, lab + ': made of the pieces only')
        for cs in r.cases:
            want = (cs.elem._k == 'dirac') == (w == 0)
            c.ensure([id(x) for x in cs.items] == ([id(cs.elem)] if want else []), lab + ': exactly the pieces of the kind, each once', cs.elem._k)
        return
    k = z3.Int(c.fresh('k')); c.assume(And(Num(k) >= 0, Num(k) < segs.n))
    e = segs.elem(k)
    if w == 2:
        x = c.real('x')
        r = pw.getDirac(x)
        if r is not None: c.ensure(And(r.isDirac(), r.a == x), 'getDirac: an atom at the point')
        else: none_left(c, segs, lambda s: s._k == 'dirac' and bool(s._a == x), 'getDirac: None only without an atom there')
    else:
        a, b = c.real('a'), c.real('b'); c.assume(a < b)
        r = pw.findSegmentByEnds(a, b)
        if r is not None: c.ensure(And(r.a == a, r.b == b), 'findSegmentByEnds: the piece with these ends')
        else: none_left(c, segs, lambda s: bool(And(eqv(s._a, a), eqv(s._b, b))), 'findSegmentByEnds: None only without such a piece')

def eqv(a, b): return (a == b) if not (isinf(a) or isinf(b)) else (isinf(a) and isinf(b) and a == b)

def none_left(c, segs, bad, lab):
    """the search loop went through all elements: no path of its body stays for an element that should have been returned"""
    fs = [s for s in getattr(c, 'searches', []) if s[1] is segs]
    c.ensure(len(fs) == 1 and fs[0][0] == 'none', lab)
    if len(fs) != 1: return
    for p in fs[0][4]:
        if p[0][2].k in ('return', 'break'): continue
        with loops.under(p[1]):
            def one():
                if bad(p[0][1]): c.ensure(False, lab)
            loops.subexplore(one)

# ---------------------------------------------------------------- splitting
@P.contract(['segments.PiecewiseFunction.splitByPoints'])
def splitting(c):
    segs = sym_segments(c, S)
    pw = piecewise(S, 'PiecewiseFunction', segs)
    pts = sym_array(c, 'points')
    with patched(recorded_adds(S)):
        r = pw.splitByPoints(pts)
    c.ensure(r is not pw and len(list_of(r)) == 0, 'splitByPoints: result is built by insertions')
    fe = foreach_of(c, segs)
    c.ensure(len(fe) == 1 and not adds_of(c.effects), 'splitByPoints: one pass over all pieces')
    if len(fe) != 1: return
    g = z3.Int(c.fresh('g'))
    for cs in fe[0][2]:
        with loops.under(cs.conds):
            e = cs.elem
            inner = [x for x in cs.effects if x[0] == 'foreach']
            own = adds_of(cs.effects)
            if len(inner) > 1 or len(own) + len(inner) == 0 or len(own) > 1:
                c.ensure(False, 'splitByPoints: each piece is replaced by a chain of pieces', 'effects %d loops %d direct' % (len(inner), len(own))); continue
            order = [x[0] for x in cs.effects]
            seq = inner[0][1] if inner else None
            same = lambda s: c.ensure(s.f is e.f or bool_same(c, s, e), 'splitByPoints: values of the piece are kept')
            if seq is None:
                c.ensure(len(own) == 1, 'splitByPoints: an unsplit piece is kept')
                piece(c, own[0][2], e, e._a, e._b, True, True)
                continue
            c.ensure(order == ['foreach', 'add'] and own[0][1] is r, 'splitByPoints: the rest of the piece is added after the last point')
            if order != ['foreach', 'add']: continue
            n = seq.n
            for ic in inner[0][2]:
                with loops.under(ic.conds):
                    ad = adds_of(ic.effects)
                    c.ensure(len(ad) == 1 and ad[0][1] is r, 'splitByPoints: one piece for every point inside')
                    if len(ad) != 1: continue
                    def one():
                        j = ic.idx
                        first = c.branch(j == 0)
                        lo = e._a if first else seq.elem(z3.simplify(j - 1))
                        hi = seq.elem(j)
                        piece(c, ad[0][2], e, lo, hi, first, False)
                        # no point of the list is strictly inside of the new piece
                        c.pc.append(z3.And(g >= 0, g < pts.n.t))
                        u = cover(seq, pts, g)
                        t = pts.at(g)
                        c.ensure(Not(inside(t, lo, hi)), 'splitByPoints: no point is left inside of a piece')
                    loops.subexplore(one)
            def last():
                none = bool(n == 0)
                lo = e._a if none else seq.elem(z3.simplify(n.t - 1))
                piece(c, own[0][2], e, lo, e._b, none, True)
                c.pc.append(z3.And(g >= 0, g < pts.n.t))
                cover(seq, pts, g)
                t = pts.at(g)
                x = inside(t, lo, e._b)
                c.ensure(Not(x), 'splitByPoints: no point is left inside of the last piece')
            loops.subexplore(last)

def cover(seq, pts, g):
    """the point with index g is among the chosen ones if it is inside"""
    src = getattr(seq.a.fn, '__self__', None)
    i = src.cover(g) if hasattr(src, 'cover') else g
    return seq.cover(i)

def bool_same(c, s, e):
    if e._k == 'dirac': return bool(s.f == e.f)
    t = c.real('t')
    return z3.is_true(z3.simplify(bterm(s.f(t) == e._f(t))))

def list_of(r):
    s = r.segments
    return s if isinstance(s, list) else []

def piece(c, s, e, lo, hi, first, last):
    lab = 'splitByPoints'
    c.ensure_eq(s.a, lo, lab + ': piece starts where the previous one ended')
    c.ensure_eq(s.b, hi, lab + ': piece ends at the point')
    c.ensure(s.f is e.f or bool_same(c, s, e), lab + ': values of the piece are kept')
    k = e._k
    want = k if k in ('finite', 'dirac') or first and k in ('minf', 'lpole') or last and k in ('pinf', 'rpole') else 'finite'
    c.ensure(seg_kind(s) == want, lab + ': poles and infinite ends stay at their own end', '%s piece of a %s segment' % (seg_kind(s), k))

# ---------------------------------------------------------------- restriction
@P.contract(['segments.PiecewiseFunction.restrictToInterval'])
def restriction(c):
    a, b = c.real('a'), c.real('b'); c.assume(a < b)
    w = c.choose(3)
    if w == 1: a = -INF
    if w == 2: b = INF
    src = sym_segments(c, S)
    olde = src._elem
    def elem(i):
        e = olde(i)
        for p in (a, b):                      # contract of splitByPoints
            if isinf(p): continue
            t = Not(inside(p, e._a, e._b))
            if t is False: raise PathEnd('contract')
            if t is not True: core.CTX.pc.append(bterm(t))
        return e
    src._elem = elem
    pw = piecewise(S, 'PiecewiseFunction', 'original')
    calls = []
    def split(self, pts):
        calls.append((self, list(pts)))
        return piecewise(S, 'PiecewiseFunction', src)
    with patched(recorded_adds(S), (K, 'splitByPoints', split)):
        r = pw.restrictToInterval(a, b)
    c.ensure(len(calls) == 1 and calls[0][0] is pw and set(map(id, calls[0][1])) == {id(a), id(b)}, 'restrictToInterval: split at both ends')
    fe = foreach_of(c, src)
    c.ensure(len(fe) == 1 and not adds_of(c.effects), 'restrictToInterval: one pass over the pieces')
    if len(fe) != 1: return
    for cs in fe[0][2]:
        with loops.under(cs.conds):
            e = cs.elem
            ad = adds_of(cs.effects)
            c.ensure(len(ad) <= 1 and all(x[1] is r and (x[2] is e or same_seg(c, x[2], e)) for x in ad), 'restrictToInterval: pieces are kept unchanged, once')
            if e._k == 'dirac': inn = And(le(a, e._a), le(e._b, b), Not(eqv(e._a, b)))
            else: inn = And(le(a, e._a), le(e._b, b))
            c.ensure(Iff(len(ad) == 1, inn), 'restrictToInterval: exactly the pieces inside are kept', e._k)

def same_seg(c, s, e): return seg_kind(s) == e._k and bool(And(eqv(s.a, e._a), eqv(s.b, e._b))) and bool_same(c, s, e)

# ---------------------------------------------------------------- arithmetic
OPS = [('add', lambda x, y: x + y), ('sub', lambda x, y: x - y), ('mul', lambda x, y: x * y), ('truediv', lambda x, y: x / y)]

@P.contract(['segments._makeCommonSegmentList'])
def common_list(c):
    f, g = piecewise(S, 'PiecewiseFunction', 'f'), piecewise(S, 'PiecewiseFunction', 'g')
    br = sym_array(c, 'breaks')
    n = br.n
    asked = []
    def breaks(self): return ('breaks', self)
    def union(x, y):
        c.ensure(sorted([x[1].segments, y[1].segments]) == ['f', 'g'], 'common partition: break points of both')
        return br
    def by_ends(self, a, b):
        s = ('seg', self.segments, a, b)
        return s
    with patched((K, 'getBreaks', breaks), (S, 'union1d', union), (K, 'findSegmentByEnds', by_ends)):
        r = S._makeCommonSegmentList(f, g)
    if not isinstance(r, loops.Family): return c.ensure(False, 'common partition: list of pairs')
    c.ensure_eq(r.base.n, n - 1, 'common partition: one pair per interval')
    for cs in r.cases:
        with loops.under(cs.conds):
            c.ensure(len(cs.items) == 1, 'common partition: one pair per interval')
            s1, s2 = cs.items[0]
            c.ensure(s1[1] == 'f' and s2[1] == 'g', 'common partition: pieces of the first and of the second function')
            for s in (s1, s2):
                c.ensure(And(s[2] == br.at(cs.idx), s[3] == br.at(z3.simplify(cs.idx + 1))), 'common partition: consecutive break points')

@P.contract(['segments.PiecewiseFunction._operation__', 'segments.PiecewiseFunction.__add__', 'segments.PiecewiseFunction.__sub__', 'segments.PiecewiseFunction.__mul__', 'segments.PiecewiseFunction.__truediv__',
             'segments._segfun_segfun_op', 'segments._segfun_scalar_op', 'segments._scalar_segfun_op'], timeout_ms=10000)
def arithmetic(c):
    nm, op = OPS[c.choose(4, 'op')]
    f, g = piecewise(S, 'PiecewiseFunction', 'f'), piecewise(S, 'PiecewiseFunction', 'g')
    f2, g2 = piecewise(S, 'PiecewiseFunction', 'f2'), piecewise(S, 'PiecewiseFunction', 'g2')
    bf, bg = sym_array(c, 'bf'), sym_array(c, 'bg')
    KS = ['finite', 'minf', 'pinf', 'lpole', 'rpole']
    memo = {}
    def pair(i):
        kk = str(i)
        cx = core.CTX
        which = cx.choose(4, 'present')
        if which == 3: return (None, None)
        a, b = cx.real('a'), cx.real('b'); cx.assume(a < b)
        inf = cx.choose(3, 'end')
        ks = ['minf'] if inf == 1 else ['pinf'] if inf == 2 else ['finite', 'lpole', 'rpole']
        out = []
        for nm2, there in (('f', which in (0, 1)), ('g', which in (0, 2))):
            if not there: out.append(None); continue
            k = ks[cx.choose(len(ks), 'kind')]
            s = mk_segment(S, k, a, b, cx.fun(nm2)); s._k = k; s._f = s.f
            s._a, s._b = (-INF if k == 'minf' else a), (INF if k == 'pinf' else b)
            out.append(s)
        return tuple(out)
    N = c.int('N'); c.assume(N >= 0)
    lst = SymSeq(N, pair, 'pairs')
    calls = []
    def split(self, pts):
        calls.append((self.segments, pts)); return f2 if self is f else g2
    def common(x, y):
        c.ensure(x is f2 and y is g2, nm + ': the split functions are combined in order')
        return lst
    diracs = []
    brk = lambda self: bf if self is f else bg
    uniq = []
    def concat(xs): xs = list(xs); uniq.append(xs); return 'all'
    with patched(recorded_adds(S), (K, 'getBreaks', brk), (K, 'splitByPoints', split), (S, '_makeCommonSegmentList', common), (S, 'concatenate', concat), (S, 'unique', lambda x: 'breaks'),
                 (K, 'op_diracs', lambda self, other, o: diracs.append((self, other, o)))):
        r = {'add': lambda: f + g, 'sub': lambda: f - g, 'mul': lambda: f * g, 'truediv': lambda: f / g}[nm]()
    c.ensure([x[0] for x in calls] == ['f', 'g'] and all(x[1] == 'breaks' for x in calls), nm + ': both functions are split at the same points')
    c.ensure(len(uniq) == 1 and any(x is bf for x in uniq[0]) and any(x is bg for x in uniq[0]), nm + ': at the break points of both')
    c.ensure([(x[0] is r, x[1] is f or x[1] is g) for x in diracs] == [(True, True)] * 2 and diracs[0][1] is not diracs[1][1], nm + ': point masses of both are combined')
    x, y = c.real('x'), c.real('y')
    for d in diracs: c.ensure_eq(d[2](x, y), op(x, y), nm + ': operation on point masses')
    fe = foreach_of(c, lst)
    c.ensure(len(fe) == 1 and not adds_of(c.effects), nm + ': one pass over the common partition')
    if len(fe) != 1: return
    for cs in fe[0][2]:
        with loops.under(cs.conds):
            s, t = cs.elem
            ad = adds_of(cs.effects)
            if s is None and t is None:
                c.ensure(not ad, nm + ': no piece where both are zero'); continue
            c.ensure(len(ad) == 1 and ad[0][1] is r, nm + ': one piece per common interval')
            if len(ad) != 1: continue
            q = ad[0][2]; e = s if s is not None else t
            c.ensure(And(eqv(q.a, e._a), eqv(q.b, e._b)), nm + ': ends of the piece')
            c.ensure(q.isMInf() == (e._k == 'minf') and q.isPInf() == (e._k == 'pinf'), nm + ': infinite pieces')
            ks = {v._k for v in (s, t) if v is not None}
            if 'lpole' in ks and 'rpole' not in ks: c.ensure(q.hasLeftPole(), nm + ': pole at the left end is kept', str(ks))
            if 'rpole' in ks and 'lpole' not in ks: c.ensure(q.hasRightPole(), nm + ': pole at the right end is kept', str(ks))
            z = c.real('z')
            cz = inside(z, e._a, e._b)
            c.pc.append(bterm(cz))
            c.ensure_eq(q.f(z), op(s._f(z) if s is not None else 0, t._f(z) if t is not None else 0), nm + ': value is the operation on the values')

SC = [('f+r', lambda f, r: f + r, lambda x, r: x + r), ('r+f', lambda f, r: r + f, lambda x, r: r + x), ('f-r', lambda f, r: f - r, lambda x, r: x - r), ('r-f', lambda f, r: r - f, lambda x, r: r - x),
      ('f*r', lambda f, r: f * r, lambda x, r: x * r), ('r*f', lambda f, r: r * f, lambda x, r: r * x), ('f/r', lambda f, r: f / r, lambda x, r: x / r), ('r/f', lambda f, r: r / f, lambda x, r: r / x)]

@P.contract(['segments.PiecewiseFunction._roperation__', 'segments.PiecewiseFunction.__radd__', 'segments.PiecewiseFunction.__rsub__', 'segments.PiecewiseFunction.__rmul__', 'segments.PiecewiseFunction.__rtruediv__', 'segments.PiecewiseFunction.__add__', 'segments.PiecewiseFunction.__sub__', 'segments.PiecewiseFunction.__mul__', 'segments.PiecewiseFunction.__truediv__', 'segments._op_rsub', 'segments._op_rdiv', 'segments._segfun_scalar_op'])
def scalar_arithmetic(c):
    nm, call, op = SC[c.choose(len(SC), 'op')]
    r = c.real('r')
    mapped(c, nm, lambda pw: call(pw, r), lambda x: op(x, r), lambda m: op(m, r))

FN = [('exp', lambda pw: pw.exp(), M_exp := (lambda x: mathfn.exp(x))), ('log', lambda pw: pw._log(), lambda x: mathfn.log(x)), ('-log', lambda pw: pw._log1(), lambda x: -mathfn.log(x)), ('pow2', lambda pw: pw ** 2, lambda x: x * x), ('pow3', lambda pw: pw ** 3, lambda x: x * x * x)]

@P.contract(['segments.PiecewiseFunction._function__', 'segments.PiecewiseFunction.__pow__', 'segments.PiecewiseFunction.exp', 'segments.PiecewiseFunction._log', 'segments.PiecewiseFunction._log1', 'segments._safe_fun_on_f_call'])
def functions(c):
    nm, call, op = FN[c.choose(len(FN), 'fun')]
    mapped(c, nm, call, op, op)

def mapped(c, nm, call, op, opm):
    segs = sym_segments(c, S)
    pw = piecewise(S, 'PiecewiseFunction', segs)
    with patched(recorded_adds(S), (K, 'getBreaks', lambda self: [])):
        res = call(pw)
    def check(e, q):
        c.ensure(And(eqv(q.a, e._a), eqv(q.b, e._b)), nm + ': ends of the pieces are kept')
        c.ensure(seg_kind(q) == e._k, nm + ': kind of the pieces is kept', '%s from %s' % (seg_kind(q), e._k))
        if e._k == 'dirac': return c.ensure_eq(q.f, opm(e._f), nm + ': point mass')
        z = c.real('z'); t = inside(z, e._a, e._b)
        c.pc.append(bterm(t))
        c.ensure_eq(q.f(z), op(e._f(z)), nm + ': value is the operation on the value')
    one_image_per_segment(c, res, segs, check, nm)

# ---------------------------------------------------------------- construction from a function and break points
@P.contract(['segments.PiecewiseFunction.__init__'])
def construction(c):
    k = 2 + c.choose(3, 'pieces')            # 1..3 pieces at symbolic break points (bounded number of pieces)
    br = [c.real('b%d' % j) for j in range(k)]
    for j in range(k - 1): c.assume(br[j] < br[j + 1])
    li, ri = c.choose(2), c.choose(2)
    ends = list(br)
    if li: ends[0] = -INF
    if ri: ends[-1] = INF
    if li and ri and k == 2: return
    if k == 2 and ri and not li: return
    lp = [False] * k; rp = [False] * k
    want = []
    for j in range(k - 1):
        if li and j == 0: want.append('minf')
        elif ri and j == k - 2: want.append('pinf')
        else:
            q = c.choose(3, 'pole')
            want.append(['finite', 'lpole', 'rpole'][q])
            if q == 1: lp[j] = True
            if q == 2: rp[j + 1] = True
    f = c.fun('f')
    with patched(recorded_adds(S)):
        pw = S.PiecewiseFunction(fun=f, breakPoints=ends, lpoles=lp, rpoles=rp)
    ad = adds_of(c.effects, pw)
    c.ensure(len(ad) == k - 1, 'construction: one piece per interval', '%d pieces' % len(ad))
    if len(ad) != k - 1: return
    for j, (_, _, q) in enumerate(ad):
        c.ensure(And(eqv(q.a, ends[j]), eqv(q.b, ends[j + 1])), 'construction: consecutive break points')
        c.ensure(seg_kind(q) == want[j], 'construction: kind of the piece', '%s, wanted %s' % (seg_kind(q), want[j]))
        t = c.real('t')
        c.ensure_eq(q.f(t), f(t), 'construction: values of the function')
