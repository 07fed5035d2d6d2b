"""loop rules for containers of unknown length (no bound on the number of iterations)

fold rule: the body is executed symbolically once for an arbitrary element, with every numeric
variable assigned in the loop replaced by a fresh symbol (havoc).  A variable whose new value is
old + delta with delta independent of the old value is a sum over the container; a list that only
grows is the family of the appended items; a variable whose new value does not depend on any old
value is per-iteration.  Anything else is refused (Unsupported), never approximated.
"""
import z3
from . import core
from .core import Num, SBool, term, bterm, mkbool, Unsupported, PathEnd, is_sym

class Res:
    returned = False
    broken = False
    value = None

class Code:
    def __init__(self, k, v=None): self.k, self.v = k, v

class Poison:
    """value of a variable that is not known at loop entry / after the loop"""
    def __init__(self, name): object.__setattr__(self, '_n', name)
    def _bad(self, *a, **k): raise Unsupported("loop-carried variable %r has no summary" % object.__getattribute__(self, '_n'))
    def __getattr__(self, k): self._bad()
    for _o in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'rpow', 'neg', 'abs', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'bool', 'iter', 'len', 'getitem', 'setitem', 'call', 'and', 'or', 'invert', 'float', 'int'):
        locals()['__%s__' % _o] = _bad
    __hash__ = object.__hash__
    del _o

class RecList(list):
    """list being extended inside a cut loop: only growth is allowed"""
    def __init__(self, name):
        list.__init__(self)
        self.name = name
        self.items = []
    def append(self, x): self.items.append(x)
    def extend(self, xs):
        if isinstance(xs, SymSeq): self.items.append(Spread(xs)); return
        for x in xs: self.items.append(x)
    def __iadd__(self, xs):
        self.extend(xs); return self
    def _bad(self, *a, **k): raise Unsupported("list %r read while being built in a loop over an unknown-length container" % self.name)
    __iter__ = __len__ = __getitem__ = __setitem__ = insert = pop = remove = sort = __contains__ = index = __add__ = __radd__ = __eq__ = _bad
    __hash__ = object.__hash__

class Spread:
    def __init__(self, seq): self.seq = seq

class Fold:
    def __init__(self, seq, cases, name):
        self.seq, self.cases, self.name = seq, cases, name

class Case:
    __slots__ = ('elem', 'idx', 'conds', 'delta', 'items', 'effects', 'value', 'vals', 'acc')
    def __init__(self, **k):
        for n in self.__slots__: setattr(self, n, k.get(n))

def subexplore(fn):
    """explore all paths of fn inside the current path; -> [(value, extra conditions, effects)]"""
    c = core.CTX
    saved = (c.prefix, c.decisions, c.n, c.alts, c.effects)
    base = len(c.pc)
    out = []
    work = [[]]
    count = 0
    c.sub_depth += 1
    ok = False
    try:
        while work:
            count += 1
            if count > 400: raise Unsupported("too many paths in loop body")
            p = work.pop()
            c.prefix, c.decisions, c.n, c.alts, c.effects = list(p), [], 0, [], []
            try:
                v = fn()
                out.append((v, list(c.pc[base:]), c.effects))
            except PathEnd:
                pass
            work.extend(reversed(c.alts))
            del c.pc[base:]
        ok = True
    finally:
        c.sub_depth -= 1
        if ok:
            c.prefix, c.decisions, c.n, c.alts, c.effects = saved
    return out

class under:
    """execute checks under extra path conditions"""
    def __init__(self, conds): self.conds = conds
    def __enter__(self):
        c = core.CTX
        self.base = len(c.pc)
        c.pc.extend(self.conds)
    def __exit__(self, t, v, tb):
        if t is None:
            del core.CTX.pc[self.base:]
        return False

class LoopDone(BaseException): pass

class SymSeq:
    """sequence of unknown length; elem(idx) builds the element at a symbolic index"""
    _vc_symbolic = True
    __array_ufunc__ = None
    def __init__(self, n, elem, name='seq'):
        self.n = n; self._elem = elem; self.name = name
    def length(self): return self.n
    def elem(self, i): return self._elem(i)
    def generic(self):
        c = core.CTX
        i = z3.Int(c.fresh('k_' + self.name))
        c.pc.append(z3.And(i >= 0, i < (self.n.t if isinstance(self.n, Num) else int(self.n))))
        return i, self.elem(i)
    def __iter__(self): raise Unsupported("iteration over unknown-length sequence outside a cut loop")
    def __len__(self): raise Unsupported("len of unknown-length sequence")
    def __bool__(self):
        return bool(self.n > 0)
    def __getitem__(self, k):
        if isinstance(k, Num): 
            return self.elem(k.t)
        if isinstance(k, int):
            c = core.CTX
            i = z3.IntVal(k) if k >= 0 else (self.n + k).t
            return self.elem(i)
        raise Unsupported("slice of unknown-length sequence")
    def copy(self): return self
    def vc_sum(self):
        acc = {'s': 0.0}
        def body(e):
            acc['s'] = acc['s'] + e
            return VC.c_normal()
        def get(): return dict(acc)
        def set_(n, v): acc[n] = v
        VC.symloop(0, self, body, get, set_, ['s'], 'sum')
        return acc['s']
    def vc_any(self):
        c = core.CTX
        paths = subexplore(lambda: self._as_cond())
        b = z3.Bool(c.fresh('exists_' + self.name))
        if c.branch(b):
            c.witnesses = getattr(c, 'witnesses', []) + [(self, True)]
            return True
        c.witnesses = getattr(c, 'witnesses', []) + [(self, False)]
        return False
    def _as_cond(self):
        i, e = self.generic()
        return e
    def vc_all(self):
        raise Unsupported("all() over unknown-length sequence")

class SymRange(SymSeq):
    def __init__(self, st, en, step=1):
        if not (isinstance(step, int) and step == 1): raise Unsupported("range step")
        st_t = st.t if isinstance(st, Num) else z3.IntVal(int(st))
        n = en - st
        self.st, self.en = st, en
        nt = n.t if isinstance(n, Num) else z3.IntVal(int(n))
        SymSeq.__init__(self, Num(z3.simplify(z3.If(nt > 0, nt, z3.IntVal(0)))), lambda i: Num(z3.simplify(st_t + i)), 'range')

class Forever(SymSeq):
    """iterations of a while loop: the loop ends by leaving it"""
    def __init__(self):
        n = Num(z3.Int(core.CTX.fresh('iterations')))
        SymSeq.__init__(self, n, lambda i: Num(i), 'while')

class Mapped(SymSeq):
    def __init__(self, base, elt, cond, star):
        self.base, self.elt, self.cond, self.star = base, elt, cond, star
        SymSeq.__init__(self, base.n, None, base.name)
        self.filtered = True
    def elem(self, i):
        e = self.base.elem(i)
        a = tuple(e) if self.star else (e,)
        cnd = self.cond(*a)
        if cnd is not True:
            if not cnd: raise PathEnd("filtered out")
        return self.elt(*a)
    def as_array(self):
        from .arrays import LazyArr
        def of(e):
            a = tuple(e) if self.star else (e,)
            if self.cond(*a) is not True: raise Unsupported("array of a filtered comprehension")
            return self.elt(*a)
        if isinstance(self.base, Selected):         # element by element over the array the selection was taken from
            arr = self.base.a
            return LazyArr(arr.n, lambda i: of(arr.at(i)), arr.filt)
        return LazyArr(self.n, lambda i: of(self.base.elem(i)))
    def length(self):
        raise Unsupported("len of filtered unknown-length sequence")
    def generic(self):
        i, e = self.base.generic()
        a = tuple(e) if self.star else (e,)
        cnd = self.cond(*a)
        if cnd is not True:
            if not cnd: raise PathEnd("filtered out")
        return i, self.elt(*a)

class Family(SymSeq):
    """initial items followed by the items appended by a cut loop over `base`"""
    def __init__(self, initial, base, cases, name):
        self.initial, self.base, self.cases = list(initial), base, cases
        c = core.CTX
        SymSeq.__init__(self, Num(z3.Int(c.fresh('n_' + name))), None, name)
        c.pc.append(self.n.t >= len(self.initial))
    def generic(self):
        c = core.CTX
        opts = []
        for it in self.initial: opts.append((None, it))
        for cs in self.cases:
            for it in cs.items: opts.append((cs, it))
        if not opts: raise PathEnd("empty family")
        k = c.choose(len(opts), 'pick_' + self.name)
        cs, it = opts[k]
        if cs is not None:
            for x in cs.conds: c.pc.append(x)
        if isinstance(it, Spread): return it.seq.generic()
        return (cs.idx if cs is not None else z3.IntVal(k)), it
    def elem(self, i): raise Unsupported("indexing a family")
    def append(self, x): self.initial.append(x)

def enum(seq, start=0):
    if start != 0: raise Unsupported("enumerate start")
    return SymSeq(seq.n, lambda i: (Num(i), seq.elem(i)), seq.name)
def zip_(*seqs):
    from .arrays import LazyArr
    n = None
    for s in seqs:
        if isinstance(s, (SymSeq, LazyArr)):
            n = s.n; break
    def el(i):
        out = []
        for s in seqs:
            if isinstance(s, SymSeq): out.append(s.elem(i))
            elif isinstance(s, LazyArr): out.append(s.at(i))
            else: raise Unsupported("zip of symbolic and concrete sequences")
        return tuple(out)
    return SymSeq(n, el, 'zip')

def arr_seq(a):
    if a.filt is not None: return Selected(a)
    return SymSeq(a.n, lambda i: a.at(i), 'arr')

class Selected(SymSeq):
    """elements of an array chosen by a mask, in order: sel is increasing and reaches every chosen index"""
    def __init__(self, a):
        c = core.CTX
        self.a = a
        n = c.int('n_sel'); c.pc.append(n.t >= 0)
        self.sel = z3.Function(c.fresh('sel'), z3.IntSort(), z3.IntSort())
        self.rank = z3.Function(c.fresh('rank'), z3.IntSort(), z3.IntSort())
        SymSeq.__init__(self, n, None, 'sel')
        self.seen = Seen()
    def elem(self, j):
        c = core.CTX
        j = z3.simplify(j)
        i = self.sel(j)
        rng = z3.And(j >= 0, j < self.n.t)
        N = self.a.n.t if isinstance(self.a.n, Num) else z3.IntVal(self.a.n)
        if self.seen.new(c, j):
            c.pc.append(z3.Implies(rng, z3.And(i >= 0, i < N, bterm(self.a.filt.fn(i)))))
            for o in self.seen.others(c, j):
                c.pc.append(z3.Implies(z3.And(rng, o >= 0, o < self.n.t), z3.And(z3.Implies(o < j, self.sel(o) < i), z3.Implies(j < o, i < self.sel(o)))))
            self.seen.add(c, j)
        return self.a.fn(i)
    def cover(self, i):
        """the index i of the array, if chosen, is reached"""
        c = core.CTX
        N = self.a.n.t if isinstance(self.a.n, Num) else z3.IntVal(self.a.n)
        r = self.rank(i)
        c.pc.append(z3.Implies(z3.And(i >= 0, i < N, bterm(self.a.filt.fn(i))), z3.And(r >= 0, r < self.n.t, self.sel(r) == i)))
        self.elem(r)
        return r

class Seen:
    """indices whose facts are on the current path"""
    def __init__(self): self.l = []
    def _alive(self, c):
        self.l = [m for m in self.l if m[0] is c and len(c.pc) >= m[1] and c.pc[m[1] - 1] is m[2]]
        return self.l
    def new(self, c, j): return not any(m[3].eq(j) for m in self._alive(c))
    def others(self, c, j): return [m[3] for m in self._alive(c)]
    def add(self, c, j): self.l.append((c, len(c.pc), c.pc[-1], j))

class _VC:
    @staticmethod
    def is_none(x):
        if isinstance(x, Poison): x._bad()
        return x is None
    @staticmethod
    def c_normal(): return Code('normal')
    @staticmethod
    def c_break(): return Code('break')
    @staticmethod
    def c_continue(): return Code('normal')
    @staticmethod
    def c_return(v): return Code('return', v)
    @staticmethod
    def iter(x):
        from .arrays import LazyArr
        if isinstance(x, LazyArr) and isinstance(x.n, Num): return arr_seq(x)
        if isinstance(x, LazyArr): return [x.at(j) for j in range(x.n)]
        return x
    @staticmethod
    def issym(x): return isinstance(x, SymSeq)
    @staticmethod
    def while_rule(): return core.CTX is not None and getattr(core.CTX, 'while_rule', False)
    @staticmethod
    def forever(): return Forever()
    @staticmethod
    def comp(kind, it, elt, cond, star):
        it = _VC.iter(it)
        if isinstance(it, SymSeq):
            return Mapped(it, elt, cond, star)
        if kind == 'list':
            if star: return [elt(*e) for e in it if cond(*e)]
            return [elt(e) for e in it if cond(e)]
        if star: return (elt(*e) for e in it if cond(*e))
        return (elt(e) for e in it if cond(e))
    @staticmethod
    def symloop(line, seq, body, get, set_, names, fname):
        c = core.CTX
        if getattr(seq, 'peel', False):
            # the last iteration is executed after the loop over all others
            if c.branch(bterm(seq.length() <= 0)): return Res()
            last = z3.simplify(term_int(seq.length()) - 1)
            sub = SymSeq(Num(last), seq._elem, seq.name); sub.parent = seq
            r = Res()
            if not c.branch(last == 0): r = _VC.symloop(line, sub, body, get, set_, names, fname)
            if r.returned or r.broken: raise Unsupported("loop with an early exit and a separate last iteration")
            if seq.peel == 'loop': raise LoopDone()          # the harness looks only at the iterations of the loop
            code = body(seq.elem(last))
            if code.k != 'normal': raise Unsupported("loop with an early exit and a separate last iteration")
            return r
        entry = get()
        if getattr(c, 'cells', None):
            r = _filling_rule(c, seq, body, entry, set_, get, names)
            if r is not None: return r
        if getattr(c, 'loopinv', None) is not None: return _classic_rule(c, seq, body, entry, set_, get, names)
        if getattr(c, 'templates', None) is not None: return _invariant_rule(c, seq, body, entry, set_, get, names)
        hav = {}
        probe = [any(v is None for v in entry.values())]
        def setup():
            for n in names:
                if n not in entry:
                    set_(n, Poison(n)); continue
                v = entry[n]
                if v is None and probe[0]:
                    s = Num(z3.Real(c.fresh('prev_' + n))); hav[n] = ('num', s); set_(n, s)
                elif isinstance(v, (bool,)):
                    hav[n] = ('bool', v); set_(n, Poison(n))
                elif core.is_num(v) and not isinstance(v, SBool):
                    s = Num(z3.Real(c.fresh('acc_' + n)))
                    hav[n] = ('num', s); set_(n, s)
                elif isinstance(v, (list,)) and not isinstance(v, RecList):
                    r = RecList(n); hav[n] = ('list', r); set_(n, r)
                elif isinstance(v, RecList):
                    r = RecList(n); hav[n] = ('reclist', r); set_(n, r)
                elif isinstance(v, Family):
                    r = RecList(n); hav[n] = ('family', r); set_(n, r)
                elif isinstance(v, dict):
                    raise Unsupported("dict %r rebound in a loop over an unknown-length container" % n)
                else:
                    hav[n] = ('obj', v); set_(n, Poison(n))
        # lists mutated in place but not rebound (append) are in entry only if assigned; find them by closure
        free = _closure_lists(body, names)
        chain = {}
        def one():
            hav.clear()
            setup()
            recs = {}
            for n, (cell, v) in free.items():
                r = RecList(n); recs[n] = r; cell.cell_contents = r
            try:
                i, e = seq.generic()
                for n, (ev, tmpl) in chain.items():
                    # value left by the previous iteration (by the entry, in the first one)
                    if c.branch(i == 0): v = ev
                    else:
                        seq.elem(z3.simplify(i - 1))
                        v = Num(tmpl(z3.simplify(i - 1)))
                    hav[n] = ('chain', v); set_(n, v)
                code = body(e)
            finally:
                for n, (cell, v) in free.items(): cell.cell_contents = v
            after = get()
            return (i, e, code, after, dict(hav), recs)
        def first():
            c.quiet += 1
            try: return subexplore(one)
            finally: c.quiet -= 1
        if probe[0]:
            # variables that are None before the loop: is each a number left by the previous iteration?
            base = len(c.pc); keep = (c.prefix, c.decisions, c.n, c.alts, c.effects)
            try: chain.update({n: v for n, v in _chain_candidates(c, seq, first(), names, entry).items() if v[0] is None})
            except (Unsupported, TypeError, AttributeError, ValueError, IndexError, KeyError):
                del c.pc[base:]; c.prefix, c.decisions, c.n, c.alts, c.effects = keep
            probe[0] = False
        paths = first()
        chain.update({n: v for n, v in _chain_candidates(c, seq, paths, names, entry).items() if n not in chain})
        if chain or not c.quiet: paths = subexplore(one)
        for n, (ev, tmpl) in list(chain.items()):
            for (i, e, code, after, hv, recs), conds, eff in paths:
                ok = core.is_num(after.get(n))
                if ok:
                    from . import solve
                    d = z3.simplify(term(after[n]) == tmpl(i))
                    ok = z3.is_true(d) or solve.prove(c.axioms, c.pc + conds, d, 4000, False)[0] == 'proved'
                if not ok: raise Unsupported("loop-carried variable %r has no summary" % n)
        res = Res()
        # classify
        summaries = {}
        rets = [p for p in paths if p[0][2].k in ('return', 'break')]
        if rets:
            return _search(c, seq, paths, set_, names, entry, res, free)
        accs = [h[1].t for p in paths for h in p[0][4].values() if h[0] == 'num']
        for n in names:
            if n not in entry:
                set_(n, Poison(n)); continue
            kinds = set(p[0][4][n][0] for p in paths) or {'none'}
            if n in chain:
                if c.branch(bterm(seq.length() == 0)): set_(n, entry[n])
                else:
                    last = z3.simplify(term_int(seq.length()) - 1)
                    seq.elem(last)
                    set_(n, Num(chain[n][1](last)))
                continue
            if kinds == {'num'}:
                cases = []; additive = True; unchanged = True; over = True
                for (i, e, code, after, hv, recs), conds, eff in paths:
                    s = hv[n][1]; v1 = after.get(n)
                    if not core.is_num(v1):
                        additive = False
                        if isinstance(v1, Num) is False: unchanged = False
                        continue
                    d = z3.simplify(term(v1) - s.t)
                    if not (z3.is_rational_value(d) and d.as_fraction() == 0): unchanged = False
                    if _depends(d, accs):
                        # maybe additive only after normalisation
                        s2 = z3.Real(c.fresh('acc2'))
                        d2 = z3.substitute(d, (s.t, s2))
                        from . import solve
                        st, _, _ = solve.prove(c.axioms, c.pc + conds, d == d2, 4000, False)
                        if st == 'proved':
                            d = z3.substitute(d, (s.t, z3.RealVal(0)))
                            if _depends(d, accs): additive = False
                        else: additive = False
                    if any(_depends(x, accs) for x in conds): additive = False
                    cases.append(Case(elem=e, idx=i, conds=conds, delta=d, effects=eff))
                    if _depends(term(v1), accs): over = False
                if not paths or unchanged:
                    set_(n, entry[n])
                elif additive:
                    S = z3.Real(c.fresh('FOLD_' + n))
                    c.folds[S.decl().name()] = Fold(seq, cases, n)
                    set_(n, entry[n] + Num(S))
                else:
                    set_(n, Poison(n))
            elif kinds <= {'list', 'reclist', 'family'}:
                cases = []
                for (i, e, code, after, hv, recs), conds, eff in paths:
                    r = hv[n][1]
                    if after.get(n) is not r:
                        raise Unsupported("list %r rebound in loop" % n)
                    cases.append(Case(elem=e, idx=i, conds=conds, items=list(r.items), effects=eff))
                if any(cs.items for cs in cases):
                    init = entry[n]
                    if isinstance(init, RecList):
                        init.items.append(Spread(Family([], seq, cases, n))); set_(n, init)
                    elif isinstance(init, Family):
                        set_(n, _join(init, Family([], seq, cases, n)))
                    else:
                        set_(n, Family(init, seq, cases, n))
                else:
                    set_(n, entry[n])
            else:
                same = all(p[0][3].get(n) is None or isinstance(p[0][3].get(n), Poison) for p in paths)
                if same: set_(n, entry[n])
                else: set_(n, Poison(n))
        for n, (cell, v) in free.items():
            cases = []
            for (i, e, code, after, hv, recs), conds, eff in paths:
                cases.append(Case(elem=e, idx=i, conds=conds, items=list(recs[n].items), effects=eff))
            if any(cs.items for cs in cases):
                if isinstance(v, RecList):
                    v.items.append(Spread(Family([], seq, cases, n)))
                else:
                    cell.cell_contents = Family(v, seq, cases, n)
        effs = [Case(elem=p[0][1], idx=p[0][0], conds=p[1], effects=p[2], acc={n: h[1] for n, h in p[0][4].items() if h[0] == 'num'}) for p in paths]
        if any(cs.effects for cs in effs): c.effects.append(('foreach', seq, effs))
        return res

class Digit:
    def __init__(self, t): self.t = t
    def __eq__(self, o):
        if o == '1': return mkbool(self.t == 1)
        if o == '0': return mkbool(self.t == 0)
        return NotImplemented
    def __ne__(self, o): return ~(self == o)
    __hash__ = None
class BinStr:
    """bin(n) of an unknown n >= 1: '0b' and digits, V(i) = value of the first i digits"""
    def __init__(self, n):
        c = core.CTX
        self.n = term_int(n)
        c.ensure(mkbool(self.n >= 1), 'bin() of a positive number')
        k = c.fresh('bin')
        self.V, self.B, self.L = z3.Function('V_' + k, z3.IntSort(), z3.IntSort()), z3.Function('B_' + k, z3.IntSort(), z3.IntSort()), z3.Int('L_' + k)
        c.axiom(z3.And(self.V(0) == 0, self.V(self.L) == self.n, self.L >= 1, self.B(0) == 1, self.V(1) == 1))
        c.binstr = self
    def at(self, i):
        core.CTX.axiom(z3.Implies(z3.And(i >= 0, i < self.L), z3.And(z3.Or(self.B(i) == 0, self.B(i) == 1), self.V(i + 1) == 2 * self.V(i) + self.B(i), self.V(i) >= 0, z3.Implies(i >= 1, self.V(i) >= 1))))
    def __getitem__(self, k):
        if not isinstance(k, slice) or k.stop is not None or k.step is not None or not isinstance(k.start, int) or k.start < 2: raise Unsupported("part of bin() of an unknown number")
        off = k.start - 2
        def el(i):
            j = z3.simplify((i if z3.is_expr(i) else z3.IntVal(i)) + off)
            self.at(j)
            return Digit(self.B(j))
        r = SymSeq(Num(z3.simplify(self.L - off)), el, 'digits')
        core.CTX.offset = off
        return r

class GhostList:
    """list of unknown length with a specified content: an element may be read only after it was set, and what is set must be the specified value"""
    def __init__(self, n, spec, c):
        self.n, self.spec = n, spec          # spec(j) -> value, check(v, j) via spec.check
        self.cover = []                      # [(lo, hi)] index intervals (closed) already set
        self.pending = None
        c.ghostlists.append(self)
    def length(self): return self.n if isinstance(self.n, Num) else Num(term_int(self.n))
    def _covered(self, j): return z3.Or(*[z3.And(lo <= j, j <= hi) for lo, hi in self.cover]) if self.cover else z3.BoolVal(False)
    def __getitem__(self, k):
        c = core.CTX
        if isinstance(k, slice):
            if k.step is not None or k.stop is not None: raise Unsupported("slice of a list of unknown length")
            st = term_int(k.start or 0)
            n = z3.simplify(term_int(self.n) - st)
            return SymSeq(Num(n), lambda i: self[Num(z3.simplify(i + st))], 'slice')
        j = term_int(k)
        c.ensure(mkbool(z3.And(j >= 0, j < term_int(self.n))), 'list index in range')
        c.ensure(mkbool(self._covered(j)), 'list element set before it is read')
        return self.spec.value(j)
    def __setitem__(self, k, v):
        c = core.CTX
        j = term_int(k)
        c.ensure(mkbool(z3.And(j >= 0, j < term_int(self.n))), 'list index in range')
        c.ensure(mkbool(self.spec.check(v, j)), self.spec.label)
        if c.in_invariant is None: self.cover.append((j, j))
        else: self.pending = (self.pending or []) + [j]

class Cells:
    """block of memory of unknown length: a loop may fill it element by element (each iteration its own element), what is read must be set before"""
    def __init__(self, n, c):
        self.n, self.fn, self.rec, self.busy = n, None, None, False
        if not hasattr(c, 'cells'): c.cells = []
        c.cells.append(self)
    def _check(self, k):
        j = term_int(k)
        core.CTX.ensure(mkbool(z3.And(j >= 0, j < term_int(self.n))), 'index inside the allocated block')
        return j
    def __getitem__(self, k):
        if self.busy or self.fn is None: raise Unsupported("block of memory read before it is set")
        return self.fn(self._check(k))
    def __setitem__(self, k, v):
        j = self._check(k)
        if self.rec is None: raise Unsupported("write to a block of unknown length outside of a filling loop")
        self.rec.append((j, v))

def _filling_rule(c, seq, body, entry, set_, get, names):
    """loop that only stores: iteration i writes the element i of some blocks, values independent of the blocks"""
    blocks = [b for b in c.cells if not z3.is_int_value(term_int(b.n))]
    if not blocks or not isinstance(seq, SymRange): return None
    keep = [(b.rec, b.busy) for b in blocks]; i = z3.Int(c.fresh('fill'))
    n = term_int(seq.length())
    base = len(c.pc); state = (c.prefix, c.decisions, c.n, c.alts, c.effects)
    def one():
        for b in blocks: b.rec = []; b.busy = b.fn is None
        for v in names: set_(v, Poison(v))
        c.assume(mkbool(z3.And(i >= 0, i < n)))
        e = seq.elem(i)
        code = body(e)
        return code.k, [list(b.rec) for b in blocks], term_int(e)
    try:
        c.quiet += 1
        try: paths = subexplore(one)
        finally: c.quiet -= 1
        ok = len(paths) == 1 and paths[0][0][0] == 'normal' and any(paths[0][0][1]) and all(len(w) <= 1 and all(z3.simplify(j).eq(z3.simplify(paths[0][0][2])) for j, _ in w) for w in paths[0][0][1])
        if ok: subexplore(one)                  # the obligations of the body
    except (Unsupported, TypeError, AttributeError, ValueError, IndexError, KeyError):
        ok = False
        del c.pc[base:]; c.prefix, c.decisions, c.n, c.alts, c.effects = state
    finally:
        for b, (r, u) in zip(blocks, keep): b.rec, b.busy = r, u
        for v in names: set_(v, entry[v]) if v in entry else set_(v, Poison(v))
    if not ok: return None
    st = term_int(seq.elem(z3.IntVal(0)))
    c.ensure(mkbool(st == 0), 'a filling loop starts at the first element')
    for b, w in zip(blocks, paths[0][0][1]):
        for j, v in w:
            c.ensure(mkbool(term_int(b.n) == n), 'the whole block is filled')
            t = term(v)
            b.fn = lambda k, t=t: Num(z3.substitute(t, (i, k)))
    for v in names: set_(v, Poison(v))
    return Res()

def _invariant_rule(c, seq, body, entry, set_, get, names):
    """loop by invariant: every variable carried by the loop gets the template whose instance at 0 is its
    value at entry; the body is run once for an arbitrary iteration with the variables replaced by the
    templates, and the templates must hold again after it (obligation); after the loop they hold at n"""
    n = term_int(seq.length())
    use = {}; exits = []
    for v, x in entry.items():
        for t in c.templates:
            r = t.check(x, z3.IntVal(0))
            if r is True or (r is not False and c.prove_now(r)): use[v] = t; break
    lists = list(c.ghostlists)
    def one():
        for v in names:
            if v not in entry or v not in use: set_(v, Poison(v))
        i = z3.Int(c.fresh('it'))
        c.assume(mkbool(z3.And(i >= 0, i < n)))
        e = seq.elem(i)
        for v, t in use.items(): set_(v, t.value(i))
        olds = [(list(l.cover), l.pending) for l in lists]
        keep, c.in_invariant = c.in_invariant, i
        try:
            for l in lists:
                l.pending = None
                if getattr(seq, 'ascending', isinstance(seq, SymRange)): l.cover.append((term_int(seq.elem(z3.IntVal(0))), z3.simplify(term_int(e) - 1)))
            code = body(e)
            if code.k != 'normal': exits.append(1); return None
            after = get()
            for v, t in use.items():
                r = t.check(after.get(v), z3.simplify(i + 1))
                if r is False or r is True: r = z3.BoolVal(r)
                c.ensure(mkbool(r), 'invariant of %s: %s' % (v, t.label))
            sets = [all(p is not None and any(c.prove_now(p_ == term_int(e)) for p_ in p) for p in [l.pending]) for l in lists]
        finally:
            c.in_invariant = keep
            for l, (o, p) in zip(lists, olds): l.cover, l.pending = o, p
        return sets
    paths = subexplore(one)
    if exits or isinstance(seq, Forever):
        # a loop that is left early: the iteration in which it ends (any one), or its last one, is executed from the invariant
        r = Res()
        if not isinstance(seq, Forever) and c.branch(n == 0): return r
        i = z3.Int(c.fresh('last'))
        c.assume(mkbool(z3.And(i >= 0, i < n)))
        for v in names:
            if v not in entry or v not in use: set_(v, Poison(v))
        for v, t in use.items(): set_(v, t.value(i))
        c.iteration = i
        code = body(seq.elem(i))
        if code.k == 'normal':
            if isinstance(seq, Forever): raise PathEnd('another iteration follows')
            c.assume(mkbool(i == n - 1)); return r
        r.returned, r.broken, r.value = code.k == 'return', code.k == 'break', code.v
        return r
    for v in names:
        if v in use: set_(v, use[v].value(n))
        else: set_(v, Poison(v))
    for k, l in enumerate(lists):
        if paths and all(p[0][k] for p in paths): l.cover.append((term_int(seq.elem(z3.IntVal(0))), z3.simplify(term_int(seq.elem(z3.simplify(n - 1))))))
    return Res()

def _classic_rule(c, seq, body, entry, set_, get, names):
    """loop with a stated invariant c.loopinv(variables, iteration) -> [(label, condition)]: it holds at entry, every iteration keeps it,
    and the iteration that leaves the loop (or the last one) is executed from it"""
    n = term_int(seq.length())
    class St(dict):
        def __missing__(self, k): raise Unsupported("the invariant speaks about %r, which is no number carried by the loop" % k)
    def numbers(d): return St({k: v for k, v in d.items() if core.is_num(v) and not isinstance(v, (SBool, bool))})
    def havoc(i):
        st = {}
        for v in names:
            x = entry.get(v)
            if v not in entry or not core.is_num(x) or isinstance(x, (SBool, bool)): set_(v, Poison(v)); continue
            st[v] = Num(z3.Int(c.fresh(v)) if z3.is_int(term(x)) and not isinstance(x, float) else z3.Real(c.fresh(v)))
            set_(v, st[v])
        for l, q in c.loopinv(St(st), i): c.assume(q)
        return st
    for l, q in c.loopinv(numbers(entry), z3.IntVal(0)): c.ensure(q, 'invariant at entry: ' + l)
    def one():
        i = z3.Int(c.fresh('it')); c.assume(mkbool(z3.And(i >= 0, i < n)))
        havoc(i)
        code = body(seq.elem(i))
        if code.k != 'normal': return None
        for l, q in c.loopinv(numbers(get()), z3.simplify(i + 1)): c.ensure(q, 'invariant kept: ' + l)
    subexplore(one)
    r = Res()
    if not isinstance(seq, Forever) and c.branch(n == 0): return r
    i = z3.Int(c.fresh('last')); c.assume(mkbool(z3.And(i >= 0, i < n)))
    c.loopstate = havoc(i); c.iteration = i
    code = body(seq.elem(i))
    if code.k == 'normal':
        if isinstance(seq, Forever): raise PathEnd('another iteration follows')
        c.assume(mkbool(i == n - 1)); return r
    r.returned, r.broken, r.value = code.k == 'return', code.k == 'break', code.v
    return r

def term_int(n): return n.t if isinstance(n, Num) else z3.IntVal(int(n))

def _chain_candidates(c, seq, paths, names, entry):
    """variables that every iteration overwrites by the same function of its own element, and that are read before"""
    out = {}
    if type(seq).generic is not SymSeq.generic or any(p[0][2].k != 'normal' for p in paths) or not paths: return out
    accs = {n: p[0][4][n][1].t for p in paths for n in names if n in p[0][4] and p[0][4][n][0] == 'num'}
    for n in names:
        if n not in entry or n not in accs: continue
        mine = [p[0][4][n][1].t for p in paths if p[0][4].get(n, ('',))[0] == 'num']
        allacc = [h[1].t for p in paths for h in p[0][4].values() if h[0] == 'num']
        tm = None; ok = len(mine) == len(paths)
        for (i, e, code, after, hv, recs), conds, eff in paths:
            v = after.get(n)
            if not ok or not core.is_num(v) or core._inf_of(v) is not None and not is_sym(v): ok = False; break
            t = z3.simplify(term(v))
            if _depends(t, allacc): ok = False; break
            if not z3.is_const(i) or i.decl().kind() != z3.Z3_OP_UNINTERPRETED: ok = False; break
            t = z3.substitute(t, (i, z3.Int('k!chain')))
            if tm is None: tm = t
            elif not tm.eq(t) and entry[n] is not None: ok = False; break        # for None the equality is an obligation below
        if ok and tm is not None:
            out[n] = (entry[n], lambda j, tm=tm: z3.simplify(z3.substitute(tm, (z3.Int('k!chain'), j))))
    return out

def _join(a, b):
    a.initial.append(Spread(b))
    return a

def _closure_lists(body, names):
    """lists of the enclosing function that the loop body reaches without rebinding them"""
    out = {}
    if body.__closure__ is None: return out
    for n, cell in zip(body.__code__.co_freevars, body.__closure__):
        if n in names: continue
        try: v = cell.cell_contents
        except ValueError: continue
        if type(v) is list or isinstance(v, RecList):
            if _mutates(body.__code__, n): out[n] = (cell, v)
    return out

def _mutates(code, name):
    import dis
    prev = None
    for ins in dis.get_instructions(code):
        if prev is not None and prev.argval == name and ins.opname in ('LOAD_ATTR', 'LOAD_METHOD') and ins.argval in ('append', 'extend', 'insert'):
            return True
        prev = ins
    for k in code.co_consts:
        if hasattr(k, 'co_code') and name in k.co_freevars and _mutates(k, name): return True
    return False

def _depends(e, syms):
    ids = set(s.get_id() for s in syms)
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        todo.extend(x.children())
    return False

def _search(c, seq, paths, set_, names, entry, res, free):
    """loop with return/break: either some element leaves the loop (all earlier ones did not), or none does"""
    leaves = [p for p in paths if p[0][2].k in ('return', 'break')]
    stays = [p for p in paths if p[0][2].k not in ('return', 'break')]
    for p in paths:
        accs = [h[1].t for h in p[0][4].values() if h[0] == 'num']
        if any(_depends(x, accs) for x in p[1]): raise Unsupported("early exit depends on an accumulator")
    k = c.choose(len(leaves) + 1, 'leave')
    def settle():
        for n in names:
            if n not in entry: set_(n, Poison(n)); continue
            for p in stays:
                v = p[0][3].get(n); h = p[0][4].get(n)
                if h is None: continue
                if h[0] == 'num' and not (isinstance(v, Num) and z3.simplify(v.t - h[1].t).eq(z3.RealVal(0))):
                    set_(n, Poison(n)); break
                if h[0] in ('list', 'family', 'reclist') and h[1].items: raise Unsupported("list built in a loop with early exit")
                if h[0] in ('obj', 'bool') and not isinstance(v, Poison): set_(n, Poison(n)); break
            else:
                set_(n, entry[n])
        for n, (cell, v) in free.items():
            for p in stays:
                if p[0][5][n].items: raise Unsupported("list built in a loop with early exit")
    effs = [p for p in stays if p[2]]
    if effs: raise Unsupported("effects in a loop with early exit")
    if k < len(leaves):
        (i, e, code, after, hv, recs), conds, eff = leaves[k]
        c.pc.extend(conds)
        if not c.feasible(z3.BoolVal(True)): raise PathEnd('infeasible exit')
        c.effects.extend(eff)
        c.searches = getattr(c, 'searches', []) + [('found', seq, i, e, paths)]
        settle()
        if code.k == 'return':
            res.returned = True; res.value = code.v
        else:
            res.broken = True
            for n in names:
                v = after.get(n)
                h = hv.get(n)
                if h is not None and h[0] == 'num' and isinstance(v, Num) and v.t.eq(h[1].t): continue
                if isinstance(v, Poison) or v is None: continue
                if h is not None and h[0] == 'num' and isinstance(v, Num) and _depends(v.t, [h[1].t]): set_(n, Poison(n)); continue
                if h is not None and h[0] in ('list', 'reclist', 'family'): continue
                set_(n, v)
        return res
    c.searches = getattr(c, 'searches', []) + [('none', seq, None, None, paths)]
    settle()
    return res

VC = _VC()
