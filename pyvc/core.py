"""pyvc core: deductive verification of the real Python code.

The functions of /repo are executed by CPython itself on symbolic values
(class Num: mathematical reals/integers as SMT terms).  Every branch on a
symbolic condition splits the path (both sides are explored; infeasible sides
are pruned with the solver), calls to functions under contract are replaced by
their contract (see stubs in the contract files), loops over containers of
unknown length are cut by loop rules (loops.py), and each postcondition,
callee precondition and loop invariant becomes a named proof obligation

        axioms /\\ preconditions /\\ path condition  ==>  condition

that is discharged by z3 (cvc5 as second back end).
"""
import math, time, traceback, fractions, numbers, hashlib
import z3

Fraction = fractions.Fraction
INF = float('inf')

class VcAbort(BaseException):
    pass
class Unsupported(VcAbort):
    """the engine has no semantics for this operation on symbolic values"""
class PathEnd(VcAbort):
    """path abandoned (infeasible, or cut by a contract)"""

CTX = None
def ctx():
    return CTX

# ---------------------------------------------------------------- numbers
import math as _math
_PI = Fraction(repr(_math.pi)).limit_denominator(10 ** 9)
# simple multiples of pi stay multiples of one rational, so that pi/2 + pi/2 is pi
PI_MULTIPLES = {s * _math.pi * p / q: s * _PI * p / q for s in (1, -1) for p, q in ((1, 1), (1, 2), (2, 1), (1, 4), (3, 2), (3, 4), (1, 3), (2, 3))}
def frac_of(x):
    """decimal-faithful rational of a python/numpy number"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    f = float(x)
    if f in PI_MULTIPLES: return PI_MULTIPLES[f]
    r = Fraction(f)
    if r.denominator > 10 ** 6:
        s = Fraction(repr(f)).limit_denominator(10 ** 9)
        if float(s) == f:
            return s
        s = r.limit_denominator(10 ** 6)
        if float(s) == f:
            return s
        s = Fraction(repr(f))
        return s
    return r

def zval(x):
    q = frac_of(x)
    return z3.RealVal(str(q.numerator) + "/" + str(q.denominator)) if q.denominator != 1 else z3.RealVal(str(q.numerator))

def is_sym(x):
    return isinstance(x, (Num, SBool))

def is_num(x):
    return isinstance(x, (Num, int, float)) or (isinstance(x, numbers.Real) and not isinstance(x, SBool)) or _np_scalar(x)

def _np_scalar(x):
    import numpy as np
    return isinstance(x, (np.floating, np.integer, np.bool_))

def _np0(x):
    import numpy as np
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    return x

def term(x):
    """z3 Real term of a finite number"""
    if isinstance(x, Num):
        return z3.ToReal(x.t) if z3.is_int(x.t) else x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if z3.is_int(x) else x
    x = _np0(x)
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        raise Unsupported("infinite value where a finite real is needed")
    return zval(x)

def bterm(b):
    if isinstance(b, SBool):
        return b.t
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, Num):
        return b.t != 0
    import numpy as np
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
        return bterm(b)
    return z3.BoolVal(bool(b))

def mkbool(t):
    t = z3.simplify(t) if not isinstance(t, bool) else t
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)

def mknum(t):
    return Num(t)

class SBool:
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __bool__(self):
        return CTX.branch(self.t)
    def __and__(self, o): return mkbool(z3.And(self.t, bterm(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__
    def __xor__(self, o): return mkbool(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__
    def __invert__(self): return mkbool(z3.Not(self.t))
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == bterm(o))
        return Num(term(self)) == o
    def __ne__(self, o):
        return ~bb(self == o)
    def __hash__(self): return id(self)
    def __add__(self, o): return Num(term(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return self & o if isinstance(o, (SBool, bool)) else Num(term(self)) * o
    __rmul__ = __mul__
    def __sub__(self, o): return Num(term(self)) - o
    def __rsub__(self, o): return o - Num(term(self))
    def __repr__(self): return "SBool(%s)" % self.t
    def any(self, *a): return self
    def all(self, *a): return self
    @property
    def size(self): return 1

def bb(x):
    """python bool/np bool/SBool -> something supporting & | ~ logically"""
    if isinstance(x, SBool):
        return x
    return SBool(bterm(x))

def _inf_of(o):
    o = _np0(o)
    if isinstance(o, (float,)) or _np_scalar(o):
        f = float(o)
        if math.isinf(f) or math.isnan(f):
            return f
    return None

class Num:
    """symbolic finite real (or integer)"""
    __slots__ = ('t', 'tag')
    __array_ufunc__ = None          # numpy scalars defer to our reflected operators
    __array_priority__ = 1e6
    def __init__(self, t, tag=None):
        self.t = t
        self.tag = tag
    # --- helpers
    def _other(self, o):
        if isinstance(o, (Num, SBool)):
            return o
        o = _np0(o)
        if isinstance(o, (int, float, Fraction)) or _np_scalar(o):
            return o
        return None
    @property
    def is_int(self):
        return z3.is_int(self.t)
    def _bin(self, o, op, rev=False):
        import numpy as np
        from . import arrays
        if isinstance(o, arrays.LazyArr):
            return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim > 0:
            f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}[op]
            out = np.empty(o.shape, dtype=object)
            for idx, v in np.ndenumerate(o):
                if not isinstance(v, (Num, SBool)) and hasattr(v, 'item'): v = v.item()
                out[idx] = f(v, self) if rev else f(self, v)
            return out
        o = self._other(o)
        if o is None:
            return NotImplemented
        inf = _inf_of(o)
        if inf is not None:
            if math.isnan(inf):
                return inf
            if op == '+':
                return inf
            if op == '-':
                return inf if rev else -inf
            if op == '*':
                if self > 0: return inf
                if self < 0: return -inf
                return float('nan')
            if op == '/':
                if not rev: return 0.0
                if self > 0: return inf
                if self < 0: return -inf
                return float('nan')
        if self.is_int and (isinstance(o, Num) and o.is_int or isinstance(o, int) and not isinstance(o, bool)) and op in '+-*':
            a, b = self.t, (o.t if isinstance(o, Num) else z3.IntVal(o))
        else:
            a, b = term(self), term(o)
        if rev:
            a, b = b, a
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op == '*': r = a * b
        else:
            if CTX is not None: CTX.on_division(b)
            if CTX is not None and CTX.zero_division and not rev and not is_sym(o) and o == 0:        # numpy: x/0 is infinite with the sign of x, 0/0 is nan
                z = math.copysign(1.0, float(o))
                if self > 0: return z * math.inf
                if self < 0: return -z * math.inf
                return math.nan
            if z3.is_rational_value(b) and b.as_fraction() != 0:
                r = a * z3.RealVal(str(1 / b.as_fraction()))
            else:
                r = a / b
        return Num(z3.simplify(r, som=False) if _small(r) else r)
    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o):
        if isinstance(o, list) and CTX.templates is not None and len(o) == 1 and o[0] is None:
            from . import loops
            return loops.GhostList(self, CTX.list_spec, CTX)
        return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o):
        o2 = self._other(o)
        if self.is_int and (isinstance(o2, int) or isinstance(o2, Num) and o2.is_int):
            b = o2.t if isinstance(o2, Num) else z3.IntVal(o2)
            if isinstance(o2, int) and o2 > 0:
                return Num(self.t / b)
        raise Unsupported("floordiv")
    def __mod__(self, o):
        o2 = self._other(o)
        if self.is_int and isinstance(o2, int) and o2 > 0:
            return Num(self.t % z3.IntVal(o2))
        raise Unsupported("mod")
    def __neg__(self): return Num(z3.simplify(-self.t))
    def __pos__(self): return self
    def __abs__(self):
        z = z3.IntVal(0) if self.is_int else z3.RealVal(0)
        return Num(z3.simplify(z3.If(self.t >= z, self.t, -self.t)))
    def __pow__(self, e):
        from . import mathfn
        return mathfn.power(self, e)
    def __rpow__(self, b):
        from . import mathfn
        import numpy as np
        if isinstance(b, np.ndarray) and b.dtype == object:
            r = np.empty(b.shape, dtype=object)
            for i in np.ndindex(b.shape): r[i] = mathfn.power(b[i], self)
            return r if b.shape else r[()]
        return mathfn.power(b, self)
    def _cmp(self, o, op):
        import numpy as np
        from . import arrays
        if isinstance(o, arrays.LazyArr):
            return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim > 0:
            import operator as _o
            f = {'<': _o.lt, '<=': _o.le, '>': _o.gt, '>=': _o.ge, '==': _o.eq, '!=': _o.ne}[op]
            out = np.empty(o.shape, dtype=object)
            for idx, v in np.ndenumerate(o):
                if not isinstance(v, (Num, SBool)) and hasattr(v, 'item'): v = v.item()
                out[idx] = f(self, v)
            return out
        o = self._other(o)
        if o is None:
            if op == '==': return False
            if op == '!=': return True
            return NotImplemented
        inf = _inf_of(o)
        if inf is not None:
            if math.isnan(inf): return op == '!='
            if inf > 0: return op in ('<', '<=', '!=')
            return op in ('>', '>=', '!=')
        a, b = term(self), term(o)
        if op == '<': r = a < b
        elif op == '<=': r = a <= b
        elif op == '>': r = a > b
        elif op == '>=': r = a >= b
        elif op == '==': r = a == b
        else: r = a != b
        return mkbool(r)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __hash__(self): return 7          # keys of dictionaries are compared by value (forks)
    def __bool__(self):
        return CTX.branch(self.t != 0)
    def __float__(self):
        raise Unsupported("float() of a symbolic value escaped the shim")
    def __int__(self):
        raise Unsupported("int() of a symbolic value")
    def __index__(self):
        raise Unsupported("symbolic value used as a concrete index")
    def __repr__(self): return "<%s>" % (str(self.t)[:80],)
    def __str__(self): return "<%s>" % (str(self.t)[:80],)
    def __format__(self, spec): return str(self)
    def item(self): return self
    def copy(self): return self
    def conjugate(self): return self
    def squeeze(self): return self
    def tolist(self): return self
    def flatten(self):
        import numpy as np
        out = np.empty(1, dtype=object); out[0] = self
        return out
    real = property(lambda self: self)
    imag = 0.0
    shape = ()
    ndim = 0
    size = 1
    dtype = property(lambda self: __import__('numpy').dtype(float))
    def any(self): return self != 0
    def all(self): return self != 0
    def sum(self): return self
    def max(self): return self
    def min(self): return self
    def __getitem__(self, k):
        if k is Ellipsis or (isinstance(k, tuple) and k == ()):
            return self
        raise TypeError("symbolic number is not subscriptable")
    def astype(self, *_a): return self
    def _sympy_(self):
        import sympy
        return sympy.Symbol("v_%d" % (abs(hash(self.t)) % 10**8))
    # numpy object-array ufunc hooks
    def _m(name):
        def f(self):
            from . import mathfn
            return getattr(mathfn, name)(self)
        return f
    for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'tanh', 'log1p', 'expm1', 'sign'):
        locals()[_n] = _m(_n)
    del _m, _n

numbers.Real.register(Num)

def _small(e):
    return True

# ---------------------------------------------------------------- context
class Obl:
    __slots__ = ('harness', 'label', 'path', 'pc', 'cond', 'status', 'backend', 'model', 'time', 'note', 'axioms')
    def __init__(s, harness, label, path):
        s.harness, s.label, s.path = harness, label, path
        s.status = None; s.backend = None; s.model = None; s.time = 0.0; s.note = None

class Ctx:
    """one path under exploration (re-created for each path)"""
    def __init__(self, run, prefix):
        self.templates = None; self.ghostlists = []; self.in_invariant = None
        self.run = run
        self.prefix = list(prefix)
        self.decisions = []
        self.decided = {}
        self.pc = []
        self.axioms = []
        self.axiom_keys = set()
        self.counter = {}
        self.alts = []
        self.n = 0
        self.flag_unsupported = None
        self.integrals = {}
        self.folds = {}
        self.effects = []
        self.facts = []
        self.division_log = None; self.zero_division = False
        self.mathterms = {}
        self.case = None
        self.sub_depth = 0
        self.quiet = 0
    # names
    def fresh(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return base if k == 0 else "%s!%d" % (base, k)
    def real(self, name):
        return Num(z3.Real(self.fresh(name)))
    def int(self, name):
        return Num(z3.Int(self.fresh(name)))
    def bool(self, name):
        return SBool(z3.Bool(self.fresh(name)))
    def fun(self, name, arity=1):
        from .arrays import SymFun
        return SymFun(z3.Function(self.fresh(name), *([z3.RealSort()] * (arity + 1))))
    # logic
    def assume(self, c):
        c = bterm(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd("assume false")
        self.pc.append(c)
    def axiom(self, c, key=None):
        if key is not None:
            if key in self.axiom_keys:
                return
            self.axiom_keys.add(key)
        self.axioms.append(c)
    def on_division(self, b):
        if self.division_log is not None:
            self.division_log.append((list(self.pc), b))
    def feasible(self, extra):
        return self.run.feasible(self.axioms, self.pc + [extra])
    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        neg = z3.is_not(t)
        key = t.arg(0) if neg else t
        hit = self.decided.get(key.get_id())
        if hit is not None:                 # decided before, and everything assumed then is still assumed
            _, val, k, last = hit
            if len(self.pc) >= k and (k == 0 or self.pc[k - 1] is last): return val != neg
        val = self.branch_new(t)
        self.decided[key.get_id()] = (key, val != neg, len(self.pc), self.pc[-1] if self.pc else None)
        return val
    def branch_new(self, t):
        i = self.n
        self.n += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if len(self.decisions) > self.run.max_depth:
                raise Unsupported("path too deep")
            ft = self.feasible(t)
            if not ft:
                d = (False, True)       # forced
            else:
                ff = self.feasible(z3.Not(t))
                if not ff:
                    d = (True, True)
                else:
                    d = (True, False)
                    self.alts.append(self.decisions + [(False, False)])
        self.decisions.append(d)
        val, forced = d
        if not forced:
            self.pc.append(t if val else z3.Not(t))
        return val
    def choose(self, n, name="choice"):
        """finite non-deterministic choice, explored exhaustively"""
        for k in range(n - 1):
            b = z3.Bool(self.fresh("%s_is%d" % (name, k)))
            if self.branch(b):
                return k
        return n - 1
    # obligations
    def ensure(self, cond, label, note=None):
        if self.quiet: return True          # exploration that only looks for loop summaries
        o = Obl(self.run.harness, label, len(self.run.paths))
        o.note = note
        c = bterm(cond)
        o.pc = list(self.pc); o.axioms = list(self.axioms); o.cond = c
        self.run.discharge(o)
        return o.status == 'proved'
    def prove_now(self, cond):
        from . import solve
        d = z3.simplify(cond)
        return z3.is_true(d) or not z3.is_false(d) and solve.prove(self.axioms, self.pc, d, 4000, False)[0] == 'proved'
    def ensure_eq(self, a, b, label, note=None):
        ia, ib = _inf_of(a) if not is_sym(a) else None, _inf_of(b) if not is_sym(b) else None
        if ia is not None or ib is not None:
            ok = ia is not None and ib is not None and (ia == ib or (math.isnan(ia) and math.isnan(ib)))
            return self.ensure(ok, label, note or "%r vs %r" % (a, b))
        return self.ensure(mkbool(term(a) == term(b)), label, note)
    def fail(self, label, note=None):
        return self.ensure(False, label, note)

class Run:
    """verification of one harness (one function contract, one precondition case)"""
    def __init__(self, harness, timeout_ms=20000, max_paths=4000, max_depth=2500, feas_ms=800, cvc5=True, deadline=None):
        self.harness = harness
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.paths = []
        self.obls = []
        self.use_cvc5 = cvc5
        self.deadline = deadline
        self.feas_cache = {}
        self.solver_time = 0.0
        self.queries = 0
        self.unsupported = []
        self.errors = []
        self.returned = 0
        self.funcs = set()

    def feasible(self, axioms, conds):
        t0 = time.time()
        key = None
        s = z3.Solver()
        s.set('timeout', self.feas_ms)
        for a in axioms: s.add(a)
        for c in conds: s.add(c)
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return r != z3.unsat

    def discharge(self, o):
        from . import solve
        t0 = time.time()
        o.status, o.backend, o.model = solve.prove(o.axioms, o.pc, o.cond, self.timeout_ms, self.use_cvc5)
        o.time = time.time() - t0
        self.solver_time += o.time
        self.queries += 1
        self.obls.append(o)

    def explore(self, fn):
        """fn(ctx): builds inputs, runs the real code, emits obligations"""
        global CTX
        work = [[]]
        while work:
            if len(self.paths) >= self.max_paths:
                self.unsupported.append(("path limit %d reached" % self.max_paths, None))
                break
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append(("time limit of this check reached", None))
                break
            prefix = work.pop()
            c = Ctx(self, prefix)
            CTX = c
            status = 'ok'
            try:
                fn(c)
                self.returned += 1
            except PathEnd:
                status = 'cut'
            except Unsupported as e:
                status = 'unsupported'
                self.unsupported.append((str(e), _where(e)))
            except VcAbort as e:
                status = 'abort'
                self.unsupported.append((repr(e), _where(e)))
            except RecursionError as e:
                status = 'unsupported'
                self.unsupported.append((repr(e), None))
            except Exception as e:
                if c.flag_unsupported or '__array_ufunc__=None' in str(e):       # numpy operation on a symbolic value in place
                    status = 'unsupported'
                    self.unsupported.append((c.flag_unsupported or str(e), None))
                else:
                    status = 'exception'
                    wh = _where(e)
                    o = Obl(self.harness, 'no-exception', len(self.paths))
                    o.pc = list(c.pc); o.axioms = list(c.axioms); o.cond = z3.BoolVal(False)
                    o.note = "%s: %s at %s" % (type(e).__name__, e, wh)
                    if wh and '/repo' not in str(wh) and 'pacal' not in str(wh):
                        self.unsupported.append((o.note, wh))
                        status = 'unsupported'
                        self.errors.append(traceback.format_exc())
                    else:
                        self.discharge(o)
                        self.errors.append(traceback.format_exc())
            finally:
                CTX = None
            self.paths.append(status)
            work.extend(reversed(c.alts))
        return self

def _where(e):
    tb = e.__traceback__
    last = None; repo = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith('/repo') or '/pacal/' in fn:
            repo = "%s:%d" % (fn, tb.tb_lineno)
            last = repo
        else:
            last = "%s:%d" % (fn, tb.tb_lineno)
        tb = tb.tb_next
    return repo or last
