"""numpy as seen by the code under verification: real numpy on concrete values, symbolic semantics otherwise"""
import types, math, operator, builtins
import numpy as np
import z3
from . import core, mathfn, arrays
from .core import Num, SBool, term, bterm, mkbool, Unsupported, is_sym, bb
from .arrays import LazyArr, obj_array, map_any, is_symarr, SymFun

def has_sym(x, d=0):
    if isinstance(x, (Num, SBool, LazyArr, arrays._Where)): return True
    if isinstance(x, np.ndarray): return x.dtype == object
    if isinstance(x, (list, tuple)) and d < 3:
        for v in x:
            if has_sym(v, d + 1): return True
    if getattr(x, '_vc_symbolic', False): return True
    return False

class FloatShim(float):
    def __new__(cls, x=0.0):
        if isinstance(x, (Num, LazyArr)): return x
        if isinstance(x, SBool): return Num(term(x))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1: return x.flatten()[0]
        return builtins.float(x)
class IntShim(int):
    def __new__(cls, *a):
        x = a[0] if a else 0
        if isinstance(x, Num):
            if x.is_int: return x
            t = x.t
            return Num(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        return builtins.int(*a)

def fixt(d):
    if d is FloatShim: return float
    if d is IntShim: return int
    return d

def _prep(a, k):
    a = tuple(fixt(v) for v in a)
    if k: k = {n: fixt(v) for n, v in k.items()}
    return a, k

H = {}
def h(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d

H['logaddexp'] = mathfn.logaddexp; H['hypot'] = mathfn.hypot
for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'sqrt', 'log1p', 'expm1', 'tanh', 'sign', 'log10', 'floor', 'ceil'):
    H[_n] = getattr(mathfn, _n)

def _conc(v):
    return v
def _elementwise(f):
    def g(x, *rest, **kw):
        if isinstance(x, LazyArr): return x.map(f)
        if isinstance(x, (list, tuple)): x = obj_array(x)
        if isinstance(x, np.ndarray) and x.ndim > 0:
            out = [f(v) for v in x.flatten()]
            if builtins.all(isinstance(v, (bool, np.bool_)) for v in out):
                return np.array(out, dtype=bool).reshape(x.shape)
            r = obj_array(out)
            return r.reshape(x.shape)
        if isinstance(x, np.ndarray): x = x.item()
        return f(x)
    return g

def _is(fn):
    def f(v):
        if is_sym(v): return {'isinf': False, 'isnan': False, 'isfinite': True, 'isposinf': False, 'isneginf': False}[fn]
        return bool(getattr(np, fn)(v))
    return f
for _n in ('isinf', 'isnan', 'isfinite', 'isposinf', 'isneginf'):
    H[_n] = _elementwise(_is(_n))
H['absolute'] = H['abs'] = H['fabs'] = _elementwise(builtins.abs)
H['square'] = _elementwise(lambda v: v * v)
H['negative'] = _elementwise(operator.neg)
H['reciprocal'] = _elementwise(lambda v: 1.0 / v)
H['real'] = lambda x: x
H['nan_to_num'] = _elementwise(lambda v: v if is_sym(v) else float(np.nan_to_num(v)))
H['logical_not'] = _elementwise(lambda v: ~bb(v))

def smin(a, b):
    ia, ib = (None if is_sym(a) else core._inf_of(a)), (None if is_sym(b) else core._inf_of(b))
    if ia is None and ib is None and (is_sym(a) or is_sym(b)):
        if _isint(a) and _isint(b):
            x, y = _it(a), _it(b)
            return Num(z3.simplify(z3.If(x <= y, x, y)))
        x, y = term(a), term(b)
        return Num(z3.simplify(z3.If(x <= y, x, y)))
    return a if a <= b else b
def smax(a, b):
    ia, ib = (None if is_sym(a) else core._inf_of(a)), (None if is_sym(b) else core._inf_of(b))
    if ia is None and ib is None and (is_sym(a) or is_sym(b)):
        if _isint(a) and _isint(b):
            x, y = _it(a), _it(b)
            return Num(z3.simplify(z3.If(x >= y, x, y)))
        x, y = term(a), term(b)
        return Num(z3.simplify(z3.If(x >= y, x, y)))
    return a if a >= b else b
def _isint(a): return isinstance(a, int) and not isinstance(a, bool) or isinstance(a, Num) and a.is_int
def _it(a): return a.t if isinstance(a, Num) else z3.IntVal(int(a))

def _binary(f):
    def g(a, b, *r, **kw):
        if isinstance(a, LazyArr): return a._bin(b, f) if not isinstance(b, LazyArr) else arrays._mk2(a, b, f)
        if isinstance(b, LazyArr): return b._rbin(a, f)
        arr = [x for x in (a, b) if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim > 0]
        if arr:
            A = obj_array(a) if isinstance(a, (list, tuple)) else a
            B = obj_array(b) if isinstance(b, (list, tuple)) else b
            if isinstance(A, np.ndarray) and A.dtype != object: A = A.astype(object)
            if isinstance(B, np.ndarray) and B.dtype != object: B = B.astype(object)
            AA, BB = np.broadcast_arrays(_box(A), _box(B))
            out = np.empty(AA.shape, dtype=object)
            for i in np.ndindex(*AA.shape): out[i] = f(AA[i], BB[i])
            return _unbool(out)
        return f(a, b)
    return g
def _divide(a, b):
    if not is_sym(a) and not is_sym(b) and b == 0: return float(np.float64(a) / np.float64(b))
    if is_sym(a) and isinstance(b, (int, float)) and b == 0:      # floating point convention: the sign of the zero counts
        z = math.copysign(1.0, b)
        if builtins.bool(a > 0): return z * math.inf
        if builtins.bool(a < 0): return -z * math.inf
        return math.nan
    return a / b
def _unbool(out):
    if out.size and builtins.all(isinstance(v, (bool, np.bool_)) for v in out.flatten()):
        return out.astype(bool)
    return out
def _box(x):
    if isinstance(x, np.ndarray): return x
    o = np.empty((), dtype=object); o[()] = x
    return o
def _outer(f):
    def g(a, b):
        A = obj_array(a) if isinstance(a, (list, tuple)) else np.asarray(a, dtype=object)
        B = obj_array(b) if isinstance(b, (list, tuple)) else np.asarray(b, dtype=object)
        A, B = A.flatten(), B.flatten()
        out = np.empty((len(A), len(B)), dtype=object)
        for i in range(len(A)):
            for j in range(len(B)): out[i, j] = f(A[i], B[j])
        return out
    return g
class Ufunc:
    _vc_ufunc = True
    def __init__(self, name, npf, f, ident=None):
        self.name, self.npf, self.f, self.ident = name, npf, f, ident
        self.b = _binary(f)
        self.__name__ = name
    def __call__(self, a, b, *r, **k):
        if has_sym(a) or has_sym(b): return self.b(a, b)
        return self.npf(a, b, *r, **k)
    def outer(self, a, b):
        if has_sym(a) or has_sym(b): return _outer(self.f)(a, b)
        return self.npf.outer(a, b)
    def reduce(self, a, *r, **k):
        if has_sym(a):
            x = list(a); acc = x[0]
            for v in x[1:]: acc = self.f(acc, v)
            return acc
        return self.npf.reduce(a, *r, **k)
    def accumulate(self, a, *r, **k):
        if has_sym(a):
            x = list(a); acc = x[0]; out = [acc]
            for v in x[1:]:
                acc = self.f(acc, v); out.append(acc)
            return obj_array(out)
        return self.npf.accumulate(a, *r, **k)
UF = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': _divide, 'true_divide': _divide,
      'minimum': smin, 'maximum': smax, 'fmin': smin, 'fmax': smax, 'power': mathfn.power, 'less': operator.lt, 'less_equal': operator.le,
      'greater': operator.gt, 'greater_equal': operator.ge, 'equal': operator.eq, 'not_equal': operator.ne,
      'logical_and': lambda a, b: bb(a) & bb(b), 'logical_or': lambda a, b: bb(a) | bb(b)}

@h('array', 'asarray', 'asfarray', 'asanyarray', 'ascontiguousarray')
def _array(x, *a, **k):
    if isinstance(x, LazyArr): return x.copy()
    if isinstance(x, (Num, SBool)):
        return x
    if isinstance(x, np.ndarray): return x.copy()
    if getattr(x, '_vc_symbolic', False) and hasattr(x, 'as_array'): return x.as_array()
    return obj_array(x)
@h('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    if isinstance(a, (LazyArr,)) or not core.is_sym(v) and not any(core.is_sym(x) for x in a) or sorter is not None or isinstance(v, (LazyArr, list)) or isinstance(v, np.ndarray) and v.ndim: raise Unsupported("searchsorted of a symbolic array")
    for i, x in enumerate(a):
        if bool(v <= x if side == 'left' else v < x): return i
    return len(a)
@h('atleast_1d')
def _al1(x):
    if isinstance(x, (Num, SBool)): return obj_array([x])
    return x
@h('isscalar')
def _isscalar(x): return isinstance(x, (Num, SBool))
@h('size')
def _size(x, *a):
    if isinstance(x, LazyArr): return x.n
    if isinstance(x, (list, tuple)): return obj_array(x).size
    if isinstance(x, np.ndarray): return x.size
    return 1
@h('shape')
def _shape(x):
    return x.shape if not isinstance(x, (list, tuple)) else obj_array(x).shape
@h('ndim')
def _ndim(x):
    return x.ndim if not isinstance(x, (list, tuple)) else obj_array(x).ndim
def _like(val):
    def f(x, *a, **k):
        if isinstance(x, LazyArr): return LazyArr(x.n, lambda i: val, x.filt)
        if isinstance(x, (Num, SBool)): return _SymZero(val)
        if isinstance(x, (list, tuple)): x = obj_array(x)
        out = np.empty(x.shape, dtype=object)
        out.fill(val)
        return out
    return f
def _SymZero(v):
    o = np.empty((), dtype=float); o[()] = v
    return o
H['zeros_like'] = _like(0.0); H['ones_like'] = _like(1.0); H['empty_like'] = _like(0.0)
@h('full_like')
def _fl(x, v, *a, **k): return _like(v)(x)
def _mk(val):
    def f(n, *a, **k):
        if isinstance(n, (tuple, list)) and len(n) == 1: n = n[0]
        if isinstance(n, Num): return LazyArr(n, lambda i: val)
        raise Unsupported("symbolic shape")
    return f
H['zeros'] = _mk(0.0); H['ones'] = _mk(1.0); H['empty'] = _mk(0.0)
@h('full')
def _full(n, v, *a, **k):
    if isinstance(n, Num): return LazyArr(n, lambda i: v)
    out = np.empty(n, dtype=object); out.fill(v); return out
@h('arange')
def _arange(*a, **k):
    st, en, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if builtins.any(isinstance(v, Num) and not v.is_int for v in (st, en, step)):
        raise Unsupported("arange over symbolic reals")
    stt, ent = _it(st), _it(en)
    if not isinstance(step, int) or step == 0: raise Unsupported("arange step")
    n = z3.simplify((ent - stt + (step - 1)) / step) if step > 0 else z3.simplify((stt - ent + (-step - 1)) / (-step))
    nn = n.as_long() if z3.is_int_value(n) else Num(n)
    return LazyArr(nn, lambda i: Num(z3.simplify(stt + step * i)))
@h('linspace')
def _linspace(a, b, n=50, *r, **k):
    if is_sym(n): raise Unsupported("linspace n")
    return obj_array([a + (b - a) * (j / (n - 1.0)) for j in range(n)])
@h('where')
def _where(m, *a):
    if isinstance(m, LazyArr): return arrays.where(m, *a)
    if a:
        return _ternary(m, *a)
    if isinstance(m, (SBool,)):
        return ((0,) if m else ())
    mm = np.array([bool(v) for v in np.asarray(m, dtype=object).flatten()])
    return np.where(mm)
def _ternary(m, x, y):
    if isinstance(m, SBool) and not isinstance(x, (np.ndarray, LazyArr)):
        return arrays.select(m, x, y)
    if any_lazy(m, x, y):
        raise Unsupported("where mix")
    M, X, Y = np.broadcast_arrays(_box(m), _box(x), _box(y))
    out = np.empty(M.shape, dtype=object)
    for i in np.ndindex(*M.shape): out[i] = arrays.select(M[i], X[i], Y[i])
    return out
def any_lazy(*a): return builtins.any(isinstance(x, LazyArr) for x in a)
@h('select')
def _select(conds, vals, default=0):
    r = default
    for c, v in reversed(list(zip(conds, vals))):
        if isinstance(c, LazyArr):
            r = arrays.where(c, v, r)
        else:
            r = arrays.select(c, v, r)
    return r
@h('concatenate', 'hstack')
def _concat(xs, *a, **k):
    xs = list(xs)
    if builtins.any(isinstance(x, LazyArr) for x in xs):
        return _concat_lazy(xs)
    out = []
    for x in xs:
        if isinstance(x, np.ndarray): out.extend(list(x.flatten()) if x.ndim <= 1 else _two_d())
        elif isinstance(x, (list, tuple)): out.extend(x)
        else: out.append(x)
    return obj_array(out)
def _two_d(): raise Unsupported("2-d concatenate")
def _concat_lazy(xs):
    parts = []
    for x in xs:
        if isinstance(x, LazyArr): parts.append(x)
        else:
            vals = list(x) if isinstance(x, (list, tuple, np.ndarray)) else [x]
            parts.append(LazyArr(len(vals), _const_fn(vals)))
    acc = parts[0]
    for p in parts[1:]:
        acc = _cat2(acc, p)
    return acc
def _const_fn(vals):
    def f(i):
        if z3.is_int_value(i): 
            j = i.as_long()
            return vals[j] if 0 <= j < len(vals) else 0.0
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = arrays.select(mkbool(i == j), vals[j], r)
        return r
    return f
def _cat2(a, b):
    na, fa, fb = arrays.idx_term(a.n), a.fn, b.fn
    n = a.n + b.n
    return LazyArr(n, lambda i: arrays._sel(mkbool(i < na), lambda: fa(i), lambda: fb(z3.simplify(i - na))))
@h('append')
def _append(a, b, *r):
    return _concat([a, b])
@h('flipud')
def _flip(a): return a[::-1]
@h('dot', 'inner', 'vdot')
def _dot(a, b):
    if any_lazy(a, b): return arrays.total(a * b)
    A = obj_array(a) if isinstance(a, (list, tuple)) else np.asarray(a, dtype=object)
    B = obj_array(b) if isinstance(b, (list, tuple)) else np.asarray(b, dtype=object)
    return np.dot(A, B)
@h('sum')
def _sum(a, axis=None, *r, **k):
    if isinstance(a, LazyArr): return arrays.total(a)
    if isinstance(a, (Num,)): return a
    A = obj_array(a) if isinstance(a, (list, tuple)) else a
    r = np.sum(A, axis=axis)
    return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r
@h('prod')
def _prod(a, axis=None, *r, **k):
    A = obj_array(a) if isinstance(a, (list, tuple)) else a
    if isinstance(A, LazyArr): raise Unsupported("prod")
    r = np.prod(A, axis=axis)
    return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r
@h('cumsum')
def _cumsum(a, *r, **k):
    if isinstance(a, LazyArr): raise Unsupported("cumsum")
    acc, out = 0, []
    for v in list(a):
        acc = acc + v; out.append(acc)
    return obj_array(out)
@h('cumprod')
def _cumprod(a, *r, **k):
    if isinstance(a, LazyArr): raise Unsupported("cumprod")
    acc, out = 1, []
    for v in list(a):
        acc = acc * v; out.append(acc)
    return obj_array(out)
@h('any')
def _any(a, *r, **k):
    if isinstance(a, (LazyArr, SBool)): return a.any()
    res = False
    for v in (a.flatten() if isinstance(a, np.ndarray) else a): res = bb(res) | bb(v)
    return mkbool(bterm(res))
@h('all')
def _all(a, *r, **k):
    if isinstance(a, (LazyArr, SBool)): return a.all()
    res = True
    for v in (a.flatten() if isinstance(a, np.ndarray) else a): res = bb(res) & bb(v)
    return mkbool(bterm(res))
@h('max', 'amax')
def _amax(a, *r, **k):
    if isinstance(a, LazyArr): raise Unsupported("max of symbolic-length array")
    v = list(a.flatten() if isinstance(a, np.ndarray) else a); m = v[0]
    for x in v[1:]: m = smax(m, x)
    return m
@h('min', 'amin')
def _amin(a, *r, **k):
    if isinstance(a, LazyArr): raise Unsupported("min of symbolic-length array")
    v = list(a.flatten() if isinstance(a, np.ndarray) else a); m = v[0]
    for x in v[1:]: m = smin(m, x)
    return m
@h('sort')
def _sort(a, *r, **k):
    return obj_array(sorted(list(a)))
class Unique(LazyArr):
    """strictly increasing array of the values of an array of unknown length"""
    def __init__(self, src):
        c = core.CTX
        n = c.int('n_unique')
        self.src = src
        N = arrays.idx_term(src.n)
        c.pc.append(z3.And(n.t >= 0, n.t <= N, (n.t == 0) == (N == 0)))
        self.U = z3.Function(c.fresh('uniq'), z3.IntSort(), z3.RealSort())
        self.frm = z3.Function(c.fresh('from'), z3.IntSort(), z3.IntSort())
        self.pos = z3.Function(c.fresh('pos'), z3.IntSort(), z3.IntSort())
        from .loops import Seen
        self.seen = Seen()
        LazyArr.__init__(self, n, self.get)
    def get(self, j):
        c = core.CTX
        j = z3.simplify(arrays.idx_term(j))
        u = self.U(j)
        if self.seen.new(c, j):
            rng = z3.And(j >= 0, j < self.n.t)
            f = self.frm(j)
            c.pc.append(z3.Implies(rng, z3.And(f >= 0, f < arrays.idx_term(self.src.n), u == term(self.src.at(f)))))
            for o in self.seen.others(c, j):
                c.pc.append(z3.Implies(z3.And(rng, o >= 0, o < self.n.t), z3.And(z3.Implies(o < j, self.U(o) < u), z3.Implies(j < o, u < self.U(o)))))
            self.seen.add(c, j)
        return Num(u)
    def at(self, i): return self.get(i)
    def cover(self, i):
        c = core.CTX
        p = self.pos(i)
        c.pc.append(z3.Implies(z3.And(i >= 0, i < arrays.idx_term(self.src.n)), z3.And(p >= 0, p < self.n.t, self.U(p) == term(self.src.at(i)))))
        self.get(p)
        return p
@h('unique')
def _unique(a, *r, **k):
    if isinstance(a, LazyArr) and not isinstance(a.n, int): return Unique(a)
    v = a.flatten() if isinstance(a, np.ndarray) else obj_array(a).flatten()
    s = sorted(list(v))
    out = []
    for x in s:
        if not out or bool(out[-1] != x): out.append(x)
    return obj_array(out)
@h('union1d')
def _union(a, b): return _unique(_concat([a, b]))
@h('argmax')
def _argmax(a, *r):
    v = list(a); k = 0
    for i in range(1, len(v)):
        if v[i] > v[k]: k = i
    return k
@h('argmin')
def _argmin(a, *r):
    v = list(a); k = 0
    for i in range(1, len(v)):
        if v[i] < v[k]: k = i
    return k
@h('flatnonzero')
def _fnz(a): return np.array([i for i, v in enumerate(list(a)) if bool(v)], dtype=int)
@h('diff')
def _diff(a, *r):
    v = list(a); return obj_array([v[i + 1] - v[i] for i in range(len(v) - 1)])
@h('squeeze')
def _sq(a): return np.ndarray.squeeze(a) if isinstance(a, np.ndarray) else a
@h('ravel')
def _rv(a): return np.ndarray.ravel(a) if isinstance(a, np.ndarray) else a
@h('isclose', 'allclose')
def _isclose(a, b, *r, **k): raise Unsupported("isclose")
@h('iterable')
def _iterable(a): return not isinstance(a, (Num, SBool))
@h('count_nonzero')
def _cnz(a): return len(_fnz(a))
@h('copy')
def _copy(a, *r, **k): return a.copy()
@h('mean')
def _mean(a, *r, **k): return _sum(a) / _size(a)
@h('eye')
def _eye(n): raise Unsupported('eye')
@h('outer')
def _outer1(a, b): return _outer(operator.mul)(a, b)
@h('isin', 'in1d')
def _isin(a, b): raise Unsupported('isin')

class Finfo:
    def __init__(self, t):
        self._i = np.finfo(fixt(t) if fixt(t) is not None else float)
    eps = 0.0           # machine arithmetic treated as mathematical
    def __getattr__(self, n): return getattr(self._i, n)

OBJ_OK = {'transpose', 'reshape', 'ndarray', 'newaxis', 'vstack', 'column_stack', 'repeat', 'tile', 'diag', 'delete', 'array_split', 'ix_', 'expand_dims', 'broadcast_to', 'insert'}

USED = set()
def wrap(name, f):
    hd = H.get(name)
    def w(*a, **k):
        a, k = _prep(a, k)
        if builtins.any(has_sym(v) for v in a) or builtins.any(has_sym(v) for v in k.values()):
            USED.add(name)
            if hd is not None: return hd(*a, **k)
            if name in OBJ_OK: return f(*a, **k)
            if core.CTX is not None: core.CTX.flag_unsupported = "numpy.%s on symbolic values" % name
            raise Unsupported("numpy.%s on symbolic values" % name)
        r = f(*a, **k)
        if name in ('unique', 'array') and core.CTX is not None and type(r) is np.ndarray: r = r.view(arrays.VArr)      # may be compared with symbolic values
        return r
    w.__name__ = name
    w._vc_np = name
    return w

def build(mod=np, modname='numpy', depth=0):
    m = types.ModuleType(modname)
    for n in dir(mod):
        if n.startswith('__'): continue
        try: v = getattr(mod, n)
        except Exception: continue
        if modname == 'numpy' and n in UF:
            v = Ufunc(n, getattr(np, n), UF[n])
        elif n == 'finfo':
            v = Finfo
        elif isinstance(v, types.ModuleType):
            if depth == 0 and n in ('fft', 'linalg', 'random'):
                v = build(v, modname + '.' + n, depth + 1)
            else: continue
        elif isinstance(v, np.ufunc) or (callable(v) and not isinstance(v, type)):
            v = wrap(n if modname == 'numpy' else modname.split('.')[-1] + '.' + n, v)
        setattr(m, n, v)
    try: m.__all__ = [n for n in getattr(mod, '__all__', []) if hasattr(m, n)]
    except Exception: pass
    m.__path__ = []
    return m

NP = build()

def build_math():
    m = types.ModuleType('math')
    for n in dir(math):
        if n.startswith('__'): continue
        v = getattr(math, n)
        if callable(v):
            hd = {'exp': mathfn.exp, 'log': mathfn.log, 'sqrt': mathfn.sqrt, 'sin': mathfn.sin, 'cos': mathfn.cos, 'tan': mathfn.tan,
                  'atan': mathfn.arctan, 'gamma': mathfn.gamma, 'lgamma': mathfn.gammaln, 'isinf': H['isinf'], 'isnan': H['isnan'],
                  'floor': mathfn.floor, 'ceil': mathfn.ceil, 'fabs': builtins.abs, 'log1p': mathfn.log1p, 'expm1': mathfn.expm1, 'pow': mathfn.power}.get(n)
            def mkw(v, hd, n):
                def w(*a, **k):
                    if builtins.any(has_sym(x) for x in a):
                        if hd: return hd(*a, **k)
                        raise Unsupported("math.%s" % n)
                    return v(*a, **k)
                return w
            v = mkw(v, hd, n)
        setattr(m, n, v)
    return m
MATH = build_math()
