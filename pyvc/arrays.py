"""arrays of symbolic length: element functions index -> value ("lambda arrays"), with masked views"""
import numpy as np
import z3
import operator
from . import core
from .core import Num, SBool, term, bterm, mkbool, Unsupported, is_sym, bb

def is_symarr(x):
    if isinstance(x, LazyArr): return True
    if isinstance(x, np.ndarray) and x.dtype == object: return True
    return False

def idx_term(i):
    if isinstance(i, Num): return i.t
    if isinstance(i, z3.ExprRef): return i
    return z3.IntVal(int(i))

class LazyArr:
    """n: Num(int)/int ; fn: (z3 Int term) -> element ; filt: None or LazyArr of SBool over the same indices"""
    __array_ufunc__ = None
    __array_priority__ = 2e6
    ndim = 1
    def __init__(self, n, fn, filt=None, name=None):
        self.n = n
        self.fn = fn
        self.filt = filt
        self.name = name
        self.memo = {}
    def at(self, i):
        it = idx_term(i)
        k = it.hash(), it.sexpr() if it.num_args() == 0 else str(it)
        if k in self.memo and self.memo[k][0] is self.fn:
            return self.memo[k][1]
        v = self.fn(it)
        self.memo[k] = (self.fn, v)
        return v
    @property
    def size(self): return self.n
    @property
    def shape(self): return (self.n,)
    @property
    def dtype(self): return np.dtype(float)
    @property
    def T(self): return self
    def astype(self, *a, **k): return self
    def copy(self): return LazyArr(self.n, self.fn, self.filt)
    def flatten(self): return self.copy()
    def fill(self, v): self[...] = v
    def squeeze(self): return self
    def __len__(self):
        if isinstance(self.n, int): return self.n
        raise Unsupported("len() of symbolic array outside the shim")
    def same(self, o):
        if self.filt is not o.filt:
            if self.filt is None or o.filt is None:
                raise Unsupported("mixing masked and unmasked arrays")
            i = z3.Int('k!mask')
            a, b = bterm(self.filt.at(i)), bterm(o.filt.at(i))
            if not z3.simplify(a).eq(z3.simplify(b)):
                raise Unsupported("arrays selected by different masks")
    def _bin(self, o, op):
        if isinstance(o, LazyArr):
            self.same(o)
            return LazyArr(self.n, lambda i: op(self.at(i), o.at(i)) if False else op(f1(i), f2(i)), self.filt) if False else _mk2(self, o, op)
        if isinstance(o, np.ndarray) and o.ndim == 0: o = o.item()
        if isinstance(o, np.ndarray) and o.size == 1: o = o.flatten()[0]
        if isinstance(o, (Num, SBool)) or core.is_num(o):
            f = self.fn
            return LazyArr(self.n, lambda i: op(f(i), o), self.filt)
        return NotImplemented
    def _rbin(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim == 0: o = o.item()
        if isinstance(o, np.ndarray) and o.size == 1: o = o.flatten()[0]
        if isinstance(o, (Num, SBool)) or core.is_num(o):
            f = self.fn
            return LazyArr(self.n, lambda i: op(o, f(i)), self.filt)
        return NotImplemented
    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._rbin(o, operator.add)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._rbin(o, operator.sub)
    def __mul__(self, o): return self._bin(o, operator.mul)
    def __rmul__(self, o): return self._rbin(o, operator.mul)
    def __truediv__(self, o): return self._bin(o, _div)
    def __rtruediv__(self, o): return self._rbin(o, _div)
    def __pow__(self, o): return self._bin(o, _pow)
    def __rpow__(self, o): return self._rbin(o, _pow)
    def __mod__(self, o): return self._bin(o, operator.mod)
    def __lt__(self, o): return self._bin(o, operator.lt)
    def __le__(self, o): return self._bin(o, operator.le)
    def __gt__(self, o): return self._bin(o, operator.gt)
    def __ge__(self, o): return self._bin(o, operator.ge)
    def __eq__(self, o): return self._bin(o, operator.eq)
    def __ne__(self, o): return self._bin(o, operator.ne)
    def __and__(self, o): return self._bin(o, lambda a, b: bb(a) & bb(b))
    def __or__(self, o): return self._bin(o, lambda a, b: bb(a) | bb(b))
    def __invert__(self): return self.map(lambda a: ~bb(a))
    def __neg__(self): return self.map(operator.neg)
    def __abs__(self): return self.map(abs)
    def __hash__(self): return id(self)
    def map(self, g):
        f = self.fn
        return LazyArr(self.n, lambda i: g(f(i)), self.filt)
    def max(self, *a, **k):
        c = core.CTX                        # one of the elements (that no other is greater is not stated)
        j = skolem_index(c, self.n, 'greatest')
        return self.at(j.t if isinstance(j, Num) else j)
    def _n_eq(self):
        return idx_term(self.n)
    # --- masks, slices
    def _is_mask(self, k):
        return isinstance(k, LazyArr)
    def __getitem__(self, k):
        f = self.fn
        if isinstance(k, tuple) and len(k) == 1: k = k[0]
        if k is Ellipsis: return self
        if isinstance(k, tuple) and len(k) == 2 and any(x is None for x in k):
            raise Unsupported("2-d view of symbolic array")
        if isinstance(k, _Where):
            k = k.mask
        if isinstance(k, LazyArr):
            v = _is_boolarr(k)
            if v:
                if self.filt is not None:
                    fl = self.filt
                    if k.filt is fl or k.filt is None:
                        return LazyArr(self.n, f, LazyArr(self.n, lambda i: bb(fl.at(i)) & bb(k.at(i))))
                return LazyArr(self.n, f, k)
            return LazyArr(k.n, lambda i: f(idx_term(_as_int(k.at(i)))))
        if isinstance(k, slice):
            st, en, step = k.start, k.stop, 1 if k.step is None else k.step
            if self.filt is not None: raise Unsupported("slice of masked array")
            n = self.n
            if step == -1 and st is None and en is None:
                nt = idx_term(n)
                return LazyArr(n, lambda i: f(nt - 1 - i))
            if step == -1:
                # from st down to (not including) en; ends beyond the array are not clamped here
                first = idx_term(n) - 1 if st is None else idx_term(n) + st if isinstance(st, int) and st < 0 else idx_term(st)
                last = z3.IntVal(-1) if en is None else idx_term(n) + en if isinstance(en, int) and en < 0 else idx_term(en)
                ln = z3.simplify(first - last)
                return LazyArr(ln.as_long() if z3.is_int_value(ln) else Num(ln), lambda i: f(z3.simplify(first - i)))
            if not isinstance(step, int) or step <= 0: raise Unsupported("slice step")
            st = 0 if st is None else st
            en = n if en is None else en
            if not is_sym(st) and st < 0: st = n + st
            if not is_sym(en) and en < 0: en = n + en
            if not is_sym(en) and not is_sym(n) and en > n: en = n
            st_t, en_t = idx_term(st), idx_term(en)
            ln = z3.simplify((en_t - st_t + (step - 1)) / step) if step != 1 else z3.simplify(en_t - st_t)
            nn = Num(ln)
            if z3.is_int_value(ln): nn = ln.as_long()
            return LazyArr(nn, lambda i: f(z3.simplify(st_t + step * i)))
        if isinstance(k, (int, np.integer)) or isinstance(k, Num):
            if isinstance(k, (int, np.integer)) and k < 0:
                k = self.n + int(k)
            return f(idx_term(k))
        raise Unsupported("index %r of symbolic array" % (k,))
    def __setitem__(self, k, v):
        f = self.fn
        if isinstance(k, _Where): k = k.mask
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            if isinstance(v, LazyArr):
                g = v.fn
                self.fn = g
            else:
                self.fn = lambda i: v
            return
        if isinstance(k, LazyArr) and _is_boolarr(k):
            m = LazyArr(k.n, k.fn, k.filt)      # freeze
            if isinstance(v, LazyArr):
                g = v.fn
                if v.filt is not None:
                    j = z3.Int('k!mask')
                    a, b = bterm(v.filt.at(j)), bterm(m.at(j))
                    if not z3.simplify(a).eq(z3.simplify(b)):
                        c = core.CTX
                        ok = c.ensure(mkbool(z3.Implies(_rng(j, self.n), a == b)), 'masked assignment: same mask')
            else:
                if isinstance(v, np.ndarray) and v.size == 1: v = v.flatten()[0]
                g = lambda i: v
            self.fn = lambda i: _sel(m.fn(i), lambda: g(i), lambda: f(i))
            return
        if isinstance(k, slice):
            st = 0 if k.start is None else k.start
            step = 1 if k.step is None else k.step
            en = self.n if k.stop is None else k.stop
            if not is_sym(st) and st < 0: st = self.n + st
            if not is_sym(en) and en < 0: en = self.n + en
            st_t, en_t = idx_term(st), idx_term(en)
            if not isinstance(step, int) or step <= 0: raise Unsupported("slice assignment step")
            g = v.fn if isinstance(v, LazyArr) else (lambda i: v)
            if isinstance(v, np.ndarray): raise Unsupported("slice assignment of concrete array")
            def nf(i):
                inside = z3.And(i >= st_t, i < en_t) if step == 1 else z3.And(i >= st_t, i < en_t, (i - st_t) % step == 0)
                return _sel(mkbool(inside), lambda: g(z3.simplify((i - st_t) / step) if step != 1 else z3.simplify(i - st_t)), lambda: f(i))
            self.fn = nf
            return
        if isinstance(k, (int, np.integer)) or isinstance(k, Num):
            if isinstance(k, (int, np.integer)) and k < 0:
                k = self.n + int(k)
            kt = idx_term(k)
            self.fn = lambda i: _sel(mkbool(i == kt), lambda: v, lambda: f(i))
            return
        raise Unsupported("assignment index %r" % (k,))
    def _quant(self, kind):
        c = core.CTX
        b = z3.Bool(c.fresh('arr_' + kind))
        me = LazyArr(self.n, self.fn, self.filt)
        if c.branch(b):
            if kind == 'all': c.facts.append((me, True)); _inst_facts(c)
            return True
        if kind == 'any': c.facts.append((me, False)); _inst_facts(c)
        return False
    def any(self, *a, **k): return self._quant('any')
    def all(self, *a, **k): return self._quant('all')
    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")
    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(j) for j in range(self.n)])
        raise Unsupported("iteration over a symbolic-length array")
    def sum(self, *a, **k): return total(self)
    def dot(self, o): return total(self * o)
    def __repr__(self): return "LazyArr(n=%s)" % (self.n,)

def _rng(i, n): return z3.And(i >= 0, i < idx_term(n))

def _mk2(a, b, op):
    f1, f2 = a.fn, b.fn
    return LazyArr(a.n, lambda i: op(f1(i), f2(i)), a.filt)

def _as_int(x):
    if isinstance(x, Num):
        return x if x.is_int else Num(z3.ToInt(x.t))
    return int(x)

def _div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return float(np.divide(float(a), float(b)))
    return a / b
def _pow(a, b):
    from . import mathfn
    if not is_sym(a) and not is_sym(b):
        return float(np.power(float(a), float(b)))
    return mathfn.power(a, b)

def _is_boolarr(k):
    i = z3.Int('k!probe')
    v = k.at(i)
    return isinstance(v, (bool, SBool, np.bool_))

def select(cond, a, b):
    return _sel(cond, lambda: a, lambda: b)

def _sel(c, ta, tb):
    if isinstance(c, (bool, np.bool_)):
        return ta() if c else tb()
    ct = z3.simplify(bterm(c))
    if z3.is_true(ct): return ta()
    if z3.is_false(ct): return tb()
    cx = core.CTX
    a, b = ta(), tb()
    if isinstance(a, (bool, SBool, np.bool_)) and isinstance(b, (bool, SBool, np.bool_)):
        return mkbool(z3.If(ct, bterm(a), bterm(b)))
    if core._inf_of(a) is not None and not is_sym(a) or core._inf_of(b) is not None and not is_sym(b):
        return a if cx.branch(ct) else b
    return Num(z3.If(ct, term(a), term(b)))

def _inst_facts(c):
    for sk, n in getattr(c, 'skolems', []):
        for arr, val in c.facts:
            _inst1(c, arr, val, sk, n)

def _inst1(c, arr, val, sk, n):
    if not z3.simplify(idx_term(arr.n)).eq(z3.simplify(idx_term(n))): return
    v = bterm(arr.at(sk))
    if arr.filt is not None:
        g = bterm(arr.filt.at(sk))
        c.pc.append(z3.Implies(g, v if val else z3.Not(v)))
    else:
        c.pc.append(v if val else z3.Not(v))

def skolem_index(c, n, name='i'):
    i = z3.Int(c.fresh(name))
    c.pc.append(_rng(i, n))
    if not hasattr(c, 'skolems'): c.skolems = []
    c.skolems.append((i, n))
    for arr, val in list(c.facts):
        _inst1(c, arr, val, i, n)
    return Num(i)

def sym_array(c, name, n=None):
    """an arbitrary real array of arbitrary length"""
    if n is None:
        n = c.int('len_' + name)
        c.assume(n >= 1)
    f = z3.Function(c.fresh(name), z3.IntSort(), z3.RealSort())
    return LazyArr(n, lambda i: Num(f(i)))

def total(arr):
    """sum of all elements: an uninterpreted total, canonical in the summand"""
    c = core.CTX
    if isinstance(arr.n, int) and arr.n <= 24 and arr.filt is None:
        r = 0.0
        for j in range(arr.n):
            r = r + arr.at(j)
        return r
    k = z3.Int('k!sum')
    body = arr.at(k)
    if not is_sym(body) and body == 0: return 0.0
    body = z3.simplify(term(body))
    g = z3.simplify(bterm(arr.filt.at(k))) if arr.filt is not None else z3.BoolVal(True)
    key = (z3.simplify(idx_term(arr.n)).sexpr(), body.sexpr(), g.sexpr())
    if not hasattr(c, 'sums'): c.sums = {}
    if key not in c.sums:
        s = z3.Real(c.fresh('SUM'))
        c.sums[key] = (s, idx_term(arr.n), body, g)
    return Num(c.sums[key][0])

def sums_equal(c, a, b, label):
    """prove two totals equal by pointwise equality of summands"""
    recs = {str(v[0]): v for v in getattr(c, 'sums', {}).values()}
    ra, rb = recs.get(str(a.t)), recs.get(str(b.t))
    if ra is None or rb is None:
        return c.ensure(mkbool(term(a) == term(b)), label)
    k = z3.Int('k!sum')
    c.ensure(mkbool(ra[1] == rb[1]), label + ': same number of terms')
    return c.ensure(mkbool(z3.Implies(z3.And(k >= 0, k < ra[1]), z3.And(ra[3] == rb[3], z3.Implies(ra[3], ra[2] == rb[2])))), label + ': terms agree')

class _Where:
    def __init__(self, mask): self.mask = mask
    def __len__(self): return 1
    def __getitem__(self, k):
        if k == 0: return self.mask
        raise IndexError(k)

def where(mask, *a):
    if isinstance(mask, LazyArr):
        if not a: return _Where(mask)
        x, y = a
        fx = x.fn if isinstance(x, LazyArr) else (lambda i: x)
        fy = y.fn if isinstance(y, LazyArr) else (lambda i: y)
        f = mask.fn
        return LazyArr(mask.n, lambda i: _sel(f(i), lambda: fx(i), lambda: fy(i)), mask.filt)
    return None

def map_any(f, x):
    if isinstance(x, LazyArr):
        return x.map(f)
    if isinstance(x, (list, tuple)):
        x = obj_array(x)
    out = np.empty(x.shape, dtype=object)
    for i, v in np.ndenumerate(x):
        if not is_sym(v) and hasattr(v, 'item'): v = v.item()
        out[i] = f(v)
    return out

class VArr(np.ndarray):
    """array of symbolic values; selecting by a mask of symbolic conditions decides each of them"""
    @staticmethod
    def _key(k):
        if isinstance(k, np.ndarray) and k.dtype == object and k.size and all(isinstance(v, (SBool, bool, np.bool_)) for v in k.flat):
            return np.array([bool(v) for v in k.flat], dtype=bool).reshape(k.shape)
        return k
    def __getitem__(self, k): return np.ndarray.__getitem__(self, VArr._key(k))
    def __setitem__(self, k, v): np.ndarray.__setitem__(self, VArr._key(k), v)
    def max(self, *a, **k):
        if a or k or self.size <= 4 or core.CTX is None:
            r = np.ndarray.max(self, *a, **k)
            return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r
        c = core.CTX; m = Num(z3.Real(c.fresh('greatest')))         # exactly: no element exceeds it, it is one of them
        ts = [core.term(v) for v in self.flat]
        ts = [z3.ToReal(t) if t.is_int() else t for t in ts]
        c.assume(mkbool(z3.And([m.t >= t for t in ts] + [z3.Or([m.t == t for t in ts])])))
        return m

def obj_array(lst):
    """concrete-length array holding symbolic values"""
    return _obj_array(lst).view(VArr)
def _obj_array(lst):
    lst = list(lst)
    if lst and isinstance(lst[0], (list, tuple, np.ndarray)) and not (isinstance(lst[0], np.ndarray) and lst[0].ndim == 0):
        rows = [obj_array(r) for r in lst]
        out = np.empty((len(rows),) + rows[0].shape, dtype=object)
        for i, r in enumerate(rows): out[i] = r
        return out
    out = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        if isinstance(v, np.ndarray) and v.ndim == 0: v = v.item()
        out[i] = v
    return out

class SymFun:
    """an arbitrary real function (uninterpreted)"""
    def __init__(self, decl):
        self.decl = decl
        self.calls = []
    def __call__(self, *xs):
        if any(isinstance(x, LazyArr) for x in xs):
            ref = [x for x in xs if isinstance(x, LazyArr)][0]
            fns = [x.fn if isinstance(x, LazyArr) else (lambda i, x=x: x) for x in xs]
            return LazyArr(ref.n, lambda i: self(*[f(i) for f in fns]), ref.filt)
        if any(isinstance(x, np.ndarray) and x.ndim > 0 for x in xs):
            if len(xs) == 1: return map_any(self, xs[0])
            ys = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xs])
            out = np.empty(ys[0].shape, dtype=object)
            for k in np.ndindex(out.shape): out[k] = self(*[y[k] for y in ys])
            return out
        if any(isinstance(x, list) for x in xs) and len(xs) == 1:
            return map_any(self, xs[0])
        ts = []
        for x in xs:
            inf = core._inf_of(x) if not is_sym(x) else None
            if inf is not None:
                if inf != inf: raise Unsupported("function applied to nan")
                ts.append(z3.Real('%s_at_%sinf' % (self.decl.name(), 'p' if inf > 0 else 'm')))
                if len(xs) == 1: return Num(ts[0])
            else:
                ts.append(term(x))
        return Num(self.decl(*ts))
    def __repr__(self): return "SymFun(%s)" % self.decl.name()
