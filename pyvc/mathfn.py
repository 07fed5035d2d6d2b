"""elementary functions on symbolic reals: uninterpreted symbols + instantiated axioms (trusted facts of analysis)"""
import math
import numpy as np
import z3
from . import core
from .core import Num, SBool, term, mkbool, Unsupported, is_sym, zval

R = z3.RealSort()
F = {n: z3.Function('math_' + n, R, R) for n in
     ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'gamma', 'lgamma', 'tanh', 'betafn')}
POW = z3.Function('math_pow', R, R, R)
BETA = z3.Function('math_beta', R, R, R)
PI = zval(math.pi)
HPI, TPI = zval(math.pi / 2), zval(2 * math.pi)

def _mono(ctx, name, t, strict=True):
    """monotonicity instantiated on pairs of occurring terms"""
    prev = ctx.mathterms.setdefault(name, [])
    f = F[name]
    for p in prev:
        if p.eq(t): return
    for p in prev[-6:]:
        if name == 'log':
            ctx.axiom(z3.Implies(z3.And(p > 0, t > 0), (p < t) == (f(p) < f(t))), None)
            ctx.axiom(z3.Implies(z3.And(p > 0, t > 0), (p == t) == (f(p) == f(t))), None)
        elif name in ('arcsin',):
            ctx.axiom(z3.Implies(z3.And(p >= -1, p <= 1, t >= -1, t <= 1), (p < t) == (f(p) < f(t))), None)
        elif name in ('arccos',):
            ctx.axiom(z3.Implies(z3.And(p >= -1, p <= 1, t >= -1, t <= 1), (p < t) == (f(p) > f(t))), None)
        else:
            ctx.axiom((p < t) == (f(p) < f(t)), None)
            ctx.axiom((p == t) == (f(p) == f(t)), None)
    prev.append(t)

def _inst(name, t):
    c = core.CTX
    f = F[name]
    r = f(t)
    if c is None:
        return r
    key = (name, t.get_id(), t.sexpr() if t.num_args() < 3 else t.hash())
    if key in c.axiom_keys:
        return r
    c.axiom_keys.add(key)
    if name == 'exp':
        c.axiom(r > 0)
        c.axiom(F['log'](r) == t)
        c.axiom((t > 0) == (r > 1)); c.axiom((t == 0) == (r == 1))
        c.axiom(r >= 1 + t)
        c.axiom(F['exp'](-t) * r == 1)
        _mono(c, 'exp', t)
    elif name == 'log':
        c.axiom(z3.Implies(t > 0, F['exp'](r) == t))
        c.axiom(z3.Implies(t > 0, z3.And((t > 1) == (r > 0), (t == 1) == (r == 0))))
        _mono(c, 'log', t)
    elif name == 'sqrt':
        c.axiom(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
        c.axiom(z3.Implies(t > 0, r > 0))
    elif name == 'sin':
        co = F['cos'](t)
        c.axiom(r * r + co * co == 1)
        c.axiom(z3.And(r <= 1, r >= -1, co <= 1, co >= -1))
    elif name == 'cos':
        s = F['sin'](t)
        c.axiom(r * r + s * s == 1)
        c.axiom(z3.And(r <= 1, r >= -1, s <= 1, s >= -1))
        c.axiom(z3.Implies(z3.And(t > -HPI, t < HPI), r > 0))
    elif name == 'tan':
        s, co = F['sin'](t), F['cos'](t)
        c.axiom(s * s + co * co == 1)
        c.axiom(z3.Implies(co != 0, r * co == s))
        c.axiom(z3.Implies(z3.And(t > -HPI, t < HPI), z3.And(co > 0, F['arctan'](r) == t)))
    elif name == 'arctan':
        c.axiom(z3.And(r > -HPI, r < HPI))
        c.axiom(F['tan'](r) == t)
        c.axiom((t > 0) == (r > 0)); c.axiom((t == 0) == (r == 0))
        _mono(c, 'arctan', t)
    elif name == 'arcsin':
        c.axiom(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(r >= -HPI, r <= HPI, F['sin'](r) == t)))
        c.axiom(z3.Implies(z3.And(t > -1, t < 1), z3.And(r > -HPI, r < HPI)))
        c.axiom(F['sin'](PI - r) == F['sin'](r))
        _mono(c, 'arcsin', t)
    elif name == 'arccos':
        c.axiom(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(r >= 0, r <= PI, F['cos'](r) == t)))
        c.axiom(z3.Implies(z3.And(t > -1, t < 1), z3.And(r > 0, r < PI)))
        c.axiom(F['cos'](TPI - r) == F['cos'](r))
        _mono(c, 'arccos', t)
    elif name == 'gamma':
        c.axiom(z3.Implies(t > 0, r > 0))
        c.axiom(F['lgamma'](t) == F['log'](r))
        c.axiom(z3.Implies(t > 0, F['exp'](F['lgamma'](t)) == r))
    elif name == 'lgamma':
        g = F['gamma'](t)
        c.axiom(z3.Implies(t > 0, z3.And(g > 0, F['exp'](r) == g, r == F['log'](g))))
    return r

def _un(name, npf):
    def f(x, *a, **k):
        from .arrays import LazyArr, map_any
        if isinstance(x, SBool):
            x = Num(term(x))
        if isinstance(x, Num):
            return Num(_inst(name, term(x)))
        if isinstance(x, LazyArr) or isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (list, tuple)) and any(is_sym(v) for v in x):
            return map_any(f, x)
        return npf(x, *a, **k)
    f.__name__ = name
    return f

exp = _un('exp', np.exp)
log = _un('log', np.log)
_sqrt = _un('sqrt', np.sqrt)
sin = _un('sin', np.sin)
cos = _un('cos', np.cos)
tan = _un('tan', np.tan)
arctan = _un('arctan', np.arctan)
arcsin = _un('arcsin', np.arcsin)
arccos = _un('arccos', np.arccos)

def sqrt(x, *a, **k):
    return _sqrt(x, *a, **k)

def _sp(n):
    import scipy.special as s
    return getattr(s, n)
def gamma(x):
    return _un('gamma', _sp('gamma'))(x)
def gammaln(x):
    return _un('lgamma', _sp('gammaln'))(x)

def log1p(x):
    if core.is_sym(x): return log(x + 1)
    from .arrays import is_symarr, map_any
    if is_symarr(x): return map_any(log1p, x)
    return np.log1p(x)
def logaddexp(x, y):
    if core.is_sym(x) or core.is_sym(y): return log(exp(x) + exp(y))
    from .arrays import is_symarr
    if is_symarr(x) or is_symarr(y): return log(exp(x) + exp(y))
    return np.logaddexp(x, y)
def expm1(x):
    if core.is_sym(x): return exp(x) - 1
    from .arrays import is_symarr, map_any
    if is_symarr(x): return map_any(expm1, x)
    return np.expm1(x)
def tanh(x):
    if core.is_sym(x):
        e = exp(2 * x)
        return (e - 1) / (e + 1)
    from .arrays import is_symarr, map_any
    if is_symarr(x): return map_any(tanh, x)
    return np.tanh(x)
def hypot(x, y):
    if core.is_sym(x) or core.is_sym(y): return sqrt(x * x + y * y)
    from .arrays import is_symarr
    if is_symarr(x) or is_symarr(y): return sqrt(x * x + y * y)
    return np.hypot(x, y)
def log10(x):
    if core.is_sym(x): return log(x) * (1 / math.log(10))
    return np.log10(x)
def sign(x):
    if core.is_sym(x):
        t = term(x)
        return Num(z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))
    from .arrays import is_symarr, map_any
    if is_symarr(x): return map_any(sign, x)
    return np.sign(x)
def floor(x):
    if isinstance(x, Num):
        return x if x.is_int else Num(z3.ToReal(z3.ToInt(x.t)))
    return np.floor(x)
def ceil(x):
    if isinstance(x, Num):
        return x if x.is_int else Num(-z3.ToReal(z3.ToInt(-x.t)))
    return np.ceil(x)
def beta_fn(a, b):
    if core.is_sym(a) or core.is_sym(b):
        r = BETA(term(a), term(b))
        c = core.CTX
        c.axiom(z3.Implies(z3.And(term(a) > 0, term(b) > 0), r > 0), ('beta', r.hash()))
        return Num(r)
    import scipy.special as s
    return s.beta(a, b)

def power(b, e):
    from .arrays import LazyArr
    if isinstance(b, np.ndarray) and b.ndim == 0: b = b.item()
    if isinstance(e, np.ndarray) and e.ndim == 0: e = e.item()
    if isinstance(e, LazyArr) or isinstance(b, LazyArr):
        return NotImplemented
    if not core.is_sym(e):
        ef = float(e)
        if math.isinf(ef) or math.isnan(ef):
            raise Unsupported("power with non-finite exponent")
        q = core.frac_of(e)
        if q.denominator == 1 and abs(q.numerator) <= 12:
            n = abs(int(q))
            r = None
            for _ in range(n):
                r = b if r is None else r * b
            if r is None: r = 1.0
            return r if q >= 0 else 1.0 / r
        if q.denominator == 2 and abs(q.numerator) <= 9:
            n = abs(q.numerator)
            s = sqrt(b)
            r = s
            k = (n - 1) // 2
            for _ in range(k):
                r = r * b
            return r if q > 0 else 1.0 / r
    if not core.is_sym(b) and isinstance(b, (int, float)) and not isinstance(b, bool):
        if math.isinf(float(b)):
            if not core.is_sym(e):
                return float(b) ** e
            if e > 0: return core.INF
            if e < 0: return 0.0
            return 1.0
        if isinstance(e, Num) and e.is_int and b == -1:
            return Num(z3.If(e.t % 2 == 0, z3.RealVal(1), z3.RealVal(-1)))
        if b == 1: return 1.0
    tb, te = term(b), term(e)
    r = POW(tb, te)
    c = core.CTX
    key = ('pow', tb.hash(), te.hash())
    if key not in c.axiom_keys:
        c.axiom_keys.add(key)
        lb = _inst('log', tb)
        c.axiom(z3.Implies(tb > 0, z3.And(r > 0, r == F['exp'](te * lb), F['log'](r) == te * lb)))
        c.axiom(z3.Implies(z3.And(tb > 0, te > 0), z3.And((r > 1) == (tb > 1), (r < 1) == (tb < 1))))
        c.axiom(z3.Implies(z3.And(tb > 0, te < 0), z3.And((r > 1) == (tb < 1), (r < 1) == (tb > 1))))
        c.axiom(z3.Implies(te == 0, r == 1))
        c.axiom(z3.Implies(te == 1, r == tb))
        c.axiom(z3.Implies(z3.And(tb == 0, te > 0), r == 0))
        prev = c.mathterms.setdefault('pow', [])
        for b0, e0, r0 in prev[-4:]:                       # monotone in the base
            if e0.eq(te) and not b0.eq(tb):
                c.axiom(z3.Implies(z3.And(te > 0, b0 > 0, tb > 0), (b0 < tb) == (r0 < r)))
        prev.append((tb, te, r))
    return Num(r)
