"""ghost integrals: contract of the quadrature layer (trusted): integrator(fun, L, U) returns the integral of fun over (L,U)"""
import types
import z3
from . import core
from .core import Num, SBool, term, bterm, mkbool, Unsupported, is_sym
from .arrays import LazyArr

class Integral:
    def __init__(self, name, fun, L, U, via):
        self.name, self.fun, self.L, self.U, self.via = name, fun, L, U, via
    def integrand(self, t):
        """integrand at the point t (Num), through the array interface the quadrature uses"""
        arr = LazyArr(core.CTX.int('qn'), lambda i: t)
        r = self.fun(arr)
        if isinstance(r, LazyArr): return r.at(z3.Int('q!0'))
        import numpy as np
        if isinstance(r, np.ndarray): r = r.flatten()[0]
        return r

def frozen(fun):
    """fun with the values its free variables have now (the quadrature evaluates it before it returns)"""
    import types
    if not isinstance(fun, types.FunctionType) or not fun.__closure__: return fun
    def cell(x):
        try: return types.CellType(x.cell_contents)
        except ValueError: return x
    g = types.FunctionType(fun.__code__, fun.__globals__, fun.__name__, fun.__defaults__, tuple(cell(x) for x in fun.__closure__))
    g.__kwdefaults__ = fun.__kwdefaults__
    return g

def new_integral(fun, L, U, via='integrator'):
    c = core.CTX
    key = None
    if not isinstance(fun, types.FunctionType) or not fun.__closure__:          # the same function over the same interval: the same number
        key = (id(fun), str(L), str(U))
        memo = c.__dict__.setdefault('int_memo', {})
        if key in memo: return memo[key][1]
    fun0, fun = fun, frozen(fun)
    nm = c.fresh('INT')
    v = z3.Real(nm)
    if key: memo[key] = (fun0, Num(v, tag=nm))
    c.integrals[nm] = Integral(nm, fun, L, U, via)
    return Num(v, tag=nm)

def install(mod, names=None):
    """replace the integrators imported in module `mod` by their contract"""
    INF = core.INF
    def seg(fun, L, U, *a, **k): return new_integral(fun, L, U, '_segint'), 0.0
    def fin(fun, a, b, *r, **k): return new_integral(fun, a, b, 'finite'), 0.0
    def minf(fun, b, a=None, *r, **k): return new_integral(fun, -INF if a is None else a, b, 'minf'), 0.0
    def pinf(fun, a, b=None, *r, **k): return new_integral(fun, a, INF if b is None else b, 'pinf'), 0.0
    def pminf(fun, *r, **k): return new_integral(fun, -INF, INF, 'pminf'), 0.0
    table = {'_segint': seg, 'integrate_fejer2': fin, 'integrate_clenshaw': fin, 'integrate_iter': None, 'integrate_wide_interval': fin,
             'integrate_with_pminf_guess': fin, 'integrate_fejer2_Xn_transformP': fin, 'integrate_fejer2_Xn_transformN': fin,
             'integrate_fejer2_Xn_transform': fin,
             'integrate_fejer2_minf': minf, 'integrate_fejer2_pinf': pinf, 'integrate_fejer2_pminf': pminf}
    done = {}
    for n, f in table.items():
        if f is not None and hasattr(mod, n) and (names is None or n in names):
            done[n] = getattr(mod, n)
            setattr(mod, n, f)
    return done

def const_of(e):
    """names of ghost integrals occurring in a term"""
    c = core.CTX
    out = []; todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name() in c.integrals and x.decl().name() not in out: out.append(x.decl().name())
        todo.extend(x.children())
    return sorted(out)

def simp_inf(x): 
    return x

def between(t, L, U):
    conds = []
    for (v, lo) in ((L, True), (U, False)):
        inf = None if is_sym(v) else core._inf_of(v)
        if inf is not None:
            if inf != inf: return None
            if (inf < 0) == lo: continue
            conds.append(z3.BoolVal(False))
        else:
            conds.append(term(v) < term(t) if lo else term(t) < term(v))
    return z3.And(conds) if conds else z3.BoolVal(True)

def _le(L, U):
    r = L <= U
    return bterm(r)

def check_integral(c, result, domain, integrand, label, const=0.0, subs=(), neg_ok=False):
    """prove  result == const + integral over {t : domain(t)} of integrand(t)

    domain: Num t -> condition; integrand: Num t -> Num.
    subs: list of (forward, inverse, jacobian) substitutions t = forward(s) allowed for each ghost integral."""
    e = term(result) if not (not is_sym(result) and core._inf_of(result) is not None) else None
    if e is None:
        return c.fail(label + ': finite result', 'result is %r' % (result,))
    names = const_of(e)
    zero = [(z3.Real(n), z3.RealVal(0)) for n in names]
    base = z3.simplify(z3.substitute(e, *zero)) if zero else e
    c.ensure(mkbool(base == term(const)), label + ': point-mass part')
    # linear coefficients
    coef = {}
    for n in names:
        one = [(z3.Real(m), z3.RealVal(1 if m == n else 0)) for m in names]
        coef[n] = z3.simplify(z3.substitute(e, *one) - base)
    lin = base
    for n in names: lin = lin + coef[n] * z3.Real(n)
    if names:
        c.ensure(mkbool(e == lin), label + ': result is linear in the integrals')
    t = Num(z3.Real(c.fresh('t')))
    total = z3.RealVal(0)
    bounds = []
    ok = True
    if domain is not None and domain(t) is None: domain = None
    for n in names:
        I = c.integrals[n]
        if not neg_ok:
            r = I.L <= I.U
            c.ensure(r, label + ': integration limits ordered')
        ins = between(t, I.L, I.U)
        if ins is None:
            return c.fail(label + ': nan integration limit')
        g = I.integrand(t)
        # identity?
        from . import solve
        cand = [(None, None, None)] + list(subs)
        chosen = None
        for k, (fw, inv, jac) in enumerate(cand):
            if fw is None:
                gs = g; inside = ins
            else:
                s = t                         # new variable s, t_old = fw(s)
                told = fw(s)
                gs = I.integrand(told) * jac(s)
                inside = between(told, I.L, I.U)
            want = integrand(t)
            w_t = term(want); g_t = term(gs)
            st, be, m = solve.prove(c.axioms, c.pc + [inside], coef[n] * g_t == coef[n] * w_t if False else g_t == w_t, 6000, False)
            if st == 'proved':
                chosen = (k, inside, g_t, w_t); break
        if chosen is None:
            gs = term(g); want = term(integrand(t))
            with_pc = mkbool(z3.Implies(ins, gs == want))
            c.ensure(with_pc, label + ': integrand')
            ok = False
            continue
        k, inside, g_t, w_t = chosen
        c.ensure(mkbool(z3.Implies(inside, g_t == w_t)), label + ': integrand')
        total = total + coef[n] * z3.If(inside, z3.RealVal(1), z3.RealVal(0))
        for v in (I.L, I.U):
            if is_sym(v) or core._inf_of(v) is None:
                if k == 0: bounds.append(term(t) != term(v))
                else: bounds.append(term(cand[k][0](t)) != term(v))
    if not ok: return False
    d = z3.If(bterm(domain(t)), z3.RealVal(1), z3.RealVal(0))
    return c.ensure(mkbool(z3.Implies(z3.And(bounds) if bounds else z3.BoolVal(True), total == d)), label + ': integration domain covered exactly once')

def vanishes(c, I):
    """the integrand is the constant 0 (a fact by evaluation): so is the integral"""
    if getattr(I, 'null', None) is None:
        try:
            g = I.integrand(Num(z3.Real(c.fresh('t'))))
            while hasattr(g, '__len__'): g = g[0]
            I.null = bool(z3.is_rational_value(z3.simplify(term(g))) and z3.simplify(term(g)).eq(z3.RealVal(0))) if is_sym(g) else g == 0
        except (core.Unsupported, TypeError, ValueError, IndexError): I.null = False
    return I.null

class Target:
    """one integral of the specification: {t : domain(t)} of integrand(t)"""
    def __init__(self, domain, integrand, name='', subs=()): self.domain, self.integrand, self.name, self.subs = domain, integrand, name, tuple(subs)

def check_integrals(c, result, targets, label, const=0.0, assume=None, tmo=5000):
    """prove  result == const + sum of the target integrals.

    Every ghost integral of the result must have the integrand of one of the targets on its whole range (after one of
    the substitutions t = forward(s) of that target), with coefficient w; and for every target the weights of the ranges add up to the
    indicator of its domain at every point (up to finitely many end points)."""
    from . import solve
    if not is_sym(result) and core._inf_of(result) is not None: return c.fail(label + ': finite result', '%r' % (result,))
    e = z3.simplify(term(result))
    names = const_of(e)
    null = [n for n in names if vanishes(c, c.integrals[n])]
    if null:
        e = z3.simplify(z3.substitute(e, *[(z3.Real(n), z3.RealVal(0)) for n in null]))
        names = [n for n in const_of(e) if n not in null]
    zero = [(z3.Real(n), z3.RealVal(0)) for n in names]
    base = z3.simplify(z3.substitute(e, *zero)) if zero else e
    c.ensure(mkbool(base == term(const)), label + ': part outside of the integrals')
    coef = {}
    lin = base
    for n in names:
        coef[n] = z3.simplify(z3.substitute(e, *[(z3.Real(m), z3.RealVal(1 if m == n else 0)) for m in names]) - base)
        lin = lin + coef[n] * z3.Real(n)
    if names and not z3.simplify(lin - e, som=True).eq(z3.RealVal(0)): c.ensure(mkbool(e == lin), label + ': result is linear in the integrals')
    tot = [z3.RealVal(0) for _ in targets]
    bounds = [[] for _ in targets]
    ts = [Num(z3.Real(c.fresh('t'))) for _ in targets]
    for t in ts:
        if assume is not None: c.pc.append(bterm(assume(t)))
    for n in names:
        I = c.integrals[n]
        if not z3.is_rational_value(coef[n]) and solve.prove(c.axioms, c.pc, coef[n] == 0, tmo, False)[0] == 'proved': continue      # not taken here
        if I.via != '_segint': c.ensure(I.L <= I.U, label + ': integration limits are ordered')
        found = None; first = None
        for j, T in enumerate(targets):
            t = ts[j]
            for fw, jac in [(None, None)] + list(T.subs):
                told = t if fw is None else fw(t)
                ins = between(told, I.L, I.U)
                if ins is None: return c.fail(label + ': integration limit is not a number')
                g = I.integrand(told)
                if not is_sym(g) and core._inf_of(g) is not None: continue
                g = term(g) if fw is None else term(g * jac(t))
                w = term(T.integrand(t))
                if first is None: first = (ins, g, w)
                # the coefficient may be part of the integrand (factors independent of t)
                for cf, k in ((z3.RealVal(1), coef[n]), (coef[n], z3.RealVal(1))):
                    if k.eq(z3.RealVal(1)) and cf.eq(z3.RealVal(1)) or not cf.eq(z3.RealVal(1)) or True:
                        st = solve.prove(c.axioms, c.pc + [ins], cf * g == w, tmo, False)[0]
                        if st == 'proved': found = (j, ins, cf * g, w, told, k); break
                    if coef[n].eq(z3.RealVal(1)): break
                if found: break
            if found: break
        if found is None:
            c.ensure(mkbool(z3.Implies(first[0], first[1] == first[2])), label + ': integrand')
            return False
        j, ins, g, w, told, k = found
        c.ensure(mkbool(z3.Implies(ins, g == w)), label + ': integrand')
        tot[j] = tot[j] + k * z3.If(ins, z3.RealVal(1), z3.RealVal(0))
        for v in (I.L, I.U):
            if is_sym(v) or core._inf_of(v) is None: bounds[j].append(term(told) != term(v))
    ok = True
    for j, T in enumerate(targets):
        d = z3.If(bterm(T.domain(ts[j])), z3.RealVal(1), z3.RealVal(0))
        ok = c.ensure(mkbool(z3.Implies(z3.And(bounds[j]) if bounds[j] else z3.BoolVal(True), tot[j] == d)),
                      label + ': %scovered exactly once' % (T.name + ' ' if T.name else 'domain of integration ')) and ok
    return ok
