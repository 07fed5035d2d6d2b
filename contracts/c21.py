"""C21  models: roles of the variables, equations, exchange, conditioning and inference

Expression graphs have arbitrary equations: an equation is an uninterpreted function of the symbols on its right hand side (sympy.Function), its
solution is an uninterpreted inverse with the contract of eq_solve (lhs(.., solution, ..) = rhs), its derivative the function named so."""
import itertools, os
import sympy
from types import SimpleNamespace
from pyvc.spec import *
from pyvc.core import Num, term, mkbool
P = Registry()
M, RVM, PR = mod('pacal.depvars.models'), mod('pacal.rv'), mod('pacal.params')
S = sympy.Symbol
def If(q, a, b): return arrays.select(q, a, b)

# ---------------------------------------------------------------- values of expressions
class Eval:
    def __init__(self, c): self.c, self.inv, self.decls = c, {}, {}
    def fn(self, name, n):
        if (name, n) not in self.decls: self.decls[name, n] = z3.Function(self.c.fresh(name), *[z3.RealSort()] * (n + 1))
        return self.decls[name, n]
    def __call__(self, e, env):
        e = sympy.sympify(e)
        if e.is_Symbol: return env[e]
        if e.is_Rational: return Num(z3.Q(int(e.p), int(e.q)))
        if e.is_Float: return Num(z3.RealVal(str(e)))
        if e.is_Add: return sum((self(a, env) for a in e.args[1:]), self(e.args[0], env))
        if e.is_Mul:
            r = self(e.args[0], env)
            for a in e.args[1:]: r = r * self(a, env)
            return r
        if e.is_Pow and e.exp.is_Integer:
            b = self(e.base, env); n = int(e.exp); r = Num(z3.RealVal(1))
            for _ in range(abs(n)): r = r * b
            return r if n >= 0 else 1 / r
        if isinstance(e, sympy.core.function.AppliedUndef):
            a = [self(x, env) for x in e.args]; name = e.func.__name__
            v = Num(self.fn(name, len(a))(*[term(x) for x in a]))
            if name in self.inv:                    # contract of the solution
                lhs, x, others = self.inv[name]
                self.c.assume(self(lhs, {**dict(zip(others, a[1:])), x: v}) == a[0])
            return v
        if isinstance(e, sympy.Derivative) and isinstance(e.expr, sympy.core.function.AppliedUndef) and len(e.variable_count) == 1 and e.variable_count[0][1] == 1:
            s = e.variable_count[0][0]
            if all(x.is_Symbol for x in e.expr.args):
                k = e.expr.args.index(s)
                return Num(self.fn('D%d_%s' % (k, e.expr.func.__name__), len(e.expr.args))(*[term(self(x, env)) for x in e.expr.args]))
        raise Unsupported('value of the expression ' + str(e))
    def solve(self, lhs, rhs, x):
        """contract of eq_solve"""
        if lhs.has(sympy.core.function.AppliedUndef):
            self.c.ensure(lhs.has(x) and not lhs.has(rhs), 'an equation to be solved')
            others = sorted(lhs.free_symbols - {x}, key=str)
            name = 'solution%d' % len(self.inv)
            self.inv[name] = (lhs, x, others)
            return [sympy.Function(name)(rhs, *others)]
        return sympy.solve(lhs - rhs, x)
    def lambdify(self, args, expr, *r, **k):
        return lambda *v: self(expr, dict(zip(args, v)))

class Law(M.NDFun):
    """joint law with the contracts of NDFun (C20): its variables, its values, and what was done with it"""
    def __init__(self, Vars, value, done=(), base=None):
        self.Vars, self.value, self.done, self.d = list(Vars), value, tuple(done), len(Vars); self._segint = None
    def the(self, var):
        for x in ([var] if not isinstance(var, (list, tuple)) else var): core.CTX.ensure(x in self.Vars, 'a variable of the joint law')
    def eliminate(self, var, a=None, b=None):
        vs = list(var) if isinstance(var, (list, tuple)) else [var]; self.the(vs); core.CTX.ensure(a is None and b is None, 'integrated over the whole range')
        return Law([v for v in self.Vars if v not in vs], None, self.done + tuple(('out', v) for v in vs))
    def condition(self, var, *X, **kw):
        vs = list(var) if isinstance(var, (list, tuple)) else [var]; self.the(vs)
        core.CTX.ensure(len(vs) == len(X), 'a value for each given variable')
        X = [x[0] if isinstance(x, (list, tuple)) else x for x in X]; old = self.value
        return Law([v for v in self.Vars if v not in vs], None if old is None else (lambda env: old({**env, **dict(zip(vs, X))})), self.done + tuple(('given', v, x) for v, x in zip(vs, X)))
    def varschange(self, v, inv, inv_vars, jac):
        self.the(v); old = self.value; new = [x for x in self.Vars if x is not v]
        for x in list(inv_vars) + list(jac.Vars):
            if x not in new: new.append(x)
        value = None if old is None else (lambda env: old({**env, v: inv(*[env[x] for x in inv_vars])}) * jac.value(env))
        return Law(new, value, self.done + (('changed', v),))
class Jac(M.NDFun):
    def __init__(self, d, Vars, f, safe=False, abs=False):
        core.CTX.ensure(d == len(Vars), 'dimension of the Jacobian'); g = modulus if abs else (lambda x: x)
        self.Vars, self.value, self.d = list(Vars), (lambda env: g(f(*[env[v] for v in Vars]))), d
class ConstJac(M.NDFun):
    def __init__(self, v): self.Vars, self.value, self.d = [], (lambda env: v), 0
def modulus(x): return If(x >= 0, x, -x)

class Rv(RVM.RV):
    """a variable: name, equation, parents"""
    def __init__(self, name, parents=(), eq=None):
        self.parents, self.symname, self.sym, self.a, self.b = list(parents), S(name), eq if eq is not None else S(name), 0.0, 1.0
    def range(self): return self.a, self.b
    def getName(self): return str(self.symname)
    def __repr__(self): return 'rv:%s' % self.symname
    def getParentsDep(self):
        l = {self} if self.parents else set()
        for p in self.parents: l |= p.getParentsDep()
        return l

# graphs: free variables, then each dependent one with the positions of its parents
GRAPHS = [(1, [(0,)]), (2, [(0, 1)]), (2, [(0, 1), (0, 1)]), (2, [(0, 1), (0,)]), (2, [(0,), (1, 2)]), (2, [(0, 1), (2,)]), (3, [(0, 1), (1, 2)]), (3, [(0, 1), (3, 2)]),
          (2, [(0, 1), (0, 1), (2, 3)]), (3, [(0, 1, 2)]), (2, [(0, 1), (0, 2)])]
def world(c): return Eval(c)
def mute():
    return patched((M, 'print', lambda *a, **k: None))
def graph(c, spec, linear=False):
    n, deps = spec
    V = [Rv('xyzw'[i]) for i in range(n)]
    for k, ps in enumerate(deps):
        syms = [V[i].symname for i in ps]
        eq = sum((j + 2) * s for j, s in enumerate(syms)) + k if linear else sympy.Function('e%d' % k)(*syms)
        V.append(Rv('d%d' % k, [V[i] for i in ps], eq))
    return V[:n], V[n:]
def model(c, spec, linear=False, law=True):
    E = Eval(c); free, dep = graph(c, spec, linear)
    f = z3.Function(c.fresh('density'), *[z3.RealSort()] * (len(free) + 1))
    L = Law(free, (lambda env: Num(f(*[term(env[v]) for v in free]))) if law else None)
    return E, free, dep, L, Patch(E)
def Patch(E): return patched((M, 'eq_solve', E.solve), (M, 'my_lambdify', E.lambdify), (M, 'NDFun', Jac_or_law()), (M, 'NDConstFactor', ConstJac), (M, 'print', lambda *a, **k: None))
def Jac_or_law(): return _Maker
class _Meta(type(M.NDFun)):
    def __instancecheck__(cls, o): return isinstance(o, (Law, Jac, ConstJac))
class _Maker(M.NDFun, metaclass=_Meta):
    def __new__(cls, *a, **k): return Jac(*a, **k)
def state(m): return (list(m.free_rvs), list(m.dep_rvs), list(m.all_vars), dict(m.rv_to_equation), dict(m.sym_to_rv), m.nddistr)
def roles(c, m, known):
    """every variable has one role, every dependent one an equation in the variables of the model"""
    c.ensure(len(set(m.free_rvs)) == len(m.free_rvs) and len(set(m.dep_rvs)) == len(m.dep_rvs) and len(set(m.all_vars)) == len(m.all_vars), 'no variable twice')
    c.ensure(not set(m.free_rvs) & set(m.dep_rvs), 'no variable is free and dependent')
    c.ensure(set(m.free_rvs) | set(m.dep_rvs) == set(m.all_vars), 'every variable has a role')
    c.ensure(set(m.all_vars) == set(known), 'the variables of the model')
    c.ensure(set(m.rv_to_equation) == set(m.dep_rvs), 'an equation for each dependent variable')
    names = {v.symname for v in m.all_vars}
    c.ensure(all(set(sympy.sympify(e).free_symbols) <= names for e in m.rv_to_equation.values()), 'equations in the variables of the model')
    c.ensure(all(m.sym_to_rv[v.symname] is v for v in m.all_vars), 'names of the variables')
    c.ensure(set(m.nddistr.Vars) == set(m.free_rvs) and len(m.nddistr.Vars) == len(m.free_rvs), 'joint law of the free variables')
    done, todo = set(m.free_rvs), list(m.dep_rvs)
    while todo:
        now = [v for v in todo if all(m.sym_to_rv[s] in done for s in sympy.sympify(m.rv_to_equation[v]).free_symbols)]
        if not now: break
        done |= set(now); todo = [v for v in todo if v not in now]
    c.ensure(not todo, 'dependent variables are determined by the free ones')
def extend(E, m, env):
    """values of all the variables from those of the free ones"""
    env = dict(env); todo = list(m.dep_rvs)
    while todo:
        for v in todo:
            ps = [m.sym_to_rv[s] for s in sympy.sympify(m.rv_to_equation[v]).free_symbols]
            if all(p in env for p in ps):
                env[v] = E(m.rv_to_equation[v], {p.symname: env[p] for p in ps}); todo.remove(v); break
        else: raise Unsupported('cyclic equations')
    return env
def values(c, vs): return {v: c.real(str(v.symname)) for v in vs}
def byname(c, v):
    k = c.choose(3, 'given as')
    return (v, str(v.symname), v.symname)[k]

@P.contract(['depvars.models.Model.__init__', 'depvars.models.Model.copy', 'depvars.models.Model.get_children', 'depvars.models.Model.get_parents', 'depvars.models.Model.prepare_var',
             'depvars.models.Model.is_free', 'depvars.models.Model.is_dependent', 'depvars.models.Model.eval_var', 'depvars.models.Model.are_free'], name='construction')
def construction(c):
    """every graph of the list: roles and equations, parents and children, independence of copies"""
    E, free, dep, L, w = model(c, GRAPHS[c.choose(len(GRAPHS), 'graph')])
    with w:
        # the dependent variables that no other one needs are enough
        ends = [d for d in dep if not any(d in e.parents for e in dep)]
        m = M.Model(L, dep if c.choose(2, 'all of them') == 0 else ends)
        roles(c, m, free + dep)
        c.ensure(set(m.free_rvs) == set(free) and set(m.dep_rvs) == set(dep), 'initial roles')
        c.ensure(all(m.rv_to_equation[d] == d.sym for d in dep), 'initial equations'); c.ensure(m.nddistr is L, 'the joint law')
        for v in free + dep:
            c.ensure(set(m.get_children(v)) == {d for d in dep if v in d.parents}, 'children')
            for u in (v, v.symname, str(v.symname)):
                c.ensure(m.prepare_var(u) is v, 'variable by its name')
                c.ensure(bool(m.is_free(u)) == (v in free) and bool(m.is_dependent(u)) == (v in dep), 'role of a variable')
        for d in dep: c.ensure(sorted(map(str, m.get_parents(d))) == sorted(map(str, d.parents)), 'parents')
        for vs in itertools.chain.from_iterable(itertools.combinations(free + dep, k) for k in (1, 2)):
            c.ensure(bool(m.are_free(vs)) == all(v in free for v in vs), 'all of them are free')
        before = state(m); cp = m.copy()
        c.ensure(state(cp) == before and type(cp) is type(m), 'copy')
        cp.eliminate(ends[0]); cp.free_rvs.append(None); cp.all_vars.append(None); cp.dep_rvs.append(None); cp.sym_to_rv[None] = None; cp.rv_to_equation[None] = None
        c.ensure(state(m) == before, 'changing a copy leaves the model alone')

@P.contract(['depvars.models.Model.varschange', 'depvars.models.Model.var_change_helper'], name='exchange')
def exchange(c):
    """all equations and joint densities: the same joint law of all the variables, expressed by the new free ones"""
    spec = GRAPHS[c.choose(len(GRAPHS), 'graph')]; linear = c.choose(2, 'equations') == 1
    E, free, dep, L, w = model(c, spec, linear)
    with w:
        m = M.Model(L, dep)
        d = dep[c.choose(len(dep), 'dependent')]; v = (free + dep)[c.choose(len(free + dep), 'free')]
        before = state(m); old = {k: e for k, e in m.rv_to_equation.items()}
        ok = v in free and v in d.parents and all(p in free for p in d.parents)
        try: m.varschange(byname(c, v), byname(c, d)); raised = False
        except RuntimeError: raised = True
        c.ensure(raised == (not ok), 'what cannot be exchanged is refused')
        if raised: c.ensure(state(m) == before, 'a refused exchange changes nothing'); return
        roles(c, m, free + dep)
        c.ensure(set(m.free_rvs) == (set(free) - {v}) | {d}, 'the dependent variable becomes free, the free one dependent')
        at = values(c, m.free_rvs); new = extend(E, m, at)
        # the old equations hold for the values that the new ones give
        for k, e in old.items():
            c.ensure_eq(new[k], E(e, {x.symname: new[x] for x in free + dep}), 'the same equations')
        uj = m.rv_to_equation[v]
        J = sympy.diff(uj, d.symname)
        want = L.value({x: new[x] for x in free}) * modulus(E(J, {x.symname: new[x] for x in free + dep}))
        c.ensure_eq(m.nddistr.value(at), want, 'the joint density times the modulus of the derivative')
        c.ensure(L.done == () and before[5] is L, 'the joint law of the old model is left alone')

@P.contract(['depvars.models.Model.varschange', 'depvars.models.Model.var_change_helper'], name='several_solutions')
def several_solutions(c):
    """equations with two real solutions are refused, complex solutions are left out"""
    x, y = Rv('x'), Rv('y'); k = c.choose(3, 'equation')
    eq = (x.symname ** 2 + y.symname, x.symname ** 3 + y.symname, x.symname * y.symname)[k]
    d = Rv('d0', [x, y], eq); L = Law([x, y], None)
    E = Eval(c)
    sols = {0: [sympy.sqrt(d.symname - y.symname + 1), -sympy.sqrt(d.symname - y.symname + 1)], 1: [d.symname - y.symname, sympy.I * (d.symname + y.symname)], 2: [d.symname / y.symname]}[k]
    E.solve = lambda l, r, s: list(sols); E.lambdify = lambda *a, **q: (lambda *v: None)
    with Patch(E):
        m = M.Model(L, [d]); before = state(m)
        try: m.varschange(x, d); raised = False
        except RuntimeError: raised = True
        c.ensure(raised == (k == 0), 'refused if there is not one real solution')
        if raised: c.ensure(state(m) == before, 'a refused exchange changes nothing')
        else: c.ensure(m.rv_to_equation == {x: sols[0]}, 'the real solution')

@P.contract(['depvars.models.Model.eliminate', 'depvars.models.Model.subst_for_rv_in_children', 'depvars.models.Model.eliminate_other'], name='elimination')
def elimination(c):
    """all equations: a dependent variable is replaced by its equation, a free one is integrated out unless something depends on it"""
    spec = GRAPHS[c.choose(len(GRAPHS), 'graph')]
    E, free, dep, L, w = model(c, spec)
    with w:
        m = M.Model(L, dep); at = values(c, free); all_old = extend(E, m, at); before = state(m)
        if c.choose(2, 'what') == 0:
            v = (free + dep)[c.choose(len(free + dep), 'variable')]
            used = v in free and any(v in d.parents for d in dep)
            try: m.eliminate(byname(c, v)); raised = False
            except RuntimeError: raised = True
            c.ensure(raised == used, 'a free variable that others depend on is kept')
            if raised: c.ensure(state(m) == before, 'a refused elimination changes nothing'); return
            gone = {v}
        else:
            keep = [d for i, d in enumerate(dep) if c.choose(2, 'keep%d' % i)]
            m.eliminate_other(keep + free[:c.choose(2, 'free too')]); gone = set(dep) - set(keep)
        roles(c, m, [x for x in free + dep if x not in gone])
        c.ensure(m.nddistr.done == tuple(('out', x) for x in free if x in gone), 'integrated out of the joint law')
        now = extend(E, m, {x: at[x] for x in m.free_rvs})
        for x in m.dep_rvs: c.ensure_eq(now[x], all_old[x], 'the other variables keep their values')

@P.contract(['depvars.models.Model.condition'], name='evidence')
def evidence(c):
    """all equations and values: the variable leaves, its value stands in the equations and in the joint law"""
    spec = GRAPHS[c.choose(len(GRAPHS), 'graph')]
    E, free, dep, L, w = model(c, spec)
    with w:
        m = M.Model(L, dep); at = values(c, free); v = (free + dep)[c.choose(len(free + dep), 'variable')]
        X = (0.0, 1.5, -2)[c.choose(3, 'value')]; before = state(m)
        at2 = {**at, v: Num(z3.RealVal(str(X)))} if v in free else at
        old = extend(E, m, at2)
        try: m.condition(byname(c, v), X); raised = False
        except RuntimeError: raised = True
        c.ensure(raised == (v in dep), 'only free variables can be given')
        if raised: c.ensure(state(m) == before, 'a refused condition changes nothing'); return
        roles(c, m, [x for x in free + dep if x is not v])
        now = extend(E, m, {x: at[x] for x in m.free_rvs})
        for x in m.dep_rvs: c.ensure_eq(now[x], old[x], 'the other variables have the values under the condition')
        c.ensure(m.nddistr.done == (('given', v, X),), 'the joint law under the condition')
        c.ensure_eq(m.nddistr.value({x: at[x] for x in m.free_rvs}), L.value(at2), 'the joint law under the condition')

@P.contract(['depvars.models.Model.inference'], name='inference')
def inference(c):
    """every graph of the list, every choice of wanted variables and of one or no given one: the variables that were wanted remain,
    nothing wanted or given is removed otherwise than by its condition, the model is left alone"""
    spec = GRAPHS[c.choose(len(GRAPHS), 'graph')]
    E, free, dep, L, w = model(c, spec, law=False)
    vs = free + dep
    wanted = [v for i, v in enumerate(vs) if c.choose(2, 'want%d' % i)]
    if not wanted or len(wanted) > 2: return
    g = c.choose(len(vs) + 1, 'given'); given = vs[g] if g < len(vs) else None
    if given is not None and given in wanted: return
    log = []
    class Traced(M.Model):
        steps = 0
        def step(self):
            self.steps += 1
            if self.steps > 1000: raise Endless()
        def get_children(self, v): self.step(); return M.Model.get_children(self, v)
        def get_parents(self, v): self.step(); return M.Model.get_parents(self, v)
        def eliminate(self, v): log.append(('eliminate', v)); M.Model.eliminate(self, v)
        def condition(self, v, X, **k): log.append(('condition', v, X)); M.Model.condition(self, v, X, **k)
        def varschange(self, a, b): log.append(('change', a, b)); M.Model.varschange(self, a, b)
    class Endless(Exception): pass
    with w:
        m = Traced(L, dep); before = state(m)
        try: r = m.inference(wanted, [given] if given is not None else [], [0.5] if given is not None else [])
        except (Endless, RuntimeError): r = None
        c.ensure(state(m) == before, 'the model is left alone')
        c.ensure(r is not None, 'inference ends with an answer')
        if r is None: return
        c.ensure(r is not m, 'a new model'); roles(c, r, wanted)
        c.ensure(all(q[1] not in wanted for q in log if q[0] != 'change'), 'nothing wanted is removed')
        cond = [q for q in log if q[0] == 'condition']
        c.ensure(cond == ([('condition', given, 0.5)] if given is not None else []), 'the given variable is given its value, once')
        c.ensure(all(q != ('eliminate', given) for q in log if given is not None), 'the given variable is not integrated out')
        out = [q[1] for q in r.nddistr.done if q[0] == 'given']
        c.ensure(out == ([given] if given is not None else []), 'the joint law is conditioned')

@P.contract(['depvars.models.Model.as1DDistr', 'depvars.models.Model.as_const'], name='results')
def results(c):
    E, free, dep, L, w = model(c, GRAPHS[c.choose(3, 'graph')])
    made = []
    with w, patched((M, 'FunDistr', lambda f, breakPoints=None, **k: made.append((f, breakPoints)) or 'law')):
        m = M.Model(L, dep)
        for q in (m.as1DDistr,):
            try: q(); c.ensure(False, 'a law with dependent variables is refused')
            except RuntimeError: pass
        for d in list(reversed(dep)): m.eliminate(d)
        if len(free) > 1:
            try: m.as1DDistr(); c.ensure(False, 'a law of several variables is refused')
            except RuntimeError: pass
            for x in free[1:]: m.eliminate(x)
        c.ensure(m.as1DDistr() == 'law' and made[0][0] is m.nddistr and tuple(made[0][1]) == tuple(free[0].range()), 'the joint law over the range of its variable')
    x = Rv('x'); d = Rv('d0', [x], 3 * x.symname + 1)
    with Patch(Eval(c)):
        m = M.Model(Law([x], None), [d]); m.condition(x, 2.0)
        c.ensure(m.as_const() == 7.0, 'value of a constant')
