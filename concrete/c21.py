"""C21: models on the real, unmodified code (sympy, joint laws and interpolation included)"""
import contextlib, io, itertools, numpy as np, sympy
from .lib import Driver, Skip
import pacal as P
import pacal.params as params
from pacal.depvars import models as M
from pacal.depvars.nddistr import NDProductDistr
params.interpolation_nd.debug_info = False
params.general.parallel = False
D = Driver()
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
_n = [0]
def names(k):
    _n[0] += 1
    return ['%s%d' % (c, _n[0]) for c in 'xyzuvw'[:k]]
def graph(rng):
    """positive free variables and monotone equations of random shape"""
    n = int(rng.integers(1, 4)); nm = names(n)
    free = [P.UniformDistr(1, 1 + float(rng.integers(1, 3)), sym=nm[i]) if rng.random() < .6 else P.BetaDistr(2, 3, sym=nm[i]) for i in range(n)]
    allv, dep = list(free), []
    for k in range(int(rng.integers(1, 4))):
        a = allv[int(rng.integers(len(allv)))]; b = allv[int(rng.integers(len(allv)))]
        kind = int(rng.integers(5))
        if a is b: d = a * 2 + 1 if kind < 3 else 3 - a
        else: d = (a + b, a - b, a * b, a / b, a + 2 * b)[kind] if b.range()[0] > 0 or kind < 3 else a + b
        d.setSym('d%d_%d' % (_n[0], k)); allv.append(d); dep.append(d)
    return free, dep
def everything(m, at):
    """values of all variables from those of the free ones"""
    at = dict(at); todo = list(m.dep_rvs)
    while todo:
        for v in todo:
            e = m.rv_to_equation[v]; ps = [m.sym_to_rv[s] for s in e.atoms(sympy.Symbol)]
            if all(p in at for p in ps):
                at[v] = float(e.subs({p.getSymname(): at[p] for p in ps})); todo.remove(v); break
        else: raise AssertionError('cyclic equations')
    return at
def roles(rep, m, known, inp):
    rep.ok(not set(m.free_rvs) & set(m.dep_rvs) and set(m.free_rvs) | set(m.dep_rvs) == set(m.all_vars) == set(known), 'one role for each variable', inp, sorted(str(v.getSymname()) for v in known), [str(v.getSymname()) for v in m.free_rvs + m.dep_rvs])
    rep.ok(set(m.rv_to_equation) == set(m.dep_rvs) and set(m.nddistr.Vars) == set(m.free_rvs), 'equations and joint law fit the roles', inp, None, None)
    rep.ok(all(m.sym_to_rv[s] in m.all_vars for e in m.rv_to_equation.values() for s in e.atoms(sympy.Symbol)), 'equations in the variables of the model', inp, None, None)
def state(m): return (list(m.free_rvs), list(m.dep_rvs), list(m.all_vars), dict(m.rv_to_equation), m.nddistr)
def density(m, at): return float(np.squeeze(m.nddistr(*[at[v] for v in m.nddistr.Vars])))

@D.check
def programs(rep, rng):
    """random sequences of exchanges, eliminations of dependent variables and conditions keep the joint law of the variables"""
    for i in range(rep.scale(30)):
        free, dep = graph(rng)
        m = quiet(M.Model, free, dep); inp = [str(v.getSymname()) + ('' if v in free else ' = ' + str(v.getSym())) for v in free + dep]
        known = set(free) | set(m.dep_rvs)
        roles(rep, m, known, inp)
        at = everything(m, {v: float(np.ravel(v.rand(1))[0]) for v in free})
        weight = density(m, at)
        for step in range(4):
            before = state(m); op = int(rng.integers(4))
            if op < 2 and m.dep_rvs:
                cand = [(a, b) for b in m.dep_rvs for a in m.get_parents(b) if all(m.is_free(p) for p in m.get_parents(b))]
                if not cand: continue
                a, b = cand[int(rng.integers(len(cand)))]; inp.append('exchange %s %s' % (a.getSymname(), b.getSymname()))
                # the derivative of the dependent variable along the free one
                s = a.getSymname(); e = m.rv_to_equation[b]
                J = float(sympy.diff(e, s).subs({p.getSymname(): at[p] for p in m.get_parents(b)}))
                try: quiet(m.varschange, a, b)
                except RuntimeError:
                    rep.ok(state(m) == before, 'a refused exchange changes nothing', inp, None, None); break
                weight /= abs(J)
            elif op == 2 and m.dep_rvs:
                v = m.dep_rvs[int(rng.integers(len(m.dep_rvs)))]; inp.append('eliminate %s' % v.getSymname())
                quiet(m.eliminate, v); known = known - {v}; del at[v]
            elif op == 3 and len(m.free_rvs) > 1:
                # the joint law at the given value is the density on the others, up to a factor: compared with the same law at the same place
                v = m.free_rvs[int(rng.integers(len(m.free_rvs)))]; inp.append('given %s' % v.getSymname())
                before_law = m.nddistr
                quiet(m.condition, v, at[v]); known = known - {v}
                x = at.pop(v)
                pos = [v2 for v2 in before_law.Vars]
                got = density(m, at); full = float(np.squeeze(before_law(*[x if q is v else at[q] for q in pos])))
                rep.close(full, weight, 'joint density before a condition', inp, 1e-6, 1e-9)
                # ratio of two points is that of the joint law
                weight = got
            roles(rep, m, known, inp)
            new = everything(m, {v: at[v] for v in m.free_rvs})
            for v in m.dep_rvs: rep.close(new[v], at[v], 'the same values of the variables', inp + [str(v.getSymname())], 1e-7, 1e-7)
            rep.close(density(m, at), weight, 'joint density of the free variables', inp, 1e-6, 1e-9)

@D.check
def against_arithmetic(rep, rng):
    """the law of a function of two variables is the one of the arithmetic on independent variables"""
    ops = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('/', lambda a, b: a / b)]
    for name, op in ops if rep.thorough else [ops[int(rng.integers(2))], ops[2 + int(rng.integers(2))]]:
        a, b = names(2)
        X = P.UniformDistr(1, 2, sym=a); Y = P.UniformDistr(1, 3, sym=b)
        S = op(X, Y); S.setSym('s%d' % _n[0])
        m = quiet(M.Model, [X, Y], [S]); before = state(m)
        r = quiet(m.inference, [S])
        rep.ok(state(m) == before, 'inference leaves the model alone', name, None, None)
        roles(rep, r, {S}, name)
        lo, hi = S.range(); xs = lo + (hi - lo) * np.array([.13, .37, .71])
        want = S.get_piecewise_pdf()(xs)
        got = np.array([float(np.squeeze(quiet(r.nddistr, x))) for x in xs])
        rep.close(got, want, 'law of the wanted variable', 'X %s Y' % name, 2e-2, 2e-2)

@D.check
def evidence(rep, rng):
    """X given X + Y = s, and X + Y given X = x"""
    a, b = names(2); lam = float(rng.uniform(.5, 2))
    X = P.UniformDistr(1, 2, sym=a); Y = P.UniformDistr(1, 3, sym=b); S = X + Y; S.setSym('s%d' % _n[0])
    m = quiet(M.Model, [X, Y], [S])
    s = float(rng.uniform(2.2, 2.8))
    r = quiet(m.inference, [X], [S], [s])
    roles(rep, r, {X}, 'X given S')
    hi = s - 1
    got = [float(np.squeeze(r.nddistr(x))) for x in (1 + .3 * (hi - 1), 1 + .8 * (hi - 1), hi + .1)]
    rep.close(got, [1 / (hi - 1), 1 / (hi - 1), 0], 'law of a term given the sum', s, 2e-2, 2e-2)
    r = quiet(m.inference, [S], [X], [1.25])
    roles(rep, r, {S}, 'S given X')
    got = [float(np.squeeze(r.nddistr(x))) for x in (2.3, 3.2, 4.2, 4.3)]
    rep.close(got, [.5, .5, .5, 0], 'law of the sum given a term', None, 2e-2, 2e-2)

@D.check
def given_values(rep, rng):
    """special values of the evidence: zero, integers, the ends of the range"""
    for x in (0.0, 0, 1, -1.0, .5):
        a, b = names(2)
        X = P.UniformDistr(-1, 1, sym=a); Y = P.UniformDistr(0, 1, sym=b); S = X * Y + X; S.setSym('s%d' % _n[0]); T = Y - X; T.setSym('t%d' % _n[0])
        m = quiet(M.Model, [X, Y], [S, T]); inp = 'X = %r' % x; known = set(m.all_vars)
        quiet(m.condition, X, x)
        roles(rep, m, known - {X}, inp)
        new = everything(m, {Y: .25})
        rep.close([new[S], new[T], density(m, {Y: .25})], [x * .25 + x, .25 - x, 1], 'values under the condition', inp, 1e-9, 1e-6)

@D.check
def wanted(rep, rng):
    """any two wanted variables, one given: those remain"""
    for i in range(rep.scale(2)):
        a, b = names(2)
        V = [P.UniformDistr(1, 2, sym=q) for q in (a, b)]
        A = V[0] + V[1]; A.setSym('a%d' % _n[0]); B = A * V[1] if i % 2 else 2 * V[1] + V[0]; B.setSym('b%d' % _n[0])
        allv = V + [A, B]; w = [[A], [V[i], A], [B], [V[0], V[1]]][int(rng.integers(4))]
        m = quiet(M.Model, V, [A, B]); before = state(m)
        inp = [str(v.getSymname()) for v in w]
        r = quiet(m.inference, w)
        roles(rep, r, set(w), inp); rep.ok(state(m) == before, 'inference leaves the model alone', inp, None, None)

@D.check
def two_variables(rep, rng):
    a, b = names(2)
    X = P.UniformDistr(1, 2, sym=a); Y = P.UniformDistr(1, 3, sym=b)
    for k, (name, op) in enumerate((('+', lambda u, v: u + v), ('*', lambda u, v: u * v), ('/', lambda u, v: u / v), ('-', lambda u, v: u - v), ('2+', lambda u, v: 2 * u + v))):
        S = op(X, Y); S.setSym('t%d_%d' % (_n[0], k))
        t = quiet(M.TwoVarsModel, NDProductDistr([X, Y]), S)
        r = quiet(t.eval)
        lo, hi = S.range(); xs = lo + (hi - lo) * np.array([.11, .33, .52, .77, .93])
        rep.close(r.get_piecewise_pdf()(xs), S.get_piecewise_pdf()(xs), 'two variables with one equation', name, 1e-5, 1e-6)

@D.check
def inference_by_removal(rep, rng):
    a, b = names(2)
    X = P.UniformDistr(1, 2, sym=a); Y = P.UniformDistr(1, 3, sym=b); S = 2 * X + Y + 1; S.setSym('s%d' % _n[0])
    m = quiet(M.Model, [X, Y], [S])
    rep.ok(m.are_free([X, Y]) and not m.are_free([X, S]) and not m.are_free([S, X]), 'all of them are free', None, None, None)
    s = 5.3
    quiet(m.inference_to_remove, [X], [S], [s])
    roles(rep, m, {X}, 'X given S by removal')
    at = lambda x: float(np.squeeze(m.nddistr(x)))
    # Y = s - 1 - 2x between 1 and 3
    rep.close([at(1.2), at(1.6), at(1.9)], [1 / .65, 1 / .65, 0], 'law of a term given the sum', s, 2e-2, 2e-2)
