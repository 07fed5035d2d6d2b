"""C18 copulas on the running code"""
import numpy as np
from itertools import product
import pacal as P
from pacal.depvars import copulas as C
from .lib import Driver, Skip
D = Driver()

def margins(rng, d):
    k = int(rng.integers(4))
    if k == 0: return [P.UniformDistr(0, 1, sym='u%d' % i) for i in range(d)]
    one = [lambda s: P.NormalDistr(float(np.round(rng.normal(), 2)), float(np.round(rng.uniform(.3, 3), 2)), sym=s), lambda s: P.ExponentialDistr(float(np.round(rng.uniform(.3, 3), 2)), sym=s),
           lambda s: P.UniformDistr(-1.0, float(np.round(rng.uniform(.3, 3), 2)), sym=s), lambda s: P.BetaDistr(2, 3, sym=s)]
    return [one[int(rng.integers(4))]('x%d' % i) for i in range(d)]
FAMILY = {
 'Pi': (lambda t, m: C.PiCopula(m), (2, 3, 4), lambda rng: 1.0, lambda t, u: np.prod(u, axis=0), lambda t, u: 1.0),
 'M': (lambda t, m: C.MCopula(m), (2, 3, 4), lambda rng: 1.0, lambda t, u: np.min(u, axis=0), None),
 'W': (lambda t, m: C.WCopula(m), (2, 3), lambda rng: 1.0, lambda t, u: max(np.sum(u, axis=0) - len(u) + 1, 0.0), None),
 'Gumbel2d': (lambda t, m: C.GumbelCopula2d(t, m), (2,), lambda rng: float(np.round(rng.uniform(1.05, 6), 2)), lambda t, u: gen('G', t, u), lambda t, u: dens('G', t, u)),
 'Gumbel': (lambda t, m: C.GumbelCopula(t, m), (2, 3), lambda rng: float(np.round(rng.uniform(1.05, 6), 2)), lambda t, u: gen('G', t, u), lambda t, u: dens('G', t, u)),
 'Clayton': (lambda t, m: C.ClaytonCopula(t, m), (2, 3), lambda rng: float(np.round(rng.uniform(.2, 6), 2)), lambda t, u: gen('C', t, u), lambda t, u: dens('C', t, u)),
 'Clayton-': (lambda t, m: C.ClaytonCopula(t, m), (2,), lambda rng: float(rng.choice([-.3, -.5, -.8, -.25])), lambda t, u: gen('C', t, u), lambda t, u: dens('C', t, u)),
 'Frank': (lambda t, m: C.FrankCopula(t, m), (2, 3), lambda rng: float(np.round(rng.uniform(.3, 6), 2)), lambda t, u: gen('F', t, u), lambda t, u: dens('F', t, u)),
 'Frank2d': (lambda t, m: C.FrankCopula2d(t, m), (2,), lambda rng: float(np.round(rng.uniform(.3, 6), 2)) * int(rng.choice([-1, 1])), lambda t, u: gen('F', t, u), lambda t, u: dens('F', t, u)),
 'independence': (lambda t, m: C.ArchimedeanCopula(marginals=m), (2, 3), lambda rng: 1.0, lambda t, u: np.prod(u), lambda t, u: 1.0),
}
import mpmath as mp
def gen(k, t, u):
    mp.mp.dps = 40
    t = mp.mpf(t); u = [mp.mpf(float(v)) for v in u]
    if min(u) <= 0: return 0.0
    if k == 'G': return float(mp.e ** -(sum((-mp.log(v)) ** t for v in u) ** (1 / t)))
    if k == 'C':
        s = sum(v ** -t for v in u) - len(u) + 1
        return float(s ** (-1 / t)) if s > 0 else 0.0
    p = mp.mpf(1)
    for v in u: p *= mp.expm1(-t * v)
    return float(-mp.log1p(p / mp.expm1(-t) ** (len(u) - 1)) / t)
def dens(k, t, u):
    """the mixed derivative of the distribution function, numerically in many digits"""
    mp.mp.dps = 60
    t = mp.mpf(t); x = [mp.mpf(float(v)) for v in u]
    def F(*u):
        if k == 'G': return mp.e ** -(sum((-mp.log(v)) ** t for v in u) ** (1 / t))
        if k == 'C':
            s = sum(v ** -t for v in u) - len(u) + 1
            return s ** (-1 / t) if s > 0 else mp.mpf(0)
        p = mp.mpf(1)
        for v in u: p *= mp.expm1(-t * v)
        return -mp.log1p(p / mp.expm1(-t) ** (len(u) - 1)) / t
    h = mp.mpf(10) ** -12
    return float(sum(mp.mpf(int(np.prod(s))) * F(*[v + e * h for v, e in zip(x, s)]) for s in product((1, -1), repeat=len(x))) / (2 * h) ** len(x))

def build(rep, rng):
    k = sorted(FAMILY)[int(rng.integers(len(FAMILY)))]
    f, ds, th, F, f_ = FAMILY[k]
    d = int(rng.choice(ds)); t = th(rng); m = margins(rng, d)
    return k, d, t, m, f(t, m), F, f_

@D.check
def distribution_function(rep, rng):
    for _ in range(rep.scale(40)):
        k, d, t, m, c, F, f = build(rep, rng)
        u = [float(v) for v in np.round(rng.uniform(.03, .97, d), 3)]
        desc = '%s(%r) at %r' % (k, t, u)
        with np.errstate(all='ignore'):
            want = float(F(t, np.array(u)))
            rep.close(float(c.ccdf(*u)), want, 'distribution function of numbers', desc, rtol=1e-8, atol=1e-10)
            U = np.round(rng.uniform(.03, .97, (d, 5)), 3); keep = U.copy()
            rep.close(c.ccdf(*U), [F(t, U[:, j]) for j in range(5)], 'distribution function of arrays', desc, rtol=1e-8, atol=1e-10)
            rep.ok(np.array_equal(U, keep), 'arguments are not changed', desc, keep, U)
            rep.close(np.asarray(c.ccdf(*[np.array([v]) for v in u])).ravel(), [want], 'distribution function of arrays of one', desc, rtol=1e-8, atol=1e-10)
            i = int(rng.integers(d))
            one = [1.0] * d; one[i] = u[i]
            rep.close(float(c.ccdf(*one)), u[i], 'uniform margin', desc + ' margin %d' % i, rtol=1e-8, atol=1e-9)
            one = [1] * d; one[i] = u[i]
            rep.close(float(c.ccdf(*one)), u[i], 'uniform margin (integer ones)', desc + ' margin %d' % i, rtol=1e-8, atol=1e-9)
            A = [np.ones(3) for _ in range(d)]; A[i] = np.array([u[i], .5, .25])
            rep.close(c.ccdf(*A), A[i], 'uniform margin (arrays)', desc + ' margin %d' % i, rtol=1e-8, atol=1e-9)
            z = list(u); z[i] = 0.0
            rep.close(float(c.ccdf(*z)), 0.0, 'zero', desc + ' argument %d' % i, rtol=0, atol=1e-12)
            A = [np.array([.3, .6]) for _ in range(d)]; A[i] = np.zeros(2)
            rep.close(c.ccdf(*A), [0, 0], 'zero (arrays)', desc + ' argument %d' % i, rtol=0, atol=1e-12)

@D.check
def density(rep, rng):
    for _ in range(rep.scale(30)):
        k, d, t, m, c, F, f = build(rep, rng)
        if f is None: continue
        U = np.round(rng.uniform(.06, .94, (d, 4)), 3)
        desc = '%s(%r) at %r' % (k, t, U.tolist())
        with np.errstate(all='ignore'):
            want = [f(t, U[:, j]) for j in range(4)]
            rep.close(c.cpdf(*U), want, 'density', desc, rtol=1e-6, atol=1e-8)
            rep.close(float(c.cpdf(*[float(v) for v in U[:, 0]])), want[0], 'density of numbers', desc, rtol=1e-6, atol=1e-8)

@D.check
def joint_law(rep, rng):
    for _ in range(rep.scale(25)):
        k, d, t, m, c, F, f = build(rep, rng)
        U = rng.uniform(.06, .94, (d, 3))
        X = np.array([[float(m[i].quantile(U[i, j])) for j in range(3)] for i in range(d)])
        G = np.array([m[i].get_piecewise_cdf()(X[i]) for i in range(d)]); g = np.prod([m[i].get_piecewise_pdf()(X[i]) for i in range(d)], axis=0)
        desc = '%s(%r) margins %s at %r' % (k, t, [v.getName() for v in m], X.tolist())
        with np.errstate(all='ignore'):
            H = np.array([float(F(t, G[:, j])) for j in range(3)])
            rep.close(c.cdf(*X), H, 'joint distribution function', desc, rtol=1e-6, atol=1e-7)
            if d == 2:
                rep.close(c.dualcdf(*X), G.sum(axis=0) - H, 'probability that one of the two is below', desc, rtol=1e-6, atol=1e-7)
                rep.close(c.jcdf_(m[0], m[1], *X), H, 'joint distribution function of given margins', desc, rtol=1e-6, atol=1e-7)
            if f is not None:
                want = np.array([f(t, G[:, j]) for j in range(3)]) * g
                rep.close(c.pdf(*X), want, 'joint density', desc, rtol=1e-4, atol=1e-6)
                if d == 2: rep.close(c.jpdf_(m[0], m[1], *X), want, 'joint density of given margins', desc, rtol=1e-4, atol=1e-6)

@D.check
def conditional(rep, rng):
    for _ in range(rep.scale(6)):
        k = ['Gumbel', 'Clayton', 'Frank'][int(rng.integers(3))]
        f, ds, th, F, _ = FAMILY[k]
        d = int(rng.choice(ds)); t = th(rng); m = margins(rng, d); c = f(t, m)
        i = int(rng.integers(d)); h = 1e-6
        u = rng.uniform(.1, .9, d)
        x = [float(m[j].quantile(u[j])) for j in range(d)]
        desc = '%s(%r) margins %s given %d at %r' % (k, t, [v.getName() for v in m], i, u.tolist())
        up, dn = u.copy(), u.copy(); up[i] += h; dn[i] -= h
        want = (F(t, up) - F(t, dn)) / (2 * h)
        with np.errstate(all='ignore'):
            fun = c.ccond([i]).fun
            rep.close(float(fun(*[float(v) for v in u])), want, 'conditional distribution function', desc, rtol=1e-5, atol=1e-7)
            rest = [np.array([x[j]]) for j in range(d) if j != i]
            rep.close(np.asarray(c.conditionCDF([i], x[i]).fun(*(rest))).ravel()[0], want, 'conditional distribution function with margins', desc, rtol=1e-4, atol=1e-6)
            rep.close(np.asarray(c.condfun([i]).fun(*[np.array([v]) for v in x])).ravel()[0], want, 'conditional distribution function of all variables', desc, rtol=1e-4, atol=1e-6)
            if d == 2:
                q = c.condition([i], x[i]).fun(rest[0])
                j = 1 - i
                rep.close(np.asarray(q).ravel()[0], float(dens(k[0], t, u)) * float(m[j].pdf(x[j])), 'conditional density', desc, rtol=1e-3, atol=1e-5)

@D.check
def dependence(rep, rng):
    for _ in range(rep.scale(4)):
        k = ['Gumbel2d', 'Clayton', 'Frank2d', 'Pi', 'Gumbel', 'Frank'][int(rng.integers(6))]
        f, ds, th, F, fd = FAMILY[k]
        t = th(rng); m = margins(rng, 2); c = f(t, m)
        desc = '%s(%r)' % (k, t)
        with np.errstate(all='ignore'):
            rep.close(float(c.beta()), 4 * float(F(t, np.array([.5, .5]))) - 1, "Blomqvist's beta", desc, rtol=1e-7, atol=1e-7)
    for _ in range(rep.scale(2)):
        t = float(np.round(rng.uniform(.5, 3), 2)); m = margins(rng, 2)
        c = C.ClaytonCopula(t, m)
        rep.close(c.tau_c(), t / (t + 2), "Kendall's tau of the generator", 'Clayton(%r)' % t, rtol=1e-4, atol=1e-4)

@D.check
def generators(rep, rng):
    for _ in range(rep.scale(20)):
        k = ['Gumbel', 'Clayton', 'Frank', 'Gumbel2d', 'Frank2d'][int(rng.integers(5))]
        f, ds, th, F, fd = FAMILY[k]
        t = th(rng); m = margins(rng, 2); c = f(t, m)
        u = rng.uniform(.05, .95, 5); desc = '%s(%r) at %r' % (k, t, u.tolist())
        with np.errstate(all='ignore'):
            rep.close(c.fi_inv(c.fi(u)), u, 'generator and its inverse', desc, rtol=1e-8, atol=1e-9)
            rep.close(c.fi_inv(c.fi(u[:1]) + c.fi(u[1:2])), [F(t, u[:2])], 'generator', desc, rtol=1e-7, atol=1e-8)
