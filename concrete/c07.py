"""C07 piecewise functions on the running code, against a plain list-of-pieces model"""
import numpy as np, math, operator
import pacal as P
from pacal import segments as S
from .lib import Driver, Rep, Skip
D = Driver()
INF = np.inf

class Model:
    """pieces [(a,b,kind,f)] sorted and disjoint, atoms {x: mass}"""
    def __init__(self, pieces, atoms): self.p, self.at = sorted(pieces, key=lambda q: q[0]), dict(atoms)
    def __call__(self, x):
        for a, b, k, f in self.p:
            if a < x < b: return float(f(x))
        return 0.0
    def ends(self): return sorted({e for q in self.p for e in q[:2]} | set(self.at))
    def desc(self): return 'pieces %s atoms %s' % ([(a, b, k, f.c) for a, b, k, f in self.p], self.at)

class Poly:
    def __init__(self, c): self.c = c
    def __call__(self, x): return self.c[0] + self.c[1] * np.tanh(np.asarray(x, float) * self.c[2])

def seg(q):
    a, b, k, f = q
    return {'f': lambda: S.Segment(a, b, f), 'l': lambda: S.SegmentWithPole(a, b, f, left_pole=True), 'r': lambda: S.SegmentWithPole(a, b, f, left_pole=False),
            '-': lambda: S.MInfSegment(b, f), '+': lambda: S.PInfSegment(a, f)}[k]()

GRID = [-3.0, -2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0]
def rand_model(rng, atoms=True, pos=False, inf=True):
    k = int(rng.integers(1, 6))
    pts = sorted(rng.choice(GRID if rng.uniform() < .6 else np.unique(np.round(rng.uniform(-3, 3, 20), 3)), k + 1, replace=False))
    pts = [float(x) for x in pts]
    pieces = []
    mk = lambda: Poly([round(float(rng.uniform(1, 3)), 3), round(float(rng.uniform(-.9, .9)), 3), round(float(rng.uniform(.2, 2)), 3)]) if pos else Poly([round(float(v), 3) for v in rng.uniform(-2, 2, 3)])
    for a, b in zip(pts[:-1], pts[1:]):
        if rng.uniform() < .25: continue
        pieces.append((a, b, str(rng.choice(['f', 'f', 'l', 'r'])), mk()))
    if inf and rng.uniform() < .4: pieces.append((-INF, pts[0], '-', mk()))
    if inf and rng.uniform() < .4: pieces.append((pts[-1], INF, '+', mk()))
    at = {}
    if atoms:
        for x in pts + [5.0]:
            if rng.uniform() < .3 and not any(a < x < b for a, b, *_ in pieces): at[x] = round(float(rng.uniform(.1, 1)), 3)
    if not pieces: pieces.append((pts[0], pts[1], 'f', mk()))
    at = {x: m for x, m in at.items() if not any(a < x < b for a, b, *_ in pieces)}
    return Model(pieces, at)

def build(rng, m, cls=None):
    items = [('s', q) for q in m.p]
    for x, w in m.at.items():
        if rng.uniform() < .3: items += [('d', (x, w * .25)), ('d', (x, w * .75))]
        else: items.append(('d', (x, w)))
    rng.shuffle(items)
    f = (cls or S.PiecewiseFunction)([])
    for t, q in items: f.addSegment(seg(q) if t == 's' else S.DiracSegment(q[0], q[1]))
    return f, [q[:3] if t == 's' else q for t, q in items]

def pts_of(rng, *ms):
    ends = sorted({e for m in ms for e in m.ends() if np.isfinite(e)})
    xs = list(rng.uniform(-4.5, 6.5, 12))
    e2 = [-6.0] + ends + [7.0]
    xs += [(a + b) / 2 for a, b in zip(e2[:-1], e2[1:])]
    xs += [a + (b - a) * .02 for a, b in zip(e2[:-1], e2[1:])]
    return np.array([x for x in xs if all(abs(x - e) > 1e-6 for e in ends)])

def compare(rep, f, want, xs, inp, lab=''):
    w = [want(x) for x in xs]
    rep.close([float(f(x)) for x in xs], w, lab + 'values (scalar)', inp, rtol=1e-9)
    rep.close(f(np.array(xs)), w, lab + 'values (array)', inp, rtol=1e-9)

def in_order(rep, f, inp, lab=''):
    ok = all(s.b <= t.a and (s.a, s.b) != (t.a, t.b) for s, t in zip(f.segments[:-1], f.segments[1:]))
    rep.ok(ok and all(s.a < s.b or s.isDirac() and s.a == s.b for s in f.segments), lab + 'pieces are ordered and do not overlap', inp, 'ordered', [(s.a, s.b) for s in f.segments])

def atoms_of(f): 
    r = {}
    for s in f.getDiracs(): r[float(s.a)] = r.get(float(s.a), 0) + float(s.f)
    return sorted(r.items())

def kind(s): return 'd' if s.isDirac() else '-' if s.isMInf() else '+' if s.isPInf() else 'l' if s.hasLeftPole() else 'r' if s.hasRightPole() else 'f'

@D.check
def insertion(rep, rng):
    for k in range(rep.scale(150)):
        m = rand_model(rng)
        f, order = build(rng, m)
        inp = 'added %s' % (order,)
        in_order(rep, f, inp)
        compare(rep, f, m, pts_of(rng, m), inp)
        rep.close(atoms_of(f), sorted(m.at.items()), 'atoms', inp)
        rep.same(sorted((s.a, s.b, kind(s)) for s in f.segments if not s.isDirac()), sorted(q[:3] for q in m.p), 'pieces', inp)
        rep.same([float(x) for x in f.getBreaks()], m.ends(), 'break points', inp)
        for x, w in m.at.items():
            d = f.getDirac(x)
            rep.ok(d is not None and abs(d.f - w) < 1e-12, 'atom at the point', inp + ' x=%s' % x, w, d)
        rep.ok(f.getDirac(3.77) is None, 'no atom elsewhere', inp)
        for a, b, kd, g in m.p:
            s = f.findSegmentByEnds(a, b)
            rep.ok(s is not None and s.f is g, 'piece with given ends', inp)

@D.check
def splitting(rep, rng):
    for k in range(rep.scale(150)):
        m = rand_model(rng)
        f, order = build(rng, m)
        pts = list(rng.choice(GRID, int(rng.integers(1, 6)))) + ([INF] if rng.uniform() < .1 else []) + ([-INF] if rng.uniform() < .1 else [])
        arg = pts if rng.uniform() < .5 else np.array(pts)
        inp = '%s split at %s' % (m.desc(), pts)
        g = f.splitByPoints(arg)
        in_order(rep, g, inp, 'split: ')
        compare(rep, g, m, pts_of(rng, m), inp, 'split: ')
        rep.close(atoms_of(g), sorted(m.at.items()), 'split: atoms', inp)
        want = []
        for a, b, kd, fn in m.p:
            e = [a] + sorted({p for p in pts if a < p < b}) + [b]
            n = len(e) - 1
            for j in range(n): want.append((e[j], e[j + 1], kd if n == 1 or kd in 'l-' and j == 0 or kd in 'r+' and j == n - 1 else 'f'))
        rep.same(sorted((s.a, s.b, kind(s)) for s in g.segments if not s.isDirac()), sorted(want), 'split: pieces', inp)
        compare(rep, f, m, pts_of(rng, m)[:4], inp, 'original after splitting: ')

@D.check
def restriction(rep, rng):
    for k in range(rep.scale(150)):
        m = rand_model(rng)
        f, order = build(rng, m)
        a, b = sorted(rng.choice(GRID, 2, replace=False))
        if rng.uniform() < .15: a = -INF
        if rng.uniform() < .15: b = INF
        inp = '%s restricted to [%s,%s]' % (m.desc(), a, b)
        g = f.restrictToInterval(a, b)
        in_order(rep, g, inp, 'restricted: ')
        xs = [x for x in pts_of(rng, m) if abs(x - a) > 1e-6 and abs(x - b) > 1e-6]
        compare(rep, g, lambda x: m(x) if a < x < b else 0.0, xs, inp, 'restricted: ')
        rep.close(atoms_of(g), sorted((x, w) for x, w in m.at.items() if a <= x < b), 'restricted: atoms of [a,b)', inp)

OPS = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv)]

@D.check
def pairs(rep, rng):
    for k in range(rep.scale(150)):
        nm, op = OPS[k % 4]
        m, n = rand_model(rng, atoms=nm == '+'), rand_model(rng, atoms=nm == '+', pos=nm == '/')
        f, _ = build(rng, m); g, _ = build(rng, n)
        inp = '(%s) %s (%s)' % (m.desc(), nm, n.desc())
        h = op(f, g)
        in_order(rep, h, inp, 'f%sg: ' % nm)
        xs = pts_of(rng, m, n)
        if nm == '/': xs = [x for x in xs if n(x) != 0]
        compare(rep, h, lambda x: op(m(x), n(x)), xs, inp, 'f%sg: ' % nm)
        if nm == '+':
            w = dict(m.at)
            for x, v in n.at.items(): w[x] = w.get(x, 0) + v
            rep.close(atoms_of(h), sorted(w.items()), 'f+g: atoms', inp)
        for s in h.segments:
            if s.isDirac(): continue
            lp = any(q[2] == 'l' and q[0] == s.a and q[1] >= s.b for q in m.p + n.p); rp = any(q[2] == 'r' and q[1] == s.b and q[0] <= s.a for q in m.p + n.p)
            if lp and not rp: rep.ok(s.hasLeftPole(), 'f%sg: pole of an operand is kept' % nm, inp + ' piece %s' % s)
            if rp and not lp: rep.ok(s.hasRightPole(), 'f%sg: pole of an operand is kept' % nm, inp + ' piece %s' % s)
        compare(rep, f, m, xs[:3], inp, 'first operand afterwards: ')
        compare(rep, g, n, xs[:3], inp, 'second operand afterwards: ')
        rep.close(atoms_of(f), sorted(m.at.items()), 'first operand afterwards: atoms', inp)
        rep.close(atoms_of(g), sorted(n.at.items()), 'second operand afterwards: atoms', inp)

SC = [('f+r', lambda f, r: f + r), ('r+f', lambda f, r: r + f), ('f-r', lambda f, r: f - r), ('r-f', lambda f, r: r - f), ('f*r', lambda f, r: f * r), ('r*f', lambda f, r: r * f), ('f/r', lambda f, r: f / r), ('r/f', lambda f, r: r / f)]
FN = [('exp', lambda f: f.exp(), math.exp), ('log', lambda f: f._log(), math.log), ('-log', lambda f: f._log1(), lambda v: -math.log(v)), ('**2', lambda f: f ** 2, lambda v: v ** 2), ('**0.5', lambda f: f ** 0.5, lambda v: v ** .5)]

@D.check
def numbers_and_functions(rep, rng):
    for k in range(rep.scale(90)):
        m = rand_model(rng, pos=True)
        f, _ = build(rng, m)
        r = float(rng.choice([2.0, -1.5, 0.25, 3, 1])) if rng.uniform() < .7 else int(rng.choice([2, -3, 1]))
        xs = [x for x in pts_of(rng, m) if m(x) != 0]
        if not xs: continue
        for nm, op in SC:
            h = op(f, r); inp = '%s r=%s %s' % (nm, r, m.desc())
            compare(rep, h, lambda x: op(m(x), r), xs, inp, nm + ': ')
            rep.close(atoms_of(h), sorted((x, op(w, r)) for x, w in m.at.items()), nm + ': atoms', inp)
            in_order(rep, h, inp)
            rep.same([kind(s) for s in h.segments], [kind(s) for s in f.segments], nm + ': kinds of pieces', inp)
        for nm, call, fn in FN:
            h = call(f); inp = '%s %s' % (nm, m.desc())
            compare(rep, h, lambda x: fn(m(x)), xs, inp, nm + ': ')
            in_order(rep, h, inp)
            rep.same([kind(s) for s in h.segments], [kind(s) for s in f.segments], nm + ': kinds of pieces', inp)

@D.check
def construction(rep, rng):
    for k in range(rep.scale(60)):
        n = int(rng.integers(2, 7))
        br = [float(x) for x in np.sort(rng.choice(GRID, n, replace=False))]
        lp, rp = [False] * n, [False] * n
        if rng.uniform() < .4: br[0] = -INF
        if n > 2 and rng.uniform() < .4: br[-1] = INF
        want = []
        for j in range(n - 1):
            if np.isinf(br[j]): want.append('-'); continue
            if np.isinf(br[j + 1]): want.append('+'); continue
            t = rng.uniform()
            if t < .3: lp[j] = True; want.append('l')
            elif t < .6: rp[j + 1] = True; want.append('r')
            else: want.append('f')
        fn = Poly([.3, .7, 1.1])
        use = any(lp) or any(rp)
        f = S.PiecewiseFunction(fun=fn, breakPoints=br, lpoles=lp, rpoles=rp) if use else S.PiecewiseFunction(fun=fn, breakPoints=br)
        inp = 'breakPoints=%s lpoles=%s rpoles=%s' % (br, lp, rp)
        rep.same([(s.a, s.b, kind(s)) for s in f.segments], [(br[j], br[j + 1], want[j]) for j in range(n - 1)], 'pieces of a constructed function', inp)
        m = Model([(br[0], br[-1], 'f', fn)], {})
        xs = [x for x in rng.uniform(-4, 4, 9) if all(abs(x - e) > 1e-6 for e in br)]
        compare(rep, f, m, xs, inp, 'constructed: ')

@D.check
def distributions_stay(rep, rng):
    """operations keep the class of the container"""
    for k in range(rep.scale(10)):
        m = rand_model(rng)
        f, _ = build(rng, m, S.PiecewiseDistribution)
        for nm, h in [('split', f.splitByPoints([0.0])), ('restrict', f.restrictToInterval(-1, 1)), ('+', f + f), ('*2', f * 2)]:
            rep.ok(isinstance(h, S.PiecewiseDistribution), nm + ' of a distribution is a distribution', m.desc())
