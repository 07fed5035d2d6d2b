"""C01  affine change of variables: Y = scale*X + shift has density f((y-shift)/scale)/|scale|"""
from pyvc.spec import *
P = Registry()
S = mod('pacal.segments')
D = mod('pacal.distr')

MIRROR = {'finite': 'finite', 'minf': 'pinf', 'pinf': 'minf', 'lpole': 'rpole', 'rpole': 'lpole', 'dirac': 'dirac'}

def affine_ok(c, s, r, shift, scale, lab):
    """r is the image of segment s under x -> scale*x+shift"""
    pos = bool(scale > 0)
    want = s._k if pos else MIRROR[s._k]
    c.ensure(seg_kind(r) == want, lab + ': kind of the image segment', '%s -> %s' % (s._k, seg_kind(r)))
    if s._k == 'dirac':
        c.ensure_eq(r.a, s._a * scale + shift, lab + ': atom moves to scale*a+shift')
        c.ensure_eq(r.b, s._a * scale + shift, lab + ': atom moves to scale*a+shift (right end)')
        c.ensure_eq(r.f, s._f, lab + ': atom keeps its mass')
        return
    lo, hi = (s._a, s._b) if pos else (s._b, s._a)
    c.ensure_eq(r.a, lo * scale + shift, lab + ': left end')
    c.ensure_eq(r.b, hi * scale + shift, lab + ': right end')
    y = c.real('y')
    c.ensure_eq(r.f(y), s._f((y - shift) / scale) / abs(scale), lab + ': density f((y-shift)/scale)/|scale| (scalar)')
    t, v = at_array(c, r.f)
    c.ensure_eq(v, s._f((t - shift) / scale) / abs(scale), lab + ': density (array of any length)')

@P.contract(['segments.Segment.shiftAndScale', 'segments.MInfSegment.shiftAndScale', 'segments.PInfSegment.shiftAndScale',
             'segments.SegmentWithPole.shiftAndScale', 'segments.DiracSegment.shiftAndScale', 'segments._shift_and_scale'])
def segment_shift_and_scale(c):
    s = sym_segment(c, S, 's')
    shift, scale = c.real('shift'), c.real('scale')
    c.assume(Not(scale == 0))
    r = s.shiftAndScale(shift, scale)
    affine_ok(c, s, r, shift, scale, 'shiftAndScale')

@P.contract(['segments.PiecewiseFunction.copyShiftedAndScaled'])
def container_copy_shifted_and_scaled(c):
    segs = sym_segments(c, S)
    pw = piecewise(S, 'PiecewiseDistribution', segs)
    shift, scale = c.real('shift'), c.real('scale')
    c.assume(Not(scale == 0))
    with patched(recorded_adds(S)):
        r = pw.copyShiftedAndScaled(shift, scale)
    c.ensure(r is not pw and type(r) is type(pw), 'copyShiftedAndScaled: new object of the same class')
    one_image_per_segment(c, r, segs, lambda s, t: affine_ok(c, s, t, shift, scale, 'copyShiftedAndScaled'), 'copyShiftedAndScaled')

@P.contract(['distr.ShiftedScaledDistr.__init__', 'distr.ShiftedScaledDistr.pdf', 'distr.ShiftedScaledDistr.init_piecewise_pdf',
             'distr.ShiftedScaledDistr.rand_op', 'rv.ShiftedScaledRV.__init__'])
def shifted_scaled_distr(c):
    d = abstract_distr(c, D, 'd')
    shift, scale = c.real('shift'), c.real('scale')
    c.assume(Not(scale == 0))
    e = D.ShiftedScaledDistr(d, shift=shift, scale=scale)
    x = c.real('x')
    want = lambda t: d._f((t - shift) / scale) / abs(scale)
    c.ensure_eq(e.pdf(x), want(x), 'pdf = f((x-shift)/scale)/|scale|')
    t, v = at_array(c, e.pdf)
    c.ensure_eq(v, want(t), 'pdf on arrays')
    lo, hi = e.range()
    pos = bool(scale > 0)
    c.ensure_eq(lo, (d.a if pos else d.b) * scale + shift, 'range: lower end')
    c.ensure_eq(hi, (d.b if pos else d.a) * scale + shift, 'range: upper end')
    n = c.int('n')
    r = e.rand_op(n, None)
    ef = [k for k in c.effects if k[0] == 'rand']
    c.ensure(len(ef) == 1 and ef[0][1] is d, 'rand: one draw of the argument')
    if len(ef) == 1: c.ensure_eq(r, ef[0][4] * scale + shift, 'rand: scale*draw+shift')
    class Rec:
        def copyShiftedAndScaled(self, *a, **k):
            c.effects.append(('csas', a, k)); return 'PW'
    d._pw = Rec()
    e.init_piecewise_pdf()
    ef = [k for k in c.effects if k[0] == 'csas']
    c.ensure(len(ef) == 1 and e.piecewise_pdf == 'PW', 'piecewise pdf is the shifted and scaled piecewise pdf of the argument')
    if len(ef) == 1:
        a = list(ef[0][1]); k = ef[0][2]
        sh = a[0] if len(a) > 0 else k.get('shift', 0); sc = a[1] if len(a) > 1 else k.get('scale', 1)
        c.ensure_eq(sh, shift, 'piecewise pdf: shift passed on')
        c.ensure_eq(sc, scale, 'piecewise pdf: scale passed on')

def op_cases(r):
    return {'d+r': lambda d: d + r, 'r+d': lambda d: r + d, 'd-r': lambda d: d - r, 'r-d': lambda d: r - d,
            'd*r': lambda d: d * r, 'r*d': lambda d: r * d, 'd/r': lambda d: d / r, '-d': lambda d: -d}

def op_expect(name, r, x):
    """value of the operation at the outcome x"""
    return {'d+r': lambda: x + r, 'r+d': lambda: x + r, 'd-r': lambda: x - r, 'r-d': lambda: r - x,
            'd*r': lambda: x * r, 'r*d': lambda: x * r, 'd/r': lambda: x / r, '-d': lambda: -x}[name]()

@P.contract(['distr.Distr.__add__', 'distr.Distr.__radd__', 'distr.Distr.__sub__', 'distr.Distr.__rsub__', 'distr.Distr.__mul__',
             'distr.Distr.__rmul__', 'distr.Distr.__truediv__', 'distr.Distr.__neg__'])
def operators_with_reals(c):
    """X op r denotes the random variable whose outcome is (outcome of X) op r"""
    d = abstract_distr(c, D, 'd')
    r = c.real('r')
    names = list(op_cases(r))
    op = names[c.choose(len(names), 'op')]
    if op in ('d*r', 'r*d', 'd/r'): c.assume(Not(r == 0))
    # Num implements the reflected operators itself, so call the distribution's methods as CPython would for a float
    meth = {'d+r': '__add__', 'r+d': '__radd__', 'd-r': '__sub__', 'r-d': '__rsub__', 'd*r': '__mul__', 'r*d': '__rmul__', 'd/r': '__truediv__', '-d': '__neg__'}[op]
    e = getattr(d, meth)(*([] if op == '-d' else [r]))
    x = c.real('outcome')
    if e is d:
        c.ensure_eq(op_expect(op, r, x), x, op + ': result may be the argument itself only for the identity map')
        return
    c.ensure(isinstance(e, D.ShiftedScaledDistr) and e.d is d, op + ': affine image of the argument', repr(type(e)))
    if isinstance(e, D.ShiftedScaledDistr):
        c.ensure_eq(e.scale * x + e.shift, op_expect(op, r, x), op + ': scale*x+shift equals the operation')
        c.ensure(Not(e.scale == 0), op + ': scale is not zero')
