"""P33: evaluation and export never change the inputs or the model."""
import copy
import numpy
from symx import arr
from symx.harness import Case
from . import p31
from .p20 import rotation, offpole
from .p16 import Parts

BOUNDS = ('arrays of 1 to 3 arbitrary numbers in each array input (one- and two-dimensional, also lists), each function called with '
          'the inputs, with other inputs of the same shape, and again with the first; models of degree 1 to 3, order 1 to 3 with all '
          'parts present')
OUTSIDE = 'changes a caller makes to arrays that a function has returned; caches in files'
ASSUMPTIONS = 'none beyond the library contracts'


# --- snapshots -------------------------------------------------------------------------------------------------------

def is_array(x):
    return isinstance(x, numpy.ndarray)


def snap(x):
    """Deep copy of the numbers."""
    if is_array(x):
        return x.copy()
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(snap(v) for v in x) if type(x) in (list, tuple) else tuple(snap(v) for v in x)
    return x


def number(x):
    return arr.issym(x) or isinstance(x, (int, float, complex, numpy.number)) and not isinstance(x, bool)


def compare(ctx, label, now, before, tol):
    if is_array(before) or is_array(now):
        ctx.check(label + ': kind', is_array(before) == is_array(now))
        if is_array(before) and is_array(now):
            if before.dtype.kind in 'USb' or str(getattr(before, 'vd', '')) == 'bool':
                ctx.check(label, numpy.array_equal(numpy.asarray(now), numpy.asarray(before)))
            elif before.dtype.kind == 'M' or getattr(before, 'vd', numpy.dtype(float)).kind == 'M':
                ctx.check(label, ctx.np.all(now == before))
            else:
                ctx.equal(label, now, before, tol)
    elif isinstance(before, dict):
        ctx.check(label + ': keys', isinstance(now, dict) and list(now) == list(before))
        for k in before:
            if isinstance(now, dict) and k in now:
                compare(ctx, '%s[%s]' % (label, k), now[k], before[k], tol)
    elif isinstance(before, (list, tuple)):
        ctx.check(label + ': length', isinstance(now, (list, tuple)) and len(now) == len(before))
        for i, (a, b) in enumerate(zip(now, before)):
            compare(ctx, '%s[%d]' % (label, i), a, b, tol)
    elif number(before):
        ctx.equal(label, now, before, tol)
    elif isinstance(before, (str, bool, type(None))):
        ctx.check(label, now == before)


def state(m):
    """All numbers of a model."""
    out = {}
    for k, v in vars(m).items():
        if k == 'timestamp':      # time of creation
            continue
        if hasattr(v, 'synth_coeffs'):
            out[k] = state(v)
        elif isinstance(v, dict) and any(hasattr(x, 'synth_coeffs') for x in v.values()):
            out[k] = {a: state(b) for a, b in v.items()}
        elif is_array(v) or isinstance(v, (dict, list, tuple, str, int, float, type(None))) or arr.issym(v):
            out[k] = snap(v)
    return out


def config(ctx):
    return {k: snap(v) for k, v in dict.items(ctx.mod('config_utils').basicConfig)}


def three(ctx, fn, first, other, kw=None, model=None, tol=1e-9, again=True, files=()):
    """Call with the first inputs, the other ones and the first ones again."""
    kw = kw or {}
    conf = config(ctx)
    s = state(model) if model is not None else None
    a0, b0, k0 = snap(first), snap(other), snap(kw)
    r1, _ = ctx.warned(lambda: fn(*first, **kw))
    k1 = snap(r1)
    f1 = [ctx.read_rows(f) for f in files]
    compare(ctx, 'inputs', first, a0, 0.0)
    ctx.warned(lambda: fn(*other, **kw))
    compare(ctx, 'other inputs', other, b0, 0.0)
    if again:
        compare(ctx, 'earlier result', r1, k1, 0.0)
    r2, _ = ctx.warned(lambda: fn(*first, **kw))
    compare(ctx, 'inputs after three calls', first, a0, 0.0)
    compare(ctx, 'options', kw, k0, 0.0)
    if again:
        compare(ctx, 'repeated result', r2, k1, tol)
    for i, f in enumerate(files):
        rows = ctx.read_rows(f)
        drop = [r for r in rows if 'Created' not in r]
        compare(ctx, 'repeated file', drop, [r for r in f1[i] if 'Created' not in r], tol)
    compare(ctx, 'configuration', config(ctx), conf, 0.0)
    if model is not None:
        compare(ctx, 'model', state(model), s, 0.0)


# --- arguments -------------------------------------------------------------------------------------------------------

class Args:
    def __init__(self, ctx, shape, tag, listed=False):
        self.ctx, self.shape, self.tag, self.listed = ctx, shape, tag, listed

    def make(self, name, lo, hi, angle=False, shape=None):
        shape = self.shape if shape is None else shape
        name = self.tag + name
        if shape == ():
            return self.ctx.angle(name, lo, hi) if angle else self.ctx.var(name, lo, hi)
        v = self.ctx.angles(name, shape, lo, hi) if angle else self.ctx.vec(name, shape, lo, hi)
        if self.listed:
            return [v[i] for i in range(shape[0])]
        return v

    def r(self):
        return 6371.2 * self.make('X', 0.9, 1.5) if not self.listed else [6371.2 * x for x in self.make('X', 0.9, 1.5)]

    def th(self, **k):
        return self.make('th', 1.0, 179.0, True, **k)

    def ph(self, **k):
        return self.make('ph', -180.0, 360.0, True, **k)

    def t(self, lo=0.5, hi=39.5):
        return self.make('t', lo, hi)

    def b(self, c='x'):
        return self.make('B' + c, -1e4, 1e4)

    def g(self, nmax, lead=()):
        return self.ctx.vec(self.tag + 'g', lead + (nmax * (nmax + 2),), -1e4, 1e4)


def twice(ctx, shape, build, listed=False):
    return build(Args(ctx, shape, 'a', listed)), build(Args(ctx, shape, 'b', listed))


def field(ctx, shape, listed, kw, lead):
    mu = ctx.mod('model_utils')
    a, b = twice(ctx, shape, lambda A: (A.g(2, lead), A.r(), A.th(), A.ph()), listed)
    three(ctx, mu.synth_values, a, b, kw)


def grid(ctx, kw):
    mu = ctx.mod('model_utils')

    def build(A):
        return A.g(2), 6371.2 * ctx.var(A.tag + 'X', 0.9, 1.5), A.th(shape=(2,)), A.ph(shape=(2,))
    a, b = twice(ctx, (2,), build)
    three(ctx, mu.synth_values, a, b, dict(kw, grid=True))


def design(ctx, shape, listed, kw):
    mu = ctx.mod('model_utils')
    a, b = twice(ctx, shape, lambda A: (A.r(), A.th(), A.ph(), 2), listed)
    three(ctx, mu.design_gauss, a, b, kw)


def legendre(ctx, shape):
    mu = ctx.mod('model_utils')
    a, b = twice(ctx, shape, lambda A: (3, A.th()))
    three(ctx, mu.legendre_poly, a, b)


def spectra(ctx, which):
    mu = ctx.mod('model_utils')
    if which == 'power':
        a, b = twice(ctx, (), lambda A: (A.g(2, (2,)), 6371.2 * A.make('X', 0.9, 1.5)))
        three(ctx, mu.power_spectrum, a, b, {'axis': -1})
    elif which == 'external':
        a, b = twice(ctx, (), lambda A: (A.g(2), A.r()))
        three(ctx, mu.power_spectrum, a, b, {'source': 'external', 'nmax': 1})
    elif which == 'correlation':
        a, b = twice(ctx, (), lambda A: (A.g(2), Args(ctx, (), A.tag + 'h').g(2)))
        for x in (a, b):
            for y in x:
                for lo, hi in ((0, 3), (3, 8)):
                    ctx.assume(ctx.np.sum(y[lo:hi]**2) > 1.0)
        three(ctx, mu.degree_correlation, a, b, tol=1e-6)
    else:
        a, b = twice(ctx, (), lambda A: (A.g(2), Args(ctx, (), A.tag + 'h').g(2)))
        for x in (a, b):
            for lo, hi in ((0, 3), (3, 8)):
                ctx.assume(ctx.np.sum(x[1][lo:hi]**2) > 1.0)
        three(ctx, mu.sensitivity, a, b, tol=1e-6)


def splines(ctx, which, order):
    np, mu = ctx.np, ctx.mod('model_utils')
    br = np.array([0.0, 10.0, 40.0])
    kn = np.array([0.0] * order + [10.0] + [40.0] * order)
    n = order + 1
    if which == 'colloc':
        a, b = twice(ctx, (2,), lambda A: (A.t(0.1, 39.9), kn, order))
        three(ctx, mu.colloc_matrix, a, b, {'deriv': 1} if order > 1 else {})
    elif which == 'augment':
        three(ctx, mu.augment_breaks, (ctx.increasing('p', 3, 0., 5., (1., 2.)), order),
              (ctx.increasing('q', 3, 0., 5., (1., 2.)), order))
    elif which == 'convert':
        three(ctx, mu.pp_from_bspline, (ctx.vec('c', (n, 2)), kn, order), (ctx.vec('d', (n, 2)), kn, order), tol=1e-9)
    elif which == 'design':
        def build(A):
            return (kn, order, 1, A.t(), A.r(), A.th(), A.ph())
        a, b = twice(ctx, (2,), build)
        three(ctx, mu.design_matrix, a, b, {'n_static': 2} if order > 1 else {})
    else:
        def build(A):
            return (br, order, ctx.vec(A.tag + 'c', (order, 2, 3)), A.t(), A.r(), A.th(), A.ph())
        a, b = twice(ctx, (2,), build)
        three(ctx, mu.synth_from_pp, a, b, {'deriv': 1} if order > 1 else {})


def coordinates(ctx, which, shape, listed=False):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    T = {
        'cartesian': (cu.spherical_to_cartesian, lambda A: (A.r(), A.th(), A.ph()), {}),
        'spherical': (cu.cartesian_to_spherical, lambda A: (A.make('x', 1.0, 2.0), A.make('y', 1.0, 2.0), A.make('z', 1.0, 2.0)), {}),
        'azimuth': (cu.center_azimuth, lambda A: (A.ph(),), {}),
        'local time': (cu.local_time, lambda A: (A.t(), A.ph()), {}),
        'sun': (cu.sun_position, lambda A: (A.t(*day(A)),), {}),
        'zenith': (cu.zenith_angle, lambda A: (A.t(*day(A)), A.th(), A.ph()), {}),
        'use': (cu.basevectors_use, lambda A: (A.th(), A.ph()), {}),
        'gg': (cu.basevectors_gg, lambda A: (A.th(), A.make('be', 1.0, 179.0, True)), {}),
        'geodetic': (cu.gg_to_geo, lambda A: (A.make('h', 0.0, 800.0), A.th(), A.b('x'), A.b('z')), {}),
        'gsm': (cu.basevectors_gsm, lambda A: (A.t(*day(A)),), {'dipole': np.array([-29442.0, -1501.0, 4797.1])}),
        'sm': (cu.basevectors_sm, lambda A: (A.t(*day(A)),), {'dipole': (9.5, -72.5)}),
    }
    fn, build, kw = T[which]
    a, b = twice(ctx, shape, build, listed)
    if which in ('zenith', 'gsm', 'sm'):
        with Ephemeris(ctx):
            three(ctx, fn, a, b, kw, tol=1e-6)
    else:
        three(ctx, fn, a, b, kw, tol=1e-6, again=which != 'sun')


class Ephemeris:
    """Stands for the ephemeris (whose own inputs are the 'sun' cases)."""

    def __init__(self, ctx):
        self.ctx, self.cu = ctx, ctx.mod('coordinate_utils')

    def __call__(self, time):
        np = self.ctx.np
        x = np.asarray(time, dtype=float)
        if np.shape(x) == ():
            return 77.25, -13.75
        return np.reshape(np.array([77.25] * x.size), np.shape(x)), np.reshape(np.array([-13.75] * x.size), np.shape(x))

    def __enter__(self):
        self.old = self.cu.sun_position
        self.cu.sun_position = self
        return self

    def __exit__(self, *a):
        self.cu.sun_position = self.old


def sun_days(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    three(ctx, cu.sun_position, (np.array([8000.25, -300.5]),), (np.array([4200.75, 12000.0]),))
    three(ctx, cu.sun_position, (np.array([[8000.25], [-300.5]]),), (np.array([[4200.75], [12000.0]]),))


def day(A):
    """A part of one day."""
    return (8000.1, 8000.4) if A.tag == 'a' else (4200.6, 4200.9)


def dipoles(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    three(ctx, cu.dipole_to_vec, (ctx.vec('d', 3, 1.0, 3.0),), (ctx.vec('e', 3, 1.0, 3.0),))
    three(ctx, cu.dipole_to_vec, (tuple(ctx.angles('p', 2, 5., 90.)),), (tuple(ctx.angles('q', 2, 5., 90.)),))
    three(ctx, cu.basevectors_mag, (ctx.vec('u', 3, 1.0, 3.0),), (ctx.vec('v', 3, 1.0, 3.0),), tol=1e-6)
    for e in ('2010', '2015'):
        three(ctx, cu.igrf_dipole, (e,), ('2015',))


def frames(ctx, which, n):
    cu, np = ctx.mod('coordinate_utils'), ctx.np

    def build(A):
        R = rotation(ctx, A.tag + 'R')
        th, ph = A.th(), A.ph()
        offpole(ctx, R, th[0] if n else th, ph[0] if n else ph, False) if n < 2 else [
            offpole(ctx, R, th[i], ph[i], False) for i in range(n)]
        base = tuple(np.array([R[i] for _ in range(n)]) if n else np.array(R[i]) for i in range(3))
        return (th, ph) + base
    a, b = twice(ctx, (n,) if n else (), build)
    if which == 'points':
        three(ctx, cu.geo_to_base, a, b, tol=1e-6)
        three(ctx, cu.geo_to_base, a, b, {'inverse': True}, tol=1e-6)
    else:
        three(ctx, cu.matrix_geo_to_base, a, b, tol=1e-6)


def gauss(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R, S = rotation(ctx, 'R'), rotation(ctx, 'S')
    three(ctx, cu.rotate_gauss, (1, 1) + tuple(np.array(R[i]) for i in range(3)), (1, 1) + tuple(np.array(S[i]) for i in range(3)),
          tol=1e-6)


def series(ctx, scaled):
    cu, np = ctx.mod('coordinate_utils'), ctx.np

    def build(tag):
        return (ctx.vec(tag + 't', 2, -50., 50.), np.array([0.0, 1.0]),
                ctx.vec(tag + 'a', (2, 1, 2), -5., 5.) + 1j * ctx.vec(tag + 'b', (2, 1, 2), -5., 5.))
    three(ctx, cu.synth_rotate_gauss, build('p'), build('q'), {'scaled': scaled}, tol=1e-7)


def analysis(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    g = ctx.vec('g', 3, -100., 100.)
    seen = []

    def func(theta, phi):
        if seen:
            ctx.check('grid', np.shape(theta) == np.shape(seen[0][0]))
            ctx.equal('same colatitudes', theta, seen[0][0], 0.0)
            ctx.equal('same longitudes', phi, seen[0][1], 0.0)
        seen.append((snap(theta), snap(phi)))
        return g[0] * numpy.cos(numpy.radians(numpy.asarray(theta, dtype=float))) + g[1]
    three(ctx, cu.sh_analysis, (func, 1), (func, 1), tol=1e-7)


def dates(ctx, which):
    du, np = ctx.mod('data_utils'), ctx.np
    if which == 'mjd':
        a = (ctx.vec('y', 2, 1950.0, 2050.0),)
        b = (ctx.vec('z', 2, 1950.0, 2050.0),)
        three(ctx, du.dyear_to_mjd, a, b, {'leap_year': False})
    elif which == 'dyear':
        a = (ctx.vec('y', 2, -5000.0, 5000.0),)
        b = (ctx.vec('z', 2, -5000.0, 5000.0),)
        three(ctx, du.mjd_to_dyear, a, b, {'leap_year': False})
    elif which == 'leap':
        a = (np.array([2000, 1900, 2004]),)
        three(ctx, du.is_leap_year, a, (np.array([2001, 1800, 2008]),))
    elif which == 'leap dates':
        a, b = (np.array([2000.25, 1900.5]),), (np.array([2004.75, 1800.5]),)
        three(ctx, du.dyear_to_mjd, a, b, {'leap_year': True})
        three(ctx, du.mjd_to_dyear, (np.array([100.5, -2000.25]),), b, {'leap_year': True})
    elif which == 'fields':
        a = (np.array([2000, 1900]), np.array([1, 12]), np.array([3, 4]))
        three(ctx, du.mjd2000, a, (np.array([2001, 1901]), np.array([2, 11]), np.array([5, 6])))
    else:
        three(ctx, du.timestamp, (np.array([0.5, 100.25]),), (np.array([1.5, -100.25]),))


def shc(ctx, n, nmin):
    du, np = ctx.mod('data_utils'), ctx.np
    f = ctx.tmp('x.shc')
    a = (ctx.vec('t', n, -100., 100.), ctx.vec('c', (n, 8), -1e4, 1e4))
    b = (ctx.vec('s', n, -100., 100.), ctx.vec('d', (n, 8), -1e4, 1e4))
    three(ctx, du.save_shcfile, a, b, dict(filepath=f, nmin=nmin, order=2, leap_year=False), files=[f], tol=1e-7)
    three(ctx, du.load_shcfile, (f,), (f,), dict(leap_year=False))


def base(ctx, which, order, kw, shape=(2,)):
    """Functions of one model."""
    np, ch = ctx.np, ctx.mod('chaos')
    br, c = np.array([0.0, 10.0, 40.0]), ctx.vec('c', (order, 2, 8))
    meta = {'params': {'a': [1.0, 2.0]}}
    m = ch.BaseModel('name', br, order, c, meta=meta)
    c0, b0, m0 = snap(c), snap(br), snap(meta)
    if which == 'coeffs' and shape != (2,):
        a, b = twice(ctx, shape, lambda A: (A.t(),))
        three(ctx, m.synth_coeffs, a, b, kw, model=m)
    elif which == 'coeffs':
        for i, ((lo, hi), (l2, h2)) in enumerate((((-20., -1.), (41., 60.)), ((0.5, 9.5), (-20., -1.)), ((10.5, 39.5), (0.5, 9.5)))):
            a = (np.array([ctx.var('at%d' % i, lo, hi), ctx.var('as%d' % i, l2, h2)]),)
            b = (np.array([ctx.var('bt%d' % i, l2, h2), 10.0]),)
            three(ctx, m.synth_coeffs, a, b, kw, model=m)
    elif which == 'values':
        a, b = twice(ctx, shape, lambda A: (A.t(), A.r(), A.th(), A.ph()))
        three(ctx, m.synth_values, a, b, kw, model=m)
    elif which == 'power':
        a, b = twice(ctx, (), lambda A: (A.t(), 6371.2 * A.make('X', 0.9, 1.5)))
        three(ctx, m.power_spectrum, a, b, kw, model=m)
    elif which == 'pp':
        three(ctx, m.to_ppdict, (), (), model=m)
    elif which == 'mat':
        count = iter('abcdef')
        three(ctx, lambda **k: m.save_matfile(ctx.tmp('%s.mat' % next(count)), **k), (), (), kw, model=m)
    else:
        f = ctx.tmp('x.shc')
        three(ctx, m.to_shc, (f,), (f,), kw, model=m, files=[f], tol=1e-7)
    compare(ctx, 'coefficients passed in', c, c0, 0.0)
    compare(ctx, 'break points passed in', br, b0, 0.0)
    compare(ctx, 'information passed in', meta, m0, 0.0)


def full(ctx, which, kw, shape=(2,)):
    """Functions of the complete model."""
    ch, np = ctx.mod('chaos'), ctx.np
    m = p31.build(ctx)
    p31.files(ctx)
    T = {
        'call': (m, lambda A: (A.t(), A.r(), A.th(), A.ph())),
        'tdep coeffs': (m.synth_coeffs_tdep, lambda A: (A.t(),)),
        'tdep values': (m.synth_values_tdep, lambda A: (A.t(), A.r(), A.th(), A.ph())),
        'static coeffs': (m.synth_coeffs_static, lambda A: ()),
        'static values': (m.synth_values_static, lambda A: (A.r(), A.th(), A.ph())),
        'gsm coeffs': (m.synth_coeffs_gsm, lambda A: (A.t(),)),
        'gsm values': (m.synth_values_gsm, lambda A: (A.t(), A.r(), A.th(), A.ph())),
        'sm coeffs': (m.synth_coeffs_sm, lambda A: (A.t(),)),
        'sm values': (m.synth_values_sm, lambda A: (A.t(), A.r(), A.th(), A.ph())),
        'text': (m.__str__, lambda A: ()),
    }
    fn, build = T[which]
    kw = dict(kw)
    if kw.pop('given', False):
        if which == 'sm coeffs':
            kw['rc'] = ctx.vec('rc', shape, -20., 20.) if shape else ctx.var('rc', -20., 20.)
        elif shape:
            kw['rc_e'], kw['rc_i'] = ctx.vec('rce', shape, -20., 20.), ctx.vec('rci', shape, -20., 20.)
        else:
            kw['rc_e'], kw['rc_i'] = ctx.var('rce', -20., 20.), ctx.var('rci', -20., 20.)
    a, b = twice(ctx, shape, build)
    three(ctx, fn, a, b, kw, model=m, tol=1e-7)


def files(ctx, which):
    """Export and import of the complete model."""
    ch, np = ctx.mod('chaos'), ctx.np
    p = Parts(ctx, order=2, pieces=2, nt=1, ns=2)
    m = p.model()
    f = ctx.tmp('x.' + which)
    if which == 'mat':
        count = iter('abcdef')
        three(ctx, lambda: m.save_matfile(ctx.tmp('%s.mat' % next(count))), (), (), model=m)
        m.save_matfile(f)
        x = ch.load_CHAOS_matfile(f)
        y = ch.load_CHAOS_matfile(f)
        compare(ctx, 'loaded twice', state(y), state(x), 0.0)
        sats = ['a', 'b']
        s0 = list(sats)
        x = ch.load_CHAOS_matfile(f, satellites=sats)
        ctx.check('names passed in', sats == s0)
    else:
        three(ctx, m.save_shcfile, (f,), (f,), {'model': 'static'}, model=m, files=[f])
        three(ctx, m.save_shcfile, (f,), (f,), {'model': 'static', 'leap_year': True}, model=m, files=[f])


def euler(ctx):
    ch, np = ctx.mod('chaos'), ctx.np
    p = Parts(ctx, order=2, pieces=1, nt=1, ns=2)
    m = p.model()
    a, b = twice(ctx, (2,), lambda A: (A.make('t', -20., -10.), p.names[0]))
    three(ctx, m.synth_euler_angles, a, b, {'extrapolate': 'constant'}, model=m)


def cases(tier):
    out = []

    def add(name, fn, **k):
        out.append(Case(name, fn, **k))
    for shape, listed in (((2,), False), ((1, 2), False), ((2,), True), ((), False)):
        add('field %s %s' % (shape, listed), field, shape=shape, listed=listed, kw={}, lead=())
    add('field, own coefficients', field, shape=(2,), listed=False, kw={}, lead=(2,))
    for kw in ({'source': 'external'}, {'nmax': 1}, {'nmin': 2}, {'mmax': 0}, {'source': 'internal', 'nmin': 1, 'mmax': 1}):
        add('field %s' % kw, field, shape=(2,), listed=False, kw=kw, lead=())
        add('grid %s' % kw, grid, kw=kw)
    add('grid', grid, kw={})
    for shape, listed in (((2,), False), ((1, 2), False), ((2,), True)):
        for kw in ({}, {'source': 'external'}, {'nmin': 2}, {'mmax': 1}):
            add('design %s %s %s' % (shape, listed, kw), design, shape=shape, listed=listed, kw=kw)
    for shape in ((2,), (1, 2), ()):
        add('legendre %s' % (shape,), legendre, shape=shape)
    for w in ('power', 'external', 'correlation', 'sensitivity'):
        add('spectra ' + w, spectra, which=w)
    for w in ('colloc', 'augment', 'convert', 'design', 'pp'):
        for order in (1, 2, 3):
            add('splines %s %d' % (w, order), splines, which=w, order=order)
    for w in ('cartesian', 'spherical', 'azimuth', 'local time', 'use', 'gg', 'geodetic', 'sun', 'zenith', 'gsm', 'sm'):
        for shape in ((2,), (1, 2)) if w not in ('sun', 'zenith', 'gsm', 'sm') else ((1,), (1, 1)):
            add('coordinates %s %s' % (w, shape), coordinates, which=w, shape=shape)
    add('dipoles', dipoles)
    add('sun days', sun_days)
    for w in ('points', 'vectors'):
        for n in (0, 1, 2):
            add('frames %s %d' % (w, n), frames, which=w, n=n)
    add('rotation of coefficients', gauss)
    for s in (True, False):
        add('rotation series %s' % s, series, scaled=s)
    add('analysis', analysis)
    for w in ('mjd', 'dyear', 'leap', 'leap dates', 'fields', 'timestamp'):
        add('dates ' + w, dates, which=w)
    for n, nmin in ((1, 1), (2, 1), (3, 2)):
        add('shc %d %d' % (n, nmin), shc, n=n, nmin=nmin)
    for order in (1, 2, 3):
        for kw in ({}, {'deriv': 1}, {'extrapolate': 'off'}, {'extrapolate': 'spline', 'nmax': 1}, {'extrapolate': 'constant'}):
            add('model coeffs %d %s' % (order, kw), base, which='coeffs', order=order, kw=kw)
        add('model values %d' % order, base, which='values', order=order, kw={})
        add('model power %d' % order, base, which='power', order=order, kw={})
        add('model pp %d' % order, base, which='pp', order=order, kw={})
        add('model mat %d' % order, base, which='mat', order=order, kw={})
        add('model shc %d' % order, base, which='shc', order=order, kw={'leap_year': False})
        add('model shc %d nmin' % order, base, which='shc', order=order, kw={'nmin': 2, 'leap_year': True})
    for w in ('tdep coeffs', 'tdep values', 'static coeffs', 'static values', 'gsm coeffs', 'gsm values', 'sm coeffs', 'sm values',
              'text', 'call'):
        add('complete ' + w, full, which=w, kw={})
    add('complete tdep deriv', full, which='tdep values', kw={'deriv': 1})
    add('complete gsm inducing', full, which='gsm values', kw={'source': 'external'})
    for s in ('internal', 'external'):
        add('complete sm given %s' % s, full, which='sm coeffs', kw={'source': s, 'given': True})
    add('complete sm values given', full, which='sm values', kw={'given': True})
    add('complete call given', full, which='call', kw={'given': True, 'source_list': ['sm', 'gsm']})
    for shape in ((), (1,), (1, 2)):
        for w in ('coeffs', 'values'):
            add('model %s %s' % (w, shape), base, which=w, order=2, kw={}, shape=shape)
        for w in ('tdep coeffs', 'tdep values', 'gsm coeffs', 'gsm values', 'sm coeffs', 'sm values', 'call', 'static values'):
            add('complete %s %s' % (w, shape), full, which=w, kw={}, shape=shape)
            if w[:2] == 'sm' or w == 'call':
                add('complete %s given %s' % (w, shape), full, which=w, kw={'given': True}, shape=shape)
        for w in ('gsm coeffs', 'sm coeffs'):
            add('complete %s internal %s' % (w, shape), full, which=w, kw={'source': 'internal'}, shape=shape)
    for w in ('mat', 'shc'):
        add('files ' + w, files, which=w)
    add('euler angles', euler)
    return out
