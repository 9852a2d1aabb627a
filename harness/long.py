"""Long arrays: every element is treated like a single one."""
import math
import numpy


def mixed(ctx, n, lo, hi, syms, turn=0.0):
    """n given values spread over the range (not in order), some replaced by symbolic ones {index: variable}."""
    x = [lo + (hi - lo) * ((0.6180339887 * (i + 1) + 0.37 + turn) % 1.0) for i in range(n)]
    for i, v in syms.items():
        x[i] = v
    return ctx.np.array(x)


def chosen(n, syms):
    return sorted(set(syms) | {0, 1, n // 3, n // 2, n - 2, n - 1} | {k for k in (63, 64, 99, 100, 255, 256, 999, 1000) if k < n})


def elementwise(ctx, f, args, n, at, tol=1e-9, scale=1.0, lead=True, label=''):
    """f of long arrays equals f of the single elements (other cases check those)."""
    np = ctx.np
    got, _ = ctx.warned(lambda: f(*args))
    many = isinstance(got, (tuple, list))
    for i in at:
        one, _ = ctx.warned(lambda: f(*[a[i:i + 1] for a in args]))
        for k, (g, o) in enumerate(zip(got, one) if many else ((got, one),)):
            if i == at[0]:
                ctx.check('%slength %d' % (label, k), np.shape(g) == (n,) + tuple(np.shape(o)[1:]))
            ctx.equal('%selement %d of output %d' % (label, i, k), g[i], o[0], tol, scale)


def legendre(ctx, n):
    np = ctx.np
    th = mixed(ctx, n, 0.0, 180.0, {5: ctx.angle('th', 0.0, 180.0), n - 2: ctx.angle('ti', 0.0, 180.0)})
    T = ctx.mod('model_utils').legendre_poly
    elementwise(ctx, lambda t: np.moveaxis(T(3, t), -1, 0), (th,), n, chosen(n, [5, n - 2]), 1e-10)


def rows(ctx, n):
    mu = ctx.mod('model_utils')
    kn = [0.0, 0.0, 0.0, 100.0, 300.0, 300.0, 400.0, 400.0, 400.0]
    t = mixed(ctx, n, 0.0, 400.0, {5: ctx.var('t', 0.0, 400.0), n - 2: ctx.var('u', 0.0, 400.0)})
    for deriv in (0, 1):
        elementwise(ctx, lambda x: mu.colloc_matrix(x, ctx.np.array(kn), 3, deriv=deriv), (t,), n, chosen(n, [5, n - 2]), 1e-9)


def model(ctx, which, n, kw, outside):
    np, ch, mu = ctx.np, ctx.mod('chaos'), ctx.mod('model_utils')
    br = np.array([0.0, 100.0, 250.0, 400.0])
    c = ctx.vec('c', (3, 3, 3))
    m = ch.BaseModel('name', br, 3, c)
    lo, hi = (-200.0, 700.0) if outside else (0.0, 400.0)
    at = [5, n - 2]
    t = mixed(ctx, n, lo, hi, {5: ctx.var('t', *((-200.0, -1.0) if outside else (0.0, 400.0))), n - 2: ctx.var('u', 0.0, 400.0)})
    if which == 'coeffs':
        elementwise(ctx, lambda x: m.synth_coeffs(x, **kw), (t,), n, chosen(n, at), 1e-9, 1e3)
        return
    X = 6371.2 * mixed(ctx, n, 0.8, 1.6, {}, 0.7)
    th = mixed(ctx, n, 1.0, 179.0, {n - 2: ctx.angle('th', 0.5, 179.5)}, 0.2)
    ph = mixed(ctx, n, -180.0, 360.0, {n - 2: ctx.angle('ph', -360.0, 720.0)}, 0.5)
    f = m.synth_values if which == 'values' else lambda *a: mu.synth_from_pp(br, 3, c, *a)
    elementwise(ctx, f, (t, X, th, ph), n, chosen(n, at), 1e-9, 1e3)


def cartesian(ctx, n):
    cu = ctx.mod('coordinate_utils')
    at = [5, n - 2]
    R = mixed(ctx, n, 0.5, 20.0, {k: ctx.var('R%d' % k, 0.5, 20.0) for k in at})
    th = mixed(ctx, n, 0.5, 179.5, {k: ctx.angle('th%d' % k, 0.5, 179.5) for k in at}, 0.2)
    ph = mixed(ctx, n, -360.0, 720.0, {k: ctx.angle('ph%d' % k, -360.0, 720.0) for k in at}, 0.5)
    elementwise(ctx, cu.spherical_to_cartesian, (R, th, ph), n, chosen(n, at), 1e-8)
    x = [mixed(ctx, n, -10.0, 10.0, {k: ctx.var('%s%d' % (v, k), 0.5, 10.0) for k in at}, 0.31 * i) for i, v in enumerate('xyz')]
    elementwise(ctx, cu.cartesian_to_spherical, tuple(x), n, chosen(n, at), 1e-8)


def frames(ctx, which, n):
    """Base vectors at many times or positions."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    at = [5, n - 2]
    if which in ('gsm', 'sm'):
        t = mixed(ctx, n, -30000.0, 30000.0, {})
        d = np.array([1e4 * ctx.var('g10', -4., -1.5), 1e4 * ctx.var('g11', -1., 1.), 1e4 * ctx.var('h11', -1., 1.)])
        elementwise(ctx, lambda x: getattr(cu, 'basevectors_' + which)(x, d), (t,), n, chosen(n, []), 1e-8)
    else:
        th = mixed(ctx, n, 1.0, 179.0, {k: ctx.angle('th%d' % k, 1.0, 179.0) for k in at}, 0.2)
        ph = mixed(ctx, n, 1.0, 179.0, {k: ctx.angle('ph%d' % k, 1.0, 179.0) for k in at}, 0.5)
        elementwise(ctx, getattr(cu, 'basevectors_' + which), (th, ph), n, chosen(n, at), 1e-8)


def moved(ctx, n, inverse):
    """Many points with a frame each."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    at = [5]
    th = mixed(ctx, n, 1.0, 179.0, {k: ctx.angle('th%d' % k, 1.0, 179.0) for k in at}, 0.2)
    ph = mixed(ctx, n, 1.0, 359.0, {k: ctx.angle('ph%d' % k, 1.0, 359.0) for k in at}, 0.5)
    w = np.array([2 * math.pi * ((0.618 * i + 0.1) % 1.0) for i in range(n)])
    z = np.zeros(n)
    base = [np.stack(v, axis=-1) for v in ((np.cos(w), np.sin(w), z), (-0.6 * np.sin(w), 0.6 * np.cos(w), z + 0.8),
                                           (0.8 * np.sin(w), -0.8 * np.cos(w), z + 0.6))]
    from . import oracle
    ct, st = oracle.trig(np, th[5])
    cp, sp = oracle.trig(np, ph[5])
    u = [st * cp, st * sp, ct]
    v = [sum((base[i][5, k] if inverse is False else base[k][5, i]) * u[k] for k in range(3)) for i in range(2)]
    ctx.assume(v[0] ** 2 + v[1] ** 2 > 1e-4)
    elementwise(ctx, lambda *a: cu.geo_to_base(*a, inverse=inverse), (th, ph, *base), n, chosen(n, at), 1e-8)
    elementwise(ctx, lambda *a: cu.matrix_geo_to_base(*a, inverse=inverse), (th, ph, *base), n, chosen(n, at), 1e-8)


def geodetic(ctx, n):
    cu = ctx.mod('coordinate_utils')
    at = [5, n - 2]
    h = mixed(ctx, n, -50.0, 2000.0, {k: ctx.var('h%d' % k, -50.0, 2000.0) for k in at})
    be = mixed(ctx, n, 1.0, 179.0, {k: ctx.angle('be%d' % k, 1.0, 179.0) for k in at}, 0.2)
    X = mixed(ctx, n, -1e3, 1e3, {k: ctx.var('X%d' % k, -1e3, 1e3) for k in at}, 0.4)
    Z = mixed(ctx, n, -1e3, 1e3, {k: ctx.var('Z%d' % k, -1e3, 1e3) for k in at}, 0.6)
    elementwise(ctx, cu.gg_to_geo, (h, be, X, Z), n, chosen(n, at), 1e-6)
    r, th = 6371.2 + mixed(ctx, n, -500.0, 3000.0, {}), mixed(ctx, n, 1.0, 179.0, {}, 0.2)
    elementwise(ctx, cu.geo_to_gg, (r, th, X, Z), n, chosen(n, at), 1e-6)


def matrices(ctx, n):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    w = np.array([2 * math.pi * ((0.618 * i + 0.1) % 1.0) for i in range(n - 1)] + [ctx.angle('w', -180., 180.) * (math.pi / 180)])
    z = np.zeros(n)
    base = [np.stack(v, axis=-1) for v in ((np.cos(w), np.sin(w), z), (-0.6 * np.sin(w), 0.6 * np.cos(w), z + 0.8),
                                           (0.8 * np.sin(w), -0.8 * np.cos(w), z + 0.6))]
    elementwise(ctx, lambda *a: cu.rotate_gauss(1, 1, *a), tuple(base), n, chosen(n, []), 1e-8)


def fourier(ctx, n):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    t = mixed(ctx, n, -50.0, 50.0, {5: ctx.var('t', -50., 50.), n - 2: ctx.var('u', -50., 50.)})
    re, im = ctx.vec('a', (3, 2, 1), -5., 5.), ctx.vec('b', (3, 2, 1), -5., 5.)
    elementwise(ctx, lambda x: cu.synth_rotate_gauss(x, np.array([0.0, 1.0, 2.5]), re + 1j * im), (t,), n, chosen(n, [5, n - 2]), 1e-8)


def sun(ctx, n):
    cu = ctx.mod('coordinate_utils')
    t = mixed(ctx, n, -36159.0, 36159.0, {5: ctx.var('t', -36159.0, 36159.0)})
    elementwise(ctx, cu.sun_position, (t,), n, chosen(n, [5]), 1e-7)


def refused(ctx, n):
    """One time outside among many."""
    cu = ctx.mod('coordinate_utils')
    for k in (0, n // 2, n - 2, n - 1):
        t = mixed(ctx, n, -36159.0, 36159.0, {k: ctx.var('late%d' % k, 36525.0, 1e5)})
        ctx.raises('late time at %d' % k, lambda: cu.sun_position(t))


def clock(ctx, n):
    cu = ctx.mod('coordinate_utils')
    t = mixed(ctx, n, -30000.0, 30000.0, {5: ctx.var('t', -30000.0, 30000.0)})
    p = mixed(ctx, n, -1000.0, 1000.0, {5: ctx.var('p', -1000.0, 1000.0), n - 2: ctx.var('q', -1000.0, 1000.0)}, 0.3)
    elementwise(ctx, cu.center_azimuth, (p,), n, chosen(n, [5, n - 2]), 1e-9)
    elementwise(ctx, cu.local_time, (t, p), n, chosen(n, [5]), 1e-9)
    th = mixed(ctx, n, 1.0, 179.0, {5: ctx.angle('th', 1.0, 179.0)}, 0.2)
    t = mixed(ctx, n, -30000.0, 30000.0, {})
    elementwise(ctx, cu.zenith_angle, (t, th, p), n, chosen(n, []), 1e-7)


def dates(ctx, n):
    du, np = ctx.mod('data_utils'), ctx.np
    t = mixed(ctx, n, -70000.0, 70000.0, {})
    y = mixed(ctx, n, 1800.0, 2200.0, {})
    for leap in (True, False):
        elementwise(ctx, lambda x: du.mjd_to_dyear(x, leap_year=leap), (t,), n, chosen(n, []), 1e-9)
        elementwise(ctx, lambda x: du.dyear_to_mjd(x, leap_year=leap), (y,), n, chosen(n, []), 1e-7)


def julian(ctx, n):
    du = ctx.mod('data_utils')
    t = mixed(ctx, n, -70000.0, 70000.0, {5: ctx.var('t', -7e4, 7e4), n - 2: ctx.var('u', -7e4, 7e4)})
    y = mixed(ctx, n, 1800.0, 2200.0, {5: ctx.var('y', 1800., 2200.), n - 2: ctx.var('z', 1800., 2200.)})
    elementwise(ctx, lambda x: du.mjd_to_dyear(x, leap_year=False), (t,), n, chosen(n, [5, n - 2]), 1e-9)
    elementwise(ctx, lambda x: du.dyear_to_mjd(x, leap_year=False), (y,), n, chosen(n, [5, n - 2]), 1e-7)


def calendar(ctx, n):
    du, np = ctx.mod('data_utils'), ctx.np
    y = numpy.array([1600 + (37 * i) % 900 for i in range(n)])
    m = numpy.array([1 + (5 * i) % 12 for i in range(n)])
    h = ctx.ivec('h', 2, 0, 23)
    hh = np.array([(7 * i) % 24 if i not in (5, n - 2) else h[int(i != 5)] for i in range(n)]).astype(int)
    elementwise(ctx, lambda a, b, c: du.mjd2000(a, b, 3, c), (y, m, hh), n, chosen(n, [5, n - 2]), 1e-9)
    elementwise(ctx, lambda a: np.asarray(du.is_leap_year(a)) * 1.0, (y,), n, chosen(n, []), 1e-9)


def spectra(ctx, n):
    mu = ctx.mod('model_utils')
    g = numpy.array([[math.cos(1.7 * i + j) for j in range(8)] for i in range(n - 1)])
    g = ctx.np.concatenate([g, ctx.vec('g', (1, 8))])
    elementwise(ctx, lambda a: mu.power_spectrum(a), (g,), n, chosen(n, []), 1e-9, 1e2)


CASES = {
    'P06': lambda: [('legendre', legendre, dict(n=1100))],
    'P07': lambda: [('spectra', spectra, dict(n=300))],
    'P10': lambda: [('rows', rows, dict(n=300))],
    'P11': lambda: [('coeffs-%s' % k, model, dict(which='coeffs', n=1100, kw=k, outside=False)) for k in ({}, {'deriv': 1})],
    'P12': lambda: [('coeffs-%s' % k, model, dict(which='coeffs', n=600, kw=k, outside=True))
                    for k in ({'extrapolate': 'constant'}, {}, {'extrapolate': 'spline', 'deriv': 1})],
    'P13': lambda: [(w, model, dict(which=w, n=300, kw={}, outside=False)) for w in ('values', 'functional')],
    'P18': lambda: [('cartesian', cartesian, dict(n=1100))],
    'P19': lambda: [(w, frames, dict(which=w, n=300)) for w in ('gsm', 'sm', 'use', 'gg')],
    'P20': lambda: [('moved-%s' % i, moved, dict(n=300, inverse=i)) for i in (False, True)],
    'P21': lambda: [('geodetic', geodetic, dict(n=300))],
    'P22': lambda: [('matrices', matrices, dict(n=150))],
    'P23': lambda: [('fourier', fourier, dict(n=300))],
    'P25': lambda: [('sun', sun, dict(n=600)), ('refused', refused, dict(n=300))],
    'P26': lambda: [('clock', clock, dict(n=600))],
    'P27': lambda: [('calendar', calendar, dict(n=300))],
    'P28': lambda: [('dates', dates, dict(n=300)), ('julian', julian, dict(n=300))],
}


def note(pid):
    if pid not in CASES and pid != 'P05':
        return ''
    return ('; also arrays of some hundred or thousand elements, of which at most three are symbolic and the others given, with '
            'single elements as the reference')


def cases(pid):
    from symx.harness import Case
    for name, fn, kw in CASES[pid]():
        yield Case('long-' + name, fn, **kw)
