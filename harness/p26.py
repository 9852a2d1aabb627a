"""P26: azimuth wrap, local time and zenith angle."""
from symx.harness import Case
from . import long
from . import oracle
from .p19 import Sun

BOUNDS = ('azimuths in [-1e5, 1e5] deg, times in [-1e5, 1e5] days (zenith angle: any Sun direction with colatitude '
          '[60, 120] deg, any position), scalars and arrays of up to 3 points; tiny negative values around the wrap')
OUTSIDE = 'rounding at the wrap other than the stated tiny values; positions where the zenith angle is within 0.5 deg of 0 or 180'
ASSUMPTIONS = 'real arithmetic; the ephemeris is replaced by a free direction for the zenith angle (checked as P25)'


def var(ctx, name, shape, lo, hi):
    return ctx.var(name, lo, hi) if shape == () else ctx.vec(name, shape, lo, hi)


def items(ctx, x):
    return list(ctx.np.ravel(x)) if ctx.np.shape(x) else [x]


def multiple(ctx, label, diff, period):
    """diff is an integer multiple of period."""
    n = ctx.np.floor(diff / period + 0.5)
    ctx.check(label, ctx.np.abs(diff - n * period) <= 1e-7)


def azimuth(ctx, shape, lo, hi, integer):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    p = ctx.ivar('phi', lo, hi) if integer else var(ctx, 'phi', shape, lo, hi)
    q = cu.center_azimuth(p)
    ctx.check('shape', np.shape(q) == np.shape(p))
    for a, b in zip(items(ctx, p), items(ctx, q)):
        ctx.check('centered', np.logical_and(b > -180.0, b <= 180.0))
        multiple(ctx, 'same direction', a - b, 360.0)


def fixed(ctx, phi, want):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    ctx.equal('wrap of %s' % phi, cu.center_azimuth(phi), want, 1e-12)
    ctx.equal('wrap of [%s]' % phi, cu.center_azimuth(np.array([phi])), np.array([want]), 1e-12)


def local(ctx, st, sp, lo, hi):
    import numpy
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    t, p = var(ctx, 'time', st, lo, hi), var(ctx, 'phi', sp, lo, hi)
    h = cu.local_time(t, p)
    full = numpy.broadcast_shapes(st if isinstance(st, tuple) else (st,), sp if isinstance(sp, tuple) else (sp,))
    ctx.check('shape', np.shape(h) == full)
    tb, pb = np.broadcast_to(t, full), np.broadcast_to(p, full)
    for i in numpy.ndindex(*full):
        x = h[i] if full else h
        ctx.check('hours in range', np.logical_and(x >= 0.0, x < 24.0))
        multiple(ctx, 'one hour per 15 degrees', x - 24.0 * tb[i] - pb[i] / 15.0, 24.0)


def zenith(ctx, shape):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    t = ctx.var('time', 1.0, 30000.0)
    if shape == ():
        th, ph, ts = ctx.angle('th', 0.0, 180.0), ctx.angle('ph', -360.0, 360.0), t
    else:
        th, ph, ts = ctx.angles('th', 2, 0.0, 180.0), ctx.angles('ph', 2, -360.0, 360.0), np.array([t, 0.25])
    with Sun(ctx, t) as sun:
        suns = [sun.a, sun.b]
        cosz = []
        for i, (a, b) in enumerate(zip(items(ctx, th), items(ctx, ph))):
            ct, st = oracle.trig(np, a)
            cp, sp = oracle.trig(np, b)
            cu_, su = oracle.trig(np, suns[i][0])
            cv, sv = oracle.trig(np, suns[i][1])
            c = st * cp * su * cv + st * sp * su * sv + ct * cu_
            ctx.assume(c * c < 0.99992)
            cosz.append(c)
        z = cu.zenith_angle(ts, th, ph)
    ctx.check('shape', np.shape(z) == np.shape(ts))
    for i, (x, c) in enumerate(zip(items(ctx, z), cosz)):
        ctx.check('zenith angle in range', np.logical_and(x >= 0.0, x <= 180.0))
        ctx.equal('cosine of the zenith angle %d' % i, oracle.trig(np, x)[0], c, 1e-9)


def cases(tier):
    yield from long.cases('P26')
    for s in ((), 1, 3, (2, 2)):
        yield Case('azimuth-%s' % (s,), azimuth, shape=s, lo=-1e5, hi=1e5, integer=False)
    yield Case('azimuth-integer', azimuth, shape=(), lo=-100000, hi=100000, integer=True)
    yield Case('azimuth-tiny', azimuth, shape=(), lo=-3e-17, hi=-1e-18, integer=False)
    for phi, want in ((180.0, 180.0), (-180.0, 180.0), (360.0, 0.0), (-360.0, 0.0), (540.0, 180.0), (0.0, 0.0),
                      (180, 180), (-180, 180), (359, -1)):
        yield Case('azimuth-at-%r' % phi, fixed, phi=phi, want=want)
    for st, sp in (((), ()), (2, 2), (2, ()), ((), 2), ((2, 1), (1, 2))):
        yield Case('local-%s-%s' % (st, sp), local, st=st, sp=sp, lo=-1e5, hi=1e5)
    yield Case('local-tiny', local, st=(), sp=(), lo=-3e-17, hi=-1e-18)
    yield Case('local-tiny-array', local, st=2, sp=2, lo=-3e-17, hi=-1e-18)
    for s in ((), 2):
        yield Case('zenith-%s' % (s,), zenith, shape=s)
