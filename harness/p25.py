"""P25: Sun position against the ephemeris it documents."""
from symx.harness import Case
from . import long
from . import oracle

BOUNDS = ('any time from 1901-01-01 to 2098-12-31 (mjd2000 -36159 to 36159), scalars and arrays; any time before 1900-12-31 '
          'or after 2099-12-31 (to +-1e6 days) alone or among valid ones')
OUTSIDE = 'accuracy of the documented low-precision ephemeris itself; the year 2099 (accepted or refused)'


def direction(np, time):
    """Documented ephemeris: ecliptic longitude and obliquity of date, rotated by Greenwich sidereal time."""
    jd = 36524.5 + time                       # days since 1900-01-00 12h
    t = jd / 36525
    g = (358.475845 + 0.985600267 * jd) * oracle.RAD
    lam = 279.696678 + 0.9856473354 * jd + (1.91946 - 0.004789 * t) * np.sin(g) + 0.020094 * np.sin(2 * g) - 0.005686
    cl, sl = oracle.trig(np, lam)
    ce, se = oracle.trig(np, 23.45229 - 0.0130125 * t)
    cg, sg = oracle.trig(np, 279.690983 + 0.9856473354 * jd + 360.0 * time + 180.0)
    x, y, z = cl, sl * ce, sl * se
    return [x * cg + y * sg, y * cg - x * sg, z]


def claim(ctx, time, th, ph, lab=''):
    np = ctx.np
    ctx.check(lab + 'colatitude in range', np.logical_and(th >= 0.0, th <= 180.0))
    ctx.check(lab + 'longitude in range', np.logical_and(ph > -180.0 - 1e-9, ph <= 180.0 + 1e-9))
    ct, st = oracle.trig(np, th)
    cp, sp = oracle.trig(np, ph)
    d = direction(np, time)
    for k, x in enumerate((st * cp, st * sp, ct)):
        ctx.equal('%sdirection %d' % (lab, k), x, d[k], 1e-7)


def valid(ctx, shape):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    if shape == ():
        t = ctx.var('time', -36159.0, 36159.0)
    else:
        t = ctx.vec('time', shape, -36159.0, 36159.0)
    th, ph = cu.sun_position(t)
    ctx.check('shape', np.shape(th) == np.shape(t) and np.shape(ph) == np.shape(t))
    if shape == ():
        claim(ctx, t, th, ph)
    else:
        import numpy
        for i in numpy.ndindex(*numpy.shape(t) if not ctx.symbolic else t.shape):
            claim(ctx, t[i], th[i], ph[i], '%s ' % (i,))


def ends(ctx, t):
    """Accepted at the first and last day."""
    cu = ctx.mod('coordinate_utils')
    th, ph = cu.sun_position(t)
    claim(ctx, t, th, ph)


def refused(ctx, lo, hi, how):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    bad, good = ctx.var('bad', lo, hi), ctx.var('good', -36159.0, 36159.0)
    t = {'alone': bad, 'array': np.array([bad]), 'last': np.array([good, bad]), 'first': np.array([[bad], [good]])}[how]
    ctx.raises('time outside of the validity range', lambda: cu.sun_position(t))


def cases(tier):
    yield from long.cases('P25')
    for s in ((), 1, 2, (2, 1)):
        yield Case('valid-%s' % (s,), valid, shape=s)
    for t in (-36159.0, 0.0, 0, 36159.0, 20000):
        yield Case('day-%s' % t, ends, t=t)
    for how in ('alone', 'array', 'last', 'first'):
        yield Case('before-' + how, refused, lo=-1e6, hi=-36160.0, how=how)
        yield Case('after-' + how, refused, lo=36525.0, hi=1e6, how=how)
