"""P18: spherical and cartesian coordinates."""
from symx.harness import Case
from . import long
from . import oracle

BOUNDS = ('radius [0.5, 20], colatitude [0, 180] deg (longitude compared away from the poles, 0.01 to 179.99 deg), longitude '
          '[-360, 720] deg; cartesian components in [-10, 10] with norm at least 0.1; scalars, vectors and broadcast shapes')
OUTSIDE = 'the sign of zero and rounding exactly at the date line'


def same_lon(ctx, label, a, b):
    np = ctx.np
    r = oracle.RAD
    ctx.equal(label + ' cosine', np.cos(a * r), np.cos(b * r), 1e-8)
    ctx.equal(label + ' sine', np.sin(a * r), np.sin(b * r), 1e-8)
    ctx.check(label + ' range', (a > -180.0 - 1e-9) & (a <= 180.0 + 1e-9))


def same_colat(ctx, label, a, b):
    np = ctx.np
    r = oracle.RAD
    ctx.equal(label + ' cosine', np.cos(a * r), np.cos(b * r), 1e-8)
    ctx.check(label + ' range', (a >= 0.0) & (a <= 180.0 + 1e-9))


def there_and_back(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R, th, ph = ctx.var('R', 0.5, 20.0), ctx.angle('th', 0.01, 179.99), ctx.angle('ph', -360.0, 720.0)
    x, y, z = cu.spherical_to_cartesian(R, th, ph)
    c, s = oracle.trig(np, th)
    cp, sp = oracle.trig(np, ph)
    ctx.equal('x', np.asarray(x)[()], R * s * cp, 1e-9, 10)
    ctx.equal('y', np.asarray(y)[()], R * s * sp, 1e-9, 10)
    ctx.equal('z', np.asarray(z)[()], R * c, 1e-9, 10)
    r, t, p = cu.cartesian_to_spherical(x, y, z)
    ctx.equal('radius', np.asarray(r)[()], R, 1e-9, 10)
    same_colat(ctx, 'colatitude', t, th)
    same_lon(ctx, 'longitude', p, ph)


def poles(ctx, pole):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R, ph = ctx.var('R', 0.5, 20.0), ctx.angle('ph', -360.0, 720.0)
    x, y, z = cu.spherical_to_cartesian(R, pole, ph)
    r, t, p = cu.cartesian_to_spherical(x, y, z)
    ctx.equal('radius', np.asarray(r)[()], R, 1e-9, 10)
    ctx.equal('colatitude', np.cos(np.asarray(t)[()] * oracle.RAD), 1.0 if pole == 0.0 else -1.0, 1e-9)


def reverse(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    v = [ctx.var(n, -10.0, 10.0) for n in 'xyz']
    ctx.assume(v[0] ** 2 + v[1] ** 2 > 0.01)
    r, t, p = cu.cartesian_to_spherical(*v)
    ctx.equal('radius squared', r * r, v[0] ** 2 + v[1] ** 2 + v[2] ** 2, 1e-9, 100)
    ctx.check('radius positive', r > 0.0)
    ctx.check('colatitude range', (t >= 0.0) & (t <= 180.0 + 1e-9))
    ctx.check('longitude range', (p >= -180.0 - 1e-9) & (p <= 180.0 + 1e-9))
    w = cu.spherical_to_cartesian(r, t, p)
    for n, a, b in zip('xyz', w, v):
        ctx.equal('component ' + n, np.asarray(a)[()], b, 1e-9, 10)


def axis(ctx, sign):
    """Points on the polar axis."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    z = sign * ctx.var('z', 0.1, 10.0)
    r, t, p = cu.cartesian_to_spherical(0.0, 0.0, z)
    ctx.equal('radius', r, sign * z, 1e-9, 10)
    ctx.equal('colatitude', t, 0.0 if sign > 0 else 180.0, 1e-9)
    w = cu.spherical_to_cartesian(r, t, p)
    for n, a, b in zip('xyz', w, (0.0, 0.0, z)):
        ctx.equal('component ' + n, np.asarray(a)[()], b, 1e-9, 10)


def arrays(ctx, sr, st, sp):
    import numpy
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R = ctx.vec('R', sr, 0.5, 20.0) if sr else ctx.var('R', 0.5, 20.0)
    th = ctx.angles('th', st, 0.01, 179.99) if st else ctx.angle('th', 0.01, 179.99)
    ph = ctx.angles('ph', sp, -360.0, 720.0) if sp else ctx.angle('ph', -360.0, 720.0)
    sh = numpy.broadcast_shapes(sr, st, sp)
    x, y, z = cu.spherical_to_cartesian(R, th, ph)
    r, t, p = cu.cartesian_to_spherical(x, y, z)
    Rb, tb, pb = (np.broadcast_to(a, sh) for a in (R, th, ph))
    for a in (x, y, r, p):
        ctx.check('shape', np.shape(a) == sh)
    r, t = np.broadcast_to(r, sh), np.broadcast_to(t, sh)
    for i in numpy.ndindex(*sh):
        ctx.equal('radius %s' % (i,), r[i], Rb[i], 1e-9, 10)
        same_colat(ctx, 'colatitude %s' % (i,), t[i], tb[i])
        same_lon(ctx, 'longitude %s' % (i,), p[i], pb[i])


def integers(ctx):
    """Whole numbers as input."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R = ctx.ivar('R', 1, 20)
    x, y, z = cu.spherical_to_cartesian(R, 60, 150)
    r, t, p = cu.cartesian_to_spherical(x, y, z)
    ctx.equal('radius', np.asarray(r)[()], 1.0 * R, 1e-9, 10)
    ctx.equal('colatitude', np.asarray(np.cos(t * oracle.RAD))[()], 0.5, 1e-9)
    ctx.equal('longitude', np.asarray(np.cos(p * oracle.RAD))[()], -0.75 ** 0.5, 1e-9)
    r, t, p = cu.cartesian_to_spherical(np.array([3, 0, -1]), np.array([4, 0, 0]), np.array([0, 2, 0]))
    ctx.equal('integer radius', r, np.array([5.0, 2.0, 1.0]), 1e-12)
    ctx.equal('integer colatitude', t, np.array([90.0, 0.0, 90.0]), 1e-12)
    ctx.equal('integer longitude', p[2], 180.0, 1e-12)


def cases(tier):
    yield from long.cases('P18')
    yield Case('there-and-back', there_and_back)
    for p in (0.0, 180.0):
        yield Case('pole-%g' % p, poles, pole=p)
    yield Case('reverse', reverse)
    for s in (1.0, -1.0):
        yield Case('axis-%g' % s, axis, sign=s)
    for i, (a, b, c) in enumerate((((2,), (2,), (2,)), ((), (2,), ()), ((), (), (2,)), ((2, 1), (2,), (2, 2)),
                                   ((), (2, 1), (1, 2)))):
        yield Case('arrays-%d' % i, arrays, sr=a, st=b, sp=c)
    yield Case('integers', integers)
