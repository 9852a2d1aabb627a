"""P21: geodetic and geocentric coordinates."""
import math
from symx.harness import Case
from . import long
from . import oracle

BOUNDS = ('geodetic to geocentric: any height [-50, 2000] km, any geodetic colatitude [0.01, 179.99] deg and the poles, any components, '
          'any ellipsoid with equatorial radius 5000 to 8000 km and flattening 0 to 0.1 (and the default one); scalars, arrays, '
          'broadcast shapes. Geocentric to geodetic: any radius and colatitude for a sphere, any height at the equator '
          'for any ellipsoid; elsewhere any components at a family of fixed points (three ellipsoids, heights -2890 to 36000 km, '
          'colatitudes 0 to 179.99 deg), and there and back between them')
OUTSIDE = ('arbitrary points off the equator in the direction geocentric to geodetic: the closed formula contains the root of a cubic '
           'equation of the position inside a root, beyond the solver; vector components at the poles in geocentric to geodetic')


def ellipsoid(ctx, kind):
    if kind == 'default':
        return tuple(ctx.mod('config_utils').basicConfig['params.ellipsoid'])
    if kind == 'any':
        a = ctx.var('a', 5000.0, 8000.0)
        b = a * (1.0 - ctx.var('f', 0.0, 0.1))
    elif kind == 'sphere':
        a = b = ctx.var('a', 5000.0, 8000.0)
    else:
        a, b = kind
    ctx.set_config('params.ellipsoid', [a, b])
    return a, b


def foot(np, a, b, c, s):
    """Radius of curvature terms: N and N b^2 / a^2 (c, s of the geodetic colatitude)."""
    W = np.sqrt(a * a * s * s + b * b * c * c)
    return a * a / W, b * b / W


def one(x):
    import numpy
    return x if not numpy.shape(x) else numpy.asarray(x).reshape(-1)[0]


def position(ctx, lab, radius, theta, a, b, h, c, s):
    np = ctx.np
    N, M = foot(np, a, b, c, s)
    ct, st = oracle.trig(np, theta)
    ctx.equal(lab + 'distance from the axis', radius * st, (N + h) * s, 1e-6)
    ctx.equal(lab + 'distance from the equatorial plane', radius * ct, (M + h) * c, 1e-6)
    ctx.check(lab + 'colatitude in range', np.logical_and(theta >= -1e-9, theta <= 180.0 + 1e-9))
    ctx.check(lab + 'radius positive', radius > 0.0)


def vector(ctx, lab, br, bt, theta, X, Z, c, s):
    """Same vector in the meridian plane: geodetic south is -X, up is -Z."""
    np = ctx.np
    ct, st = oracle.trig(np, theta)
    ctx.equal(lab + 'away from the axis', br * st + bt * ct, -Z * s - X * c, 1e-6)
    ctx.equal(lab + 'northward along the axis', br * ct - bt * st, -Z * c + X * s, 1e-6)
    ctx.equal(lab + 'length', br * br + bt * bt, X * X + Z * Z, 1e-6, 1e6)


def forward(ctx, kind, layout):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    a, b = ellipsoid(ctx, kind)

    def h(n=None):
        return ctx.var('h', -50.0, 2000.0) if n is None else ctx.vec('h', n, -50.0, 2000.0)

    def be(n=None):
        return ctx.angle('be', 0.01, 179.99) if n is None else ctx.angles('be', n, 0.01, 179.99)
    H, B = {'scalar': lambda: (h(), be()), 'array': lambda: (h(2), be(2)), 'broadcast': lambda: (h(2)[:, None], be(2)[None, :]),
            'height': lambda: (h((1, 2)), be()), 'colatitude': lambda: (h(), be((2, 1)))}[layout]()
    out = cu.gg_to_geo(H, B)
    ctx.check('two results', len(out) == 2)
    X, Z = ctx.var('X', -1e3, 1e3), ctx.var('Z', -1e3, 1e3)
    full = cu.gg_to_geo(H, B, X, Z)
    ctx.check('four results', len(full) == 4)
    shape = {'scalar': (), 'array': (2,), 'broadcast': (2, 2), 'height': (1, 2), 'colatitude': (2, 1)}[layout]
    for k, q in enumerate(tuple(out) + tuple(full)):
        ctx.check('shape of result %d' % k, np.shape(q) == shape)
    for r in (cu.gg_to_geo(H, B, X=X), cu.gg_to_geo(H, B, Z=Z)):
        ctx.check('components only if both are given', len(r) == 2)
    import numpy
    for i in numpy.ndindex(*shape):
        def at(q):
            q = np.broadcast_to(np.asarray(q), shape) if shape else q
            return np.asarray(q)[i] if shape else np.asarray(q)[()]
        c, s = oracle.trig(np, at(B))
        lab = '%s ' % (i,) if shape else ''
        position(ctx, lab, at(out[0]), at(out[1]), a, b, at(H), c, s)
        position(ctx, lab + 'with components: ', at(full[0]), at(full[1]), a, b, at(H), c, s)
        vector(ctx, lab, at(full[2]), at(full[3]), at(full[1]), X, Z, c, s)


def poles(ctx, kind, be):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    a, b = ellipsoid(ctx, kind)
    h = ctx.var('h', -50.0, 2000.0)
    X, Z = ctx.var('X', -1e3, 1e3), ctx.var('Z', -1e3, 1e3)
    r, th, br, bt = cu.gg_to_geo(h, be, X, Z)
    up = 1.0 if be == 0.0 else -1.0
    ctx.equal('radius', np.asarray(r)[()], b + h, 1e-6)
    ct, st = oracle.trig(np, np.asarray(th)[()])
    ctx.equal('colatitude, cosine', ct, up, 1e-9)
    ctx.equal('colatitude, sine', st, 0.0, 1e-9)
    ctx.equal('radial', np.asarray(br)[()], -Z, 1e-6)
    ctx.equal('southward', np.asarray(bt)[()], -X, 1e-6)


def frame(ctx, shape):
    """Unit vectors of the geodetic frame in spherical components."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    if shape:
        th, be = ctx.angles('th', shape, 0.0, 180.0), ctx.angles('be', shape, 0.0, 180.0)
    else:
        th, be = ctx.angle('th', 0.0, 180.0), ctx.angle('be', 0.0, 180.0)
    G = cu.basevectors_gg(th, be)
    import numpy
    for g in G:
        ctx.check('shape', np.shape(g) == shape + (3,))
    for i in numpy.ndindex(*shape):
        t, e = (th[i], be[i]) if shape else (th, be)
        ct, st = oracle.trig(np, t)
        c, s = oracle.trig(np, e)
        # north, east, down from the geodetic colatitude, as (away from the axis, east, along the axis)
        want = ((-c, 0.0, s), (0.0, 1.0, 0.0), (-s, 0.0, -c))
        for k, (g, w) in enumerate(zip(G, want)):
            v = g[i] if shape else g
            got = (v[0] * st + v[1] * ct, v[2], v[0] * ct - v[1] * st)
            for j in range(3):
                ctx.equal('vector %d component %d' % (k, j), got[j], w[j], 1e-9)


# --- geocentric to geodetic ------------------------------------------------------------------------------------------

def number(ctx, x):
    return not ctx.truth(ctx.np.isnan(x))


def sphere(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    a, b = ellipsoid(ctx, 'sphere')
    r, th = ctx.var('r', 5000.0, 10000.0), ctx.angle('th', 0.01, 179.99)
    u, v = ctx.var('u', -1e3, 1e3), ctx.var('v', -1e3, 1e3)
    h, be, X, Z = cu.geo_to_gg(r, th, u, v)
    ctx.equal('height', h, r - a, 1e-6)
    c, s = oracle.trig(np, be)
    ct, st = oracle.trig(np, th)
    ctx.equal('colatitude, cosine', c, ct, 1e-9)
    ctx.equal('colatitude, sine', s, st, 1e-9)
    ctx.equal('northward', np.asarray(X)[()], -v, 1e-6)
    ctx.equal('downward', np.asarray(Z)[()], -u, 1e-6)


def equator(ctx, kind):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    a, b = ellipsoid(ctx, kind)
    h0 = ctx.var('h', -50.0, 36000.0)
    u, v = ctx.var('u', -1e3, 1e3), ctx.var('v', -1e3, 1e3)
    h, be, X, Z = cu.geo_to_gg(a + h0, 90.0, u, v)
    ctx.equal('height', h, h0, 1e-6)
    ctx.equal('colatitude', be, 90.0, 1e-9)
    ctx.equal('northward', np.asarray(X)[()], -v, 1e-6)
    ctx.equal('downward', np.asarray(Z)[()], -u, 1e-6)


def axis(ctx, kind, th):
    """Fixed points on the axis (for them the function may return NaN)."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    a, b = ellipsoid(ctx, kind)
    u, v = ctx.var('u', -1e3, 1e3), ctx.var('v', -1e3, 1e3)
    for h0 in (-50.0, -0.1, 0.0, 0.25, 13.5, 400.0, 777.7, 2000.0, 36000.0):
        h, be, X, Z = cu.geo_to_gg(np.array([b + h0]), np.array([th]), u, v)
        ctx.check('height %s, or not a number' % h0, bool(np.isnan(h[0]) or abs(h[0] - h0) < 1e-3))
        ctx.check('colatitude at %s, or not a number' % h0, bool(np.isnan(be[0]) or abs(be[0] - th) < 1e-4))
        if not np.isnan(be[0]):
            ctx.equal('northward at %s' % h0, X[0], -v, 1e-2)
            ctx.equal('downward at %s' % h0, Z[0], -u, 1e-2)


POINTS = [(h, be) for h in (-2890.0, -50.0, 0.0, 400.0, 36000.0) for be in (0.1, 20.0, 45.0, 89.0, 90.0, 91.5, 133.25, 179.99)]
SHAPES = ('default', (6378.388, 6356.912), (6000.0, 5500.0))


def exact(a, b, h, be):
    c, s = math.cos(math.radians(be)), math.sin(math.radians(be))
    N, M = foot(math, a, b, c, s)
    x, z = (N + h) * s, (M + h) * c
    return math.hypot(x, z), math.degrees(math.atan2(x, z)), c, s


def points(ctx, kind, part):
    """Any components at fixed points."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    a, b = ellipsoid(ctx, kind)
    n = len(part)
    u, v = ctx.vec('u', n, -1e3, 1e3), ctx.vec('v', n, -1e3, 1e3)
    w = [exact(a, b, h, be) for h, be in part]
    r, th = np.array([x[0] for x in w]), np.array([x[1] for x in w])
    h, be, X, Z = cu.geo_to_gg(r, th, u, v)
    h2, be2 = cu.geo_to_gg(r, th)
    ctx.equal('height without components', h2, h, 0.0)
    ctx.equal('colatitude without components', be2, be, 0.0)
    ctx.check('without one component', len(cu.geo_to_gg(r, th, u)) == 2 and len(cu.geo_to_gg(r, th, B_theta=v)) == 2)
    for i, (h0, be0) in enumerate(part):
        ctx.equal('height %d' % i, h[i], h0, 1e-5)
        ctx.equal('colatitude %d' % i, be[i], be0, 1e-7)
        ct, st = math.cos(math.radians(w[i][1])), math.sin(math.radians(w[i][1]))
        c, s = w[i][2], w[i][3]
        ctx.equal('away from the axis %d' % i, -Z[i] * s - X[i] * c, u[i] * st + v[i] * ct, 1e-4)
        ctx.equal('along the axis %d' % i, -Z[i] * c + X[i] * s, u[i] * ct - v[i] * st, 1e-4)
        ctx.equal('length %d' % i, X[i] * X[i] + Z[i] * Z[i], u[i] * u[i] + v[i] * v[i], 1e-3, 1e6)
    r3, th3, u3, v3 = cu.gg_to_geo(h, be, X, Z)
    ctx.equal('radius there and back', r3, r, 1e-5)
    ctx.equal('colatitude there and back', th3, th, 1e-7)
    ctx.equal('radial component there and back', u3, u, 1e-5)
    ctx.equal('southward component there and back', v3, v, 1e-5)


def shapes(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    r, th = np.array([6500.0, 7000.0])[:, None], np.array([30.0, 60.0, 120.0])[None, :]
    u = ctx.vec('u', (2, 3), -1e3, 1e3)
    out = cu.geo_to_gg(r, th, u, u)
    for i in range(2):
        for j in range(3):
            w = cu.geo_to_gg(np.array([float(r[i, 0])]), np.array([float(th[0, j])]), u[i, j], u[i, j])
            for k in range(4):
                ctx.equal('result %d at %d %d' % (k, i, j), out[k][i, j], w[k][0], 1e-8)


def cases(tier):
    yield from long.cases('P21')
    for kind in ('any', 'default', 'sphere', (6378.388, 6356.912)):
        for layout in ('scalar', 'array', 'broadcast', 'height', 'colatitude'):
            if kind == 'any' and layout != 'scalar' and tier == 'quick' and layout != 'array':
                continue
            yield Case('forward %s %s' % (kind, layout), forward, kind=kind, layout=layout)
        for be in (0.0, 180.0):
            yield Case('pole %s %s' % (kind, be), poles, kind=kind, be=be)
        yield Case('equator %s' % (kind,), equator, kind=kind)
    for shape in ((), (2,), (1, 2)):
        yield Case('frame %s' % (shape,), frame, shape=shape)
    yield Case('reverse sphere', sphere)
    for kind in SHAPES:
        yield Case('axis %s' % (kind,), axis, kind=kind, th=0.0)
        for i in range(0, len(POINTS), 8):
            yield Case('points %s %d' % (kind, i), points, kind=kind, part=POINTS[i:i + 8])
    yield Case('reverse shapes', shapes)
