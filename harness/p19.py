"""P19: base vectors of the reference frames."""
from symx.harness import Case
from . import long
from . import oracle

BOUNDS = ('any Sun direction with colatitude [60, 120] deg at any time; dipole as the configured coefficients, three coefficients (array, list, tuple, stacked '
          'arrays) with g10 in [-40000, -15000] nT and g11, h11 in [-10000, 10000] nT, or pole colatitude [0.5, 60] and '
          'longitude [-360, 360] deg, with an angle of at least 0.05 rad between dipole and Sun; scalar and array times; '
          'up-south-east frame at colatitudes [0.5, 179.5] deg; geodetic frame for any pair of colatitudes')
ASSUMPTIONS = 'the ephemeris is replaced by a free direction (checked on its own as P25)'
OUTSIDE = 'dipole axis parallel to the Sun direction or to the rotation axis'
NAMES = ('first', 'second', 'third')


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm2(a):
    return dot(a, a)


def orthonormal(ctx, base, label=''):
    for i in range(3):
        ctx.equal('%s%s vector has length one' % (label, NAMES[i]), norm2(base[i]), 1.0, 1e-7)
        for j in range(i):
            ctx.equal('%s%s and %s are orthogonal' % (label, NAMES[j], NAMES[i]), dot(base[i], base[j]), 0.0, 1e-7)
    w = cross(base[0], base[1])
    for k in range(3):
        ctx.equal('%sright-handed %d' % (label, k), w[k], base[2][k], 1e-7)


def dipole_input(ctx, fmt):
    """Value passed to the package, and the direction (not normalised, pointing to the northern pole)."""
    np = ctx.np
    if fmt.startswith('angles'):
        t, p = ctx.angle('dt', 0.5, 60.0), ctx.angle('dp', -360.0, 360.0)
        ct, st = oracle.trig(np, t)
        cp, sp = oracle.trig(np, p)
        v = [st * cp, st * sp, ct]
        return {'angles': (t, p), 'angles-list': [t, p], 'angles-array': (np.array([t]), np.array([p]))}[fmt], v, v
    g = [ctx.var('g10', -4.0, -1.5), ctx.var('g11', -1.0, 1.0), ctx.var('h11', -1.0, 1.0)]
    g = [10000.0 * x for x in g]
    if fmt == 'aligned-g10':
        g[1] = g[2] = 0.0
    v = [-g[1] / 10000.0, -g[2] / 10000.0, -g[0] / 10000.0]
    if fmt == 'config':
        ctx.set_config('params.dipole', np.array(g))
        return None, v, None
    d = {'array': lambda: np.array(g), 'tuple': lambda: tuple(g), 'list': lambda: list(g),
         'row': lambda: np.array([g]), 'arrays': lambda: tuple(np.array([x]) for x in g)}[fmt]()
    return d, v, None


class Sun:
    """Stands for the ephemeris: one free direction for every time (the ephemeris itself is property P25)."""

    def __init__(self, ctx, t):
        self.ctx, self.t = ctx, t
        self.a = ctx.angle('sun theta', 60.0, 120.0), ctx.angle('sun phi', -180.0, 180.0)
        self.b = 77.25, -13.75
        self.cu = ctx.mod('coordinate_utils')

    def vec(self):
        np = self.ctx.np
        ct, st = oracle.trig(np, self.a[0])
        cp, sp = oracle.trig(np, self.a[1])
        return [st * cp, st * sp, ct]

    def __call__(self, time):
        np, ctx = self.ctx.np, self.ctx
        x = np.asarray(time, dtype=float)
        th, ph = [], []
        for e in np.ravel(x):
            if e > 0.5:
                ctx.equal('Sun at the requested time', e, self.t, 1e-12)
                q = self.a
            else:
                ctx.equal('Sun at the other requested time', e, 0.25, 1e-12)
                q = self.b
            th.append(q[0])
            ph.append(q[1])
        if np.shape(x) == ():
            return th[0], ph[0]
        return np.reshape(np.array(th), np.shape(x)), np.reshape(np.array(ph), np.shape(x))

    def __enter__(self):
        self.old = self.cu.sun_position
        self.cu.sun_position = self
        return self

    def __exit__(self, *a):
        self.cu.sun_position = self.old


def unit_checks(ctx, vec, v, label=''):
    """vec is v / |v|."""
    w = cross(vec, v)
    for k in range(3):
        ctx.equal('%sparallel to the pole %d' % (label, k), w[k], 0.0, 1e-7)
    ctx.equal(label + 'unit', norm2(vec), 1.0, 1e-8)
    ctx.check(label + 'towards the pole', dot(vec, v) > 0.0)


def dipole(ctx, fmt):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    d, v, exact = dipole_input(ctx, fmt)
    vec = cu.dipole_to_vec(d) if d is not None else cu.dipole_to_vec()
    lead = (1,) if fmt in ('row', 'arrays', 'angles-array') else ()
    ctx.check('shape', np.shape(vec) == lead + (3,))
    if lead:
        vec = vec[0]
    unit_checks(ctx, vec, v)
    if exact:
        for k in range(3):
            ctx.equal('component %d' % k, vec[k], exact[k], 1e-9)


def refuse(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    a = [ctx.var('a%d' % i, 1.0, 2.0) for i in range(4)]
    ctx.raises('four dipole values', lambda: cu.dipole_to_vec(tuple(a)))


def setting(ctx, fmt, times):
    np = ctx.np
    d, v, _ = dipole_input(ctx, fmt)
    t = ctx.var('time', 1.0, 36000.0)
    ts = t
    if times == 'vector':
        ts = np.array([t])
    elif times == 'pair':
        ts = np.array([t, 0.25])
    return d, v, t, ts


def frame(ctx, which, fmt, times):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    d, v, t, ts = setting(ctx, fmt, times)
    with Sun(ctx, t) as sun:
        s = sun.vec()
        w = cross(v, s)
        ctx.assume(norm2(w) > 0.0025 * norm2(v))
        f = getattr(cu, 'basevectors_' + which)
        base = f(ts, d) if d is not None else f(ts)
    lead = {'scalar': (), 'vector': (1,), 'pair': (2,)}[times]
    if times == 'scalar' and fmt in ('row', 'arrays', 'angles-array'):
        lead = (1,) if which == 'gsm' else ()
    for b in base:
        ctx.check('shape', np.shape(b)[-1:] == (3,))
    if times != 'scalar':
        for b in base:
            ctx.check('shape', np.shape(b) == lead + (3,))
        base = [b[0] for b in base]
    else:
        base = [np.reshape(b, (-1, 3))[0] for b in base]
    orthonormal(ctx, base)
    if which == 'gsm':
        for k in range(3):
            ctx.equal('first vector towards the Sun %d' % k, base[0][k], s[k], 1e-8)
        ctx.equal('dipole in the first-third plane', dot(base[1], v), 0.0, 1e-7)
        ctx.equal('dipole on the positive side', dot(base[2], v), np.sqrt(norm2(w)), 1e-7)
    else:
        unit_checks(ctx, base[2], v, 'third vector ')
        ctx.equal('Sun in the first-third plane', dot(base[1], s), 0.0, 1e-7)
        ctx.equal('Sun on the positive side', dot(base[0], s) * np.sqrt(norm2(v)), np.sqrt(norm2(w)), 1e-7)


def mag(ctx, fmt):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    d, v, _ = dipole_input(ctx, fmt)
    ctx.assume(v[0] ** 2 + v[1] ** 2 > 1e-4)
    base = cu.basevectors_mag(d) if d is not None else cu.basevectors_mag()
    base = [np.reshape(b, (-1, 3))[0] for b in base]
    orthonormal(ctx, base)
    unit_checks(ctx, base[2], v, 'third vector ')
    ctx.equal('geographic pole in the first-third plane', base[1][2], 0.0, 1e-8)
    ctx.check('geographic pole on the negative side of the first vector', base[0][2] < 0.0)


def use(ctx, shape):
    import numpy
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    if shape == ():
        th, ph = ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -360.0, 720.0)
    else:
        th, ph = ctx.angles('th', shape[0], 0.5, 179.5), ctx.angles('ph', shape[1], -360.0, 720.0)
    sh = () if shape == () else numpy.broadcast_shapes(*shape)
    base = cu.basevectors_use(th, ph)
    tb, pb = np.broadcast_to(th, sh), np.broadcast_to(ph, sh)
    for b in base:
        ctx.check('shape', np.shape(b) == sh + (3,))
    for i in numpy.ndindex(*sh):
        B = [b[i] for b in base]
        orthonormal(ctx, B, '%s ' % (i,))
        ct, st = oracle.trig(np, tb[i])
        cp, sp = oracle.trig(np, pb[i])
        for k, x in enumerate((st * cp, st * sp, ct)):
            ctx.equal('up is radial %d' % k, B[0][k], x, 1e-9)
        ctx.check('south points to growing colatitude', B[1][2] < 0.0)
        ctx.equal('east is horizontal', B[2][2], 0.0, 1e-12)


def use_poles(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    ph = ctx.angle('ph', -180.0, 180.0)
    th = ctx.angle('th', 0.5, 179.5)
    ctx.raises('north pole', lambda: cu.basevectors_use(0.0, ph))
    ctx.raises('south pole', lambda: cu.basevectors_use(180.0, ph))
    ctx.raises('pole among others', lambda: cu.basevectors_use(np.array([th, 0.0]), ph))
    ctx.raises('south pole among others', lambda: cu.basevectors_use(np.array([180.0, th]), ph))


def gg(ctx, shape):
    """North, east, down of the geodetic frame in components (up, south, east)."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    th, be = ctx.angle('th', 0.0, 180.0), ctx.angle('be', 0.0, 180.0)
    base = cu.basevectors_gg(th, be) if shape == () else cu.basevectors_gg(np.array([[th]]), np.array([be]))
    for b in base:
        ctx.check('shape', np.shape(b) == shape + (3,))
    base = [np.reshape(b, (-1, 3))[0] for b in base]
    orthonormal(ctx, base)
    c, s = oracle.trig(np, th)
    cb, sb = oracle.trig(np, be)
    # ellipsoid normal at geodetic colatitude, in the meridional plane: (sin be, cos be) of (axis distance, axis)
    up = [c * cb + s * sb, c * sb - s * cb]            # components along radial and south
    ctx.equal('down is minus the normal, radial part', base[2][0], -up[0], 1e-9)
    ctx.equal('down is minus the normal, southward part', base[2][1], -up[1], 1e-9)
    ctx.equal('down has no eastward part', base[2][2], 0.0, 1e-12)
    ctx.equal('second vector east', base[1][2], 1.0, 1e-12)


def several(ctx, which, fmt):
    """Two dipoles (and two times): each frame belongs to its own dipole and time."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    if fmt == 'angles':
        t, p = ctx.angles('dt', 2, 0.5, 60.0), ctx.angles('dp', 2, -360.0, 360.0)
        d, vs = (t, p), []
        for i in range(2):
            ct, st = oracle.trig(np, t[i])
            cp, sp = oracle.trig(np, p[i])
            vs.append([st * cp, st * sp, ct])
    else:
        g = [[10000.0 * ctx.var('g10%d' % i, -4.0, -1.5), 10000.0 * ctx.var('g11%d' % i, -1.0, 1.0),
              10000.0 * ctx.var('h11%d' % i, -1.0, 1.0)] for i in range(2)]
        vs = [[-x[1] / 10000.0, -x[2] / 10000.0, -x[0] / 10000.0] for x in g]
        d = np.array(g) if fmt == 'rows' else tuple(np.array([g[0][k], g[1][k]]) for k in range(3))
    if which == 'vec':
        vec = cu.dipole_to_vec(d)
        ctx.check('shape', np.shape(vec) == (2, 3))
        for i in range(2):
            unit_checks(ctx, vec[i], vs[i], '%d ' % i)
        return
    if which == 'mag':
        for v in vs:
            ctx.assume(v[0] ** 2 + v[1] ** 2 > 1e-4)
        base = cu.basevectors_mag(d)
        for i in range(2):
            b = [x[i] for x in base]
            orthonormal(ctx, b, '%d ' % i)
            unit_checks(ctx, b[2], vs[i], '%d third vector ' % i)
            ctx.equal('%d geographic pole in the first-third plane' % i, b[1][2], 0.0, 1e-8)
            ctx.check('%d geographic pole on the negative side of the first vector' % i, b[0][2] < 0.0)
        return
    t = ctx.var('time', 1.0, 36000.0)
    with Sun(ctx, t) as sun:
        ct, st = oracle.trig(np, sun.b[0])
        cp, sp = oracle.trig(np, sun.b[1])
        suns = [sun.vec(), [st * cp, st * sp, ct]]
        ws = [cross(v, s) for v, s in zip(vs, suns)]
        for w, v in zip(ws, vs):
            ctx.assume(norm2(w) > 0.0025 * norm2(v))
        base = getattr(cu, 'basevectors_' + which)(np.array([t, 0.25]), d)
    for i in range(2):
        b, v, s, w = [x[i] for x in base], vs[i], suns[i], ws[i]
        lab = '%d ' % i
        orthonormal(ctx, b, lab)
        if which == 'gsm':
            for k in range(3):
                ctx.equal(lab + 'first vector towards the Sun %d' % k, b[0][k], s[k], 1e-8)
            ctx.equal(lab + 'dipole in the first-third plane', dot(b[1], v), 0.0, 1e-7)
            ctx.equal(lab + 'dipole on the positive side', dot(b[2], v), np.sqrt(norm2(w)), 1e-7)
        else:
            unit_checks(ctx, b[2], v, lab + 'third vector ')
            ctx.equal(lab + 'Sun in the first-third plane', dot(b[1], s), 0.0, 1e-7)
            ctx.equal(lab + 'Sun on the positive side', dot(b[0], s) * np.sqrt(norm2(v)), np.sqrt(norm2(w)), 1e-7)


def igrf(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    import math
    v = np.array([1501.0, -4797.1, 29442.0])
    for e in (None, '2015', 2015):
        vec = cu.igrf_dipole(e)
        unit_checks(ctx, vec, v, '2015 ')
    vec = cu.igrf_dipole('2010')
    t, p = 11.32 * oracle.RAD, 289.59 * oracle.RAD
    ctx.equal('2010', vec, np.array([math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]), 1e-10)
    ctx.raises('other epoch', lambda: cu.igrf_dipole('2005'))


def cases(tier):
    yield from long.cases('P19')
    fmts = ('array', 'tuple', 'list', 'row', 'arrays', 'config', 'angles', 'angles-list', 'angles-array', 'aligned-g10')
    for f in fmts[:-1]:
        yield Case('dipole-' + f, dipole, fmt=f)
        yield Case('mag-' + f, mag, fmt=f)
    for which in ('gsm', 'sm'):
        for f in fmts[:-1]:
            for times in ('scalar', 'vector', 'pair'):
                if times == 'pair' and f not in ('array', 'angles', 'config'):
                    continue
                yield Case('%s-%s-%s' % (which, f, times), frame, which=which, fmt=f, times=times)
    for which in ('vec', 'mag', 'gsm', 'sm'):
        for f in ('rows', 'columns', 'angles'):
            yield Case('two-%s-%s' % (which, f), several, which=which, fmt=f)
    for s in ((), ((2,), (2,)), ((2, 1), (1, 2)), ((2,), (1,))):
        yield Case('use-%s' % (s,), use, shape=s)
    yield Case('use-poles', use_poles)
    for s in ((), (1, 1)):
        yield Case('gg-%d' % len(s), gg, shape=s)
    yield Case('refusals', refuse)
    yield Case('igrf', igrf)
