"""P20: transformation of points and vector components between frames."""
from symx.harness import Case
from . import long
from . import oracle
from .p19 import dot

BOUNDS = ('any point with colatitude [0.5, 179.5] deg (points only: [0, 180]) and longitude [-360, 360] deg at least '
          '0.6 deg from the poles of the rotated frame, any tangent vector with components in [-1000, 1000], any rotation '
          '(three Euler angles), forward and inverse, scalars and arrays of up to 3 points with one or several sets of '
          'base vectors; gsm, sm and mag with a dipole as in P19 and any Sun direction')
OUTSIDE = ('points at the poles of one of the frames (vector components are not defined there); that the inverse undoes '
           'the forward transformation follows from both being exact for every rotation')
ASSUMPTIONS = 'for named frames the base vectors are replaced by any rotation (they are checked as P19)'


def rotation(ctx, name):
    """Rows: three right-handed orthonormal vectors, any orientation."""
    np = ctx.np
    a, b, c = (ctx.angle(name + k, lo, hi) for k, lo, hi in (('a', -180., 180.), ('b', 0., 180.), ('c', -180., 180.)))
    ca, sa = oracle.trig(np, a)
    cb, sb = oracle.trig(np, b)
    cc, sc = oracle.trig(np, c)
    return [[ca * cb * cc - sa * sc, sa * cb * cc + ca * sc, -sb * cc],
            [-ca * cb * sc - sa * cc, -sa * cb * sc + ca * cc, sb * sc],
            [ca * sb, sa * sb, cb]]


def unit(ctx, th, ph):
    np = ctx.np
    ct, st = oracle.trig(np, th)
    cp, sp = oracle.trig(np, ph)
    return [st * cp, st * sp, ct], [ct * cp, ct * sp, -st], [-sp, cp, 0.0]


def apply(R, v, inverse):
    if inverse:
        return [sum(R[k][i] * v[k] for k in range(3)) for i in range(3)]
    return [dot(R[i], v) for i in range(3)]


def in_range(ctx, th, ph, lab=''):
    ctx.check(lab + 'colatitude in range', ctx.np.logical_and(th >= -1e-9, th <= 180.0 + 1e-9))
    ctx.check(lab + 'longitude in range', ctx.np.logical_and(ph >= -180.0 - 1e-9, ph <= 180.0 + 1e-9))


def position(ctx, R, th, ph, th2, ph2, inverse, lab=''):
    u = unit(ctx, th, ph)[0]
    w = apply(R, u, inverse)
    in_range(ctx, th2, ph2, lab)
    got = unit(ctx, th2, ph2)[0]
    for k in range(3):
        ctx.equal('%sposition %d' % (lab, k), got[k], w[k], 1e-8)


def offpole(ctx, R, th, ph, inverse):
    w = apply(R, unit(ctx, th, ph)[0], inverse)
    ctx.assume(w[0] ** 2 + w[1] ** 2 > 1e-4)


def components(ctx, R, th, ph, th2, ph2, bt, bp, bt2, bp2, inverse, lab=''):
    _, et, ep = unit(ctx, th, ph)
    V = apply(R, [bt * x + bp * y for x, y in zip(et, ep)], inverse)
    _, et2, ep2 = unit(ctx, th2, ph2)
    ctx.equal(lab + 'southward', bt2, dot(V, et2), 1e-5)
    ctx.equal(lab + 'eastward', bp2, dot(V, ep2), 1e-5)


SHAPES = {
    'scalar': ((), (), ()), 'vector': ((2,), (2,), ()), 'mixed': ((2,), (), ()), 'grid': ((2, 1), (1, 2), ()),
    'bases': ((2,), (2,), (2,)), 'one-point': ((), (), (2,)), 'outer': ((2, 1), (2, 1), (2,)),
}


def setup(ctx, shapes, lo):
    import numpy
    np = ctx.np
    st, sp, sb = SHAPES[shapes]

    def ang(name, shape, lo, hi):
        return ctx.angles(name, shape, lo, hi) if shape else ctx.angle(name, lo, hi)
    th, ph = ang('th', st, lo, 180.0 - lo), ang('ph', sp, -360.0, 360.0)
    Rs = [rotation(ctx, 'r%d' % i) for i in range(sb[0] if sb else 1)]
    if sb:
        base = [np.array([R[k] for R in Rs]) for k in range(3)]
    else:
        base = [np.array(Rs[0][k]) for k in range(3)]
    full = numpy.broadcast_shapes(st, sp, sb)
    pick = []
    ib = numpy.broadcast_to(numpy.arange(max(1, len(Rs))) if sb else 0, full)
    for i in numpy.ndindex(*full):
        pick.append((i, np.broadcast_to(th, full)[i], np.broadcast_to(ph, full)[i], Rs[int(ib[i])]))
    return th, ph, base, full, pick


def points(ctx, shapes, inverse, given):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    th, ph, base, full, pick = setup(ctx, shapes, 0.0)
    kw = {'inverse': inverse} if given else {}
    th2, ph2 = cu.geo_to_base(th, ph, *base, **kw)
    ctx.check('shape', np.shape(th2) == full and np.shape(ph2) == full)
    for i, t, p, R in pick:
        position(ctx, R, t, p, th2[i], ph2[i], inverse, '%s ' % (i,))


def matrix(ctx, shapes, inverse, given):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    th, ph, base, full, pick = setup(ctx, shapes, 0.5)
    for i, t, p, R in pick:
        offpole(ctx, R, t, p, inverse)
    kw = {'inverse': inverse} if given else {}
    th2, ph2, M = cu.matrix_geo_to_base(th, ph, *base, **kw)
    ctx.check('shapes', np.shape(th2) == full and np.shape(ph2) == full and np.shape(M) == full + (3, 3))
    for i, t, p, R in pick:
        lab = '%s ' % (i,)
        position(ctx, R, t, p, th2[i], ph2[i], inverse, lab)
        e = unit(ctx, t, p)
        e2 = unit(ctx, th2[i], ph2[i])
        for k in range(3):
            V = apply(R, e[k], inverse)
            for j in range(3):
                ctx.equal('%smatrix element %d%d' % (lab, j, k), M[i][j, k], dot(e2[j], V), 1e-8)


def dipole(ctx, fmt):
    np = ctx.np
    if fmt == 'angles':
        t, p = ctx.angle('dt', 0.5, 60.0), ctx.angle('dp', -360.0, 360.0)
        return (t, p)
    g = [10000.0 * ctx.var('g10', -4.0, -1.5), 10000.0 * ctx.var('g11', -1.0, 1.0), 10000.0 * ctx.var('h11', -1.0, 1.0)]
    if fmt == 'config':
        ctx.set_config('params.dipole', np.array(g))
        return None
    return np.array(g)


class Frames:
    """Stands for the functions that build the base vectors: any rotation, one per frame and time."""

    def __init__(self, ctx, times, dip):
        self.ctx, self.times, self.dip = ctx, times, dip
        self.cu, self.used, self.R = ctx.mod('coordinate_utils'), [], {}
        self.n = 2 if ctx.np.shape(times) == (2,) else 1
        self.old = {}

    def rows(self, name, n):
        for i in range(n):
            if (name, i) not in self.R:
                self.R[name, i] = rotation(self.ctx, '%s%d' % (name, i))
        return [self.R[name, i] for i in range(n)]

    def base(self, name, shape):
        np = self.ctx.np
        Rs = self.rows(name, shape[0] if shape else 1)
        return tuple(np.array([R[k] for R in Rs] if shape else Rs[0][k]) for k in range(3))

    def __enter__(self):
        ctx, cu = self.ctx, self.cu

        def dipole_ok(d):
            if d is None:
                d = cu.dipole_to_vec()
            else:
                d = cu.dipole_to_vec(d)
            want = cu.dipole_to_vec() if self.dip is None else cu.dipole_to_vec(self.dip)
            ctx.equal('base vectors for the requested dipole', d, want, 1e-12)

        def make(name):
            def f(time, dipole=None):
                self.used.append(name)
                ctx.equal('base vectors for the requested time', time, self.times, 1e-12)
                dipole_ok(dipole)
                return self.base(name, ctx.np.shape(time))
            return f

        def mag(dipole=None):
            self.used.append('mag')
            dipole_ok(dipole)
            return self.base('mag', ())
        for n, f in (('gsm', make('gsm')), ('sm', make('sm')), ('mag', mag)):
            self.old[n] = getattr(cu, 'basevectors_' + n)
            setattr(cu, 'basevectors_' + n, f)
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.cu, 'basevectors_' + n, f)

    def expected(self, name):
        """The rotations the transformation has to use."""
        if name in self.used:
            return self.rows(name, 1 if name == 'mag' else self.n) * (self.n if name == 'mag' else 1)
        if self.used or self.ctx.symbolic:
            if not self.used:
                self.ctx.give_up('the base vector functions were not reached')
            self.ctx.check('frame %s used, not %s' % (name, self.used[0]), False)
            return None
        args = () if name == 'mag' else (self.times,)
        kw = {} if self.dip is None else {'dipole': self.dip}
        base = self.old[name](*args, **kw)
        np = self.ctx.np
        return [[np.broadcast_to(b, (self.n, 3))[i] for b in base] for i in range(self.n)]


def reference(ctx, ref, fmt, inverse, what, array):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    d = dipole(ctx, fmt)
    kw = {} if d is None else {'dipole': d}
    t = ctx.var('time', 1.0, 36000.0)
    ts = np.array([t, 0.25]) if array else t
    n = 2 if array else 1
    lo = 0.0 if what == 'points' else 0.5
    th, ph = ctx.angles('th', 2, lo, 180.0 - lo), ctx.angles('ph', 2, -360.0, 360.0)
    if not array:
        th, ph = th[0], ph[0]
    name = ref.lower()
    with Frames(ctx, ts, d) as fr:
        if what == 'vectors':
            for i, R in enumerate(fr.rows(name, n if name != 'mag' else 1) * (n if name == 'mag' else 1)):
                offpole(ctx, R, np.ravel(th)[i], np.ravel(ph)[i], inverse)
        if name != 'mag':
            kw['time'] = ts
        kw['reference'] = ref
        if inverse is not None:
            kw['inverse'] = inverse
        if what == 'points':
            out = cu.transform_points(th, ph, **kw)
        else:
            bt, bp = ctx.vec('bt', 2, -1000, 1000), ctx.vec('bp', 2, -1000, 1000)
            if not array:
                bt, bp = bt[0], bp[0]
            out = cu.transform_vectors(th, ph, bt, bp, **kw)
    Rs = fr.expected(name)
    if Rs is None:
        return
    for o in out:
        ctx.check('shape', np.shape(o) == ((2,) if array else ()))
    for i in range(n):
        o = [np.ravel(x)[i] for x in out]
        t0, p0 = np.ravel(th)[i], np.ravel(ph)[i]
        lab = '%d ' % i
        position(ctx, Rs[i], t0, p0, o[0], o[1], bool(inverse), lab)
        if what == 'vectors':
            components(ctx, Rs[i], t0, p0, o[0], o[1], np.ravel(bt)[i], np.ravel(bp)[i], o[2], o[3],
                       bool(inverse), lab)


def refuse(ctx):
    cu = ctx.mod('coordinate_utils')
    th, ph = ctx.angle('th', 10.0, 170.0), ctx.angle('ph', -180.0, 180.0)
    for r in (None, 'geo', 'xyz'):
        ctx.raises('points to %s' % r, lambda: cu.transform_points(th, ph, 0.0, reference=r))
        ctx.raises('vectors to %s' % r, lambda: cu.transform_vectors(th, ph, 1.0, 2.0, 0.0, reference=r))


def cases(tier):
    yield from long.cases('P20')
    for inv in (False, True):
        for s in SHAPES:
            yield Case('points-%s-%s' % (s, inv), points, shapes=s, inverse=inv, given=True)
        for s in ('scalar', 'vector', 'bases', 'one-point', 'mixed'):
            yield Case('matrix-%s-%s' % (s, inv), matrix, shapes=s, inverse=inv, given=True)
    yield Case('points-default', points, shapes='scalar', inverse=False, given=False)
    yield Case('matrix-default', matrix, shapes='scalar', inverse=False, given=False)
    for ref in ('gsm', 'sm', 'mag', 'GSM', 'SM', 'MAG'):
        for fmt in ('array', 'config', 'angles'):
            for inv in (False, True, None):
                for arr in (False, True):
                    if ref.isupper() and (fmt != 'array' or inv is not None or arr):
                        continue
                    for w in ('points', 'vectors'):
                        yield Case('%s-%s-%s-%s-%s' % (ref, fmt, inv, w, 'array' if arr else 'one'), reference,
                                   ref=ref, fmt=fmt, inverse=inv, what=w, array=arr)
    yield Case('refusals', refuse)
