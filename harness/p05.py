"""P05: broadcasting and the grid option."""
import numpy as onp
from symx.harness import Case
from .long import mixed, chosen, elementwise

BOUNDS = ('degree 2 (and truncations of it), radius ratio [0.8, 1.6], colatitude [0.5, 179.5] deg and poles, longitude '
          '[-360, 720] deg, array shapes up to 3 dimensions with at most 3 entries each, listed per case')
OUTSIDE = 'other shapes; empty arrays; radius and coefficients together with grid=True in shapes not listed'
NAMES = ('radial', 'southward', 'eastward')

# radius, theta, phi, leading dimensions of the coefficients
SHAPES = [
    ((), (), (), ()),
    ((), (3,), (), ()),
    ((), (), (3,), ()),
    ((3,), (), (), ()),
    ((2,), (2,), (2,), ()),
    ((2,), (2,), (2,), (2,)),
    ((), (), (), (3,)),
    ((), (), (), (2, 2)),
    ((2, 1), (1, 2), (2, 2), ()),
    ((2, 1, 1), (2, 1), (3,), ()),
    ((3,), (2, 1), (), (2, 1)),
    ((1,), (1,), (1,), (3,)),
    ((2, 1), (1,), (2,), (2, 1)),
    ((2, 1, 1), (1, 2, 1), (2,), (1, 1, 2)),
    ((2,), (3, 1), (1, 2), (3, 1)),
    ((), (2,), (2, 1), (2, 2)),
]
# the same with grid=True: theta (..., p), phi (..., q)
GRIDS = [
    ((), (2,), (3,), ()),
    ((), (1,), (2,), ()),
    ((), (3,), (1,), ()),
    ((), (2,), (2,), ()),
    ((2, 3), (2,), (3,), ()),
    ((2, 1), (2,), (3,), ()),
    ((3,), (2,), (3,), ()),
    ((), (2,), (3,), (2, 3)),
    ((), (2,), (3,), (2, 1)),
    ((2, 1, 1), (2,), (2,), ()),
    ((2, 1, 1), (2,), (2,), (2, 1, 1)),
    ((), (2, 2), (2, 3), ()),
    ((), (2,), (2,), (3, 1, 1)),
]


def make(ctx, name, shape, lo, hi, angle):
    if shape == ():
        return ctx.angle(name, lo, hi) if angle else ctx.var(name, lo, hi)
    return ctx.angles(name, shape, lo, hi) if angle else ctx.vec(name, shape, lo, hi)


def inputs(ctx, sr, st, sp, sc, nc):
    X = make(ctx, 'X', sr, 0.8, 1.6, False)
    th = make(ctx, 'th', st, 0.5, 179.5, True)
    ph = make(ctx, 'ph', sp, -360.0, 720.0, True)
    g = ctx.vec('g', sc + (nc,))
    return X, th, ph, g


def pointwise(ctx, B, X, th, ph, g, shape, sc, label='', **kw):
    mu, np = ctx.mod('model_utils'), ctx.np
    for k in range(3):
        ctx.check(label + NAMES[k] + ' has the broadcast shape', np.shape(B[k]) == shape)
        if np.shape(B[k]) != shape:
            return
    Xb, tb, pb = np.broadcast_to(X, shape), np.broadcast_to(th, shape), np.broadcast_to(ph, shape)
    gb = np.broadcast_to(g, shape + np.shape(g)[-1:])
    for idx in onp.ndindex(*shape):
        one = mu.synth_values(gb[idx], 6371.2 * Xb[idx], tb[idx], pb[idx], **kw)
        for k in range(3):
            ctx.equal('%s%s at %s' % (label, NAMES[k], idx), np.asarray(B[k])[idx], np.asarray(one[k])[()], 1e-9, 1e3)


def broadcast(ctx, shapes, nmin, nmax, mmax, source):
    mu, np = ctx.mod('model_utils'), ctx.np
    from . import oracle
    sr, st, sp, sc = shapes
    kw = dict(nmin=nmin, nmax=nmax, mmax=mmax, source=source)
    X, th, ph, g = inputs(ctx, sr, st, sp, sc, oracle.ncoeff(nmin, nmax, mmax))
    B = mu.synth_values(g, 6371.2 * X, th, ph, **kw)
    pointwise(ctx, B, X, th, ph, g, onp.broadcast_shapes(sr, st, sp, sc), sc, **kw)


def grid(ctx, shapes, nmin, nmax, mmax, source):
    mu, np = ctx.mod('model_utils'), ctx.np
    from . import oracle
    sr, st, sp, sc = shapes
    kw = dict(nmin=nmin, nmax=nmax, mmax=mmax, source=source)
    X, th, ph, g = inputs(ctx, sr, st, sp, sc, oracle.ncoeff(nmin, nmax, mmax))
    B = mu.synth_values(g, 6371.2 * X, th, ph, grid=True, **kw)
    te, pe = th[..., None], ph[..., None, :]
    shape = onp.broadcast_shapes(sr, np.shape(te), np.shape(pe), sc)
    pointwise(ctx, B, X, te, pe, g, shape, sc, **kw)
    C = mu.synth_values(g, 6371.2 * X, te, pe, grid=False, **kw)
    D = mu.synth_values(g, 6371.2 * X, te, pe, **kw)
    for k in range(3):
        ctx.equal(NAMES[k] + ' equals the explicit outer product', B[k], C[k], 1e-9, 1e3)
        ctx.equal(NAMES[k] + ' grid off by default', D[k], C[k], 1e-9, 1e3)


def design(ctx, shapes, grid_like):
    mu, np = ctx.mod('model_utils'), ctx.np
    sr, st, sp, _ = shapes
    X, th, ph, g = inputs(ctx, sr, st, sp, (), 8)
    A = mu.design_gauss(6371.2 * X, th, ph, 2)
    shape = onp.broadcast_shapes(sr, st, sp)
    Xb, tb, pb = np.broadcast_to(X, shape), np.broadcast_to(th, shape), np.broadcast_to(ph, shape)
    for k in range(3):
        ctx.check(NAMES[k] + ' shape', np.shape(A[k]) == shape + (8,))
    for idx in onp.ndindex(*shape):
        one = mu.design_gauss(6371.2 * Xb[idx], tb[idx], pb[idx], 2)
        for k in range(3):
            ctx.equal('%s row at %s' % (NAMES[k], idx), A[k][idx], one[k], 1e-9, 1e3)


def poles(ctx, use_grid):
    """Poles in some positions do not disturb the rest."""
    mu, np = ctx.mod('model_utils'), ctx.np
    t = ctx.angles('th', 2, 0.5, 179.5)
    th = np.array([0.0, t[0], 180.0, t[1]])
    ph = ctx.angles('ph', 2, -360.0, 720.0)
    X = ctx.var('X', 0.8, 1.6)
    g = ctx.vec('g', (4, 1, 8)) if use_grid else ctx.vec('g', (2, 1, 8))
    if use_grid:
        B = mu.synth_values(g, 6371.2 * X, th, ph, grid=True)
        pointwise(ctx, B, X, th[:, None], ph, g, (4, 2), (4, 1))
    else:
        pb = np.array([ph[0], ph[1], ph[0], ph[1]])
        B = mu.synth_values(g, 6371.2 * X, th, pb)
        pointwise(ctx, B, X, th, pb, g, (2, 4), (2, 1))


def integers(ctx):
    mu, np = ctx.mod('model_utils'), ctx.np
    g = onp.array([[3, -2, 5, 1, 0, 2, -7, 4], [1, 1, 2, 0, 5, -3, 2, 2]])
    r = onp.array([6371, 7000])
    th, ph = onp.array([[30], [90], [120]]), onp.array([0, 45])
    x = ctx.angle('ph', -180.0, 180.0)
    B = mu.synth_values(g, r, th[:, :, None], np.array([[0.0], [x]]))
    C = mu.synth_values(g * 1.0, r * 1.0, th[:, :, None] * 1.0, np.array([[0.0], [x]]))
    D = mu.synth_values(g.tolist(), r.tolist(), th[:, :, None].tolist(), [[0.0], [x]])
    for k in range(3):
        ctx.check(NAMES[k] + ' shape', np.shape(B[k]) == (3, 2, 2))
        ctx.equal(NAMES[k] + ' integer input', B[k], C[k], 1e-9, 1e3)
        ctx.equal(NAMES[k] + ' list input', D[k], C[k], 1e-9, 1e3)
    pointwise(ctx, B, r / 6371.2, th[:, :, None], np.array([[0.0], [x]]), g, (3, 2, 2), (2,))
    E = mu.synth_values(g[0], 6371, th[:, 0], ph, grid=True)
    pointwise(ctx, E, 6371 / 6371.2, th, ph, g[0], (3, 2), ())


def refuse(ctx):
    mu, np = ctx.mod('model_utils'), ctx.np
    t2, p2 = ctx.angles('t', 2, 0.5, 179.5), ctx.angles('p', 2, -180.0, 180.0)
    t3, p3 = ctx.angles('u', 3, 0.5, 179.5), ctx.angles('q', 3, -180.0, 180.0)
    r3 = 6371.2 * ctx.vec('X', 3, 0.8, 1.6)
    g = ctx.vec('g', 8)
    G2, G3 = ctx.vec('G', (2, 8)), ctx.vec('H', (3, 8))
    s = mu.synth_values
    ctx.raises('theta 2, phi 3', lambda: s(g, 6371.2, t2, p3))
    ctx.raises('radius 3, theta 2', lambda: s(g, r3, t2, p2))
    ctx.raises('radius 3, theta 2 column', lambda: s(g, r3, t2, p2[0]))
    ctx.raises('coefficients 3, points 2', lambda: s(G3, 6371.2, t2, p2))
    ctx.raises('coefficients 2, points 3', lambda: s(G2, r3, t3, p3))
    ctx.raises('grid with radius of another shape', lambda: s(g, r3, t2, p2, grid=True))
    ctx.raises('grid with coefficients of another shape', lambda: s(G3, 6371.2, t2, p2, grid=True))
    ctx.raises('design theta 2, phi 3', lambda: mu.design_gauss(6371.2, t2, p3, 2))
    ctx.raises('design radius 3, theta 2', lambda: mu.design_gauss(r3, t2, p2, 2))


def many(ctx, n, at, how):
    """Many points at once."""
    mu, np = ctx.mod('model_utils'), ctx.np
    at = [a % n for a in at]
    X = 6371.2 * mixed(ctx, n, 0.8, 1.6, {at[0]: ctx.var('X', 0.8, 1.6)})
    th = mixed(ctx, n, 1.0, 179.0, {k: ctx.angle('th%d' % k, 0.5, 179.5) for k in at}, 0.2)
    ph = mixed(ctx, n, -180.0, 360.0, {k: ctx.angle('ph%d' % k, -360.0, 720.0) for k in at}, 0.5)
    g = ctx.vec('g', (8,))
    if how == 'points':
        elementwise(ctx, lambda r, t, p: mu.synth_values(g, r, t, p), (X, th, ph), n, chosen(n, at), 1e-9, 1e3)
    elif how == 'design':
        elementwise(ctx, lambda r, t, p: mu.design_gauss(r, t, p, 2), (X, th, ph), n, chosen(n, at), 1e-9, 1e3)
    else:
        p2 = ph[:3] if how == 'lat' else ph
        t2 = th if how == 'lat' else th[:3]
        B = mu.synth_values(g, 6371.2, t2, p2, grid=True)
        for k in range(3):
            ctx.check(NAMES[k] + ' shape', np.shape(B[k]) == np.shape(t2) + np.shape(p2))
        for i in chosen(n, at):
            for j in range(3):
                a, b = (i, j) if how == 'lat' else (j, i)
                one = mu.synth_values(g, 6371.2, t2[a], p2[b])
                for k in range(3):
                    ctx.equal('%s at %s' % (NAMES[k], (a, b)), B[k][a, b], np.asarray(one[k])[()], 1e-9, 1e3)


def cases(tier):
    for how, n in (('points', 1100), ('design', 300), ('lat', 200), ('lon', 400)):
        yield Case('many-%s' % how, many, n=n, at=(7, -2), how=how)
    trunc = [(1, 2, 2, 'internal'), (1, 2, 2, 'external'), (2, 2, 1, 'internal'), (1, 3, 0, 'external'), (1, 4, 4, 'internal'), (2, 4, 3, 'external')]
    if tier != 'quick':
        trunc += [(1, 6, 6, 'internal'), (3, 6, 1, 'external')]
    for t in trunc:
        kw = dict(nmin=t[0], nmax=t[1], mmax=t[2], source=t[3])
        name = '-'.join(map(str, t))
        for i, s in enumerate(SHAPES):
            yield Case('broadcast-%d-%s' % (i, name), broadcast, shapes=s, **kw)
        for i, s in enumerate(GRIDS):
            yield Case('grid-%d-%s' % (i, name), grid, shapes=s, **kw)
    for i, s in enumerate(SHAPES[:16]):
        yield Case('design-%d' % i, design, shapes=s, grid_like=False)
    for u in (False, True):
        yield Case('poles-%s' % ('grid' if u else 'broadcast'), poles, use_grid=u)
    yield Case('integers', integers)
    yield Case('refusals', refuse)
