"""P13: model evaluation is synthesis of the coefficients at the requested time."""
from symx.harness import Case
from . import long
from . import pp, oracle
from .p11 import inside

BOUNDS = ('order 1 to 3, 1 or 2 pieces, degree 1 to 3 and 5 (quick) / 8, both sources, truncation degrees below, at and above the degree of '
          'the model, derivatives 0 to 2, scalar, array, broadcast and grid layouts; times inside and outside the period; breaks and coefficients '
          'of integer type')
NAMES = ('radial', 'southward', 'eastward')


def setup(ctx, order, pieces, N, source):
    ch = ctx.mod('chaos')
    br = ctx.increasing('b', pieces + 1, -5.0, 5.0, (0.5, 3.0))
    c = ctx.vec('c', (order, pieces, N * (N + 2)))
    return ch.BaseModel('m', br, order, c, source=source), br, c


def compare(ctx, B, w, deriv, label=''):
    np = ctx.np
    for n, a, b in zip(NAMES, B, w):
        ctx.equal(label + n, a if np.shape(a) else np.asarray(a)[()], b if np.shape(b) else np.asarray(b)[()], 1e-10,
                  1e4 * 365.25 ** (deriv or 0))


def where(ctx, kind, br):
    np = ctx.np
    if kind == 'scalar':
        return inside(ctx, br), ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -180., 360.), {}
    ts = np.array([br[0] + (br[-1] - br[0]) * ctx.var('f%d' % i, 0.0, 0.999) for i in range(2)])
    if kind == 'array':
        return ts, ctx.vec('X', 2, 0.8, 1.6), ctx.angles('th', 2, 0.5, 179.5), ctx.angles('ph', 2, -180., 360.), {}
    if kind == 'time-array':
        return ts, ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -180., 360.), {}
    if kind == 'broadcast':
        return (ts[:, None], ctx.var('X', 0.8, 1.6), ctx.angles('th', 2, 0.5, 179.5), ctx.angle('ph', -180., 360.), {})
    if kind == 'grid':
        return (ts[0], ctx.var('X', 0.8, 1.6), ctx.angles('th', 2, 0.5, 179.5), ctx.angles('ph', 3, -180., 360.),
                {'grid': True})
    if kind == 'grid-time':
        return (ts[:, None, None], ctx.var('X', 0.8, 1.6), ctx.angles('th', 2, 0.5, 179.5),
                ctx.angles('ph', 2, -180., 360.), {'grid': True})


def model(ctx, order, pieces, N, source, nmax, deriv, kind):
    mu, np = ctx.mod('model_utils'), ctx.np
    m, br, c = setup(ctx, order, pieces, N, source)
    t, X, th, ph, kw = where(ctx, kind, br)
    opt = dict(kw)
    if nmax is not None:
        opt['nmax'] = nmax
    if deriv:
        opt['deriv'] = deriv
    B, w = ctx.warned(lambda: m.synth_values(t, 6371.2 * X, th, ph, **opt))
    ctx.check('warns exactly when the degree is too large', bool(w) == (nmax is not None and nmax > N))
    top = min(nmax or N, N)
    g = m.synth_coeffs(t, deriv=deriv)[..., :top * (top + 2)]
    want = mu.synth_values(g, 6371.2 * X, th, ph, source=source, **kw)
    compare(ctx, B, want, deriv)
    if kind == 'scalar':
        gg = [pp.value(ctx, br, c, t, d, deriv or 0) for d in range(top * (top + 2))]
        compare(ctx, B, oracle.field(np, gg, X, th, ph, 1, top, source=source or 'internal'), deriv, 'definition ')


def outside(ctx, source, ext, nmax):
    mu, np = ctx.mod('model_utils'), ctx.np
    m, br, c = setup(ctx, 3, 1, 2, source)
    t = br[-1] + ctx.var('u', 0.01, 5.0)
    X, th, ph = ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -180., 360.)
    B = m.synth_values(t, 6371.2 * X, th, ph, extrapolate=ext, nmax=nmax)
    g = m.synth_coeffs(t, extrapolate=ext, nmax=nmax)
    compare(ctx, B, mu.synth_values(g, 6371.2 * X, th, ph, source=source), 2)


def functional(ctx, order, pieces, N, source, nmax, deriv, kind):
    mu, np = ctx.mod('model_utils'), ctx.np
    m, br, c = setup(ctx, order, pieces, N, source)
    t, X, th, ph, kw = where(ctx, kind, br)
    opt = dict(kw)
    if nmax is not None:
        opt['nmax'] = nmax
    if deriv:
        opt['deriv'] = deriv
    if source:
        opt['source'] = source
    B, w = ctx.warned(lambda: mu.synth_from_pp(br, order, c, t, 6371.2 * X, th, ph, **opt))
    ctx.check('warns exactly when the degree is too large', bool(w) == (nmax is not None and nmax > N))
    opt.pop('source', None)
    compare(ctx, B, m.synth_values(t, 6371.2 * X, th, ph, **opt), deriv or 0)


def functional_whole(ctx, order, kind):
    """Breaks or coefficients of integer type."""
    mu, np = ctx.mod('model_utils'), ctx.np
    br = np.array([0, 10, 40] if 'b' in kind else [0.0, 10.0, 40.0])
    c = (ctx.ivec if 'c' in kind else ctx.vec)('c', (order, 2, 3), -100, 100)
    t = ctx.var('f', 0.0, 39.9)
    X, th, ph = ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -180., 360.)
    B = mu.synth_from_pp(br, order, c, t, 6371.2 * X, th, ph)
    g = [pp.value(ctx, [0.0, 10.0, 40.0], c, t, d, 0) for d in range(3)]
    compare(ctx, B, oracle.field(np, g, X, th, ph, 1, 1), 0, 'definition ')


def functional_outside(ctx, side, deriv):
    mu, np = ctx.mod('model_utils'), ctx.np
    m, br, c = setup(ctx, 3, 2, 1, None)
    u = ctx.var('u', 1e-6, 50.0)
    t = br[-1] + u if side == 'right' else br[0] - u
    ti = inside(ctx, br)
    B = mu.synth_from_pp(br, 3, c, np.array([t, ti]), 6371.2, 50.0, 20.0, deriv=deriv)
    w = m.synth_values(ti, 6371.2, 50.0, 20.0, deriv=deriv)
    for n, b, x in zip(NAMES, B, w):
        ctx.check(n + ' NaN outside', np.isnan(b[0]))
        ctx.equal(n + ' inside', b[1], np.asarray(x)[()], 1e-10, 1e6)


def cases(tier):
    yield from long.cases('P13')
    N3 = 5 if tier == 'quick' else 8
    for source in (None, 'internal', 'external'):
        for kind in ('scalar', 'array', 'time-array', 'broadcast', 'grid', 'grid-time'):
            for order, pieces, N, nmax, deriv in ((1, 1, 1, None, None), (2, 2, 2, 1, 1), (3, 1, 2, 2, None),
                                                  (2, 1, 2, 3, 2), (3, 2, N3, 2, 1), (2, 1, N3, None, 0),
                                                  (3, 1, 2, 5, 1), (3, 2, 1, 3, 2)):
                kw = dict(order=order, pieces=pieces, N=N, source=source, nmax=nmax, deriv=deriv, kind=kind)
                name = '%s-%s-%d-%d-%d-%s-%s' % (source, kind, order, pieces, N, nmax, deriv)
                yield Case('model-' + name, model, **kw)
                if kind in ('scalar', 'array', 'grid'):
                    yield Case('functional-' + name, functional, **kw)
        for ext in (None, 'constant', 'quadratic', 'spline', 1):
            for nmax in (None, 1):
                yield Case('outside-%s-%s-%s' % (source, ext, nmax), outside, source=source, ext=ext, nmax=nmax)
    for side in ('left', 'right'):
        for deriv in (None, 1):
            yield Case('functional-outside-%s-%s' % (side, deriv), functional_outside, side=side, deriv=deriv)
    for order in (1, 2, 3):
        for kind in ('b', 'c', 'bc'):
            yield Case('integers-%d-%s' % (order, kind), functional_whole, order=order, kind=kind)
