"""P11: coefficients inside the model period."""
from symx.harness import Case
from . import long
from . import pp

BOUNDS = ('orders 1 to 6 (quick) / 7, 1 to 3 pieces (4), 3 or 8 coefficients in [-1, 1], break distance [0.5, 3] days '
          'from a start in [-5, 5]; derivatives 0 to order+1; any symbolic time in the closed period (breaks included), '
          'alone or together with times outside; every extrapolation option')
OUTSIDE = 'zero-length periods; integer coefficient arrays; more pieces'
OPTIONS = (None, 'constant', 'linear', 'quadratic', 'cubic', 'spline', 'off', 0, 1, 2, 3, 7, True, False)


def model(ctx, order, pieces, dim, cls='BaseModel', extra=0, **kw):
    ch = ctx.mod('chaos')
    br = ctx.increasing('b', pieces + 1, -5.0, 5.0, (0.5, 3.0))
    c = ctx.vec('c', (order + extra, pieces, dim))
    return getattr(ch, cls)('model', breaks=br, order=order, coeffs=c, **kw), br, c


def inside(ctx, br, name='t'):
    t = ctx.var(name, -6.0, 25.0)
    ctx.assume((t >= br[0]) & (t <= br[-1]))
    return t


def one(ctx, order, pieces, deriv, extrapolate, cls):
    np = ctx.np
    m, br, c = model(ctx, order, pieces, 3, cls)
    t = inside(ctx, br)
    kw = {}
    if deriv is not None:
        kw['deriv'] = deriv
    if extrapolate is not None:
        kw['extrapolate'] = extrapolate
    r, w = ctx.warned(lambda: m.synth_coeffs(t, **kw))
    ctx.check('shape', np.shape(r) == (3,))
    for d in range(3):
        ctx.equal('coefficient %d' % d, r[d], pp.value(ctx, br, c, t, d, deriv or 0), 1e-10, 1e3 * 365.25 ** (deriv or 0))
    ctx.check('no warning inside the period', not w)


def with_outside(ctx, order, pieces, deriv, extrapolate, side, swap):
    """The value inside does not depend on a second time outside the period."""
    np = ctx.np
    m, br, c = model(ctx, order, pieces, 3)
    t = inside(ctx, br)
    u = ctx.var('u', 0.001, 5.0)
    o = br[-1] + u if side == 'right' else br[0] - u
    ts = np.array([o, t] if swap else [t, o])
    r = m.synth_coeffs(ts, deriv=deriv, extrapolate=extrapolate)
    ctx.check('shape', np.shape(r) == (2, 3))
    for d in range(3):
        ctx.equal('coefficient %d' % d, r[1 if swap else 0, d], pp.value(ctx, br, c, t, d, deriv), 1e-8,
                  1e3 * 365.25 ** deriv)


def at_breaks(ctx, order, pieces, deriv, extrapolate, outside):
    """Exactly at the breaks: right-continuous, except for the end of the period."""
    np = ctx.np
    m, br, c = model(ctx, order, pieces, 3)
    ts = list(br)
    if outside:
        ts = ts + [br[-1] + 1.0, br[0] - 1.0]
    r = m.synth_coeffs(np.array(ts), deriv=deriv, extrapolate=extrapolate)
    for i in range(pieces + 1):
        j = min(i, pieces - 1)
        for d in range(3):
            want = pp.poly([c[k][j][d] for k in range(order)], ts[i] - br[j], deriv) * 365.25 ** deriv
            ctx.equal('break %d, coefficient %d' % (i, d), r[i, d], want, 1e-10, 1e3 * 365.25 ** deriv)


def truncated(ctx, nmax, deriv, cls, outside):
    np = ctx.np
    m, br, c = model(ctx, 3, 2, 8, cls)
    t = inside(ctx, br)
    ts = np.array([t, br[-1] + 1.0]) if outside else np.array([t])
    if cls == 'Base':
        r, w = ctx.warned(lambda: m.synth_coeffs(ts, dim=nmax, deriv=deriv))
        n = min(nmax, 8)
        big = nmax > 8
    else:
        r, w = ctx.warned(lambda: m.synth_coeffs(ts, nmax=nmax, deriv=deriv))
        n = min(nmax * (nmax + 2), 8)
        big = nmax > 2
    ctx.check('shape', np.shape(r) == (len(ts), n))
    ctx.check('warns only for more coefficients than available or outside', bool(w) == (big or outside))
    for d in range(n):
        ctx.equal('coefficient %d' % d, r[0, d], pp.value(ctx, br, c, t, d, deriv), 1e-10, 1e3 * 365.25 ** deriv)


def shapes(ctx, shape, kind):
    np = ctx.np
    m, br, c = model(ctx, 3, 2, 3)
    if kind == 'list':
        f = [inside(ctx, br, 't%d' % i) for i in range(2)]
        r = m.synth_coeffs(f)
        ctx.check('shape', np.shape(r) == (2, 3))
        it = [((i,), f[i]) for i in range(2)]
    elif kind == 'int':
        ctx.assume((br[0] <= 6.0) & (br[-1] >= 8.0))
        t = ctx.ivar('t', 6, 8)
        r = m.synth_coeffs(t)
        ctx.check('shape', np.shape(r) == (3,))
        it = [((), t)]
    else:
        ts = ctx.vec('t', shape, -6.0, 25.0)
        import numpy
        idx = list(numpy.ndindex(*shape))
        for i in idx:
            ctx.assume((ts[i] >= br[0]) & (ts[i] <= br[-1]))
        r = m.synth_coeffs(ts)
        ctx.check('shape', np.shape(r) == shape + (3,))
        it = [(i, ts[i]) for i in idx]
    for i, t in it:
        for d in range(3):
            ctx.equal('%s coefficient %d' % (i, d), r[i + (d,)], pp.value(ctx, br, c, t, d), 1e-8, 1e3)


def lower_order(ctx, order, extra):
    """A smaller order than available keeps the lower powers."""
    m, br, c = model(ctx, order, 2, 3, extra=extra)
    t = inside(ctx, br)
    r = m.synth_coeffs(t)
    ctx.check('order', m.order == order)
    for d in range(3):
        ctx.equal('coefficient %d' % d, r[d], pp.value(ctx, br, c[extra:], t, d), 1e-8, 1e3)


def default_order(ctx, order):
    """Order taken from the coefficients; also one that is larger than available."""
    ch = ctx.mod('chaos')
    br = ctx.increasing('b', 3, -5.0, 5.0, (0.5, 3.0))
    c = ctx.vec('c', (order, 2, 3))
    t = inside(ctx, br)
    for o in (None, order, order + 2):
        m = ch.BaseModel('m', br, o, c)
        ctx.check('order', m.order == order and m.pieces == 2 and m.dim == 3 and m.nmax == 1)
        r = m.synth_coeffs(t)
        for d in range(3):
            ctx.equal('coefficient %d order %s' % (d, o), r[d], pp.value(ctx, br, c, t, d), 1e-8, 1e3)


def derivative_is_slope(ctx, order, deriv):
    """First derivative of derivative k-1 by comparison of polynomial identities: exact divided differences."""
    np = ctx.np
    m, br, c = model(ctx, order, 1, 3)
    t = inside(ctx, br)
    h = ctx.var('h', 0.001, 0.5)
    ctx.assume(t + h <= br[-1])
    a = m.synth_coeffs(t, deriv=deriv - 1)
    b = m.synth_coeffs(t + h, deriv=deriv - 1)
    # Taylor expansion of the polynomial about t with the derivatives returned by the model, per year
    s = h / 365.25
    for d in range(3):
        tot, fac = a[d], 1.0
        for k in range(1, order):
            fac *= k
            tot = tot + m.synth_coeffs(t, deriv=deriv - 1 + k)[d] * pp.ipow(s, k) / fac
        ctx.equal('Taylor series %d' % d, b[d], tot, 1e-10, 1e3 * 365.25 ** (deriv - 1))


def from_pp(ctx, order, pieces, deriv):
    mu, np = ctx.mod('model_utils'), ctx.np
    br = ctx.increasing('b', pieces + 1, -5.0, 5.0, (0.5, 3.0))
    c = ctx.vec('c', (order, pieces, 3))
    t = inside(ctx, br)
    B = mu.synth_from_pp(br, order, c, t, 6371.2, 90.0, 0.0, deriv=deriv)
    g = [pp.value(ctx, br, c, t, d, deriv) for d in range(3)]
    w = mu.synth_values(np.array(g), 6371.2, 90.0, 0.0)
    for k in range(3):
        ctx.equal('component %d' % k, np.asarray(B[k])[()], np.asarray(w[k])[()], 1e-10, 1e3 * 365.25 ** deriv)


def missing(ctx):
    ch, np = ctx.mod('chaos'), ctx.np
    br = ctx.increasing('b', 2, -5.0, 5.0, (0.5, 3.0))
    t = inside(ctx, br)
    ctx.raises('no coefficients', lambda: ch.BaseModel('m', br, 1, None).synth_coeffs(t))
    ctx.raises('empty coefficients', lambda: ch.BaseModel('m', br, 1, np.zeros((1, 1, 0))).synth_coeffs(t))


def single_break(ctx):
    """Static part: a single break stands for a constant."""
    ch, np = ctx.mod('chaos'), ctx.np
    b = ctx.var('b', -5.0, 5.0)
    c = ctx.vec('c', (1, 1, 3))
    m = ch.BaseModel('m', np.array([b]), 1, c)
    t = ctx.var('t', -20.0, 20.0)
    r = m.synth_coeffs(t)
    for d in range(3):
        ctx.equal('coefficient %d' % d, r[d], c[0, 0, d], 1e-10)


def cases(tier):
    yield from long.cases('P11')
    quick = tier == 'quick'
    top = 6 if quick else 7
    for order in range(1, top + 1):
        for pieces in (1, 2, 3) if quick else (1, 2, 3, 4):
            for deriv in [None] + list(range(0, order + 2)):
                yield Case('one-%d-%d-%s' % (order, pieces, deriv), one, order=order, pieces=pieces, deriv=deriv,
                           extrapolate=None, cls='BaseModel')
    for ext in OPTIONS:
        yield Case('one-option-%s-%s' % (type(ext).__name__, ext), one, order=3, pieces=2, deriv=1, extrapolate=ext, cls='Base')
        for deriv in (0, 1, 2):
            for side in ('left', 'right'):
                yield Case('outside-%s-%s-%d-%s' % (type(ext).__name__, ext, deriv, side), with_outside,
                           order=4 if deriv else 3, pieces=2, deriv=deriv, extrapolate=ext, side=side,
                           swap=side == 'left')
            yield Case('breaks-%s-%s-%d' % (type(ext).__name__, ext, deriv), at_breaks, order=4, pieces=2, deriv=deriv, extrapolate=ext,
                       outside=True)
    for order in range(1, top + 1):
        for pieces in (1, 3):
            for deriv in range(0, order + 1):
                yield Case('breaks-inside-%d-%d-%d' % (order, pieces, deriv), at_breaks, order=order, pieces=pieces,
                           deriv=deriv, extrapolate=None, outside=False)
    for outside in (False, True):
        for nmax in (1, 2, 3):
            for deriv in (0, 1):
                yield Case('truncated-%d-%d-%d' % (nmax, deriv, outside), truncated, nmax=nmax, deriv=deriv,
                           cls='BaseModel', outside=outside)
        for dim in (1, 2, 5, 8, 9):
            yield Case('dim-%d-%d' % (dim, outside), truncated, nmax=dim, deriv=0, cls='Base', outside=outside)
    for sh in ((1,), (2,), (1, 2), (2, 1)) if quick else ((1,), (2,), (2, 2), (1, 2)):
        yield Case('shape-%s' % 'x'.join(map(str, sh)), shapes, shape=sh, kind='array')
    yield Case('shape-list', shapes, shape=None, kind='list')
    yield Case('shape-int', shapes, shape=None, kind='int')
    for order, extra in ((1, 1), (2, 2), (3, 1)):
        yield Case('lower-order-%d-%d' % (order, extra), lower_order, order=order, extra=extra)
    for order in (1, 3):
        yield Case('default-order-%d' % order, default_order, order=order)
    for order in range(2, top + 1):
        for deriv in range(1, order):
            yield Case('slope-%d-%d' % (order, deriv), derivative_is_slope, order=order, deriv=deriv)
    for order, pieces, deriv in ((1, 2, 0), (3, 2, 0), (3, 2, 1), (4, 3, 2), (2, 1, 2)):
        yield Case('functional-%d-%d-%d' % (order, pieces, deriv), from_pp, order=order, pieces=pieces, deriv=deriv)
    yield Case('missing', missing)
    yield Case('single-break', single_break)
