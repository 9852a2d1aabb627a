"""P12: extrapolation."""
from symx.harness import Case
from . import long
from . import pp
from .p11 import model, OPTIONS

BOUNDS = ('orders 1 to 6 (quick) / 8, 1 or 2 pieces, coefficients [-1, 1], break distance [0.5, 3] days; times up to 50 '
          'days outside either end, alone, on both sides and mixed with times inside; every documented option, integer '
          'options 0 to 7 and booleans; derivatives 0 to 5')
OUTSIDE = 'zero-length periods of order above one; negative integer options'

KEYS = {None: 2, 'constant': 1, 'linear': 2, 'quadratic': 3, 'cubic': 4, 'spline': 99, 'off': 0}


def key_of(ext):
    if isinstance(ext, bool):
        return 2 if ext else 0
    if ext in KEYS:
        return KEYS[ext]
    return int(ext)


def outside(ctx, br, side, name='u'):
    u = ctx.var(name, 1e-6, 50.0)
    return br[-1] + u if side == 'right' else br[0] - u


def compare(ctx, r, br, c, t, side, key, deriv, label, ndim):
    np = ctx.np
    for d in range(ndim):
        if key == 0:
            ctx.check(label + ' NaN %d' % d, np.isnan(r[d]))
        else:
            ctx.equal(label + ' coefficient %d' % d, r[d], pp.taylor(br, c, t, d, key, side, deriv), 1e-7,
                      1e6 * 365.25 ** deriv)


def taylor(ctx, order, pieces, ext, deriv, side):
    m, br, c = model(ctx, order, pieces, 3)
    t = outside(ctx, br, side)
    r, w = ctx.warned(lambda: m.synth_coeffs(t, deriv=deriv, extrapolate=ext))
    ctx.check('warns', len(w) >= 1)
    compare(ctx, r, br, c, t, side, key_of(ext), deriv, side, 3)


def both(ctx, order, ext, deriv):
    """Both ends and the inside in one call, twice."""
    np = ctx.np
    m, br, c = model(ctx, order, 2, 3)
    tl, tr = outside(ctx, br, 'left', 'ul'), outside(ctx, br, 'right', 'ur')
    ti = br[0] + ctx.var('f', 0.1, 0.9) * (br[1] - br[0])
    ts = np.array([[tr, ti], [tl, br[1]]])
    r1 = m.synth_coeffs(ts, deriv=deriv, extrapolate=ext)
    r2 = m.synth_coeffs(ts, deriv=deriv, extrapolate=ext)
    ctx.check('shape', np.shape(r1) == (2, 2, 3))
    k = key_of(ext)
    for r, lab in ((r1, 'first'), (r2, 'again')):
        compare(ctx, r[0, 0], br, c, tr, 'right', k, deriv, lab + ' right', 3)
        compare(ctx, r[1, 0], br, c, tl, 'left', k, deriv, lab + ' left', 3)
        for d in range(3):
            ctx.equal('%s inside %d' % (lab, d), r[0, 1, d], pp.value(ctx, br, c, ti, d, deriv), 1e-7,
                      1e4 * 365.25 ** deriv)
    alone = m.synth_coeffs(tl, deriv=deriv, extrapolate=ext)
    compare(ctx, alone, br, c, tl, 'left', k, deriv, 'alone after', 3)


def continuous(ctx, order, ext, side):
    """Approaching the end: the polynomial extends the value at the end."""
    np = ctx.np
    m, br, c = model(ctx, order, 1, 3)
    e = br[-1] if side == 'right' else br[0]
    u = ctx.var('u', 1e-9, 1e-7)
    r = m.synth_coeffs(e + u if side == 'right' else e - u, extrapolate=ext)
    at = m.synth_coeffs(e)
    for d in range(3):
        ctx.equal('limit %d' % d, r[d], at[d], 1e-4)


def unknown(ctx, ext, side):
    m, br, c = model(ctx, 3, 1, 3)
    t = outside(ctx, br, side)
    ctx.raises('unknown option ' + ext, lambda: m.synth_coeffs(t, extrapolate=ext))


def field(ctx, ext, deriv, side):
    """Option and derivative reach the field values."""
    mu, np = ctx.mod('model_utils'), ctx.np
    m, br, c = model(ctx, 4, 1, 3)
    t = outside(ctx, br, side)
    B = m.synth_values(t, 6371.2, 60.0, 30.0, deriv=deriv, extrapolate=ext)
    k = key_of(ext)
    if k == 0:
        for i in range(3):
            ctx.check('NaN', np.isnan(np.asarray(B[i])[()]))
        return
    g = np.array([pp.taylor(br, c, t, d, k, side, deriv) for d in range(3)])
    w = mu.synth_values(g, 6371.2, 60.0, 30.0)
    for i in range(3):
        ctx.equal('component %d' % i, np.asarray(B[i])[()], np.asarray(w[i])[()], 1e-10, 1e6 * 365.25 ** deriv)


def truncated(ctx, ext, nmax):
    m, br, c = model(ctx, 3, 1, 8)
    t = outside(ctx, br, 'right')
    r = m.synth_coeffs(t, nmax=nmax, extrapolate=ext)
    ctx.check('shape', ctx.np.shape(r) == (nmax * (nmax + 2),))
    compare(ctx, r, br, c, t, 'right', key_of(ext), 0, 'truncated', nmax * (nmax + 2))


def cases(tier):
    yield from long.cases('P12')
    top = 6 if tier == 'quick' else 8
    opts = list(OPTIONS) + [4, 5]
    for ext in opts:
        e = '%s-%s' % (type(ext).__name__, ext)
        for order in range(1, top + 1):
            for side in ('left', 'right'):
                for deriv in range(order) if order >= 4 else (0, 1):
                    yield Case('taylor-%s-%d-%s-%d' % (e, order, side, deriv), taylor, order=order,
                               pieces=1 if order % 2 else 2, ext=ext, deriv=deriv, side=side)
        for deriv in (0, 1):
            yield Case('both-%s-%d' % (e, deriv), both, order=4, ext=ext, deriv=deriv)
        if key_of(ext):
            for side in ('left', 'right'):
                yield Case('continuous-%s-%s' % (e, side), continuous, order=4, ext=ext, side=side)
        for side in ('left', 'right'):
            yield Case('field-%s-%s' % (e, side), field, ext=ext, deriv=1 if side == 'left' else 0, side=side)
        yield Case('truncated-%s' % e, truncated, ext=ext, nmax=1)
    for name in ('foo', '', 'none', 'order-2'):
        for side in ('left', 'right'):
            yield Case('unknown-%s-%s' % (name, side), unknown, ext=name, side=side)
