"""P07: spatial power spectrum."""
import numpy as onp
from symx.harness import Case
from . import long
from . import oracle

BOUNDS = ('coefficients [-1, 1] of 1 to 4 degrees (quick) / 6, arrays up to 3 dimensions and every axis, radius ratio '
          '[0.5, 2]; surface radius 6371.2 km or any in [1000, 20000] km; model method with 1-2 pieces of order 1-3 and '
          'symbolic times inside and outside the period')
ASSUMPTIONS = 'the mean over the sphere is an exact quadrature of the explicit field expressions'

_m = {}


def mean_square(n, source):
    """Quadratic form of <|B|^2> for the coefficients of degree n at ratio 1, by quadrature."""
    key = (n, source)
    if key not in _m:
        x, w = onp.polynomial.legendre.leggauss(n + 2)
        M = onp.zeros((2 * n + 1, 2 * n + 1))
        nph = 2 * n + 3
        idx = oracle.index(n, n, n)
        for xi, wi in zip(x, w):
            c, s = xi, onp.sqrt(1 - xi * xi)
            for j in range(nph):
                ph = 360.0 * j / nph
                B = onp.array([oracle.basis(onp, *t, 1.0, c, s, ph, source) for t in idx])
                M += wi / 2 / nph * B @ B.T
        M[abs(M) < 1e-12] = 0.0
        _m[key] = M
    return _m[key]


def want(n, g, X, source):
    if source == 'toroidal':
        return n * (n + 1) / (2 * n + 1) * sum(x * x for x in g)
    M = mean_square(n, source)
    q = 0.0
    for i in range(2 * n + 1):
        for j in range(2 * n + 1):
            if M[i, j]:
                q = q + float(M[i, j]) * g[i] * g[j]
    if X is None:
        return q
    if source == 'internal':
        return q / X ** (2 * n + 4)
    return q * X ** (2 * n - 2) if n > 1 else q


def spectrum(ctx, lead, axis, N, nmax, source, rad, give_axis=True):
    mu, np = ctx.mod('model_utils'), ctx.np
    dim = N * (N + 2)
    shape = list(lead)
    ax = axis if axis is not None else -1
    pos = ax % (len(lead) + 1)
    shape.insert(pos, dim)
    g = ctx.vec('g', tuple(shape))
    kw = {}
    if axis is not None:
        kw['axis'] = axis
    if nmax is not None:
        kw['nmax'] = nmax
    if source is not None:
        kw['source'] = source
    X, args = None, ()
    if rad == 'radius':
        X = ctx.var('X', 0.5, 2.0)
        args = (6371.2 * X,)
    elif rad == 'config':
        a = ctx.var('a', 1000.0, 20000.0)
        ctx.set_config('params.r_surf', a)
        X = ctx.var('X', 0.5, 2.0)
        args = (a * X,)
    W = mu.power_spectrum(g, *args, **kw)
    top = N if nmax is None else min(nmax, N)
    sh = list(shape)
    sh[pos] = top
    ctx.check('shape', np.shape(W) == tuple(sh))
    if np.shape(W) != tuple(sh):
        return
    for idx in onp.ndindex(*lead):
        sel = list(idx)
        for n in range(1, top + 1):
            i0 = n * n - 1
            gs = [g[tuple(sel[:pos] + [i0 + k] + sel[pos:])] for k in range(2 * n + 1)]
            got = W[tuple(sel[:pos] + [n - 1] + sel[pos:])]
            ctx.equal('degree %d at %s' % (n, idx), got, np.asarray(want(n, gs, X, source or 'internal'))[()], 1e-8, 1e3)
            if source != 'internal' or n < 3:
                ctx.check('non-negative %d at %s' % (n, idx), got >= 0.0)


def field_average(ctx, n, source):
    """The package's own field, squared and averaged by quadrature."""
    mu, np = ctx.mod('model_utils'), ctx.np
    g = ctx.vec('g', 2 * n + 1)
    x, w = onp.polynomial.legendre.leggauss(n + 2)
    nph = 2 * n + 3
    th, ph = onp.degrees(onp.arccos(x)), 360.0 * onp.arange(nph) / nph
    B = mu.synth_values(g, 6371.2 * 1.25, th, ph, nmin=n, nmax=n, source=source, grid=True)
    tot = 0.0
    for i in range(len(x)):
        for j in range(nph):
            for k in range(3):
                tot = tot + float(w[i]) / 2 / nph * B[k][i, j] ** 2
    full = np.concatenate((np.zeros(n * n - 1), g))
    W = mu.power_spectrum(full, 6371.2 * 1.25, source=source)
    ctx.equal('mean square field', W[n - 1], tot, 1e-9, 1e2)
    for k in range(n - 1):
        ctx.equal('other degrees', W[k], 0.0, 1e-12)


def integers(ctx):
    mu, np = ctx.mod('model_utils'), ctx.np
    g = onp.arange(-7, 8)
    X = ctx.var('X', 0.5, 2.0)
    W = mu.power_spectrum(g, 6371.2 * X)
    V = mu.power_spectrum(g, source='external')
    for n in range(1, 4):
        gs = [float(v) for v in g[n * n - 1:n * n + 2 * n]]
        ctx.equal('internal %d' % n, W[n - 1], want(n, gs, X, 'internal'), 1e-6, 1e4)
        ctx.equal('external %d' % n, V[n - 1], want(n, gs, None, 'external'), 1e-6, 1e4)


def model(ctx, order, pieces, source, rad, nmax, deriv, N, scalar):
    ch, mu, np = ctx.mod('chaos'), ctx.mod('model_utils'), ctx.np
    br = ctx.increasing('b', pieces + 1, -5.0, 5.0, (0.5, 3.0))
    c = ctx.vec('c', (order, pieces, N * (N + 2)))
    m = ch.BaseModel('m', breaks=br, order=order, coeffs=c, source=source)
    kw = {}
    if nmax:
        kw['nmax'] = nmax
    if deriv:
        kw['deriv'] = deriv
    span = br[-1] - br[0]
    t = br[0] + span * ctx.var('f', 0.0, 1.0)
    if not scalar:
        t = np.array([t, br[0] + span * ctx.var('f2', 0.0, 1.5)])
    args = ()
    X = None
    if rad:
        X = ctx.var('X', 0.5, 2.0)
        args = (6371.2 * X,)
    W = m.power_spectrum(t, *args, **kw)
    g = m.synth_coeffs(t, **kw)
    top = nmax or N
    ctx.check('shape', np.shape(W) == (() if scalar else (2,)) + (top,))
    for i in ([()] if scalar else [(0,), (1,)]):
        for n in range(1, top + 1):
            gs = [g[i + (n * n - 1 + k,)] for k in range(2 * n + 1)]
            ctx.equal('degree %d %s' % (n, i), W[i + (n - 1,)],
                      np.asarray(want(n, gs, X, source or 'internal'))[()], 1e-7, 1e6)


def refuse(ctx):
    mu = ctx.mod('model_utils')
    g = ctx.vec('g', 8)
    ctx.raises('source', lambda: mu.power_spectrum(g, source='poloidal'))
    ctx.raises('source upper case', lambda: mu.power_spectrum(g, source='Internal'))


def cases(tier):
    yield from long.cases('P07')
    top = 8 if tier == 'quick' else 12
    for source in (None, 'internal', 'external', 'toroidal'):
        for rad in ('default', 'radius', 'config'):
            for N in range(1, top + 1):
                yield Case('vector-%s-%s-%d' % (source, rad, N), spectrum, lead=(), axis=None, N=N, nmax=None,
                           source=source, rad=rad)
        for lead, axis in (((2,), None), ((2,), -1), ((2,), 0), ((2,), 1), ((2,), -2), ((2, 2), 1), ((2, 2), -2),
                           ((2, 2), 0), ((2, 3), -1), ((3, 2), 2), ((2, 2), -3), ((3,), 0), ((8,), 0), ((8,), 1)):
            for nmax in (None, 1, 2, 5):
                if lead == (8,) and nmax:
                    continue
                yield Case('axis-%s-%s-%s-%s' % (source, 'x'.join(map(str, lead)), axis, nmax), spectrum, lead=lead,
                           axis=axis, N=2, nmax=nmax, source=source, rad='radius')
        for nmax in (1, 2, 3, 4):
            yield Case('truncated-%s-%d' % (source, nmax), spectrum, lead=(), axis=None, N=3, nmax=nmax,
                       source=source, rad='default')
    for n in range(1, min(top, 8) - 1):
        for source in ('internal', 'external'):
            yield Case('field-average-%d-%s' % (n, source), field_average, n=n, source=source)
    yield Case('integers', integers)
    yield Case('refusals', refuse)
    for source in (None, 'internal', 'external'):
        for order, pieces, rad, nmax, deriv, N, scalar in (
                (1, 1, False, None, None, 1, True), (2, 2, True, None, None, 2, False), (3, 1, True, 1, 1, 2, True),
                (2, 1, False, 1, None, 2, False), (3, 2, True, 2, 2, 3, True)):
            yield Case('model-%s-%d-%d-%d-%s-%s-%d' % (source, order, pieces, rad, nmax, deriv, scalar), model,
                       order=order, pieces=pieces, source=source, rad=rad, nmax=nmax, deriv=deriv, N=N, scalar=scalar)
