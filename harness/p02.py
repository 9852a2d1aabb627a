"""P02: truncation equals zero padding; refusals."""
from symx.harness import Case
from . import oracle

BOUNDS = ('nmin 1..4, nmax <= 5 (quick) / 7, every mmax 0..nmax; coefficients in [-1, 1], radius ratio [0.8, 1.6], '
          'colatitude [0.5, 179.5] deg, longitude [-360, 720] deg; refusals: colatitude arrays of 1 to 3 points in '
          '[-400, 400] with at least one outside [0, 180]')
OUTSIDE = 'higher degrees'
NAMES = ('radial', 'southward', 'eastward')


def point(ctx):
    return ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -360.0, 720.0)


def trunc(ctx, nmin, nmax, mmax, source, give):
    mu = ctx.mod('model_utils')
    X, th, ph = point(ctx)
    g = ctx.vec('g', oracle.ncoeff(nmin, nmax, mmax))
    kw = {}
    if 'n' in give:
        kw['nmax'] = nmax
    if 'm' in give:
        kw['mmax'] = mmax
    if 'i' in give or nmin > 1:
        kw['nmin'] = nmin
    B = mu.synth_values(g, 6371.2 * X, th, ph, source=source, **kw)
    want = oracle.field(ctx.np, g, X, th, ph, nmin, nmax, mmax, source)
    for n, b, w in zip(NAMES, B, want):
        ctx.equal(n, b, ctx.np.asarray(w), 1e-9, 1e3)


def padded(ctx, nmin, nmax, mmax, source):
    """Same as the complete vector with zeros in the missing places."""
    mu, np = ctx.mod('model_utils'), ctx.np
    X, th, ph = point(ctx)
    idx = oracle.index(nmin, nmax, mmax)
    g = ctx.vec('g', len(idx))
    full = []
    for t in oracle.index(1, nmax, nmax):
        full.append(g[idx.index(t)] if t in idx else 0.0)
    B1 = mu.synth_values(g, 6371.2 * X, th, ph, source=source, nmin=nmin, nmax=nmax, mmax=mmax)
    B2 = mu.synth_values(np.array(full), 6371.2 * X, th, ph, source=source)
    for n, a, b in zip(NAMES, B1, B2):
        ctx.equal(n, a, b, 1e-9, 1e3)


def lower(ctx, nmin, have, want, source):
    mu = ctx.mod('model_utils')
    X, th, ph = point(ctx)
    g = ctx.vec('g', oracle.ncoeff(nmin, have, have))
    B = mu.synth_values(g, 6371.2 * X, th, ph, nmax=want, nmin=nmin, source=source)
    w = oracle.field(ctx.np, g, X, th, ph, nmin, want, want, source)
    for n, b, x in zip(NAMES, B, w):
        ctx.equal(n, b, ctx.np.asarray(x), 1e-9, 1e3)


def refuse(ctx):
    mu = ctx.mod('model_utils')
    X, th, ph = point(ctx)
    g = ctx.vec('g', 15)
    r = 6371.2 * X
    ctx.raises('nmax below nmin', lambda: mu.synth_values(g, r, th, ph, nmin=3, nmax=2))
    ctx.raises('nmax 0', lambda: mu.synth_values(g, r, th, ph, nmax=0))
    ctx.raises('nmin 0', lambda: mu.synth_values(g, r, th, ph, nmin=0))
    ctx.raises('nmin negative', lambda: mu.synth_values(g, r, th, ph, nmin=-2))
    ctx.raises('nothing inferred', lambda: mu.synth_values(g[:2], r, th, ph))
    ctx.raises('unknown source', lambda: mu.synth_values(g, r, th, ph, source='intern'))
    ctx.raises('unknown source upper case', lambda: mu.synth_values(g, r, th, ph, source='Internal'))


def refuse_theta(ctx, n, bad, lo, hi, rest, shape=None):
    mu = ctx.mod('model_utils')
    np = ctx.np
    ths = []
    for i in range(n):
        if i == bad:
            ths.append(ctx.angle('t%d' % i, lo, hi))
        elif rest == 'in':
            ths.append(ctx.angle('t%d' % i, 0.0, 180.0))
        else:
            ths.append(rest)
    t = np.array(ths)
    ctx.assume((t[bad] < 0.0) | (t[bad] > 180.0))
    if shape:
        t = t.reshape(shape)
    ph = ctx.angle('ph', -180.0, 180.0)
    g = ctx.vec('g', 3)
    ctx.raises('colatitude outside [0, 180] refused', lambda: mu.synth_values(g, 6371.2, t, ph))


def accept_closed(ctx, n):
    """Colatitudes inside the closed range are never refused."""
    mu = ctx.mod('model_utils')
    t = ctx.np.array([ctx.angle('t%d' % i, 0.0, 180.0) for i in range(n)])
    B = mu.synth_values(ctx.vec('g', 3), 6371.2, t, ctx.angle('ph', -180.0, 180.0))
    ctx.check('three components of the input shape', [b.shape == (n,) for b in B])


def cases(tier):
    top = 7 if tier == 'quick' else 9
    for nmin in range(1, 6):
        for nmax in range(nmin, top + 1):
            for mmax in range(0, nmax + 1):
                s = ('internal', 'external')[(nmin + nmax + mmax) % 2]
                gives = ['nm', 'm'] + (['n', ''] if mmax == nmax else [])
                for give in gives:
                    yield Case('given-%s-%d-%d-%d' % (give or 'none', nmin, nmax, mmax), trunc, nmin=nmin,
                               nmax=nmax, mmax=mmax, source=s, give=give)
                if mmax < nmax or nmin > 1:
                    yield Case('padded-%d-%d-%d' % (nmin, nmax, mmax), padded, nmin=nmin, nmax=nmax, mmax=mmax,
                               source=('internal', 'external')[(nmin + mmax) % 2])
    for nmin, have, want in ((1, 3, 1), (1, 3, 2), (1, 4, 2), (2, 4, 3), (3, 5, 3), (1, 5, 4), (1, 8, 6), (4, 7, 5)):
        for source in ('internal', 'external'):
            yield Case('lower-%d-%d-%d-%s' % (nmin, have, want, source), lower, nmin=nmin, have=have, want=want,
                       source=source)
    yield Case('refusals', refuse)
    for n in (1, 2, 3):
        for bad in range(n):
            for rest in ('in', 0.0, 180.0) if n > 1 else ('in',):
                for lo, hi in ((-400.0, 0.0), (180.0, 400.0)):
                    yield Case('theta-%d-%d-%s-%g' % (n, bad, rest, hi), refuse_theta, n=n, bad=bad, lo=lo, hi=hi,
                               rest=rest)
    yield Case('theta-column', refuse_theta, n=3, bad=1, lo=180.0, hi=400.0, rest=0.0, shape=(3, 1))
    yield Case('closed-range-1', accept_closed, n=1)
    yield Case('closed-range-2', accept_closed, n=2)
