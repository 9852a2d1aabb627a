"""P03: design matrix times coefficients = synthesis."""
from symx.harness import Case
from . import oracle

BOUNDS = ('nmin 1..4, nmax <= 4 (quick) / 6, every mmax 0..nmax, both sources, 1-2 points with radius ratio '
          '[0.8, 1.6], colatitude in [0, 180] deg (poles included), longitude [-360, 720] deg')
NAMES = ('radial', 'southward', 'eastward')


def match(ctx, nmin, nmax, mmax, source, kind, give=True):
    mu, np = ctx.mod('model_utils'), ctx.np
    nc = oracle.ncoeff(nmin, nmax, mmax)
    if kind == 'scalar':
        X, th, ph = ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -360.0, 720.0)
        sh = ()
    elif kind == 'points':
        X = ctx.vec('X', 2, 0.8, 1.6)
        th, ph = ctx.angles('th', 2, 0.5, 179.5), ctx.angles('ph', 2, -360.0, 720.0)
        sh = (2,)
    elif kind == 'grid':
        X = ctx.var('X', 0.8, 1.6)
        th, ph = ctx.angles('th', (2, 1), 0.5, 179.5), ctx.angles('ph', (1, 2), -360.0, 720.0)
        sh = (2, 2)
    elif kind == 'poles':
        X = ctx.vec('X', 3, 0.8, 1.6)
        th = np.array([0.0, ctx.angle('th', 0.5, 179.5), 180.0])
        ph = ctx.angles('ph', 3, -360.0, 720.0)
        sh = (3,)
    elif kind == 'polegrid':
        X = ctx.var('X', 0.8, 1.6)
        th = np.array([[0.0], [ctx.angle('th', 0.5, 179.5)], [180.0]])
        ph = ctx.angles('ph', (1, 2), -360.0, 720.0)
        sh = (3, 2)
    g = ctx.vec('g', nc)
    r = 6371.2 * X
    kw = {}
    if nmin != 1 or give:
        kw['nmin'] = nmin
    if mmax != nmax or give:
        kw['mmax'] = mmax
    if source != 'internal' or give:
        kw['source'] = source
    A = mu.design_gauss(r, th, ph, nmax, **kw)
    B = mu.synth_values(g, r, th, ph, nmin=nmin, nmax=nmax, mmax=mmax, source=source)
    for n, a, b in zip(NAMES, A, B):
        ctx.check(n + ' shape', a.shape == sh + (nc,))
        ctx.equal(n, np.matmul(a, g) if sh else np.dot(a, g), b if sh else np.asarray(b)[()], 1e-9, 1e3)
    if kind == 'scalar':
        want = oracle.field(np, g, X, th, ph, nmin, nmax, mmax, source)
        for n, a, w in zip(NAMES, A, want):
            ctx.equal(n + ' is the field', np.dot(a, g), w, 1e-9, 1e3)


def refuse(ctx):
    mu = ctx.mod('model_utils')
    th, ph, r = ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -180.0, 180.0), 6371.2 * ctx.var('X', 0.8, 1.6)
    d = mu.design_gauss
    ctx.raises('nmin > nmax', lambda: d(r, th, ph, 2, nmin=3))
    ctx.raises('nmin zero', lambda: d(r, th, ph, 2, nmin=0))
    ctx.raises('nmin negative', lambda: d(r, th, ph, 2, nmin=-1))
    ctx.raises('nmax zero', lambda: d(r, th, ph, 0))
    ctx.raises('nmax negative', lambda: d(r, th, ph, -1))
    ctx.raises('mmax > nmax', lambda: d(r, th, ph, 2, mmax=3))
    ctx.raises('mmax negative', lambda: d(r, th, ph, 2, mmax=-1))
    ctx.raises('source', lambda: d(r, th, ph, 2, source='toroidal'))


def refuse_theta(ctx, lo, hi, rest):
    mu, np = ctx.mod('model_utils'), ctx.np
    t0 = ctx.angle('t0', lo, hi)
    ctx.assume((t0 < 0.0) | (t0 > 180.0))
    t = np.array([t0, rest] if rest is not None else [t0])
    ctx.raises('colatitude outside [0, 180] refused',
               lambda: mu.design_gauss(6371.2 * ctx.var('X', 0.8, 1.6), t, 0.0 * t, 2))


def cases(tier):
    top = 6 if tier == 'quick' else 8
    for nmax in range(1, top + 1):
        for nmin in range(1, min(nmax, 5) + 1):
            for mmax in range(0, nmax + 1):
                for source in ('internal', 'external'):
                    yield Case('scalar-%d-%d-%d-%s' % (nmin, nmax, mmax, source), match, nmin=nmin, nmax=nmax,
                               mmax=mmax, source=source, kind='scalar')
    for source in ('internal', 'external'):
        for kind in ('points', 'grid', 'poles', 'polegrid'):
            for nmin, nmax, mmax in ((1, 3, 3), (2, 3, 1), (1, 2, 0), (3, 3, 1), (1, 5, 5), (2, 6, 4), (5, 7, 2)):
                yield Case('%s-%d-%d-%d-%s' % (kind, nmin, nmax, mmax, source), match, nmin=nmin, nmax=nmax,
                           mmax=mmax, source=source, kind=kind)
    yield Case('defaults', match, nmin=1, nmax=3, mmax=3, source='internal', kind='scalar', give=False)
    yield Case('refusals', refuse)
    for rest in (None, 0.0, 180.0, 90.0):
        for lo, hi in ((-400.0, 0.0), (180.0, 400.0)):
            yield Case('theta-%s-%g' % (rest, hi), refuse_theta, lo=lo, hi=hi, rest=rest)
