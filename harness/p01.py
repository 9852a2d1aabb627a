"""P01: synthesized field = minus gradient of the potential."""
import numpy as np
from symx.harness import Case
from . import oracle

BOUNDS = ('degree nmax <= 16 (quick) / 20 (thorough), minimum degree 1 to 13, all Gauss coefficients in [-1, 1] (the claim is linear in '
          'them), radius ratio in [0.8, 1.6] (to degree 3: [0.3, 30]), surface radius in [500, 9000] km, colatitude in [0.5, 179.5] deg (to degree 5: '
          '[0.01, 179.99]), '
          'longitude in [-360, 720] deg, absolute tolerance 1e-9 of the unit-coefficient field')
OUTSIDE = 'higher degrees; floating-point rounding'


def field(ctx, nmax, source, form, nmin=1, grid=None, X=(0.8, 1.6), th=(0.5, 179.5)):
    mu = ctx.mod('model_utils')
    if form == 'symsurf':
        a = ctx.var('a', 500.0, 9000.0)
        ctx.set_config('params.r_surf', a)
    else:
        a = 6371.2
    X = ctx.var('X', *X)
    near = th != (0.5, 179.5)
    th, ph = ctx.angle('th', *th), ctx.angle('ph', -360.0, 720.0)
    g = ctx.vec('g', nmax * (nmax + 2) - nmin * nmin + 1)
    kw = {} if source == 'default' else {'source': source}
    if nmin > 1:
        kw['nmin'] = nmin
    if grid is not None:
        kw['grid'] = grid
    if form == 'list':
        gin = list(g)
    else:
        gin = g
    if grid:
        B = [b[0, 0] for b in mu.synth_values(gin, a * X, ctx.np.array([th]), ctx.np.array([ph]), **kw)]
    else:
        B = mu.synth_values(gin, a * X, th, ph, **kw)
    want = oracle.field(ctx.np, g, X, th, ph, nmin, nmax, source='internal' if source == 'default' else source)
    sc = nmax ** 2 * (1.3 ** (nmax + 2)) * nmax
    for name, got, w in zip(('radial', 'southward', 'eastward'), B, want):
        ctx.equal('%s component' % name, got, ctx.np.asarray(w), 1e-7 if near else 1e-9, sc)


def linear(ctx, nmax, source):
    mu = ctx.mod('model_utils')
    n = nmax * (nmax + 2)
    X, th, ph = ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -360.0, 720.0)
    g, h = ctx.vec('g', n), ctx.vec('h', n)
    l = ctx.var('lam', -3.0, 3.0)
    r = 6371.2 * X
    B1 = mu.synth_values(g, r, th, ph, source=source)
    B2 = mu.synth_values(h, r, th, ph, source=source)
    B3 = mu.synth_values(g + l * h, r, th, ph, source=source)
    for i, name in enumerate(('radial', 'southward', 'eastward')):
        ctx.equal('linear %s' % name, B3[i], B1[i] + l * B2[i], 1e-9, 1e3)


def cases(tier):
    top = 16 if tier == 'quick' else 20
    for source in ('internal', 'external'):
        for n in range(1, top + 1):
            yield Case('%s-n%d' % (source, n), field, nmax=n, source=source, form='plain')
        for lo, hi in ((2, 2), (2, 3), (3, 3), (2, 6), (3, 5), (4, 4), (5, 6), (7, 9), (10, 10), (13, 14)):
            yield Case('%s-degrees-%d-%d' % (source, lo, hi), field, nmax=hi, source=source, form='plain', nmin=lo)
        yield Case('%s-symbolic-surface-radius' % source, field, nmax=5, source=source, form='symsurf')
        for grid in (False, True):
            for form in ('plain', 'symsurf'):
                yield Case('%s-%s-grid-%s' % (source, form, grid), field, nmax=4, source=source, form=form, nmin=1 + grid, grid=grid)
        for th in ((0.01, 0.5), (179.5, 179.99)):
            for n in (1, 2, 5):
                yield Case('%s-n%d-colatitude-%g' % (source, n, th[0]), field, nmax=n, source=source, form='plain', th=th)
        for n in (1, 3):
            yield Case('%s-n%d-inside' % (source, n), field, nmax=n, source=source, form='plain', X=(0.3, 0.8))
            yield Case('%s-n%d-far' % (source, n), field, nmax=n, source=source, form='plain', X=(1.6, 30.0))
        yield Case('%s-linear' % source, linear, nmax=6, source=source)
    yield Case('default-source', field, nmax=3, source='default', form='plain')
    yield Case('list-coefficients', field, nmax=2, source='internal', form='list')
