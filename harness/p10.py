"""P10: collocation and combined design matrices."""
from symx.harness import Case
from . import long
from . import bsp, oracle

BOUNDS = ('collocation: orders 1..6 (thorough: 1..7), derivatives 0..order+1, 1..3 pieces with fixed breaks and every pattern '
          'of interior multiplicities (sum at most 3), or up to 2 pieces with any breaks (orders 1..3), any times of the '
          'period, 1..2 times; design matrix: time-dependent degree 1..2 (thorough: 3), static degree up to 3 (4) or absent, '
          'orders 1..4, any times, any radius (half to twice the reference), any colatitude '
          '(0.5..179.5 deg) and longitude, internal and external source')
OUTSIDE = 'times outside the period (rows of NaN); higher degrees'

PLACES = {1: (0.0, 100.0), 2: (-50.0, 30.0, 300.0), 3: (10.0, 25.0, 125.0, 135.0)}


def knots_of(breaks, mult, order):
    out = [breaks[0]] * order
    for b, m in zip(breaks[1:-1], mult):
        out += [b] * m
    return out + [breaks[-1]] * order


def places(ctx, breaks, n):
    if breaks is not None:
        return list(breaks)
    br = ctx.increasing('b', n, -1000., 1000., (1.0, 500.0))
    return [br[i] for i in range(n)]


def times(ctx, br, n):
    return [br[0] + ctx.var('w%d' % i, 0.0, 1.0) * (br[-1] - br[0]) for i in range(n)]


def collocation(ctx, breaks, mult, order, deriv, n, whole=False):
    mu, np = ctx.mod('model_utils'), ctx.np
    br = places(ctx, breaks, len(mult) + 2)
    kn = knots_of(br, mult, order)
    ts = times(ctx, br, n)
    kw = {} if deriv is None else {'deriv': deriv}
    A = mu.colloc_matrix(np.array(ts), np.array([int(x) for x in kn] if whole else kn), order, **kw)
    N = len(kn) - order
    ctx.check('shape', np.shape(A) == (n, N))
    for i, t in enumerate(ts):
        B = bsp.basis(ctx, kn, order, t, deriv or 0)
        for j in range(N):
            ctx.equal('element %d %d' % (i, j), A[i, j], B[j], 1e-9)
        if deriv is None or deriv == 0:
            ctx.equal('partition of unity %d' % i, sum(A[i, j] for j in range(N)), 1.0, 1e-9)


def spline(ctx, mult, order, deriv):
    """Matrix times coefficients is the model made from the same spline."""
    mu, ch, np = ctx.mod('model_utils'), ctx.mod('chaos'), ctx.np
    br = list(PLACES[len(mult) + 1])
    kn = np.array(knots_of(br, mult, order))
    c = ctx.vec('c', (len(kn) - order, 3), -1000., 1000.)
    t = np.array(times(ctx, br, 1))
    A = mu.colloc_matrix(t, kn, order, deriv=deriv)
    m = ch.BaseModel.from_bspline('m', kn, c, order)
    ctx.equal('model', np.matmul(A, c) * 365.25 ** deriv, m.synth_coeffs(t, deriv=deriv), 1e-6 * 365.25 ** deriv)


def design(ctx, mult, order, ntd, nst, source, n):
    mu, cu, np = ctx.mod('model_utils'), ctx.mod('config_utils'), ctx.np
    br = list(PLACES[len(mult) + 1])
    kn = knots_of(br, mult, order)
    ts = times(ctx, br, n)
    a = cu.basicConfig['params.r_surf']
    r = ctx.vec('r', n, 0.5 * a, 2.0 * a)
    th, ph = ctx.angles('th', n, 0.5, 179.5), ctx.angles('ph', n, -360., 360.)
    kw = {}
    if nst != 'absent':
        kw['n_static'] = nst
    if source is not None:
        kw['source'] = source
    G = mu.design_matrix(np.array(kn), order, ntd, np.array(ts), r, th, ph, **kw)
    N = len(kn) - order
    top = ntd if nst in ('absent', None) else nst
    td, st = ntd * (ntd + 2), top * (top + 2) - ntd * (ntd + 2)
    ctx.check('shapes', len(G) == 3 and all(np.shape(g) == (n, td * N + st) for g in G))
    for i in range(n):
        B = bsp.basis(ctx, kn, order, ts[i])
        c, s = oracle.trig(np, th[i])
        D = [oracle.basis(np, *nmk, r[i] / a, c, s, ph[i], source or 'internal') for nmk in oracle.index(1, top, top)]
        for k in range(3):
            col = 0
            for q in range(td):
                for j in range(N):
                    ctx.equal('component %d row %d column %d' % (k, i, col), G[k][i, col], D[q][k] * B[j], 1e-6)
                    col += 1
            for q in range(td, td + st):
                ctx.equal('component %d row %d static column %d' % (k, i, col), G[k][i, col], D[q][k], 1e-6)
                col += 1


def refuse(ctx):
    mu, np = ctx.mod('model_utils'), ctx.np
    t = ctx.vec('t', 1, 0.0, 1.0)
    kn = np.array([0., 0., 1., 1.])
    one = np.array([10.0])
    ctx.raises('static degree below', lambda: mu.design_matrix(kn, 2, 2, t, one * 700, one, one, n_static=1), ValueError)
    ctx.raises('shapes', lambda: mu.design_matrix(kn, 2, 2, t, np.array([700., 700.]), one, one))


def patterns(order, pieces):
    import itertools
    for m in itertools.product(range(1, order + 1), repeat=pieces - 1):
        if sum(m) <= 3:
            yield m


def cases(tier):
    yield from long.cases('P10')
    top = 6 if tier == 'quick' else 7
    for order in range(1, top + 1):
        yield Case('integer-knots-%d' % order, collocation, breaks=PLACES[2], mult=(1,), order=order, deriv=None, n=1, whole=True)
        for pieces in (1, 2, 3):
            for mult in patterns(order, pieces):
                for deriv in [None] + list(range(order + 2)):
                    lab = '%d-%d-%s-%s' % (order, pieces, ''.join(map(str, mult)), deriv)
                    yield Case('collocation-' + lab, collocation, breaks=PLACES[pieces], mult=mult, order=order,
                               deriv=deriv, n=2 if deriv == 1 and pieces < 3 else 1)
                    if pieces < 3 and order < 4 and deriv is not None:
                        yield Case('places-' + lab, collocation, breaks=None, mult=mult, order=order, deriv=deriv, n=1,
                                   lazy=True)
            for deriv in range(order):
                yield Case('spline-%d-%d-%d' % (order, pieces, deriv), spline, mult=(1,) * (pieces - 1), order=order,
                           deriv=deriv)
    a = 2 if tier == 'quick' else 3
    for ntd in range(1, a + 1):
        for nst in ['absent', None] + list(range(ntd, a + 2)):
            for source in (None, 'internal', 'external'):
                for order, mult in ((2, ()), (4, ()), (3, (1,))) if ntd == 1 else ((2, ()),):
                    yield Case('design-%d-%s-%s-%d' % (ntd, nst, source, order), design, mult=mult, order=order, ntd=ntd,
                               nst=nst, source=source, n=1)
        yield Case('design-two-%d' % ntd, design, mult=(1,), order=2, ntd=ntd, nst=ntd + 1, source='internal', n=2)
    yield Case('refuse', refuse)
