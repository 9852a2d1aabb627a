"""P09: B-spline and piecewise-polynomial forms."""
from symx.harness import Case
from . import bsp, pp

BOUNDS = ('orders 1..6 (thorough: 1..7), up to 4 breaks at fixed places with every pattern of interior multiplicities up to '
          'the order (at most 3 interior knots above order 3), and up to 3 breaks at any places (orders 1..4, thorough 5), any '
          'coefficients in [-1000, 1000] of 3 dimensions, all times of the period, derivatives 0..order')
OUTSIDE = 'more breaks; knots without the full endpoint multiplicity (not documented as supported)'

YEAR = 365.25


def knots_of(ctx, breaks, mult, order):
    out = [breaks[0]] * order
    for b, m in zip(breaks[1:-1], mult):
        out += [b] * m
    return out + [breaks[-1]] * order


def setting(ctx, breaks, mult, order, dim):
    np = ctx.np
    if breaks is None:
        br = ctx.increasing('b', len(mult) + 2, -1000., 1000., (1.0, 500.0))
        br = [br[i] for i in range(len(mult) + 2)]
    else:
        br = list(breaks)
    kn = knots_of(ctx, br, mult, order)
    n = len(kn) - order
    c = ctx.vec('c', (n, dim), -1000., 1000.)
    return br, kn, c, n


def evaluate(ctx, br, w):
    """A time of the period."""
    return br[0] + w * (br[-1] - br[0])


def convert(ctx, breaks, mult, order, dim):
    """Pieces of the converted form."""
    mu, np = ctx.mod('model_utils'), ctx.np
    br, kn, c, n = setting(ctx, breaks, mult, order, dim)
    cpp, b2 = mu.pp_from_bspline(c, np.array(kn), order)
    ctx.check('shapes', np.shape(b2) == (len(br),) and np.shape(cpp) == (order, len(br) - 1, dim))
    ctx.equal('breaks', b2, np.array(br), 1e-9)
    i = order - 1
    for j in range(len(br) - 1):
        # interval index of piece j in the knot vector
        s = ctx.var('s%d' % j, 0.0, 1.0)
        t = br[j] + s * (br[j + 1] - br[j])
        for q in range(order + 1):
            B = bsp.basis(ctx, kn, order, t, q, i=i)
            for d in range(dim):
                want = sum(b * c[k, d] for k, b in enumerate(B))
                got = pp.poly([cpp[p, j, d] for p in range(order)], t - br[j], q)
                ctx.equal('piece %d derivative %d dimension %d' % (j, q, d), got, want, 1e-6)
        if j < len(mult):
            i += mult[j]


def model(ctx, breaks, mult, order, deriv, source):
    """Coefficients of the model made from the B-spline."""
    ch, np = ctx.mod('chaos'), ctx.np
    br, kn, c, n = setting(ctx, breaks, mult, order, 3)
    kw = {} if source is None else {'source': source}
    m = ch.BaseModel.from_bspline('m', np.array(kn), c, order, **kw)
    ctx.equal('breaks', m.breaks, np.array(br), 1e-9)
    ctx.check('attributes', m.order == order and m.pieces == len(br) - 1 and m.dim == 3 and m.nmax == 1 and
              m.source == (source or 'internal') and m.name == 'm')
    t = evaluate(ctx, br, ctx.var('w', 0.0, 1.0))
    g = m.synth_coeffs(t, deriv=deriv)
    ctx.check('shape', np.shape(g) == (3,))
    for d in range(3):
        want = bsp.value(ctx, kn, c, order, t, d, deriv) * YEAR ** deriv
        ctx.equal('coefficient %d' % d, g[d], want, 1e-6 * YEAR ** deriv)


def ends(ctx, breaks, mult, order):
    """At the ends the spline equals its first and last coefficients."""
    ch, np = ctx.mod('chaos'), ctx.np
    br, kn, c, n = setting(ctx, breaks, mult, order, 3)
    m = ch.BaseModel.from_bspline('m', np.array(kn), c, order)
    g = m.synth_coeffs(np.array([br[0], br[-1]]))
    for d in range(3):
        ctx.equal('start %d' % d, g[0, d], c[0, d], 1e-6)
        ctx.equal('end %d' % d, g[1, d], c[n - 1, d], 1e-6)


def augment(ctx, n, order, form):
    mu, np = ctx.mod('model_utils'), ctx.np
    br = ctx.increasing('b', n, -1e5, 1e5, (0.01, 1e4))
    b = br if form == 'array' else [br[i] for i in range(n)]
    k = mu.augment_breaks(b, order)
    want = [br[0]] * (order - 1) + [br[i] for i in range(n)] + [br[n - 1]] * (order - 1)
    ctx.check('shape', np.shape(k) == (n + 2 * order - 2,))
    ctx.equal('knots', k, np.array(want), 1e-9)


def augment_model(ctx, n, order):
    """Spline on augmented breaks has those breaks."""
    ch, mu, np = ctx.mod('chaos'), ctx.mod('model_utils'), ctx.np
    br = ctx.increasing('b', n, -1000., 1000., (1.0, 500.))
    k = mu.augment_breaks(br, order)
    c = ctx.vec('c', (n + order - 2, 3), -1000., 1000.)
    m = ch.BaseModel.from_bspline('m', k, c, order)
    ctx.equal('breaks', m.breaks, br, 1e-9)
    t = evaluate(ctx, [br[i] for i in range(n)], ctx.var('w', 0.0, 1.0))
    g = m.synth_coeffs(t)
    kn = [br[0]] * (order - 1) + [br[i] for i in range(n)] + [br[n - 1]] * (order - 1)
    for d in range(3):
        ctx.equal('coefficient %d' % d, g[d], bsp.value(ctx, kn, c, order, t, d), 1e-6)


def refuse(ctx):
    mu, np = ctx.mod('model_utils'), ctx.np
    x = ctx.var('x', 0.0, 1.0)
    ctx.raises('matrix of breaks', lambda: mu.augment_breaks(np.array([[0.0, 1.0 + x]]), 3), ValueError)


PLACES = {1: (0.0, 100.0), 2: (-50.0, 30.0, 300.0), 3: (10.0, 25.0, 125.0, 135.0)}


def patterns(order, pieces):
    import itertools
    for m in itertools.product(range(1, order + 1), repeat=pieces - 1):
        if order > 3 and sum(m) > 3:
            continue
        yield m


def cases(tier):
    top = 6 if tier == 'quick' else 7
    for order in range(1, top + 1):
        for pieces in (1, 2, 3):
            for mult in patterns(order, pieces):
                lab = '%d-%d-%s' % (order, pieces, ''.join(map(str, mult)))
                yield Case('convert-' + lab, convert, breaks=PLACES[pieces], mult=mult, order=order,
                           dim=2 if order < 4 else 1)
                if tier == 'quick' and order > 2 and pieces == 3 and sum(mult) > 3:
                    continue
                for deriv in range(order + 1):
                    yield Case('model-%s-%d' % (lab, deriv), model, breaks=PLACES[pieces], mult=mult, order=order,
                               deriv=deriv, source=(None, 'external', 'internal')[deriv % 3])
                yield Case('ends-' + lab, ends, breaks=PLACES[pieces], mult=mult, order=order)
    for order in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for pieces in (1, 2):
            for mult in patterns(order, pieces):
                lab = '%d-%d-%s' % (order, pieces, ''.join(map(str, mult)))
                yield Case('places-' + lab, convert, breaks=None, mult=mult, order=order, dim=1, lazy=True)
                yield Case('places-ends-' + lab, ends, breaks=None, mult=mult, order=order, lazy=True)
    for order in (1, 2, 3, 4):
        for n in (2, 3, 4):
            for form in ('array', 'list'):
                yield Case('augment-%d-%d-%s' % (order, n, form), augment, n=n, order=order, form=form)
        yield Case('augment-model-%d' % order, augment_model, n=2, order=order)
        if order < 4:
            yield Case('augment-model-%d-3' % order, augment_model, n=3, order=order)
    yield Case('refuse', refuse)
