"""P04: poles."""
from symx.harness import Case
from . import oracle

BOUNDS = ('poles at exactly 0 and 180 deg together with points at symbolic colatitudes (0.5 to 179.5 deg, and 1e-7 to 0.5 deg off a pole), degree <= 4 (quick) / 7, '
          'longitude [-360, 720] deg, radius ratio [0.8, 1.6]; scalar, vector, column and grid layouts')
NAMES = ('radial', 'southward', 'eastward')


def want_at(ctx, g, X, th, ph, nmin, nmax, mmax, source):
    cs = {0.0: (1.0, 0.0), 180.0: (-1.0, 0.0)}.get(th) if isinstance(th, float) and type(th) is float else None
    return oracle.field(ctx.np, g, X, th, ph, nmin, nmax, mmax, source, cs=cs)


def poles(ctx, layout, nmin, nmax, mmax, source, via):
    mu, np = ctx.mod('model_utils'), ctx.np
    g = ctx.vec('g', oracle.ncoeff(nmin, nmax, mmax))
    t = ctx.angle('th', 0.5, 179.5)
    ths = {'north': [0.0], 'south': [180.0], 'vector': [0.0, t, 180.0], 'vector-first': [t, 0.0],
           'vector-south': [180.0, t], 'column': [0.0, t, 180.0], 'grid': [180.0, t, 0.0],
           'scalar-north': [0.0], 'scalar-south': [180.0], 'mixed-radius': [0.0, t, 180.0]}[layout]
    n = len(ths)
    if layout.startswith('scalar'):
        X, ph, th, sh = ctx.var('X', 0.8, 1.6), ctx.angle('ph', -360., 720.), ths[0], ()
        at = {(): (ths[0], X, ph)}
    elif layout == 'column':
        X = ctx.var('X', 0.8, 1.6)
        p = [ctx.angle('ph%d' % i, -360., 720.) for i in range(2)]
        th, ph, sh = np.array([[v] for v in ths]), np.array([p]), (n, 2)
        at = {(i, j): (ths[i], X, p[j]) for i in range(n) for j in range(2)}
    elif layout == 'grid':
        X = ctx.var('X', 0.8, 1.6)
        p = [ctx.angle('ph%d' % i, -360., 720.) for i in range(2)]
        th, ph, sh = np.array(ths), np.array(p), (n, 2)
        at = {(i, j): (ths[i], X, p[j]) for i in range(n) for j in range(2)}
    elif layout == 'mixed-radius':
        xs = [ctx.var('X%d' % i, 0.8, 1.6) for i in range(2)]
        p = ctx.angle('ph', -360., 720.)
        X, th, ph, sh = np.array([[x] for x in xs]), np.array(ths), p, (2, n)
        at = {(i, j): (ths[j], xs[i], p) for i in range(2) for j in range(n)}
    else:
        xs = [ctx.var('X%d' % i, 0.8, 1.6) for i in range(n)]
        p = [ctx.angle('ph%d' % i, -360., 720.) for i in range(n)]
        X, th, ph, sh = np.array(xs), np.array(ths), np.array(p), (n,)
        at = {(i,): (ths[i], xs[i], p[i]) for i in range(n)}
    kw = dict(nmin=nmin, nmax=nmax, mmax=mmax, source=source)
    if via == 'design':
        if layout == 'grid':
            th, ph = th[:, None], ph[None, :]
        A = mu.design_gauss(6371.2 * X, th, ph, **kw)
        B = [np.dot(a, g) for a in A]
    else:
        if layout == 'grid':
            kw['grid'] = True
        B = mu.synth_values(g, 6371.2 * X, th, ph, **kw)
    for k in range(3):
        ctx.check(NAMES[k] + ' shape', np.shape(B[k]) == sh)
    for idx, (tt, x, p) in at.items():
        w = want_at(ctx, g, x, tt, p, nmin, nmax, mmax, source)
        for k in range(3):
            ctx.equal('%s at %s %s' % (NAMES[k], idx, tt if type(tt) is float else 'th'),
                      np.asarray(B[k])[idx], np.asarray(w[k])[()], 1e-9, 1e3)


def cartesian(ctx, pole, nmax, source):
    """The cartesian vector at a pole does not depend on the longitude."""
    mu, np = ctx.mod('model_utils'), ctx.np
    g = ctx.vec('g', nmax * (nmax + 2))
    X = ctx.var('X', 0.8, 1.6)
    out = []
    for i in range(2):
        ph = ctx.angle('ph%d' % i, -360., 720.)
        Br, Bt, Bp = mu.synth_values(g, 6371.2 * X, pole, ph, source=source)
        c, s = np.cos(ph * oracle.RAD), np.sin(ph * oracle.RAD)
        z = 1.0 if pole == 0.0 else -1.0
        out.append((z * Bt * c - Bp * s, z * Bt * s + Bp * c, z * Br))
    for k, n in enumerate('xyz'):
        ctx.equal('cartesian ' + n, out[0][k], out[1][k], 1e-9, 1e3)


def integer_theta(ctx):
    mu, np = ctx.mod('model_utils'), ctx.np
    g = ctx.vec('g', 8)
    ph = ctx.angle('ph', -360., 720.)
    B = mu.synth_values(g, 6371.2, np.array([0, 180, 90]), ph)
    for i, cs in enumerate(((1., 0.), (-1., 0.), (0., 1.))):
        w = oracle.field(np, g, 1.0, None, ph, 1, 2, cs=cs)
        for k in range(3):
            ctx.equal('%s %d' % (NAMES[k], i), B[k][i], np.asarray(w[k])[()], 1e-9, 1e3)


def near(ctx, nmax, side):
    """Points arbitrarily near a pole but not at it, together with the poles."""
    mu, np = ctx.mod('model_utils'), ctx.np
    g = ctx.vec('g', nmax * (nmax + 2))
    t = ctx.angle('t', 1e-7, 0.5) if side == 'north' else ctx.angle('t', 179.5, 179.9999999)
    ph = ctx.angle('ph', -360., 720.)
    for ths in ([t], [0.0, t], [t, 180.0], [180.0, t, 0.0]):
        B = mu.synth_values(g, 6371.2, np.array(ths), ph)
        i = ths.index(t)
        w = oracle.field(np, g, 1.0, t, ph, 1, nmax)
        for k in range(3):
            ctx.equal('%s near the pole, %d points' % (NAMES[k], len(ths)), B[k][i], np.asarray(w[k])[()], 1e-8, 1e2)


def cases(tier):
    top = 7 if tier == 'quick' else 10
    for layout in ('scalar-north', 'scalar-south', 'north', 'south', 'vector', 'vector-first', 'vector-south',
                   'column', 'grid', 'mixed-radius'):
        for source in ('internal', 'external'):
            for via in ('synth', 'design'):
                for nmin, nmax, mmax in ((1, 1, 1), (1, 3, 3), (2, top, top), (1, 3, 1), (4, 5, 2), (1, 5, 5)):
                    yield Case('%s-%s-%s-%d-%d-%d' % (layout, source, via, nmin, nmax, mmax), poles, layout=layout,
                               source=source, via=via, nmin=nmin, nmax=nmax, mmax=mmax)
    for pole in (0.0, 180.0):
        for source in ('internal', 'external'):
            yield Case('cartesian-%g-%s' % (pole, source), cartesian, pole=pole, nmax=5, source=source)
    yield Case('integer-theta', integer_theta)
    for side in ('north', 'south'):
        yield Case('near-' + side, near, nmax=4, side=side)
