"""P08: degree correlation and sensitivity."""
from symx.harness import Case

BOUNDS = ('coefficient vectors in [-10, 10] of degree 1 to 10 (quick) / 14 with power of at least 1e-4 in each degree; '
          'scale factors [0.1, 10] and several ranges from 1e-6 to 1e6; for the sensitivity also coefficients of integer type')


def power(g, n):
    return sum(x * x for x in list(g)[n * n - 1:n * (n + 2)])


def vectors(ctx, N, names='gh', lo=-10.0, hi=10.0):
    out = []
    for v in names:
        g = ctx.vec(v, N * (N + 2), lo, hi)
        for n in range(1, N + 1):
            ctx.assume(power(g, n) > 1e-4)
        out.append(g)
    return out


def definition(ctx, N):
    mu, np = ctx.mod('model_utils'), ctx.np
    g, h = vectors(ctx, N)
    C = mu.degree_correlation(g, h)
    ctx.check('shape', np.shape(C) == (N,))
    D = mu.degree_correlation(h, g)
    for n in range(1, N + 1):
        s = slice(n * n - 1, n * (n + 2))
        ip = sum(a * b for a, b in zip(list(g)[s], list(h)[s]))
        want = ip / np.sqrt(power(g, n) * power(h, n))
        ctx.equal('normalised inner product %d' % n, C[n - 1], want, 1e-9)
        ctx.equal('symmetric %d' % n, C[n - 1], D[n - 1], 1e-12)


def bounded(ctx, N):
    """C^2 = ip^2/(RS), and RS - ip^2 is a sum of squares (Lagrange)."""
    mu, np = ctx.mod('model_utils'), ctx.np
    g, h = vectors(ctx, N)
    C = mu.degree_correlation(g, h)
    for n in range(1, N + 1):
        gs, hs = list(g)[n * n - 1:n * (n + 2)], list(h)[n * n - 1:n * (n + 2)]
        gap = 0.0
        for i in range(2 * n + 1):
            for j in range(i):
                d = gs[i] * hs[j] - gs[j] * hs[i]
                gap = gap + d * d
        R, S = power(g, n), power(h, n)
        ctx.equal('1 - C^2 is a sum of squares, degree %d' % n, (1.0 - C[n - 1] ** 2) * (R * S), gap, 1e-7, 1e4)


def selfcorr(ctx, N):
    mu, np = ctx.mod('model_utils'), ctx.np
    g, = vectors(ctx, N, 'g')
    C = mu.degree_correlation(g, g)
    D = mu.degree_correlation(g, -g)
    k = ctx.var('k', 0.1, 10.0)
    E = mu.degree_correlation(g, k * g)
    for n in range(N):
        ctx.equal('self %d' % (n + 1), C[n], 1.0, 1e-9)
        ctx.equal('against its negative %d' % (n + 1), D[n], -1.0, 1e-9)
        ctx.equal('scaled self %d' % (n + 1), E[n], 1.0, 1e-9)


def scaled(ctx, N, lo=0.1, hi=10.0):
    mu, np = ctx.mod('model_utils'), ctx.np
    g, h = vectors(ctx, N)
    k, l = ctx.var('k', lo, hi), ctx.var('l', lo, hi)
    C = mu.degree_correlation(g, h)
    D = mu.degree_correlation(k * g, h)
    E = mu.degree_correlation(k * g, l * h)
    for n in range(N):
        ctx.equal('first scaled %d' % (n + 1), D[n], C[n], 1e-9)
        ctx.equal('both scaled %d' % (n + 1), E[n], C[n], 1e-9)


def sens(ctx, N, kind=''):
    mu, np = ctx.mod('model_utils'), ctx.np
    g = (ctx.ivec if 'g' in kind else ctx.vec)('g', N * (N + 2), -10, 10)
    if 't' in kind:
        t = ctx.ivec('t', N * (N + 2), -10, 10)
        for n in range(1, N + 1):
            ctx.assume(power(t, n) > 1e-4)
    else:
        t, = vectors(ctx, N, 't')
    S = mu.sensitivity(g, t)
    ctx.check('shape', np.shape(S) == (N * (N + 2),))
    for n in range(1, N + 1):
        rms = np.sqrt(power(t, n) / (2 * n + 1))
        for k in range(n * n - 1, n * (n + 2)):
            ctx.equal('coefficient %d' % k, S[k], (g[k] - t[k]) / rms, 1e-8, 1e2)
    Z = mu.sensitivity(t, t)
    ctx.equal('exact estimate', Z, np.zeros(N * (N + 2)), 1e-12)


def refuse(ctx):
    mu, np = ctx.mod('model_utils'), ctx.np
    a, b = ctx.vec('a', 8, 0.5, 1.0), ctx.vec('b', 15, 0.5, 1.0)
    for name, f in (('correlation', mu.degree_correlation), ('sensitivity', mu.sensitivity)):
        ctx.raises(name + ' of different length', lambda: f(a, b))
        ctx.raises(name + ' of different length, swapped', lambda: f(b, a))
        ctx.raises(name + ' shorter', lambda: f(a, a[:3]))
        ctx.raises(name + ' shorter, swapped', lambda: f(a[:3], a))
        ctx.raises(name + ' single value', lambda: f(a, a[:1]))
        ctx.raises(name + ' first 2-D', lambda: f(a[None, :], a))
        ctx.raises(name + ' second 2-D', lambda: f(a, a[:, None]))
        ctx.raises(name + ' second 2-D row', lambda: f(a, a[None, :]))
        ctx.raises(name + ' both 2-D', lambda: f(a[None, :], a[None, :]))
        ctx.raises(name + ' both columns', lambda: f(a[:, None], a[:, None]))
        ctx.raises(name + ' scalars', lambda: f(np.asarray(a[0]), np.asarray(a[1])))


def cases(tier):
    top = 10 if tier == 'quick' else 14
    for N in range(1, top + 1):
        for f in (definition, bounded, selfcorr, scaled, sens):
            if f is bounded and N > 3:
                continue
            yield Case('%s-%d' % (f.__name__, N), f, N=N)
    for N in (1, 2, 3):
        for lo, hi in ((1e-6, 1e-4), (1e-3, 0.1), (10.0, 1e3), (1e4, 1e6)):
            yield Case('scaled by %g to %g %d' % (lo, hi, N), scaled, N=N, lo=lo, hi=hi)
    for N in (1, 2):
        for kind in ('g', 't', 'gt'):
            yield Case('integers-%s-%d' % (kind, N), sens, N=N, kind=kind)
    yield Case('refusals', refuse)
