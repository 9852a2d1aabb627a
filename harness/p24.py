"""P24: spherical harmonic analysis."""
import math
from symx.harness import Case
from . import oracle

BOUNDS = ('analysis degree 1..9 (thorough: 1..13), resolution degree 1..11 (thorough: 1..15) or default, any coefficients in '
          '[-1e5, 1e5] of a series up to the resolution degree, also as a function that is written with other operations')
OUTSIDE = 'degrees above the bounds; functions that are not band limited'


def natural(nmax):
    out = []
    for n in range(1, nmax + 1):
        out.append((n, 0, False))
        for m in range(1, n + 1):
            out += [(n, m, False), (n, m, True)]
    return out


def value(n, m, sine, th, ph):
    """Schmidt harmonic at a concrete point."""
    x = math.cos(math.radians(th))
    q = oracle.horner(oracle.qpoly(n, m), x) * math.sin(math.radians(th)) ** m
    return q * (math.sin if sine else math.cos)(m * math.radians(ph))


def analyse(ctx, nmax, kmax, constant, degree):
    import numpy
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    cols = natural(degree)
    g = ctx.vec('g', (len(cols),), -1e5, 1e5)
    c0 = ctx.var('mean', -1e5, 1e5) if constant else 0.0
    grids = []

    def func(theta, phi):
        shape = np.shape(theta)
        grids.append((shape, np.shape(phi)))
        out = np.empty(shape)
        for i in numpy.ndindex(*shape):
            th, ph = float(theta[i]), float(phi[i])
            out[i] = c0 + sum(g[k] * value(n, m, s, th, ph) for k, (n, m, s) in enumerate(cols))
        return out
    kw = {} if kmax == 'absent' else {'kmax': kmax}
    got = cu.sh_analysis(func, nmax, **kw)
    ctx.check('function called with grids', len(grids) >= 1 and all(len(a) == 2 and a == b for a, b in grids))
    ctx.check('shape', np.shape(got) == (nmax * (nmax + 2),))
    for k in range(nmax * (nmax + 2)):
        ctx.equal('coefficient %d' % k, got[k], g[k] if k < len(cols) else 0.0, 1e-6)


def roundtrip(ctx, nmax):
    """Analysis of the field synthesized by the package (radial field at the unit reference radius)."""
    cu, mu, np = ctx.mod('coordinate_utils'), ctx.mod('model_utils'), ctx.np
    g = ctx.vec('g', (nmax * (nmax + 2),), -1e4, 1e4)
    r = ctx.mod('config_utils').basicConfig['params.r_surf']

    def func(theta, phi):
        return mu.synth_values(g, r, theta, phi)[0]
    got = cu.sh_analysis(func, nmax)
    for k, (n, m, s) in enumerate(natural(nmax)):
        ctx.equal('coefficient %d' % k, got[k], (n + 1) * g[k], 1e-6)


def cases(tier):
    a, b = (9, 11) if tier == 'quick' else (13, 15)
    for nmax in range(1, a + 1):
        for kmax in ['absent', None] + list(range(1, b + 1)):
            res = nmax if kmax in ('absent', None) else max(nmax, kmax)
            yield Case('degrees-%s-%s' % (nmax, kmax), analyse, nmax=nmax, kmax=kmax, constant=kmax in (None, 2),
                       degree=res)
            if kmax is None and nmax > 1:
                yield Case('lower-%s' % nmax, analyse, nmax=nmax, kmax=kmax, constant=True, degree=1)
        yield Case('synthesis-%d' % nmax, roundtrip, nmax=nmax)
