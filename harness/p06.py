"""P06: table of associated Legendre functions and derivatives."""
from symx.harness import Case
from . import long
from . import oracle

BOUNDS = ('degrees 0..nmax and orders 0..n for nmax 1..12 (quick) / 24; colatitude [0, 180] deg as a symbolic number, '
          'and exactly 0, 90 and 180')
OUTSIDE = 'higher degrees; the values below and beyond the documented index range'


def compare(ctx, T, nmax, c, s, at=(), label=''):
    np = ctx.np
    for n in range(0, nmax + 1):
        for m in range(0, n + 1):
            k = max(1.0, abs(sum(map(abs, oracle.qpoly(n, m))))) if n else 1.0
            ctx.equal('%sP %d %d' % (label, n, m), T[(n, m) + at], np.asarray(oracle.P(n, m, c, s))[()], 1e-11 * k)
            if n:
                ctx.equal('%sdP %d %d' % (label, n, m), T[(m, n + 1) + at], np.asarray(oracle.dP(n, m, c, s))[()],
                          1e-10 * k)


def scalar(ctx, nmax):
    th = ctx.angle('th', 0.0, 180.0)
    T = ctx.mod('model_utils').legendre_poly(nmax, th)
    ctx.check('shape', ctx.np.shape(T) == (nmax + 1, nmax + 2))
    c, s = oracle.trig(ctx.np, th)
    ctx.assume(s >= 0.0)
    compare(ctx, T, nmax, c, s)


def vector(ctx, nmax, shape):
    th = ctx.angles('th', shape, 0.0, 180.0)
    T = ctx.mod('model_utils').legendre_poly(nmax, th)
    ctx.check('shape', ctx.np.shape(T) == (nmax + 1, nmax + 2) + shape)
    for idx in ctx_index(shape):
        c, s = oracle.trig(ctx.np, th[idx])
        compare(ctx, T, nmax, c, s, idx, 'at %s ' % (idx,))


def ctx_index(shape):
    import numpy
    return list(numpy.ndindex(*shape))


def special(ctx, nmax):
    T = ctx.mod('model_utils').legendre_poly(nmax, ctx.np.array([0.0, 90.0, 180.0]))
    for i, (c, s) in enumerate(((1.0, 0.0), (0.0, 1.0), (-1.0, 0.0))):
        compare(ctx, T, nmax, c, s, (i,), '%d deg ' % (90 * i))


def cases(tier):
    yield from long.cases('P06')
    top = 20 if tier == 'quick' else 30
    for n in range(1, top + 1):
        yield Case('scalar-%d' % n, scalar, nmax=n)
    for sh in ((2,), (1,), (2, 2)):
        yield Case('vector-%s' % 'x'.join(map(str, sh)), vector, nmax=7, shape=sh)
    yield Case('special-angles', special, nmax=min(top, 20))
