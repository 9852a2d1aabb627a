"""P22: rotation of spherical harmonic coefficients."""
from symx.harness import Case
from . import long
from . import oracle
from .p20 import rotation
from .p19 import dot

BOUNDS = ('any right-handed orthonormal frame (three Euler angles); degree limits nmax, kmax in 1..5 (thorough: 1..7); frames '
          'given as one triple, a vector and a matrix of triples, frames that share an axis, repeated frames')
OUTSIDE = 'higher degrees; frames that are not orthonormal'


def harmonic(np, n, m, v, sine):
    """Schmidt harmonic on the unit sphere as a polynomial of the cartesian components."""
    q = oracle.horner(oracle.qpoly(n, m), v[2])
    c, s = 1.0, 0.0
    for _ in range(m):
        c, s = c * v[0] - s * v[1], s * v[0] + c * v[1]
    return q * (s if sine else c)


def natural(nmax):
    out = []
    for n in range(1, nmax + 1):
        out.append((n, 0, False))
        for m in range(1, n + 1):
            out += [(n, m, False), (n, m, True)]
    return out


POINTS = []


def points(k):
    """2k + 1 or more points in general position (determine a degree-k harmonic uniquely)."""
    import math
    pts = []
    for i in range(2 * k + 3):
        z = -0.9 + 1.8 * (i + 0.37) / (2 * k + 3)
        a = 2.399963 * i + 0.3
        r = math.sqrt(1 - z * z)
        pts.append((r * math.cos(a), r * math.sin(a), z))
    return pts


def claim(ctx, M, R, nmax, kmax, lab=''):
    np = ctx.np
    rows, cols = natural(nmax), natural(kmax)
    for j, (k, l, s) in enumerate(cols):
        for i, (n, m, t) in enumerate(rows):
            if n != k:
                ctx.equal('%sdegrees do not mix [%d,%d]' % (lab, i, j), M[i, j], 0.0, 1e-9)
        if k > nmax:
            continue
        idx = [i for i, x in enumerate(rows) if x[0] == k]
        for p, v in enumerate(points(k)):
            w = [dot(R[i], v) for i in range(3)]
            got = sum(M[i, j] * harmonic(np, *rows[i][:2], v, rows[i][2]) for i in idx)
            ctx.equal('%sfunction of column %d at point %d' % (lab, j, p), got, harmonic(np, k, l, w, s), 1e-8)
        if k == 1:
            # degree one: components of the vector
            order = {(0, False): 2, (1, False): 0, (1, True): 1}
            for i in idx:
                ctx.equal('%svector block [%d,%d]' % (lab, i, j), M[i, j],
                          R[order[l, s]][order[rows[i][1:]]], 1e-9)


def power(ctx, nmax):
    """Columns of the degree-n block have unit length and are orthogonal."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R = rotation(ctx, 'r')
    M = cu.rotate_gauss(nmax, nmax, *[np.array(x) for x in R])
    cols = natural(nmax)
    for a in range(len(cols)):
        for b in range(a + 1):
            if cols[a][0] == cols[b][0]:
                ctx.equal('power is kept [%d,%d]' % (a, b), sum(M[i, a] * M[i, b] for i in range(len(cols))),
                          1.0 * (a == b), 1e-8)


def single(ctx, nmax, kmax):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R = rotation(ctx, 'r')
    M = cu.rotate_gauss(nmax, kmax, *[np.array(x) for x in R])
    ctx.check('shape', np.shape(M) == (nmax * (nmax + 2), kmax * (kmax + 2)))
    claim(ctx, M, R, nmax, kmax)


def several(ctx, nmax, kmax, shape):
    import numpy
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    n = int(numpy.prod(shape))
    Rs = [rotation(ctx, 'r%d' % i) for i in range(n)]
    base = [np.reshape(np.array([R[k] for R in Rs]), shape + (3,)) for k in range(3)]
    M = cu.rotate_gauss(nmax, kmax, *base)
    ctx.check('shape', np.shape(M) == shape + (nmax * (nmax + 2), kmax * (kmax + 2)))
    for i, idx in enumerate(numpy.ndindex(*shape)):
        claim(ctx, M[idx], Rs[i], nmax, kmax, '%s ' % (idx,))


def shared(ctx, axis, order):
    """Frames that have one axis in common with each other (order: indices into frame, turned frame)."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    R = rotation(ctx, 'r')
    w = ctx.angle('turn', -180.0, 180.0) * (np.pi / 180)
    c, s = np.cos(w), np.sin(w)
    i, j = (axis + 1) % 3, (axis + 2) % 3
    T = list(R)
    T[i] = [c * a + s * b for a, b in zip(R[i], R[j])]
    T[j] = [c * b - s * a for a, b in zip(R[i], R[j])]
    Rs = [(R, T)[k] for k in order]
    base = [np.array([list(x[k]) for x in Rs]) for k in range(3)]
    M = cu.rotate_gauss(1, 1, *base)
    for n, x in enumerate(Rs):
        claim(ctx, M[n], x, 1, 1, '%d ' % n)


def mismatch(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    b = np.array([[1., 0., 0.], [0., 1., 0.]])
    x = ctx.var('x', -1, 1)
    ctx.raises('different shapes', lambda: cu.rotate_gauss(1, 1, np.array([x, 0., 0.]), b, b))
    ctx.raises('different shapes', lambda: cu.rotate_gauss(1, 1, b, b, np.array([x, 0., 0.])))


def cases(tier):
    yield from long.cases('P22')
    top = 5 if tier == 'quick' else 7
    for n in range(1, top + 1):
        for k in range(1, top + 1):
            yield Case('degrees-%d-%d' % (n, k), single, nmax=n, kmax=k, budget=600, lazy=True)
    for s in ((1,), (2,), (2, 1), (1, 2), (2, 2)):
        yield Case('frames-%s' % (s,), several, nmax=1, kmax=1, shape=s, lazy=True)
    yield Case('frames-2-degrees', several, nmax=1, kmax=2, shape=(2,), lazy=True)
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        yield Case('power-%d' % n, power, nmax=n, lazy=True)
    for axis in range(3):
        yield Case('shared axis %d' % axis, shared, axis=axis, order=(0, 1), lazy=True)
    yield Case('repeated frames', shared, axis=2, order=(0, 1, 0), lazy=True)
    yield Case('mismatch', mismatch)
