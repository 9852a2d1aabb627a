"""Piecewise polynomials written out from their definition (used as oracle)."""


def factor(p, k):
    """d^k/ds^k of s^p -> factor * s^(p-k)."""
    f = 1.0
    for i in range(k):
        f *= p - i
    return f


def ipow(s, p):
    r = 1.0
    for _ in range(p):
        r = r * s
    return r


def poly(c, s, deriv=0):
    """Polynomial with highest power first at s, derivative in days."""
    K = len(c)
    r = 0.0
    for i in range(K):
        p = K - 1 - i
        if p >= deriv:
            r = r + factor(p, deriv) * c[i] * ipow(s, p - deriv)
    return r


def piece(ctx, br, t):
    """Index of the piece containing t (the last break belongs to the last piece)."""
    n = len(br) - 1
    j = n - 1
    while j > 0 and not ctx.truth(br[j] <= t):
        j -= 1
    return j


def value(ctx, br, c, t, d, deriv=0, year=365.25):
    """Value inside the period; c is indexed [power, piece, dim]."""
    j = piece(ctx, br, t)
    K = len(c)
    return poly([c[i][j][d] for i in range(K)], t - br[j], deriv) * year ** deriv


def taylor(br, c, t, d, key, side, deriv=0, year=365.25):
    """Taylor polynomial of order key (key coefficients) about an end of the period."""
    K = len(c)
    n = len(br) - 1
    j, at = (0, br[0]) if side == 'left' else (n - 1, br[n])
    cs = [c[i][j][d] for i in range(K)]
    key = min(key, K)
    r, fac = 0.0, 1.0
    tay = []
    for k in range(key):
        if k:
            fac *= k
        tay.append(poly(cs, at - br[j], k) / fac)
    return poly(list(reversed(tay)), t - at, deriv) * year ** deriv if key else None


def ordered(x):
    """Plain nested list of an array."""
    return x.tolist() if hasattr(x, 'tolist') else x
