"""Independent closed-form oracles (Rodrigues formula, no recursions shared with the package)."""
import math
from fractions import Fraction

RAD = math.pi / 180


def legendre_coeffs(n):
    """Coefficients of the Legendre polynomial P_n, index = power."""
    c = [Fraction(0)] * (n + 1)
    for k in range(n // 2 + 1):
        c[n - 2 * k] = Fraction((-1) ** k * math.factorial(2 * n - 2 * k),
                                2 ** n * math.factorial(k) * math.factorial(n - k) * math.factorial(n - 2 * k))
    return c


def dpoly(c):
    return [k * c[k] for k in range(1, len(c))] or [Fraction(0)]


_q = {}


def qpoly(n, m):
    """P_n^m = s^m * Q(c) in Schmidt quasi-normalisation; returns float coefficients of Q."""
    r = _q.get((n, m))
    if r is None:
        c = legendre_coeffs(n)
        for _ in range(m):
            c = dpoly(c)
        f = 1.0 if m == 0 else math.sqrt(2.0 * math.factorial(n - m) / math.factorial(n + m))
        r = [float(x) * f for x in c]
        _q[(n, m)] = r
    return r


def horner(c, x):
    r = 0.0
    for a in reversed(c):
        r = r * x + a
    return r


def P(n, m, c, s):
    return horner(qpoly(n, m), c) * s ** m


def dP(n, m, c, s):
    q = qpoly(n, m)
    dq = [k * q[k] for k in range(1, len(q))] or [0.0]
    r = -horner(dq, c) * s ** (m + 1)
    if m:
        r = r + m * s ** (m - 1) * c * horner(q, c)
    return r


def P_s(n, m, c, s):
    """P_n^m / sin(theta), m >= 1."""
    return horner(qpoly(n, m), c) * s ** (m - 1)


def index(nmin, nmax, mmax):
    """(n, m, 'c' or 's') in natural order."""
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0, 'c'))
        for m in range(1, min(n, mmax) + 1):
            out.append((n, m, 'c'))
            out.append((n, m, 's'))
    return out


def trig(np, x_deg):
    x = x_deg * RAD
    return np.cos(x), np.sin(x)


def basis(np, n, m, kind, ratio, c, s, ph, source):
    """Field (Br, Bt, Bp) of one unit coefficient; ratio = r/a."""
    if m == 0:
        cm, sm = 1.0, 0.0
    else:
        cm, sm = np.cos(m * ph * RAD), np.sin(m * ph * RAD)
    f, g = (cm, sm) if kind == 'c' else (sm, -cm)          # azimuthal function and -1/m derivative
    if source == 'internal':
        R = 1.0 / ratio ** (n + 2)
        k = n + 1
    else:
        R = ratio ** (n - 1) if n > 1 else 1.0
        k = -n
    br = k * R * P(n, m, c, s) * f
    bt = -R * dP(n, m, c, s) * f
    bp = R * m * P_s(n, m, c, s) * g if m else 0.0
    return br, bt, bp


def field(np, coeffs, ratio, th, ph, nmin, nmax, mmax=None, source='internal', cs=None):
    """Field of scalar position from a flat list of coefficients."""
    mmax = nmax if mmax is None else mmax
    c, s = trig(np, th) if cs is None else cs
    B = [0.0, 0.0, 0.0]
    for k, (n, m, kind) in enumerate(index(nmin, nmax, mmax)):
        b = basis(np, n, m, kind, ratio, c, s, ph, source)
        for i in range(3):
            B[i] = B[i] + b[i] * coeffs[k]
    return B


def ncoeff(nmin, nmax, mmax):
    return len(index(nmin, nmax, mmax))
