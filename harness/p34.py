"""P34: induction response of a layered Earth."""
import cmath
import math
from symx.harness import Case

MU = 4e-7 * math.pi


def surface(ctx, n, radius, sigma, period):
    """C-response (km) at the surface: F / F' of the field function F = r f, with f and (r f)' continuous (own derivation).

    In a layer of conductivity sigma_k (r_k / r)^2 the function is F = A r^(1/2+b) + B r^(1/2-b) with
    b^2 = (n+1/2)^2 + i omega mu sigma_k r_k^2; the innermost layer has no B.
    """
    np = ctx.np
    b = []
    for r, s in zip(radius, sigma):
        im = 2.0 * math.pi * MU * s * (1e3 * r) ** 2 / period
        b.append(np.sqrt((n + 0.5) ** 2 + 1j * im))
    C = radius[-1] / (b[-1] + 0.5)
    for k in range(len(radius) - 2, -1, -1):
        fade = (radius[k + 1] / radius[k]) ** (2.0 * b[k])
        r = radius[k + 1]
        # at the lower radius: F = C, r F' = r
        A = (r - (0.5 - b[k]) * C)
        B = ((b[k] + 0.5) * C - r)
        C = radius[k] * (A + B * fade) / ((b[k] + 0.5) * A + (0.5 - b[k]) * B * fade)
    return C


def relations(ctx, n, a, omega, C, rho, phi, Q, lab=''):
    """What follows from C."""
    np = ctx.np
    ctx.equal(lab + 'Q from C', Q * (n + 1) * (1.0 + n * C / a), n * (1.0 - (n + 1) * C / a), 1e-9)
    want = omega * MU * np.abs(1000 * C) ** 2
    if np.iscomplexobj(rho):       # its realness is a claim of its own (mode 'real')
        ctx.equal(lab + 'size of the apparent resistivity', (rho - want) * (rho - 1j * want), 0.0, 1e-7)
    else:
        ctx.equal(lab + 'apparent resistivity', rho, want, 1e-7)
    ctx.equal(lab + 'phase', phi, 90.0 + 57.3 * np.angle(C), 0.1)


def quadratic(ctx, n, radius, mode, kind='quadratic'):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    K = len(radius)
    T = ctx.var('T', 1e3, 1e8)
    sig = [ctx.var('s%d' % k, 1e-4, 10.0) for k in range(K)]
    kw = {} if kind is None else {'kind': kind}
    C, rho, phi, Q = cu.q_response_1D(np.array([T]), np.array(sig), np.array(radius), n, **kw)
    for x in (C, rho, phi, Q):
        ctx.check('shape', np.shape(x) == (1,))
    C, rho, phi, Q = C[0], rho[0], phi[0], Q[0]
    if mode == 'relations':
        relations(ctx, n, radius[0], 2 * math.pi / T, C, rho, phi, Q)
        return
    if mode == 'real':
        ctx.equal('apparent resistivity is real', np.imag(rho), 0.0, 1e-12)
        return
    want = surface(ctx, n, radius, sig, T)
    ctx.equal('response', C, want, 1e-8, 1e3)


def split(ctx, n, radius, k, kind='quadratic', lo=0.05, hi=0.95):
    """Layer k cut in two at any radius, the profile of the conductivity unchanged."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    T = ctx.var('T', 1e3, 1e8)
    sig = [ctx.var('s%d' % j, 1e-4, 10.0) for j in range(len(radius))]
    below = radius[k + 1] if k + 1 < len(radius) else 0.0
    u = ctx.var('u', lo, hi)
    t = u + (1.0 - u) * below / radius[k] if below else u      # radius of the cut relative to the layer's
    if below:
        t = ctx.var('t', below / radius[k] + 1e-3, 1.0 - 1e-3)
    C, rho, phi, Q = cu.q_response_1D(np.array([T]), np.array(sig), np.array(radius), n, kind=kind)
    r2 = list(radius[:k + 1]) + [t * radius[k]] + list(radius[k + 1:])
    s2 = sig[:k + 1] + [sig[k] / t ** 2] + sig[k + 1:]
    C2, rho2, phi2, Q2 = cu.q_response_1D(np.array([T]), np.array(s2), np.array(r2), n, kind=kind)
    ctx.equal('C-response', C2[0], C[0], 1e-8, 1e3)
    ctx.equal('Q-response', Q2[0], Q[0], 1e-8, 1.0)


def functions(np, n, k, r, g, m):
    """F and F' of the two solutions of F'' = (n(n+1)/r^2 + k^2) F; exp(k r) = g^m (r in km, k per km)."""
    z = k * r
    P = M = 0.0
    dP = dM = 0.0
    c = 1.0
    for j in range(n + 1):
        w = c / z ** j
        sg = (-1.0) ** j
        P, M = P + sg * w, M + w
        dP, dM = dP + k * sg * (w - j * w / z), dM + k * (-w - j * w / z)
        c = c * (n + j + 1) * (n - j) / (2.0 * (j + 1))
    return (P * g ** m, dP * g ** m), (M * g ** (-m), dM * g ** (-m))


def layered(np, n, radius, ks, gs, units):
    """C of constant layers above a perfect conductor, from F and F' continuous."""
    want = 0.0
    for j in range(len(ks) - 1, -1, -1):
        (P1, dP1), (M1, dM1) = functions(np, n, ks[j], radius[j + 1], gs[j], units[j + 1])
        (P0, dP0), (M0, dM0) = functions(np, n, ks[j], radius[j], gs[j], units[j])
        # F = want, F' = 1 at the lower side
        a = want * dM1 - M1
        b = P1 - want * dP1
        want = (a * P0 + b * M0) / (a * dP0 + b * dM0)
    return want


def constant(ctx, n, units, unit, fixed, mode='response', T=(1e5, 3e6), sizes=(0.2, 1.0)):
    """Thick layers (|k r| of at least 3 at their upper side) above a perfect conductor; fixed: values of all but one layer."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    radius = [unit * m for m in units]
    T = 1e6 if fixed else ctx.var('T', *T)
    sig = list(fixed) if fixed else [None]
    sig[sig.index(None)] = ctx.var('s', *sizes)
    ks = [np.sqrt(8.0e-7 * 1j * math.pi ** 2 * s / T) * 1e3 for s in sig]
    gs = [np.exp(k * unit) for k in ks]
    C, rho, phi, Q = cu.q_response_1D(np.array([T]), np.array(sig + [1.0]), np.array(radius), n, kind='constant')
    for x in (C, rho, phi, Q):
        ctx.check('shape', np.shape(x) == (1,))
    if mode == 'relations':
        relations(ctx, n, radius[0], 2 * math.pi / T, C[0], rho[0], phi[0], Q[0])
        ctx.check('real resistivity', not np.iscomplexobj(rho))
        return
    ctx.equal('response', C[0], layered(np, n, radius, ks, gs, units), 1e-8, 1e3)


def series(n, radius, sigma, T):
    """The same for any layers, by the power series of the two solutions (plain numbers)."""
    want = 0.0
    for j in range(len(radius) - 2, -1, -1):
        w = 8.0e-7j * math.pi ** 2 * sigma[j] / T * 1e6       # k^2 per km^2

        def pair(r):
            out = []
            for e in (n + 1, -n):
                t, F, d, m = 1.0, 0.0, 0.0, e
                for i in range(1, 60):
                    F, d = F + t, d + t * m
                    m += 2
                    t = t * w * r * r / (m * (m - 1) - n * (n + 1))
                out.append((F * (r / radius[0]) ** e, d * (r / radius[0]) ** e / r))
            return out
        (P1, dP1), (M1, dM1) = pair(radius[j + 1])
        (P0, dP0), (M0, dM0) = pair(radius[j])
        a = want * dM1 - M1
        b = P1 - want * dP1
        want = (a * P0 + b * M0) / (a * dP0 + b * dM0)
    return want


def thin(ctx, n, radius, sigma, periods):
    """Layers of small |k r|: fixed numbers (the code sums a series until its terms are small)."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    C, rho, phi, Q = cu.q_response_1D(np.array(periods), np.array(sigma), np.array(radius), n, kind='constant')
    for x in (C, rho, phi, Q):
        ctx.check('shape', np.shape(x) == (len(periods),))
    for i, T in enumerate(periods):
        ctx.equal('response %d' % i, C[i], series(n, radius, sigma, T), 1e-6, 1e3)
        relations(ctx, n, radius[0], 2 * math.pi / T, C[i], rho[i], phi[i], Q[i], '%d ' % i)
    ctx.check('real resistivity', not np.iscomplexobj(rho))


def several(ctx, n, radius, kind='quadratic'):
    """Every period of a vector is treated by itself; scalar periods."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    sig = np.array([ctx.var('s%d' % k, 1e-3, 1.0) for k in range(len(radius))])
    T = [ctx.var('T%d' % i, 1e3, 1e8) for i in range(3)]
    all3 = cu.q_response_1D(np.array(T), sig, np.array(radius), n, kind=kind)
    for i in range(3):
        one = cu.q_response_1D(np.array(T[i:i + 1]), sig, np.array(radius), n, kind=kind)
        for lab, a, b in zip(('C', 'rho', 'phi', 'Q'), all3, one):
            ctx.check('shape', np.shape(a) == (3,))
            ctx.equal('%s %d' % (lab, i), a[i], b[0], 1e-12)


def scalar(ctx, n, radius, sigma, T, kind):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    one = cu.q_response_1D(T, np.array(sigma), np.array(radius), n, kind=kind)
    vec = cu.q_response_1D(np.array([T]), np.array(sigma), np.array(radius), n, kind=kind)
    for lab, a, b in zip(('C', 'rho', 'phi', 'Q'), one, vec):
        ctx.check('size', np.size(a) == 1)
        ctx.equal(lab, np.ravel(a)[0], b[0], 1e-12)


def short(ctx, n, radius, sigma):
    """Very short periods: the response of a half-space, never NaN."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    T = [1e-12, 1e-9, 1e-3]
    C, rho, phi, Q = cu.q_response_1D(np.array(T), np.array(sigma), np.array(radius), n, kind='quadratic')
    for i, t in enumerate(T):
        w = 2.0 * math.pi * MU * sigma[0] / t
        ctx.equal('half-space %d' % i, C[i] * 1e3 * cmath.sqrt(1j * w), 1.0, 1e-3)


def refused(ctx, what):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    T = np.array([ctx.var('T', 1e3, 1e8)])
    s, r = np.array([1.0, ctx.var('s', 1e-3, 1.0)]), np.array([6000.0, 3000.0])
    if what == 'kind':
        for kind in ('linear', 'Constant', '', 0):
            ctx.raises('unknown kind %r' % (kind,), lambda: cu.q_response_1D(T, s, r, 1, kind=kind), ValueError)
    for kind in ('quadratic', 'constant'):
        if what == 'periods':
            ctx.raises('periods ' + kind, lambda: cu.q_response_1D(np.array([T, T]), s, r, 1, kind=kind), ValueError)
        if what == 'sigma':
            ctx.raises('sigma ' + kind, lambda: cu.q_response_1D(T, np.array([s, s]), r, 1, kind=kind), ValueError)


def table(ctx, nmax, zeros):
    """The table of responses of the conductivity model of the configuration."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    depth = [0.0, 400.0, 2900.0]
    sig = [ctx.var('s%d' % k, 1e-3, 1.0) for k in range(3)]
    path = ctx.tmp('sigma.dat')
    ctx.write_text(path, [x for d, s in zip(depth, sig) for x in ('%r ' % d, s, '\n')])
    ctx.set_config('file.Earth_conductivity', path)
    f, T = [], []
    for i, z in enumerate(zeros):
        if z:
            f.append(0.0)
            T.append(None)
        else:
            f.append(ctx.var('f%d' % i, 1e-8, 1e-3))
            T.append(1.0 / f[-1])
    got = cu.q_response(np.array(f), nmax)
    ctx.check('shape', np.shape(got) == (nmax, len(f)))
    rows = ctx.read_rows(path)
    sig = [row[1] for row in rows]
    radius = [6371.2 - d for d in depth]
    for n in range(1, nmax + 1):
        for i in range(len(f)):
            if T[i] is None:
                ctx.equal('zero frequency', got[n - 1, i], 0.0, 1e-15)
                continue
            want = cu.q_response_1D(np.array([T[i]]), np.array(sig), np.array(radius), n, kind='quadratic')[3][0]
            ctx.equal('degree %d frequency %d' % (n, i), got[n - 1, i], want, 1e-9, 1.0)
            if n == 1:
                C = surface(ctx, n, radius, sig, T[i])
                ctx.equal('closed form %d' % i, got[n - 1, i] * (n + 1) * (1.0 + n * C / radius[0]),
                          n * (1.0 - (n + 1) * C / radius[0]), 1e-8, 10.0)


def cases(tier):
    deep = tier == 'thorough'
    R = {1: (6371.2,), 2: (6400.0, 3200.0), 3: (6400.0, 5900.0, 3485.0), 4: (6371.0, 6200.0, 5711.5, 3480.0),
         5: (6371.2, 6361.2, 5961.0, 5701.0, 3471.2)}
    for n in range(1, 10 if deep else 6):
        for K in sorted(R):
            if K <= 4 or n <= 2 or deep:
                yield Case('quadratic %d layers degree %d' % (K, n), quadratic, n=n, radius=R[K], mode='response', field=True)
        yield Case('quadratic relations %d' % n, quadratic, n=n, radius=R[1], mode='relations', field=True)
    yield Case('quadratic relations two layers', quadratic, n=1, radius=R[2], mode='relations', field=True)
    for kind in (None, 'quadratic'):
        yield Case('default kind %s' % kind, quadratic, n=1, radius=R[2], mode='response', kind=kind, field=True)
    yield Case('quadratic real', quadratic, n=1, radius=R[1], mode='real')
    for n in range(1, 10 if deep else 6):
        for K in sorted(R):
            for k in range(K):
                if K <= 3 or K == 4 and k in (0, 2, 3):
                    yield Case('split %d of %d degree %d' % (k, K, n), split, n=n, radius=R[K], k=k, field=True)
    U = {1: (16, 9), 2: (16, 13, 9), 3: (16, 14, 12, 9)}
    for n in range(1, 9 if deep else 7):
        if n < 5:
            yield Case('constant %d' % n, constant, n=n, units=U[1], unit=400.0, fixed=(), field=True)
        if n < 7:
            yield Case('constant relations %d' % n, constant, n=n, units=U[1], unit=400.0, fixed=(), mode='relations', field=True)
        for fixed in ((None, 0.3), (0.3, None)) if n < 5 else ():
            yield Case('constant two %d %d' % (fixed.index(None), n), constant, n=n, units=U[2], unit=400.0, fixed=fixed, field=True)
        if n < 5:
            yield Case('constant three %d' % n, constant, n=n, units=U[3], unit=400.0, fixed=(0.4, None, 0.7), field=True)
        for K in (1, 2, 3):
            for T in ((1e6, 3e8), (1e10,)):
                yield Case('thin %d layers degree %d periods %g' % (K, n, T[0]), thin, n=n, radius=tuple(300.0 * u for u in U[K]),
                           sigma=(0.02, 0.05, 0.03)[:K] + (5.0,), periods=T)
    for K in (1, 2, 3):
        yield Case('several periods %d' % K, several, n=K, radius=R[K], field=True)
    for kind in ('quadratic', 'constant'):
        yield Case('scalar %s' % kind, scalar, n=1, radius=R[2], sigma=(0.1, 1.0), T=86400.0, kind=kind)
    yield Case('short', short, n=1, radius=R[2], sigma=(0.1, 1.0))
    for what in ('kind', 'periods', 'sigma'):
        yield Case('refused %s' % what, refused, what=what)
    for zeros in ((1, 0, 0), (0, 0), (0, 1, 0), (1,)):
        for nmax in (1, 2, 3):
            yield Case('table %d %s' % (nmax, zeros), table, nmax=nmax, zeros=zeros, field=True)


BOUNDS = ('quadratic layers: 1 to 5 layers of given radii, degrees 1 to 5 (constant layers 4, thin ones 6; thorough 9, 4, 8), all conductivities in [1e-4, 10] S/m and '
          'periods in [1e3, 1e8] s; a layer of 1 to 4 cut at any radius in it; three periods together; constant layers: |k r| >= 3, one '
          'layer with all conductivities [0.2, 1] and periods [1e5, 3e6], two and three layers with the conductivity of one of them '
          'symbolic; small |k r| for fixed numbers; table: three layers, 1 to 3 degrees, all frequencies in [1e-8, 1e-3] 1/s and zero')
OUTSIDE = ('radii of the layers other than those listed; the number of terms of the power series for thin constant layers (fixed '
           'numbers only); very short periods (fixed numbers only); the factor 57.3 for 180/pi in the phase (allowed for by 0.1 degrees)')
ASSUMPTIONS = ('complex values are rational functions of the principal square roots b = sqrt((n+1/2)^2 + i...), of exponentials and of '
               'the imaginary unit; an identity is shown by clearing the denominators (which are taken to be non-zero) and '
               'cancelling every monomial by itself')
