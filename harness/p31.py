"""P31: the field of the complete model is the sum of the selected sources."""
import itertools
from symx.harness import Case
from . import oracle, p30

BOUNDS = ('time-dependent part of order 2 and degree 1 or 2, static part up to degree 3 (and degree 86 with three nonzero '
          'coefficients), magnetospheric parts of degree 1 and 2 with any rotation spectra of one or two components, any '
          'ring-current indices (given or from a file); any radius ratio [0.8, 1.6], colatitude [0.5, 179.5] and longitude; '
          'scalars, arrays and broadcasting shapes; all 15 sets of sources, in list, tuple and string form and in '
          'different orders')
OUTSIDE = ('the numerical content of the files shipped with the package; models with neither internal part (their far '
           'magnetosphere has no period and cannot be evaluated)')
ASSUMPTIONS = ('coefficients of the magnetospheric parts are those of synth_coeffs_gsm/sm (P30); field synthesis is compared '
               'with the written-out potential (P01)')
NAMES = ('radial', 'southward', 'eastward')
SOURCES = ('tdep', 'static', 'gsm', 'sm')


def build(ctx, nt=1, ns=2, nm=1, K=1, skip=()):
    import numpy
    np = ctx.np
    br = numpy.array([0.0, 40.0, 100.0])
    kw = {}
    if 'tdep' not in skip:
        kw['coeffs_tdep'] = ctx.vec('c', (2, 2, nt * (nt + 2)), -1., 1.)
    if 'static' not in skip:
        kw['coeffs_static'] = ctx.vec('s', (1, 1, ns * (ns + 2)), -1., 1.)
    D = nm * (nm + 2)
    for key in ('gsm', 'sm'):
        if key not in skip:
            ext = p30.spectrum(ctx, key + 'e', K, D, (0.0, 1.0) if K > 1 else (0.0,))
            ind = p30.spectrum(ctx, key + 'i', K, D, (0.0, 2.0) if K > 1 else (0.0,))
            path = ctx.tmp(key + '.npz')
            conf = ctx.mod('config_utils').basicConfig
            np.savez(path, frequency=ext[0], spectrum=ext[1] + 1j * ext[2], frequency_ind=ind[0],
                     spectrum_ind=ind[1] + 1j * ind[2], scaled=np.array(True), dipole=np.array(conf['params.dipole']),
                     start_date=np.array(0.0))
            ctx.set_config('file.%s_spectrum' % key.upper(), path)
            kw['coeffs_' + key] = ctx.vec(key, D, -1., 1.)
    b = {k: numpy.array([0., 100.]) for k in ('q10', 'q11', 's11')}
    d = {k: ctx.vec('d' + k, (1, 1), -1., 1.) for k in b}
    return ctx.mod('chaos').CHAOS(br, 2, breaks_delta=b, coeffs_delta=d, **kw)


def files(ctx):
    np = ctx.np
    path = ctx.tmp('RC.h5')
    e, i = ctx.vec('RCe', 2, -1., 1.), ctx.vec('RCi', 2, -1., 1.)
    ctx.write_h5(path, time=np.array([-1.0, 101.0]), RC=e + i, RC_e=e, RC_i=i)
    ctx.set_config('file.RC_index', path)


def point(ctx, kind):
    """Arguments of the call and the points (index, t, X, theta, phi) they stand for."""
    np = ctx.np
    if kind == 'scalar':
        a = (ctx.var('t', 0.1, 39.9), ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -180., 360.))
        return (a[0], 6371.2 * a[1], a[2], a[3]), [((),) + a]
    if kind == 'array':
        t, X = ctx.vec('t', 2, 40.1, 99.9), ctx.vec('X', 2, 0.8, 1.6)
        th, ph = ctx.angles('th', 2, 0.5, 179.5), ctx.angles('ph', 2, -180., 360.)
        return (t, 6371.2 * X, th, ph), [((i,), t[i], X[i], th[i], ph[i]) for i in range(2)]
    # time as a row against positions as a column
    t, X = ctx.vec('t', (1, 2), 0.1, 39.9), ctx.var('X', 0.8, 1.6)
    th, ph = ctx.angles('th', (2, 1), 0.5, 179.5), ctx.angle('ph', -180., 360.)
    return (t, 6371.2 * X, th, ph), [((i, j), t[0, j], X, th[i, 0], ph) for i in range(2) for j in range(2)]


def expected(ctx, m, which, p, nstatic, rc):
    np = ctx.np
    idx, t, X, th, ph = p
    total = [0.0, 0.0, 0.0]

    def add(g, source, n):
        f = oracle.field(np, [g[i] for i in range(n * (n + 2))], X, th, ph, 1, n, source=source)
        for i in range(3):
            total[i] = total[i] + f[i]

    def degree(g):
        return int(round((np.shape(g)[-1] + 1) ** 0.5)) - 1
    if 'tdep' in which:
        c = m.model_tdep.coeffs
        j, b = (0, 0.0) if ctx.truth(t < 40.0) else (1, 40.0)
        g = c[0, j] * (t - b) + c[1, j]
        add(g, 'internal', degree(g))
    if 'static' in which:
        g = m.model_static.coeffs[0, 0]
        add(g, 'internal', min(degree(g), nstatic))
    if 'gsm' in which:
        for s in ('external', 'internal'):
            g = m.synth_coeffs_gsm(t, source=s)
            add(g, s, degree(g))
    if 'sm' in which:
        for s in ('external', 'internal'):
            g = m.synth_coeffs_sm(t, source=s, rc=rc[s])
            add(g, s, degree(g))
    return total


def compare(ctx, B, idx, want, label=''):
    for n, b, w in zip(NAMES, B, want):
        ctx.equal('%s%s %s' % (label, n, idx), b[idx] if idx else ctx.np.asarray(b)[()], w, 1e-8, 1e3)


def call(ctx, which, how, kind, nstatic, rc, nm=1, K=1, verbose=None):
    import numpy
    np = ctx.np
    names = expand(which)
    m = build(ctx, nm=nm, K=K, skip=() if how == 'full' else [s for s in SOURCES if s not in names and s != 'static'])
    args, pts = point(ctx, kind)
    opt = {}
    r = {'external': None, 'internal': None}
    if 'sm' in names:
        if rc != 'both':
            files(ctx)
        if rc in ('both', 'e'):
            r['external'] = opt['rc_e'] = ctx.var('rce', -1., 1.)
        if rc in ('both', 'i'):
            r['internal'] = opt['rc_i'] = ctx.var('rci', -1., 1.)
    if nstatic is not None:
        opt['nmax_static'] = nstatic
    if verbose is not None:
        opt['verbose'] = verbose
    sl = which
    if how == 'tuple':
        sl = tuple(which)
    if sl is not None:
        opt['source_list'] = sl
    B = m(*args, **opt)
    ctx.check('three components', len(B) == 3)
    shape = numpy.broadcast_shapes(*[np.shape(a) for a in args])
    ctx.check('shapes', [np.shape(b) == shape for b in B])
    for p in pts:
        compare(ctx, B, p[0], expected(ctx, m, names, p, 85 if nstatic is None else nstatic, r))


def expand(which):
    if which is None:
        return SOURCES
    if isinstance(which, str):
        return {'internal': ('tdep', 'static'), 'external': ('gsm', 'sm')}.get(which, (which,))
    return tuple(which)


def parts(ctx, which, source, nmax, kind, rc='both', nm=2):
    """Field of one magnetospheric source."""
    import numpy
    np = ctx.np
    m = build(ctx, nm=nm, skip=[s for s in SOURCES if s not in (which, 'static')])
    args, pts = point(ctx, kind)
    opt = {}
    if nmax is not None:
        opt['nmax'] = nmax
    if source is not None:
        opt['source'] = source
    r = {'external': None, 'internal': None}
    if which == 'sm':
        if rc != 'both':
            files(ctx)
        if rc in ('both', 'e'):
            r['external'] = opt['rc_e'] = ctx.var('rce', -1., 1.)
        if rc in ('both', 'i'):
            r['internal'] = opt['rc_i'] = ctx.var('rci', -1., 1.)
    B = getattr(m, 'synth_values_' + which)(*args, **opt)
    top = min(nmax or nm, nm)
    for p in pts:
        idx, t, X, th, ph = p
        want = [0.0, 0.0, 0.0]
        for s in ('external', 'internal'):
            if source in (None, 'all', s):
                g = m.synth_coeffs_gsm(t, source=s) if which == 'gsm' else m.synth_coeffs_sm(t, source=s, rc=r[s])
                f = oracle.field(np, [g[i] for i in range(top * (top + 2))], X, th, ph, 1, top, source=s)
                want = [a + b for a, b in zip(want, f)]
        compare(ctx, B, idx, want)


def grids(ctx, which, source):
    np = ctx.np
    m = build(ctx, nm=1, skip=[s for s in SOURCES if s not in (which, 'static')])
    th, ph = ctx.angles('th', 2, 0.5, 179.5), ctx.angles('ph', 3, -180., 360.)
    t, X = ctx.var('t', 0.1, 39.9), ctx.var('X', 0.8, 1.6)
    opt = {'rc_e': ctx.var('rce', -1., 1.), 'rc_i': ctx.var('rci', -1., 1.)} if which == 'sm' else {}
    if source is not None:
        opt['source'] = source
    f = getattr(m, 'synth_values_' + which)
    B = f(t, 6371.2 * X, th, ph, grid=True, **opt)
    W = f(t, 6371.2 * X, th[:, None], ph, **opt)
    for n, b, w in zip(NAMES, B, W):
        ctx.equal(n, b, w, 1e-8, 1e3)


def internal(ctx, kind, nmax, deriv, extrapolate):
    """Wrappers of the two internal parts pass their options on."""
    import numpy
    np = ctx.np
    m = build(ctx, nt=2, ns=3, skip=('gsm', 'sm'))
    c, s = m.model_tdep.coeffs, m.model_static.coeffs[0, 0]
    args, pts = point(ctx, kind)
    opt = {}
    if nmax is not None:
        opt['nmax'] = nmax
    B = m.synth_values_static(*args[1:], **opt)
    if nmax is not None:
        G = m.synth_coeffs_static(nmax=nmax)
        ctx.equal('static coefficients', G, s[:nmax * (nmax + 2)])
    else:
        ctx.equal('static coefficients', m.synth_coeffs_static(), s)
    if kind == 'array':
        for p in pts:
            top = nmax or 3
            compare(ctx, B, p[0], oracle.field(np, [s[i] for i in range(top * (top + 2))], p[2], p[3], p[4], 1, top), 'static ')
    if deriv is not None:
        opt['deriv'] = deriv
    if extrapolate is not None:
        opt['extrapolate'] = extrapolate
        args = (args[0] + 150.0,) + args[1:]
        pts = [(p[0], p[1] + 150.0) + p[2:] for p in pts]
    B = m.synth_values_tdep(*args, **opt)
    G = m.synth_coeffs_tdep(args[0], **opt)
    top = min(nmax or 2, 2)
    for p in pts:
        idx, t, X, th, ph = p
        j, b = (0, 0.0) if ctx.truth(t < 40.0) else (1, 40.0)
        d = deriv or 0
        if extrapolate == 'constant':
            g = (c[0, j] * 60.0 + c[1, j]) if d == 0 else c[0, j] * 0.0
        else:
            g = (c[0, j] * (t - b) + c[1, j]) if d == 0 else (c[0, j] * 365.25 if d == 1 else c[0, j] * 0.0)
        tdep = [g[i] for i in range(top * (top + 2))]
        ctx.equal('coefficients %s' % (idx,), G[idx[-1:]] if kind != 'broadcast' else G[0, idx[1]], g[:top * (top + 2)], 1e-9, 1e4)
        compare(ctx, B, idx, oracle.field(np, tdep, X, th, ph, 1, top), 'tdep ')


def default_degree(ctx, nstatic, method):
    """Default degree of the static part in the call."""
    import numpy
    np = ctx.np
    n = 86
    g = [0.0] * (n * (n + 2))
    for k in (n - 2, n - 1, n):
        g[k * k - 1] = ctx.var('g%d' % k, -1., 1.)
    s = np.array(g).reshape((1, 1, -1))
    m = ctx.mod('chaos').CHAOS(numpy.array([0.0, 1.0]), 2, coeffs_static=s)
    X, th = 1.0, 20.0
    kw = {} if nstatic is None else {'nmax_static': nstatic}
    B = m(0.5, 6371.2 * X, th, 10.0, source_list='static', **kw)
    top = 85 if nstatic is None else nstatic
    A = ctx.mod('model_utils').design_gauss(6371.2 * X, th, 10.0, nmax=n, source='internal')
    for i in range(3):
        want = sum(A[i][k * k - 1] * g[k * k - 1] for k in range(n - 2, top + 1))
        ctx.equal(NAMES[i], np.asarray(B[i])[()], want, 1e-9, 1e3)


def refused(ctx):
    m = build(ctx, nm=1, skip=SOURCES)
    ctx.raises('tdep', lambda: m(1.0, 6371.2, 10., 10., source_list=['tdep']), ValueError)
    ctx.raises('static', lambda: m(1.0, 6371.2, 10., 10., source_list=['static']), ValueError)
    ctx.raises('gsm', lambda: m(1.0, 6371.2, 10., 10., source_list=['gsm']), ValueError)
    ctx.raises('sm', lambda: m(1.0, 6371.2, 10., 10., source_list=['sm'], rc_e=0., rc_i=0.), ValueError)
    m = build(ctx, nm=1)
    ctx.raises('gsm source', lambda: m.synth_values_gsm(1.0, 6371.2, 10., 10., source='both'), ValueError)
    ctx.raises('sm source', lambda: m.synth_values_sm(1.0, 6371.2, 10., 10., source='both', rc_e=0., rc_i=0.), ValueError)


def cases(tier):
    kinds = ('scalar', 'array', 'broadcast')
    sets = [list(c) for r in range(1, 5) for c in itertools.combinations(SOURCES, r)]
    for k, which in enumerate(sets):
        for i, kind in enumerate(kinds):
            order = which if (i + k) % 2 else which[::-1]
            yield Case('call-%s-%s' % ('+'.join(order), kind), call, which=order, how=('list', 'tuple')[(i + k) % 2],
                       kind=kind, nstatic=(None, 1, 3)[i], rc='both')
    for which in (None, 'internal', 'external'):
        for kind in kinds:
            for nstatic, rc in ((None, 'file'), (1, 'both')):
                yield Case('call-%s-%s-%s' % (which, kind, rc), call, which=which, how='full', kind=kind, nstatic=nstatic, rc=rc)
    for which in SOURCES:
        yield Case('call-string-%s' % which, call, which=which, how='full', kind='scalar', nstatic=None, rc='both')
    for rc in ('e', 'i', 'file'):
        yield Case('index-%s' % rc, call, which=['sm', 'static'], how='list', kind='array', nstatic=2, rc=rc)
    yield Case('call-degree2', call, which=['sm', 'gsm'], how='list', kind='scalar', nstatic=2, rc='both', nm=2, K=1)
    yield Case('call-components', call, which=None, how='full', kind='scalar', nstatic=2, rc='both', nm=1, K=2)
    for verbose in (True, False):
        yield Case('call-verbose-%s' % verbose, call, which=None, how='full', kind='array', nstatic=2, rc='both', verbose=verbose)
    for which in ('gsm', 'sm'):
        for source in (None, 'all', 'external', 'internal'):
            for nmax in (None, 1, 2):
                for kind in kinds:
                    yield Case('parts-%s-%s-%s-%s' % (which, source, nmax, kind), parts, which=which, source=source, nmax=nmax,
                               kind=kind)
            yield Case('grid-%s-%s' % (which, source), grids, which=which, source=source)
            if which == 'sm':
                for rc in ('e', 'i', 'file'):
                    yield Case('parts-%s-%s-rc-%s' % (which, source, rc), parts, which=which, source=source, nmax=1, kind='array',
                               rc=rc, nm=1)
    for kind in kinds:
        for nmax, deriv, ext in ((None, None, None), (1, 1, None), (2, None, 'constant'), (1, 1, 'linear'), (None, 2, None),
                                 (None, 1, 'constant')):
            yield Case('internal-%s-%s-%s-%s' % (kind, nmax, deriv, ext), internal, kind=kind, nmax=nmax, deriv=deriv,
                       extrapolate=ext)
    for nstatic in (None, 84, 85, 86):
        yield Case('degree-%s' % nstatic, default_degree, nstatic=nstatic, method='call')
    yield Case('refused', refused)
