"""P36: plots draw the values of the model at the drawn points."""
import contextlib
import numpy
from symx import figures
from symx.harness import Case
from . import oracle, p30, p31

BOUNDS = ('time series, maps and spectra of models of degree 1 to 3, order 1 to 3 and one or two pieces, any coefficients in [-1, 1], any '
          'requested time, position, radius ratio in [0.8, 1.6], derivatives 0 to 2, lower degrees, both sources; maps at rows and columns taken from '
          'the drawn grid (first, a third, two thirds, last); all drawn dates of the time series; external maps of degree 1 and 2; plotting '
          'functions with any values and layouts of up to 4 panels')
OUTSIDE = 'what matplotlib makes of the drawn values; coastlines, colours, figure sizes; grid points of the maps not listed'
ASSUMPTIONS = ('matplotlib is replaced by a recorder (symx/figures.py); coefficients of the magnetospheric parts are those of '
               'synth_coeffs_gsm/sm (P30)')
UNITS = ('nT', '$\\mathrm{nT}/\\mathrm{yr}$', '$\\mathrm{nT}/\\mathrm{yr}^{2}$', '$\\mathrm{nT}/\\mathrm{yr}^{3}$')


def tex(s):
    return s.replace('{{', '{').replace('}}', '}') if isinstance(s, str) else s


DAY = numpy.timedelta64(86400 * 10 ** 9, 'ns')


@contextlib.contextmanager
def recorded(ctx, thin=True):
    """Panels drawn within the block; numbers of grid points reduced to four of the real ones (symbolic run)."""
    pu = ctx.mod('plot_utils')
    old, pu.plt = pu.plt, figures.plt
    del figures.drawn[:]
    panels = []
    cache = None
    whole = pu.plot_maps
    if ctx.symbolic:        # colour limits are not compared: their default takes the largest of the values
        pu.plot_maps = lambda *a, **k: whole(*a, **{'limiter': lambda x: 1.0, **k})
    if ctx.symbolic and thin:
        from symx import npshim
        cache, real = npshim.np_shim._cache, npshim.np_shim.linspace

        def linspace(start, stop, num=50, **kw):
            x = real(start, stop, num, **kw)
            if isinstance(x, tuple) or numpy.ndim(x) != 1 or len(x) < 100:
                return x
            return x[[0, len(x) // 3, (2 * len(x)) // 3, len(x) - 1]]
        cache['linspace'] = linspace
    try:
        yield panels
        panels.extend(figures.drawn)
    finally:
        pu.plt, pu.plot_maps = old, whole
        if cache is not None:
            cache['linspace'] = real
        del figures.drawn[:]


def mjd(dates):
    d = numpy.asarray(dates)
    return ((d - numpy.datetime64('2000-01-01', 'ns')) / DAY).astype(float)


def number(x):
    return numpy.array(x, dtype=float)


def model(ctx, order, breaks, N, source='internal'):
    D = N * (N + 2)
    c = ctx.vec('c', (order, len(breaks) - 1, D), -1., 1.)
    m = ctx.mod('chaos').BaseModel('m', numpy.array(breaks), order, c, source=source, meta=None)
    return m, c


def at(ctx, c, breaks, t, deriv, top):
    """Coefficients of the piecewise polynomial at a time within the period."""
    np = ctx.np
    j = 0
    while j < len(breaks) - 2 and ctx.truth(t >= breaks[j + 1]):
        j += 1
    k = c.shape[0]
    s = t - breaks[j]
    g = [0.0] * (top * (top + 2))
    for i in range(k):
        p = k - 1 - i
        if p < deriv:
            continue
        f = 365.25 ** deriv
        for q in range(deriv):
            f *= p - q
        for d in range(len(g)):
            g[d] = g[d] + c[i, j, d] * f * s ** (p - deriv)
    return g


def series(ctx, order, breaks, N, deriv, source='internal', via='model', nmax=None, given=None):
    np = ctx.np
    X, th, ph = ctx.var('X', 0.8, 1.6), ctx.angle('th', 0.5, 179.5), ctx.angle('ph', -180., 360.)
    kw = {}
    if deriv is not None:
        kw['deriv'] = deriv
    if nmax is not None:
        kw['nmax'] = nmax
    kw.update(given or {})
    if via == 'model':
        m, c = model(ctx, order, breaks, N, source)
        plot = m.plot_timeseries
    else:
        c = ctx.vec('c', (order, len(breaks) - 1, N * (N + 2)), -1., 1.)
        m = ctx.mod('chaos').CHAOS(numpy.array(breaks), order, coeffs_tdep=c)
        plot = m.plot_timeseries_tdep
    with recorded(ctx, thin=False) as panels:
        plot(6371.2 * X, th, ph, **kw)
    ctx.check('three panels', len(panels) == 3)
    top, deriv = nmax or N, deriv or 0
    for i, ax in enumerate(panels):
        ctx.check('one line', len(ax.lines) == 1 and len(ax.lines[0][0]) == 2)
        date, val = ax.lines[0][0]
        t = mjd(date)
        ctx.check('as many dates as values', np.shape(val) == t.shape and len(t) > 3)
        ctx.check('whole period', abs(t[0] - breaks[0]) < 1e-9 and abs(t[-1] - breaks[-1]) < 1e-9 and numpy.all(numpy.diff(t) > 0))
        ctx.check('units', tex(ax.labels.get('ylabel')) == (given or {}).get('ylabel', UNITS[deriv]))
        n = len(t)
        for k in sorted({0, 1, n // 3, n // 2, (2 * n) // 3, n - 2, n - 1}):
            g = at(ctx, c, breaks, float(t[k]), deriv, top)
            w = oracle.field(np, g, X, th, ph, 1, top, source=source)[i]
            ctx.equal('component %d, date %d' % (i, k), np.ravel(val)[k], w, 1e-7, 1e3 * 365.25 ** deriv)


def drawn(ctx, panels):
    """Per panel: longitudes, latitudes (deg) and values."""
    out = []
    for ax in panels:
        ctx.check('one mesh', len(ax.meshes) == 1 and len(ax.meshes[0][0]) == 3)
        x, y, v = ax.meshes[0][0]
        x, y = numpy.degrees(number(x)), numpy.degrees(number(y))
        if x.ndim == 2 and y.ndim == 2:
            ctx.check('rectangular mesh', numpy.all(x == x[:1]) and numpy.all(y == y[:, :1]))
            x, y = x[0], y[:, 0]
        ctx.check('mesh shape', (x.ndim, y.ndim) == (1, 1) and numpy.shape(v) == (y.size, x.size))
        ctx.check('whole globe', x.min() < -179.9 and x.max() > 179.0 and y.min() < -88.9 and y.max() > 88.9)
        out.append((x, y, v))
    return out


def chosen(n):
    return [0, n // 3 if n > 4 else 1, n - 1]


def maps(ctx, order, breaks, N, deriv, source='internal', via='model', nmax=None, time='symbolic', given=None):
    np = ctx.np
    X = ctx.var('X', 0.8, 1.6)
    t = ctx.var('t', breaks[0], breaks[-1]) if time == 'symbolic' else time
    kw = dict(given or {})
    if deriv is not None:
        kw['deriv'] = deriv
    if nmax is not None:
        kw['nmax'] = nmax
    CH = ctx.mod('chaos').CHAOS
    if via == 'model':
        m, c = model(ctx, order, breaks, N, source)
        call = lambda: m.plot_maps(t, 6371.2 * X, **kw)
    else:
        c = ctx.vec('c', (order, len(breaks) - 1, N * (N + 2)), -1., 1.)
        if via == 'tdep':
            m = CH(numpy.array(breaks), order, coeffs_tdep=c)
            call = lambda: m.plot_maps_tdep(t, 6371.2 * X, **kw)
        else:
            m = CH(numpy.array(breaks), order, coeffs_static=c)
            call = lambda: m.plot_maps_static(6371.2 * X, **kw)
            t = breaks[0]
    with recorded(ctx) as panels:
        _, w = ctx.warned(call)
    ctx.check('warns exactly when the degree is too large', bool(w) == (nmax is not None and nmax > N))
    ctx.check('three panels', len(panels) == 3)
    top, deriv = min(nmax or N, N), deriv or 0
    g = at(ctx, c, breaks, t, deriv, top)
    for i, (x, y, v) in enumerate(drawn(ctx, panels)):
        ctx.check('units', [tex(b) for b in panels[i].bars] == [(given or {}).get('label', UNITS[deriv])])
        for k in ('vmin', 'vmax', 'cmap'):
            if k in (given or {}):
                ctx.check('%s as given' % k, panels[i].meshes[0][1].get(k) == given[k])
        for p, a in enumerate(chosen(len(y))):
            for q, b in enumerate(chosen(len(x))):
                w = oracle.field(np, g, X, 90.0 - float(y[a]), float(x[b]), 1, top, source=source)[i]
                ctx.equal('component %d at point %d %d' % (i, p, q), v[a, b], w, 1e-7, 1e3 * 365.25 ** deriv)


def external(ctx, reference, source, nmax, nm):
    np = ctx.np
    parts = ('gsm', 'sm') if reference in (None, 'all', 'ALL') else (reference.lower(),)
    m = p31.build(ctx, nm=nm, skip=[s for s in p31.SOURCES if s not in parts and s != 'static'])
    if 'sm' in parts:
        p31.files(ctx)
    X, t = ctx.var('X', 0.8, 1.6), ctx.var('t', 0.1, 39.9)
    kw = {k: v for k, v in (('reference', reference), ('source', source), ('nmax', nmax)) if v is not None}
    with recorded(ctx) as panels:
        m.plot_maps_external(t, 6371.2 * X, **kw)
    ctx.check('three panels', len(panels) == 3)
    top = nmax or nm
    g = {}
    for s in ('external', 'internal'):
        if source in (None, 'all', s):
            for q in parts:
                g[q, s] = getattr(m, 'synth_coeffs_' + q)(t, source=s)
    for i, (x, y, v) in enumerate(drawn(ctx, panels)):
        ctx.check('units', panels[i].bars == ['nT'])
        for k, (a, b) in enumerate(zip(chosen(len(y)), chosen(len(x)))):
            want = 0.0
            for (q, s), h in g.items():
                want = want + oracle.field(np, list(h[:top * (top + 2)]), X, 90.0 - float(y[a]), float(x[b]), 1, top,
                                           source=s)[i]
            ctx.equal('component %d at point %d' % (i, k), v[a, b], want, 1e-7, 1e3)


def spectrum(ctx, order, breaks, N, deriv, radius, nmax, source='internal', surface=False):
    np = ctx.np
    a = 6371.2
    if surface:
        a = ctx.var('a', 500.0, 9000.0)
        ctx.set_config('params.r_surf', a)
    m, c = model(ctx, order, breaks, N, source)
    t = ctx.var('t', breaks[0], breaks[-1])
    kw = {}
    X = 1.0
    if radius:
        X = ctx.var('X', 0.8, 1.6)
        kw['radius'] = a * X
    if deriv is not None:
        kw['deriv'] = deriv
    if nmax is not None:
        kw['nmax'] = nmax
    with recorded(ctx) as panels:
        m.plot_power_spectrum(t, **kw)
    ctx.check('one panel', len(panels) == 1 and len(panels[0].lines) == 1)
    x, y = panels[0].lines[0][0]
    top, deriv = min(nmax or N, N), deriv or 0
    ctx.check('degrees from 1', numpy.array_equal(number(x), numpy.arange(1, top + 1)))
    ctx.check('one value per degree', numpy.shape(y) == (top,))
    ctx.check('logarithmic', panels[0].scale == 'log')
    ctx.check('units', tex(panels[0].labels.get('ylabel')) == '(%s)$^2$' % UNITS[deriv])
    g = at(ctx, c, breaks, t, deriv, top)
    for n in range(1, top + 1):
        W = (n + 1) * (1.0 / X) ** (2 * n + 4) if source == 'internal' else n * X ** (2 * n - 2)
        s = sum((g[k] * g[k] for k in range(n * n - 1, n * (n + 2))), 0.0)
        if ctx.truth(s == 0.0):
            continue
        ctx.equal('degree %d' % n, y[n - 1], W * s, 1e-9, 1e3 * 365.25 ** (2 * deriv))


def plain_spectrum(ctx, n, zeros, kind='float'):
    np = ctx.np
    pu = ctx.mod('plot_utils')
    if kind == 'integer':
        s = np.array([0 if i in zeros else 3 + i for i in range(n)])
    else:
        s = np.array([0.0 if i in zeros else ctx.var('s%d' % i, 1e-6, 1e6) for i in range(n)])
    before = [s[i] for i in range(n)]
    with recorded(ctx) as panels:
        pu.plot_power_spectrum(s, titles='a', ylabel='b')
    x, y = panels[0].lines[0][0]
    ctx.check('degrees from 1', numpy.array_equal(number(x), numpy.arange(1, n + 1)))
    ctx.check('title and label', panels[0].title == 'a' and panels[0].labels.get('ylabel') == 'b')
    for i in range(n):
        if i in zeros:
            ctx.check('zero left out', numpy.isnan(float(y[i])))
        else:
            ctx.equal('degree %d' % (i + 1), y[i], before[i], 1e-9)
        ctx.same('spectrum given is unchanged', s[i], before[i])


def plain_series(ctx, n, layout, titles):
    np, pu = ctx.np, ctx.mod('plot_utils')
    t = [-1.5, 0.0, 8000.25]
    a = [ctx.vec('a%d' % i, 3, -1e5, 1e5) for i in range(n)]
    kw = {'titles': ['t%d' % i for i in range(n)]} if titles else {}
    if layout:
        kw['layout'] = layout
    if layout and layout[0] * layout[1] != n:
        ctx.raises('layout refused', lambda: pu.plot_timeseries(t, *a, **kw), ValueError)
        return
    with recorded(ctx) as panels:
        pu.plot_timeseries(t, *a, ylabel='y', **kw)
    ctx.check('panels', len(panels) == n)
    for i, ax in enumerate(panels):
        d, v = ax.lines[0][0]
        ctx.check('dates', numpy.array_equal(numpy.asarray(d), numpy.array(['1999-12-30T12', '2000-01-01', '2021-11-26T06'],
                                                                            dtype='datetime64[ns]')))
        ctx.equal('panel %d' % i, v, a[i], 1e-9)
        ctx.check('title and label', ax.title == ('t%d' % i if titles else '') and ax.labels.get('ylabel') == 'y')


def plain_maps(ctx, n, layout, meshed):
    np, pu = ctx.np, ctx.mod('plot_utils')
    th, ph = np.array([10.0, 60.0, 170.0]), np.array([-180.0, 20.0])
    v = [ctx.vec('v%d' % i, (3, 2), -1e5, 1e5) for i in range(n)]
    kw = {'titles': ['t%d' % i for i in range(n)], 'label': 'l', 'vmin': -5, 'vmax': 7}
    if layout:
        kw['layout'] = layout
    g = np.meshgrid(th, ph, indexing='ij') if meshed else (th, ph)
    if layout and layout[0] * layout[1] != n:
        ctx.raises('layout refused', lambda: pu.plot_maps(g[0], g[1], *v, **kw), ValueError)
        return
    with recorded(ctx) as panels:
        pu.plot_maps(g[0], g[1], *v, **kw)
    ctx.check('panels', len(panels) == n)
    for i, ax in enumerate(panels):
        (x, y, w), k = ax.meshes[0]
        x, y = number(x), number(y)
        if x.ndim == 1:
            x, y = numpy.meshgrid(x, y)
        G = numpy.meshgrid([10.0, 60.0, 170.0], [-180.0, 20.0], indexing='ij')
        ctx.equal('longitudes', x, numpy.radians(G[1]), 1e-12)
        ctx.equal('latitudes', y, numpy.radians(90.0 - G[0]), 1e-12)
        ctx.equal('panel %d' % i, w, v[i], 1e-9)
        ctx.check('limits', (k.get('vmin'), k.get('vmax')) == (-5, 7))
        ctx.check('title and label', ax.title == 't%d' % i and ax.bars == ['l'])


def refusals(ctx):
    CH = ctx.mod('chaos').CHAOS
    s = CH(numpy.array([0.0, 1.0]), 1, coeffs_static=ctx.vec('c', (1, 1, 3)))
    d = CH(numpy.array([0.0, 1.0]), 1, coeffs_tdep=ctx.vec('c', (1, 1, 3)))
    ctx.raises('no time-dependent part', lambda: s.plot_timeseries_tdep(6371.2, 10.0, 20.0), ValueError)
    ctx.raises('no time-dependent part (maps)', lambda: s.plot_maps_tdep(0.0, 6371.2), ValueError)
    ctx.raises('no static part', lambda: d.plot_maps_static(6371.2), ValueError)
    ctx.raises('unknown reference', lambda: d.plot_maps_external(0.0, 6371.2, reference='mag'), ValueError)


def cases(tier):
    one, two = (0.0, 4000.0), (-3000.0, 100.0, 5000.0)
    for order, br, N, deriv, src in ((2, one, 1, 0, 'internal'), (1, one, 2, None, 'external'), (3, two, 1, 1, 'internal'),
                                     (3, two, 1, 2, 'external'), (2, two, 3, None, 'internal')):
        nm = 'o%d-p%d-n%d-d%s-%s' % (order, len(br) - 1, N, deriv, src)
        yield Case('series-' + nm, series, order=order, breaks=br, N=N, deriv=deriv, source=src)
        yield Case('maps-' + nm, maps, order=order, breaks=br, N=N, deriv=deriv, source=src)
        for radius in (False, True):
            yield Case('spectrum-%s-%s' % (nm, radius), spectrum, order=order, breaks=br, N=N, deriv=deriv, radius=radius, nmax=None,
                       source=src)
    for radius in (False, True):
        yield Case('spectrum-surface-%s' % radius, spectrum, order=1, breaks=one, N=2, deriv=None, radius=radius, nmax=None, surface=True)
    for nmax in (1, 2, 3):
        yield Case('maps-degree-%d' % nmax, maps, order=2, breaks=one, N=2, deriv=None, nmax=nmax)
        yield Case('maps-tdep-degree-%d' % nmax, maps, order=2, breaks=two, N=2, deriv=1, nmax=nmax, via='tdep')
        yield Case('maps-static-degree-%d' % nmax, maps, order=1, breaks=one, N=2, deriv=None, nmax=nmax, via='static')
    for nmax in (1, 2):
        yield Case('series-degree-%d' % nmax, series, order=2, breaks=two, N=2, deriv=None, nmax=nmax)
        yield Case('series-tdep-degree-%d' % nmax, series, order=2, breaks=one, N=2, deriv=1, nmax=nmax, via='tdep')
        yield Case('spectrum-degree-%d' % nmax, spectrum, order=2, breaks=two, N=2, deriv=0, radius=True, nmax=nmax)
    yield Case('maps-labels', maps, order=2, breaks=one, N=1, deriv=1, given={'label': 'L', 'vmax': 3.0, 'vmin': -3.0})
    yield Case('maps-tdep-labels', maps, order=2, breaks=one, N=1, deriv=None, via='tdep', given={'label': 'L', 'cmap': 'nio'})
    yield Case('maps-static', maps, order=1, breaks=one, N=3, deriv=None, via='static')
    yield Case('maps-static-limits', maps, order=1, breaks=one, N=1, deriv=None, via='static', given={'vmin': 0, 'vmax': 10.0})
    yield Case('maps-limits', maps, order=1, breaks=one, N=1, deriv=None, given={'vmin': 0, 'vmax': 10.0})
    yield Case('maps-tdep', maps, order=3, breaks=two, N=2, deriv=None, via='tdep')
    yield Case('maps-given-time', maps, order=2, breaks=two, N=1, deriv=0, time=100.0)
    yield Case('series-labels', series, order=2, breaks=one, N=1, deriv=1, given={'ylabel': 'L', 'color': 'r'})
    for ref in (None, 'all', 'GSM', 'sm'):
        for src in (None, 'external', 'internal', 'all'):
            for nmax, nm in ((None, 1), (1, 2), (2, 2)):
                if nm == 1 or (ref, src) in ((None, None), ('sm', 'external'), ('GSM', 'internal'), ('sm', None)):
                    yield Case('external-%s-%s-%s-%d' % (ref, src, nmax, nm), external, reference=ref, source=src, nmax=nmax, nm=nm)
    for n, z in ((1, ()), (3, ()), (4, (1,)), (4, (0, 3))):
        yield Case('plain-spectrum-%d-%s' % (n, len(z)), plain_spectrum, n=n, zeros=z)
        yield Case('plain-spectrum-integers-%d-%s' % (n, len(z)), plain_spectrum, n=n, zeros=z, kind='integer')
    for n, lay in ((1, None), (3, None), (3, (1, 3)), (4, (2, 2)), (3, (2, 2)), (2, (1, 1))):
        yield Case('plain-series-%d-%s' % (n, lay), plain_series, n=n, layout=lay, titles=n != 3)
        for meshed in (False, True):
            yield Case('plain-maps-%d-%s-%s' % (n, lay, meshed), plain_maps, n=n, layout=lay, meshed=meshed)
    yield Case('refusals', refusals)
