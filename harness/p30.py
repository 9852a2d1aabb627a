"""P30: coefficients of the magnetospheric fields in geographic coordinates."""
from symx.harness import Case
from . import pp
from .p23 import series

BOUNDS = ('external degree 1 to 3, any rotation spectra of 2 components (frequencies 0, 1/365.25 ... 2 per day, their order '
          'and number different between the two spectra), scaled and unscaled, start date missing or given, any model '
          'coefficients, any baseline offsets of order 1 to 4 in 1 to 4 pieces (thorough: 6) with their own breaks, any ring-current '
          'index (given, or interpolated from a HDF5 or text file of 3 samples), one time or one- and two-dimensional times '
          'inside and outside the period, truncation degrees 1 to 3')
OUTSIDE = 'the spectra shipped with the package (their content is a numerical result); the built-in index file'
ASSUMPTIONS = 'none beyond the library contracts'

FREQ = ((0.0, 1.0, 1 / 365.25, 2.0), (1.0, 0.0, 0.9972, 1 / 365.25))


def spectrum(ctx, tag, K, n, freqs):
    import numpy
    np = ctx.np
    f = numpy.array([[[freqs[(k + i + 2 * j) % len(freqs)] for j in range(n)] for i in range(n)] for k in range(K)])
    re, im = ctx.vec(tag + 'a', (K, n, n), -2., 2.), ctx.vec(tag + 'b', (K, n, n), -2., 2.)
    return f, re, im


def matrix(ctx, spec, t, scaled, rows, cols):
    f, re, im = spec
    K = f.shape[0]
    return [[series(ctx, [float(f[k, i, j]) for k in range(K)], [re[k, i, j] for k in range(K)],
                    [im[k, i, j] for k in range(K)], t, scaled) for j in range(cols)] for i in range(rows)]


def times(ctx, layout, lo, hi):
    """Times as passed and the list of (index, time)."""
    np = ctx.np
    if layout == 'float':
        t = ctx.var('t', lo, hi)
        return t, [((), t)]
    if layout == '0d':
        t = np.array(ctx.var('t', lo, hi))
        return t, [((), t[()])]
    if layout == '1d':
        t = ctx.vec('t', 2, lo, hi)
        return t, [((0,), t[0]), ((1,), t[1])]
    t = ctx.vec('t', (1, 2), lo, hi)
    return t, [((0, 0), t[0, 0]), ((0, 1), t[0, 1])]


def write(ctx, key, ext, ind, scaled, start, dipole=None):
    np = ctx.np
    conf = ctx.mod('config_utils').basicConfig
    path = ctx.tmp('spectrum.npz')
    kw = dict(frequency=ext[0], spectrum=ext[1] + 1j * ext[2], frequency_ind=ind[0], spectrum_ind=ind[1] + 1j * ind[2],
              scaled=np.array(scaled), dipole=np.array(conf['params.dipole'] if dipole is None else dipole))
    if start is not None:
        kw['start_date'] = np.array(start)
    np.savez(path, **kw)
    ctx.set_config(key, path)


def gsm(ctx, n, source, nmax, layout, scaled, start, parts, inside):
    import numpy
    np, ch = ctx.np, ctx.mod('chaos')
    D = n * (n + 2)
    ext, ind = spectrum(ctx, 'e', 2, D, FREQ[0]), spectrum(ctx, 'i', 3, D, FREQ[1])
    t0 = ctx.var('start', -500., 500.) if start == 'any' else start
    write(ctx, 'file.GSM_spectrum', ext, ind, scaled, t0)
    g = ctx.vec('g', D, -50., 50.)
    kw = {}
    if 'tdep' in parts:
        kw['coeffs_tdep'] = numpy.ones((2, 1, 3))
    if 'static' in parts:
        kw['coeffs_static'] = numpy.ones((1, 1, 3))
    m = ch.CHAOS(numpy.array([0.0, 100.0]), 2, coeffs_gsm=g, **kw)
    t, ts = times(ctx, layout, *((0.01, 99.9) if inside else (101., 300.)))
    opt = {}
    if source is not None:
        opt['source'] = source
    if nmax is not None:
        opt['nmax'] = nmax
    got, w = ctx.warned(lambda: m.synth_coeffs_gsm(t, **opt))
    if inside:
        ctx.check('warns exactly when the degree is too large', bool(w) == (nmax is not None and nmax > n))
    top = min(nmax or n, n)
    rows = top * (top + 2)
    ctx.check('shape', np.shape(got) == np.shape(t) + (rows,))
    for idx, x in ts:
        dt = x - (0.0 if t0 is None else t0)
        R = matrix(ctx, ind if source == 'internal' else ext, dt, scaled, rows, D)
        for i in range(rows):
            ctx.equal('coefficient %d at %s' % (i, idx), got[idx + (i,)], sum(R[i][j] * g[j] for j in range(D)), 1e-9, 1e4)


def offsets(ctx, order, pieces):
    br, c = {}, {}
    for i, k in enumerate(('q10', 'q11', 's11')):
        p = 1 + (pieces + i - 1) % 2 if pieces > 1 else 1
        br[k] = ctx.increasing('b' + k, p + 1, -5. - i, -4. - i, (30., 40.))
        c[k] = ctx.vec('d' + k, (order, p), -20., 20.)
    return br, c


def many_offsets(ctx, order, pieces):
    """Baseline offsets that change several times within the times used here."""
    br, c = {}, {}
    for i, k in enumerate(('q10', 'q11', 's11')):
        p = max(1, pieces - i % 2)
        br[k] = ctx.increasing('b' + k, p + 1, -5. - i, -4. - i, (31. / p, 33. / p))
        c[k] = ctx.vec('d' + k, (order, p), -20., 20.)
    return br, c


def offset(ctx, br, c, t):
    import numpy
    return [pp.poly([c[k][i][pp.piece(ctx, br[k], t)] for i in range(len(c[k]))], t - br[k][pp.piece(ctx, br[k], t)])
            for k in ('q10', 'q11', 's11')]


def sm(ctx, n, source, nmax, layout, scaled, start, order, pieces, rc, inside, many=False):
    import numpy
    np, ch = ctx.np, ctx.mod('chaos')
    D = n * (n + 2)
    ext, ind = spectrum(ctx, 'e', 2, D, FREQ[0]), spectrum(ctx, 'i', 3 if n == 1 else 2, D, FREQ[1])
    t0 = ctx.var('start', -500., 500.) if start == 'any' else start
    write(ctx, 'file.SM_spectrum', ext, ind, scaled, t0)
    g = ctx.vec('g', D, -2., 2.)
    br, c = (many_offsets if many else offsets)(ctx, order, pieces)
    m = ch.CHAOS(numpy.array([0.0, 100.0]), 2, coeffs_sm=g, breaks_delta=br, coeffs_delta=c)
    lo, hi = (0., 23.) if inside else ((81., 200.) if order == 1 else (81., 90.))
    t, ts = times(ctx, layout, lo, hi)
    opt = {}
    if source is not None:
        opt['source'] = source
    if nmax is not None:
        opt['nmax'] = nmax
    if rc == 'scalar':
        r = ctx.var('rc', -100., 100.)
        index = {idx: r for idx, _ in ts}
        opt['rc'] = r
    elif rc == 'array':
        r = ctx.vec('rc', np.shape(t), -100., 100.)
        index = {idx: r[idx] for idx, _ in ts}
        opt['rc'] = r
    else:
        xs = [-1.0, 7.5, 24.0]
        e, i = ctx.vec('RCe', 3, -100., 100.), ctx.vec('RCi', 3, -100., 100.)
        path = ctx.tmp('RC.' + rc)
        if rc == 'h5':
            ctx.write_h5(path, time=np.array(xs), RC=e + i, RC_e=e, RC_i=i)
        else:
            text = ['# index file\n#\n']
            for k in range(3):
                text += [' ', xs[k], '  ', e[k] + i[k], ' ', e[k], '  ', i[k], '  D\n']
            ctx.write_text(path, text)
        ctx.set_config('file.RC_index', path)
        y = i if source == 'internal' else e
        index = {}
        for idx, x in ts:
            k = 0 if ctx.truth(x <= xs[1]) else 1
            index[idx] = y[k] + (y[k + 1] - y[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
    got, w = ctx.warned(lambda: m.synth_coeffs_sm(t, **opt))
    if inside:
        ctx.check('warns exactly when the degree is too large', bool(w) == (nmax is not None and nmax > n))
    top = min(nmax or n, n)
    rows = top * (top + 2)
    ctx.check('shape', np.shape(got) == np.shape(t) + (rows,))
    for idx, x in ts:
        dt = x - (0.0 if t0 is None else t0)
        d = offset(ctx, br, c, x)
        s = [index[idx] * g[k] for k in range(3)]
        R = matrix(ctx, ext, dt, scaled, rows, D)
        if source == 'internal':
            Q = matrix(ctx, ind, dt, scaled, rows, D)
            x0 = d + [g[k] for k in range(3, D)]
            want = [sum(Q[i][j] * x0[j] for j in range(D)) for i in range(rows)]
            for i in range(3):
                want[i] = want[i] + sum(R[i][j] * s[j] for j in range(3))
        else:
            x0 = [s[k] + d[k] for k in range(3)] + [g[k] for k in range(3, D)]
            want = [sum(R[i][j] * x0[j] for j in range(D)) for i in range(rows)]
        for i in range(rows):
            ctx.equal('coefficient %d at %s' % (i, idx), got[idx + (i,)], want[i], 1e-9, 1e5)


def model(ctx, **kw):
    import numpy
    b = {k: numpy.array([0., 50.]) for k in ('q10', 'q11', 's11')}
    d = {k: numpy.zeros((1, 1)) for k in b}
    return ctx.mod('chaos').CHAOS(numpy.array([0.0, 50.0]), 2, coeffs_tdep=numpy.ones((2, 1, 3)),
                                  **{**dict(breaks_delta=b, coeffs_delta=d, coeffs_sm=numpy.ones(3), coeffs_gsm=numpy.ones(3)),
                                     **kw})


def dipole(ctx, which, comp, sign):
    np = ctx.np
    conf = ctx.mod('config_utils').basicConfig
    d = [float(x) for x in np.ravel(conf['params.dipole'])]
    d[comp] = d[comp] + sign * ctx.var('change', 1e-3, 5e4)
    ext, ind = spectrum(ctx, 'e', 1, 3, FREQ[0]), spectrum(ctx, 'i', 1, 3, FREQ[1])
    write(ctx, 'file.%s_spectrum' % which, ext, ind, True, 0.0, dipole=d)
    m = model(ctx)
    for source in ('external', 'internal'):
        if which == 'GSM':
            ctx.raises('GSM ' + source, lambda: m.synth_coeffs_gsm(5.0, source=source), (AssertionError, ValueError))
        else:
            ctx.raises('SM ' + source, lambda: m.synth_coeffs_sm(5.0, source=source, rc=0.0), (AssertionError, ValueError))


def refused(ctx):
    ext, ind = spectrum(ctx, 'e', 1, 3, FREQ[0]), spectrum(ctx, 'i', 1, 3, FREQ[1])
    for k in ('GSM', 'SM'):
        write(ctx, 'file.%s_spectrum' % k, ext, ind, True, 0.0)
    t = ctx.var('t', 0., 50.)
    ctx.raises('missing gsm', lambda: model(ctx, coeffs_gsm=None).synth_coeffs_gsm(t), ValueError)
    ctx.raises('missing sm', lambda: model(ctx, coeffs_sm=None).synth_coeffs_sm(t, rc=0.0), ValueError)
    ctx.raises('source gsm', lambda: model(ctx).synth_coeffs_gsm(t, source='all'), ValueError)
    ctx.raises('source sm', lambda: model(ctx).synth_coeffs_sm(t, source='both', rc=0.0), ValueError)


def uncovered(ctx, side, kind):
    np = ctx.np
    ext, ind = spectrum(ctx, 'e', 1, 3, FREQ[0]), spectrum(ctx, 'i', 1, 3, FREQ[1])
    write(ctx, 'file.SM_spectrum', ext, ind, True, 0.0)
    path = ctx.tmp('RC.h5')
    v = ctx.vec('v', 3, -9., 9.)
    ctx.write_h5(path, time=np.array([10., 20., 30.]), RC=v, RC_e=v, RC_i=v)
    ctx.set_config('file.RC_index', path)
    t = ctx.var('t', 0., 9.99) if side == 'before' else ctx.var('t', 30.01, 50.)
    if kind == 'array':
        t = np.array([15.0, t, 25.0])
    for source in ('external', 'internal'):
        ctx.raises(source, lambda: model(ctx).synth_coeffs_sm(t, source=source), ValueError)


def cases(tier):
    deep = tier != 'quick'
    for n in (1, 2):
        for source in (None, 'external', 'internal'):
            for nmax in (None, 1, 2, 3):
                for scaled in (True, False):
                    for layout, start, parts in (('float', None, 'static'), ('1d', 'any', 'tdep'), ('2d', 0.0, 'tdep static'),
                                                 ('0d', 'any', 'static')):
                        if n == 2 and not deep and (layout == '2d' or (layout == '0d' and nmax == 3)):
                            continue
                        yield Case('gsm-%d-%s-%s-%s-%s' % (n, source, nmax, scaled, layout), gsm, n=n, source=source, nmax=nmax,
                                   layout=layout, scaled=scaled, start=start, parts=parts, inside=True)
            yield Case('gsm-outside-%d-%s' % (n, source), gsm, n=n, source=source, nmax=None, layout='1d', scaled=False,
                       start=None, parts='tdep', inside=False)
            for nmax in (None, 1, 2, 3):
                for scaled in (True, False):
                    for layout, start, order, pieces, rc in (('float', None, 1, 1, 'scalar'), ('1d', 'any', 2, 2, 'array'),
                                                             ('2d', None, 1, 2, 'scalar'), ('0d', 'any', 1, 2, 'h5'),
                                                             ('1d', 0.0, 1, 1, 'dat'), ('2d', 'any', 2, 1, 'array')):
                        if n == 2 and not deep and (layout == '2d' or (layout == '0d' and nmax == 3)):
                            continue
                        yield Case('sm-%d-%s-%s-%s-%s-%s' % (n, source, nmax, scaled, layout, rc), sm, n=n, source=source,
                                   nmax=nmax, layout=layout, scaled=scaled, start=start, order=order, pieces=pieces, rc=rc,
                                   inside=True)
            for order in (1, 2):
                yield Case('sm-outside-%d-%s-%d' % (n, source, order), sm, n=n, source=source, nmax=None, layout='1d',
                           scaled=False, start=None, order=order, pieces=2, rc='array', inside=False)
    for source in (None, 'internal'):
        for order in (1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5, 6):
            for pieces in (2, 3, 4) if not deep else (2, 3, 4, 5, 6):
                for layout in ('float', '1d') if order + pieces < 6 or deep and pieces < 4 else ('float',):
                    yield Case('sm-pieces-%s-%d-%d-%s' % (source, order, pieces, layout), sm, n=1, source=source, nmax=None,
                               layout=layout, scaled=pieces % 2 == 0, start='any', order=order, pieces=pieces, rc='scalar',
                               inside=True, many=True)
        for which, fn, kw in (('gsm', gsm, dict(parts='tdep')), ('sm', sm, dict(order=1, pieces=1, rc='array'))):
            for nmax in (None, 2):
                yield Case('%s-degree3-%s-%s' % (which, source, nmax), fn, n=3, source=source, nmax=nmax, layout='1d',
                           scaled=nmax is None, start='any', inside=True, **kw)
    for which in ('GSM', 'SM'):
        for comp in range(3):
            for sign in (1, -1):
                yield Case('dipole-%s-%d-%d' % (which, comp, sign), dipole, which=which, comp=comp, sign=sign)
    yield Case('refused', refused)
    for side in ('before', 'after'):
        for kind in ('scalar', 'array'):
            yield Case('uncovered-%s-%s' % (side, kind), uncovered, side=side, kind=kind)
