"""P32: Euler angles per satellite, static part of the model."""
from symx.harness import Case
from .p11 import inside

BOUNDS = ('1 to 4 satellites with 0 to 4 bins each of width 0.5 to 3 days anywhere, one or two requested times anywhere '
          '(also exactly at the breaks and outside), all angles arbitrary; static part of degree 1 to 3 above a time-dependent part '
          'of degree 1 to 2 or alone, in files with arbitrary coefficients and dates')
OUTSIDE = 'wording of the warnings other than the pre-rotation angles'
PRE = [[11.25, 12.5, 13.75], [21.25, 22.5, 23.75], [31.25, 32.5, 33.75], [41.25, 42.5, 43.75]]
NAMES = ['oersted', 'swarm_a', 'champ', 'sat-4']


OTHERS = ['sat_1', 'Swarm A', 'b', '2']
ORDER = ['swarm_c', 'oersted', 'swarm_a', 'champ']


def build(ctx, bins, pre='rows', how='array', NAMES=NAMES):
    np, ch = ctx.np, ctx.mod('chaos')
    breaks, coeffs = {}, {}
    for i, n in enumerate(bins):
        breaks[NAMES[i]] = ctx.increasing('b%d' % i, n + 1, -5., 5., (0.5, 3.)) if n else np.array([ctx.var('b%d' % i, -5., 5.)])
        coeffs[NAMES[i]] = ctx.vec('e%d' % i, (1, n, 3)) if n else np.zeros((1, 0, 3))
    P = PRE[:len(bins)]
    if how == 'array':
        P = np.array(P)
    elif how == 'tuple':
        P = tuple(tuple(p) for p in P)
    meta = {'rows': {'params': {'Euler_prerotation': P}}, 'nometa': None, 'noparams': {'satellites': ('a',)},
            'nopre': {'params': {}}, 'none': {'params': {'Euler_prerotation': None}}}[pre]
    kw = dict(meta=meta)
    if pre == 'nometa':
        kw = {}
    m = ch.CHAOS(np.array([0.0, 1.0]), 1, breaks_euler=breaks, coeffs_euler=coeffs, **kw)
    return m, breaks, coeffs


def times(ctx, b, n, where):
    """Times around the bins."""
    out = []
    for k in range(n):
        out.append(ctx.var('t%d' % k, -12., 20.))
    return out


def place(ctx, b, t):
    """Bin of the time: number, 'left' or 'right' (forks)."""
    n = len(b) - 1
    if ctx.truth(t < b[0]):
        return 'left'
    if ctx.truth(t > b[n]):
        return 'right'
    for i in range(n - 1):
        if ctx.truth(t < b[i + 1]):
            return i
    return n - 1


def angles(ctx, bins, which, nt, deriv, dim, extrapolate, pre='rows', how='array', at=None, names=None):
    np = ctx.np
    names = names or NAMES
    m, breaks, coeffs = build(ctx, bins, pre, how, names)
    sat = names[which]
    b, e = list(breaks[sat]), coeffs[sat]
    if at is not None:
        ts = [b[i] for i in at]
    else:
        ts = times(ctx, b, nt or 1, None)
    t = np.array(ts) if nt else ts[0]
    kw = {}
    if deriv is not None:
        kw['deriv'] = deriv
    if dim is not None:
        kw['dim'] = dim
    if extrapolate is not None:
        kw['extrapolate'] = extrapolate
    got, msgs = ctx.warned(lambda: m.synth_euler_angles(t, sat, **kw))
    d = 3 if dim is None else dim
    got = np.asarray(got)
    ctx.check('shape', np.shape(got) == ((nt, d) if nt else (d,)))
    got = got.reshape(-1, d)
    for k, x in enumerate(ts):
        p = place(ctx, b, x)
        if p in ('left', 'right') and extrapolate in ('off', 0, False):
            ctx.check('no number outside, time %d' % k, np.isnan(got[k]))
            continue
        p = {'left': 0, 'right': len(b) - 2}.get(p, p)
        for a, name in enumerate(('alpha', 'beta', 'gamma')[:d]):
            ctx.equal('%s at time %d' % (name, k), got[k, a], 0.0 if deriv else e[0, p, a], 1e-9)
    text = ' '.join(msgs)
    for i in range(len(PRE)):
        for v in PRE[i]:
            here = str(v) in text
            if pre == 'rows' and i == which:
                ctx.check('pre-rotation angle %s of the satellite in the warning' % v, here)
            else:
                ctx.check('no pre-rotation angle %s of others' % v, not here)


def unknown(ctx, bins):
    m, breaks, coeffs = build(ctx, bins)
    t = ctx.var('t', -5., 5.)
    for s in ('Oersted', 'satellite', '', 'oersted ', None, 0, 'sat-4' if len(bins) < 4 else 'sat'):
        ctx.raises('unknown satellite %r' % (s,), lambda: m.synth_euler_angles(t, s), ValueError)
    ctx.raises('unknown extrapolation', lambda: m.synth_euler_angles(breaks[NAMES[0]][0] - 1.0, NAMES[0], extrapolate='no'), ValueError)


def missing(ctx):
    np, ch = ctx.np, ctx.mod('chaos')
    t = ctx.var('t', 0., 1.)
    b = np.array([0.0, 1.0])
    g = ctx.vec('g', 3)
    m = ch.CHAOS(b, 2, coeffs_tdep=ctx.vec('c', (2, 1, 3)))
    s = ch.CHAOS(b, 1, coeffs_static=g[None, None])
    f = ctx.tmp('file.shc')
    for name, fn in (('static coefficients', lambda: m.synth_coeffs_static()),
                     ('static values', lambda: m.synth_values_static(6500., 40., 20.)),
                     ('static file', lambda: m.save_shcfile(f, model='static')),
                     ('time-dependent coefficients', lambda: s.synth_coeffs_tdep(t)),
                     ('time-dependent values', lambda: s.synth_values_tdep(t, 6500., 40., 20.)),
                     ('time-dependent file', lambda: s.save_shcfile(f, model='tdep')),
                     ('default file', lambda: s.save_shcfile(f)),
                     ('far magnetosphere', lambda: m.synth_coeffs_gsm(t)),
                     ('far magnetosphere values', lambda: m.synth_values_gsm(t, 6500., 40., 20.)),
                     ('near magnetosphere', lambda: m.synth_coeffs_sm(t, rc=1.0)),
                     ('near magnetosphere values', lambda: m.synth_values_sm(t, 6500., 40., 20., rc_e=1., rc_i=1.))):
        ctx.raises('missing ' + name, fn, ValueError)


def static(ctx, ns, nt, pieces, order):
    np, ch = ctx.np, ctx.mod('chaos')
    b = ctx.increasing('b', pieces + 1, -3000., 3000., (10., 900.))
    D = ns * (ns + 2)
    g = ctx.vec('g', (1, 1, D))
    kw = dict(coeffs_tdep=ctx.vec('c', (order, pieces, nt * (nt + 2)))) if nt else {}
    m = ch.CHAOS(b, order, coeffs_static=g, **kw)
    ctx.equal('coefficients', m.synth_coeffs_static(), g[0, 0])
    c, msgs = ctx.warned(lambda: m.synth_coeffs_static(extrapolate='off'))
    ctx.equal('coefficients without extrapolation', c, g[0, 0])
    ctx.check('no warning', not msgs)
    u = ctx.var('u', 0., 1.)
    c, msgs = ctx.warned(lambda: m.model_static.synth_coeffs(b[0] + u * (b[pieces] - b[0]), extrapolate='off'))
    ctx.equal('anywhere in the model period', c, g[0, 0])
    ctx.check('no warning in the model period', not msgs)
    if ns > 1:
        ctx.equal('truncated coefficients', m.synth_coeffs_static(nmax=ns - 1), g[0, 0, :(ns - 1) * (ns + 1)])
    got, msgs = ctx.warned(lambda: m.synth_coeffs_static(nmax=ns + 2))
    ctx.equal('larger degree', got, g[0, 0])
    ctx.check('warning of larger degree', len(msgs) > 0)
    t = ctx.var('t', -9000., 9000.)
    c, msgs = ctx.warned(lambda: m.model_static.synth_coeffs(t))
    ctx.equal('at any time', c, g[0, 0])
    ctx.equal('no change in time', m.synth_coeffs_static(deriv=1), np.zeros(D))


def static_values(ctx, ns, nmax):
    np, ch = ctx.np, ctx.mod('chaos')
    D = ns * (ns + 2)
    g = ctx.vec('g', (1, 1, D))
    m = ch.CHAOS(np.array([0.0, 1.0]), 1, coeffs_static=g)
    r, th, ph = ctx.var('r', 6000., 7000.), ctx.angle('th', 1., 179.), ctx.angle('ph')
    kw = {} if nmax is None else dict(nmax=nmax)
    n = min(ns, nmax or ns)
    got, _ = ctx.warned(lambda: m.synth_values_static(r, th, ph, **kw))
    want = ctx.mod('model_utils').synth_values(g[0, 0, :n * (n + 2)], r, th, ph)
    for i in range(3):
        ctx.equal('component %d' % i, got[i], want[i], 1e-9)


def saved(ctx, ns, nt, order, model, leap, breaks):
    """Degrees, dates and coefficients in the file."""
    np, ch, du = ctx.np, ctx.mod('chaos'), ctx.mod('data_utils')
    b = np.array(breaks)
    P = len(breaks) - 1
    D = ns * (ns + 2)
    kw = {}
    if ns:
        g = ctx.vec('g', (1, 1, D), -100., 100.)
        kw['coeffs_static'] = g
    if nt:
        c = ctx.vec('c', (order, P, nt * (nt + 2)), -100., 100.)
        if order == 2:  # continuous
            for j in range(P - 1):
                c[1, j + 1] = c[1, j] + c[0, j] * (b[j + 1] - b[j])
        kw['coeffs_tdep'] = c
    m = ch.CHAOS(b, order, **kw)
    f = ctx.tmp('file.shc')
    m.save_shcfile(f, leap_year=leap, **({} if model is None else dict(model=model)))
    t, co, par = du.load_shcfile(f, leap_year=bool(leap))
    if model == 'static':
        lo = nt + 1
        ctx.check('degrees', (int(par['nmin']), int(par['nmax'])) == (lo, ns))
        ctx.check('order and number of dates', (int(par['order']), int(par['N'])) == (1, 1))
        ctx.equal('date', t, b[:1], 1e-4)
        ctx.check('number of coefficients', np.shape(co) == (D - lo * lo + 1, 1))
        ctx.equal('coefficients', co[:, 0], g[0, 0, lo * lo - 1:], 1e-8)
    else:
        ctx.check('degrees', (int(par['nmin']), int(par['nmax'])) == (1, nt))
        n = P if order == 1 else P + 1
        ctx.check('order and number of dates', (int(par['order']), int(par['N'])) == (order, n))
        ctx.equal('dates', t, b[:n], 1e-4)
        for j in range(n):
            if j < P:
                want = c[order - 1, j]
            else:
                want = c[1, j - 1] + c[0, j - 1] * (b[j] - b[j - 1])
            ctx.equal('coefficients at date %d' % j, co[:, j], want, 1.1e-8)


def calibration(ctx):
    """Parts of other satellites are kept apart."""
    np, ch = ctx.np, ctx.mod('chaos')
    e = {'a': ctx.vec('ea', (1, 1, 9)), 'b': ctx.vec('eb', (1, 2, 9))}
    b = {'a': np.array([0.0, 2.0]), 'b': np.array([0.0, 1.0, 2.0])}
    m = ch.CHAOS(np.array([0.0, 1.0]), 1, breaks_cal=b, coeffs_cal=e)
    t = ctx.var('t', 0.0, 2.0)
    ctx.equal('first', m.model_cal['a'].synth_coeffs(t), e['a'][0, 0])
    ctx.equal('second', m.model_cal['b'].synth_coeffs(t), np.where(t < 1.0, e['b'][0, 0], e['b'][0, 1]))


def cases(tier):
    thorough = tier != 'quick'
    yield Case('angles-plain', angles, bins=(2, 1), which=0, nt=0, deriv=None, dim=None, extrapolate=None)
    yield Case('angles-second', angles, bins=(2, 3), which=1, nt=0, deriv=None, dim=None, extrapolate=None)
    for which in range(4):
        yield Case('angles-of-four-%d' % which, angles, bins=(1, 2, 1, 2), which=which, nt=0, deriv=0, dim=None,
                   extrapolate=None, how=('list', 'tuple', 'array', 'list')[which])
        for names in (OTHERS, ORDER):
            yield Case('angles-of-%s' % names[which], angles, bins=(1, 2, 1, 2), which=which, nt=0, deriv=None, dim=None,
                       extrapolate=None, names=names)
    yield Case('angles-four-bins', angles, bins=(4,), which=0, nt=0, deriv=None, dim=None, extrapolate=None)
    yield Case('angles-two-times', angles, bins=(2, 2), which=1, nt=2, deriv=None, dim=None, extrapolate=None)
    yield Case('angles-one-time-array', angles, bins=(1, 2), which=0, nt=1, deriv=None, dim=3, extrapolate='constant')
    for dim in (1, 2):
        yield Case('angles-dim-%d' % dim, angles, bins=(2, 2), which=1, nt=0, deriv=None, dim=dim, extrapolate='linear')
    for deriv in (1, 2):
        yield Case('angles-deriv-%d' % deriv, angles, bins=(2, 2), which=0, nt=0, deriv=deriv, dim=None, extrapolate=None)
    for x in ('off', 'constant', 'spline', 1, 0):
        yield Case('angles-extrapolate-%s' % x, angles, bins=(2, 1), which=0, nt=0, deriv=None, dim=None, extrapolate=x)
    for pre in ('nometa', 'noparams', 'nopre', 'none'):
        yield Case('angles-pre-%s' % pre, angles, bins=(2, 1), which=0, nt=0, deriv=None, dim=None, extrapolate=None, pre=pre)
    for at in ((0,), (1,), (2,), (3,), (0, 3), (3, 1)):
        yield Case('angles-at-break-%s' % '-'.join(map(str, at)), angles, bins=(1, 3), which=1, nt=len(at), deriv=None,
                   dim=None, extrapolate=None, at=at)
        yield Case('angles-off-at-break-%s' % '-'.join(map(str, at)), angles, bins=(1, 3), which=1, nt=len(at), deriv=None,
                   dim=None, extrapolate='off', at=at)
    if thorough:
        yield Case('angles-three-times', angles, bins=(3, 3), which=1, nt=3, deriv=None, dim=None, extrapolate='off', max_paths=3000)
        yield Case('angles-ten-bins', angles, bins=(2, 10), which=1, nt=1, deriv=None, dim=None, extrapolate=None)
    yield Case('unknown-satellites', unknown, bins=(2, 1))
    yield Case('unknown-of-four', unknown, bins=(1, 1, 1, 1))
    yield Case('missing-parts', missing)
    for ns, nt, pieces, order in ((1, 0, 1, 1), (3, 0, 2, 1), (3, 1, 2, 3), (2, 2, 1, 1), (3, 2, 3, 2)):
        yield Case('static-%d-%d-%d-%d' % (ns, nt, pieces, order), static, ns=ns, nt=nt, pieces=pieces, order=order)
    for ns, n in ((1, None), (3, 2), (3, 1), (2, 5), (4, None)):
        yield Case('static-values-%d-%s' % (ns, n), static_values, ns=ns, nmax=n)
    B = [1000.25, 2000.0, 2751.5]
    for leap in (False, True, None):
        for ns, nt, order in ((3, 1, 2), (3, 2, 1), (2, 0, 1), (4, 3, 1)):
            yield Case('file-static-%s-%d-%d' % (leap, ns, nt), saved, ns=ns, nt=nt, order=order, model='static', leap=leap, breaks=B)
        for ns, nt, order in ((3, 1, 2), (0, 2, 1), (2, 2, 2)):
            yield Case('file-tdep-%s-%d-%d' % (leap, ns, nt), saved, ns=ns, nt=nt, order=order, model='tdep' if ns else None, leap=leap,
                       breaks=B)
    yield Case('calibration', calibration)
