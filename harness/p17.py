"""P17: models in text files of other groups."""
from symx.harness import Case
from . import bsp

BOUNDS = ('degrees 1 to 3, 1 to 5 inner segments (COV-OBS orders 2 to 5) with several sets of fixed knots, 1 to 4 epochs of the IGRF '
          'from 1900 to 2025 (also of uneven distance), all coefficients within +-1e5 nT in lines of different lengths, any time of '
          'the interval in which all splines are complete, in the period of the IGRF; value and derivatives')
OUTSIDE = 'symbolic knots; files with damaged or incomplete content; times outside'

KNOTS = {
    'even': [1800.0 + 2.5 * i for i in range(14)],
    'uneven': [-3000.0, -2950.0, -2875.5, -2800.0, -2500.0, -2400.0, -2390.0, -2300.0, -2250.0, -2000.0, -1900.0, -1875.0, -1850.0],
    'whole': [1590.0, 1595.0, 1600.0, 1604.0, 1605.0, 1607.0, 1700.0, 1702.0, 1801.0, 1900.0, 1901.0, 2000.0, 2003.0, 2004.0],
    'modern': [1996.0, 1997.5, 1998.0, 2000.0, 2000.5, 2001.0, 2003.0, 2004.0, 2006.5, 2007.0, 2008.0, 2010.0],
}


def wrap(words, n):
    """Text pieces with n words per line."""
    out = []
    for i, w in enumerate(words):
        out += ['  ', w]
        if i % n == n - 1:
            out += ['\n']
    return out + ['\n']


def mjd(y):
    return (y - 2000.0) * 365.25


def compare(ctx, model, knots, c, order, nmax, name, deriv):
    """The model against the B-splines on the knots of the file."""
    D = nmax * (nmax + 2)
    k = [mjd(y) for y in knots]
    ctx.check('name, source, degree and order', (model.name, model.source, model.nmax, model.order) ==
              (name, 'internal', nmax, order))
    a, b = k[order - 1], k[len(k) - order]
    t = a + ctx.var('s', 0.0, b - a if (deriv or 0) < order - 1 else b - a - 1e-3)
    kw = {} if deriv is None else {'deriv': deriv}
    got, msg = ctx.warned(lambda: model.synth_coeffs(t, extrapolate='off', **kw))
    ctx.check('inside the model period', not msg)
    ctx.check('shape', ctx.np.shape(got) == (D,))
    for d in range(D):
        ctx.equal('coefficient %d' % d, got[d], bsp.value(ctx, k, c, order, t, d, deriv or 0) * 365.25**(deriv or 0), 1e-6)


def splines(ctx, fmt, which, order, segments, nmax, width, given, deriv):
    ch = ctx.mod('chaos')
    D = nmax * (nmax + 2)
    nk = segments + order if fmt != 'covobs' else segments + order
    knots = KNOTS[which][:nk]
    N = nk - order
    c, words = [], []
    for i in range(N):
        row = []
        for d in range(D):
            if fmt == 'cals7k':
                s = -1 if (i + d) % 3 == 1 else 1
                e = (i * D + d) % 5 - 1
                v = ctx.var('c%d_%d' % (i, d), *((1.0, 9.99) if s > 0 else (-9.99, -1.0)))
                row.append(v * 10.0**e)
                words.append((v, 'D%+03d' % e))
            else:
                v = ctx.var('c%d_%d' % (i, d), -1e5, 1e5)
                row.append(v)
                words.append((v, ''))
        c.append(row)
    pieces = []
    for i, (v, x) in enumerate(words):
        pieces += ['  ', v, x] if not (isinstance(v, float) and x == '') else ['  ', v]
        if i % width == width - 1:
            pieces += ['\n']
    pieces += ['\n']
    path = ctx.tmp('model.x1')
    if fmt == 'covobs':
        head = ['first line with 12 words 3 4\n', '%d %d %d' % (nmax, N, order)]
        for y in knots:
            head += [' ', y]
        head += ['\n']
        load = ch.load_CovObs_txtfile
    elif fmt == 'gufm1':
        head = ['gufm1 1590 1990\n', ' %d %d\n' % (nmax, N)] + wrap(knots, 5)
        load = ch.load_gufm1_txtfile
    else:
        head = ['  -5.000000D+03 1.95000000D+03 4 0 %d 77 %d\n' % (nmax, segments)]
        for i, y in enumerate(knots):
            head += [' %.10fD+03' % (y / 1000), '\n' if i % 4 == 3 else '']
        head += ['\n']
        load = ch.load_CALS7K_txtfile
    ctx.write_text(path, head + pieces)
    m = load(path, given) if given else load(path)
    compare(ctx, m, knots, c, order, nmax, given or ('model' if fmt != 'cals7k' else 'model.x1'), deriv)


def jan1(y):
    """Day number of January 1 of an ordinary year number."""
    import datetime
    return float((datetime.date(int(y), 1, 1) - datetime.date(2000, 1, 1)).days)


def igrf(ctx, epochs, nmax, at, given, comments):
    """Snapshots, linear interpolation and the predicted change."""
    np, ch = ctx.np, ctx.mod('chaos')
    D = nmax * (nmax + 2)
    names = []
    for n in range(1, nmax + 1):
        names.append('g %d 0' % n)
        for m in range(1, n + 1):
            names += ['g %d %d' % (n, m), 'h %d %d' % (n, m)]
    E = len(epochs)
    c = [[ctx.var('c%d_%d' % (d, k), -1e5, 1e5) for k in range(E)] for d in range(D)]
    sv = [ctx.var('sv%d' % d, -200.0, 200.0) for d in range(D)]
    pieces = []
    if comments:
        pieces += ['# 14th Generation of the field 1900 2025\n', '  # another\n', 'c/s deg ord ' + ' '.join(['DGRF'] * E) + ' SV\n']
    pieces += ['g/h n m']
    for y in epochs:
        pieces += [' ', y]
    pieces += [' 2025-30\n']
    for d in range(D):
        pieces += [names[d]]
        for k in range(E):
            pieces += ['  ', c[d][k]]
        pieces += ['   ', sv[d], '\n']
        if comments and d == 1:
            pieces += ['#  1 2 3\n']
    path = ctx.tmp('igrf99coeffs.txt')
    ctx.write_text(path, pieces)
    m = ch.load_IGRF_txtfile(path, name=given) if given else ch.load_IGRF_txtfile(path)
    ctx.check('name, source, degree and order', (m.name, m.source, m.nmax, m.order) == (given or 'igrf99coeffs', 'internal', nmax, 2))
    days = [jan1(y) for y in list(epochs) + [epochs[-1] + 5.0]]
    ctx.equal('period', np.array([m.breaks[0], m.breaks[-1]]), np.array([days[0], days[-1]]), 1e-6)
    j, how = at
    if how == 'epoch':
        t, u = days[j], None
    else:
        u = ctx.var('u', 0.0, 0.999 if how == 'rate' else 1.0)
        t = days[j] + u * (days[j + 1] - days[j])
    got, msg = ctx.warned(lambda: m.synth_coeffs(t, extrapolate='off', **({'deriv': 1} if how == 'rate' else {})))
    ctx.check('inside the model period', not msg)
    ctx.check('shape', np.shape(got) == (D,))
    for d in range(D):
        last = c[d][E - 1] + 5 * sv[d]
        vals = c[d] + [last]
        if how == 'epoch':
            want = vals[j]
        elif how == 'rate':
            want = (vals[j + 1] - vals[j]) / (days[j + 1] - days[j]) * 365.25
        else:
            want = vals[j] + u * (vals[j + 1] - vals[j])
        ctx.equal('coefficient %d' % d, got[d], want, 1e-6)


def cases(tier):
    thorough = tier == 'thorough'
    out = []

    def add(**k):
        p = dict(fmt='covobs', which='even', order=4, segments=2, nmax=1, width=3, given=None, deriv=None)
        p.update(k)
        out.append(Case('splines ' + ' '.join('%s=%s' % (a, b) for a, b in k.items()), splines, exact=True, **p))
    # with n segments between complete splines there are 2*order + n - 1 knots: segments counts the splines
    for fmt in ('covobs', 'gufm1', 'cals7k'):
        for which in KNOTS:
            for segments in (4, 5, 6, 7) + ((8,) if thorough else ()):
                add(fmt=fmt, which=which, segments=segments, width=1 + segments % 4)
        for nmax in (2, 3):
            add(fmt=fmt, nmax=nmax, segments=4, width=7)
        add(fmt=fmt, segments=5, given='mine', width=100)
        for deriv in (1, 2, 3):
            add(fmt=fmt, segments=5, which='uneven', deriv=deriv)
    for order in (2, 3, 5, 6) if thorough else (2, 3, 5):
        for which in KNOTS:
            for extra in (0, 1, 2):
                add(order=order, segments=order + extra, which=which)
    for E in ([1900.0, 1905.0], [2015.0, 2020.0], [1995.0, 2000.0, 2005.0], [2020.0], [1900.0, 1910.0, 1915.0, 2025.0],
              [2000.0, 2004.0], [1900.0, 1901.0, 2000.0]):
        for j in range(len(E) + 1):
            for how in ('epoch',) + (('between', 'rate') if j < len(E) else ()):
                out.append(Case('IGRF %s %s %d' % (' '.join('%d' % y for y in E), how, j), igrf, epochs=E, nmax=1, at=(j, how),
                                given=None if j else 'given', comments=j != 1))
    for nmax in (2, 3):
        for j in (0, 1, 2):
            out.append(Case('IGRF degree %d %d' % (nmax, j), igrf, epochs=[2010.0, 2015.0, 2020.0], nmax=nmax, at=(j, 'between'),
                            given=None, comments=True))
    return out
