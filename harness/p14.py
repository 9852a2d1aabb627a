"""P14: SHC files."""
import os
from symx.harness import Case
from .p28 import jan1, num, new_year, inside

BOUNDS = ('1 to 4 snapshots, degree ranges within 1 to 4 (6 in the thorough tier) and some up to 8 (13), orders 1 to 6, all coefficients within +-1e6 nT (some within +-1e13), '
          'all times within +-60000 days with 365.25 days per year and from year 1500 to 2500 with leap years (then at most two symbolic times, the other two concrete); scalar, list and '
          'array times, headers of 0 to 3 lines, files with comment lines of any position and comment characters')
OUTSIDE = ('files without comment lines before the header that violate the '
           'format; decimals beyond the eighth')
ASSUMPTIONS = 'printed numbers are the value rounded to the printed decimals'


def size(nmin, nmax):
    return (nmax + 1)**2 - nmin**2


def orders(nmin, nmax):
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0))
        for m in range(1, n + 1):
            out += [(n, m), (n, -m)]
    return out


def times(ctx, n, leap):
    """Increasing or arbitrary times and the accuracy of their eight decimals."""
    if leap is False:
        return [ctx.var('t%d' % k, -60000.0, 60000.0) for k in range(n)]
    out = []
    for k in range(n):
        if k not in (0, n - 1):
            out.append([1826.5, -36700.25][k % 2])
            continue
        y = new_year(ctx, 'year%d' % k)
        ctx.assume(y >= 1500)
        ctx.assume(y <= 2500)
        d = ctx.var('days%d' % k, 0.01, 364.99)
        out.append(num(ctx, jan1(y)) + d)
    return out


def save_load(ctx, n, nmin, nmax, order, leap, tform, cform, header, full, top=1e6):
    """Write and read; full is the degree of the coefficients passed in."""
    du, np = ctx.mod('data_utils'), ctx.np
    ts = times(ctx, n, leap)
    c = ctx.vec('c', (n, full * (full + 2)), -top, top)
    acc = max(1.1e-8, 2e-15 * top)
    time = {'array': lambda: np.array(ts), 'list': lambda: list(ts), 'scalar': lambda: ts[0]}[tform]()
    kw = {}
    if nmin is not None:
        kw['nmin'] = nmin
    if nmax is not None:
        kw['nmax'] = nmax
    if order is not None:
        kw['order'] = order
    if header is not None:
        kw['header'] = header
    if leap is not None:
        kw['leap_year'] = leap
    path = ctx.tmp('model.shc')
    du.save_shcfile(time, c if cform == 'table' else c[0], filepath=path, **kw)
    lo, hi = nmin or 1, nmax or full
    rows = [r for r in ctx.read_rows(path) if not (r and str(r[0]).startswith('#'))]
    K = order or 1
    ctx.check('parameter line', rows[0] == [lo, hi, n, K, K - 1])
    ctx.check('number of lines', len(rows) == 2 + size(lo, hi))
    ctx.check('columns', all(len(r) == n + 2 for r in rows[2:]) and len(rows[1]) == n)
    ctx.check('degrees and orders', [tuple(r[:2]) for r in rows[2:]] == [(float(a), float(b)) for a, b in orders(lo, hi)])
    kw = {} if leap is None else {'leap_year': leap}
    t, got, par = du.load_shcfile(path, **kw)
    ctx.check('shapes', np.shape(t) == (n,) and np.shape(got) == (size(lo, hi), n))
    ctx.check('parameters', [par[k] for k in ('SHC', 'nmin', 'nmax', 'N', 'order', 'step')] ==
              [os.path.basename(path), lo, hi, n, K, K - 1])
    for k in range(n):
        ctx.equal('time %d' % k, t[k], ts[k], 4e-6)
        for i in range(size(lo, hi)):
            j = lo**2 - 1 + i
            ctx.equal('coefficient %d of snapshot %d' % (i, k), got[i, k], c[k, j], acc)
            ctx.equal('row %d of snapshot %d' % (i, k), rows[2 + i][2 + k], c[k, j], acc)


def read(ctx, n, nmin, nmax, order, step, style):
    """A file with comments, written by hand."""
    du, np = ctx.mod('data_utils'), ctx.np
    ts = [ctx.var('t%d' % k, 1800.0, 2200.0) for k in range(n)]
    c = [[ctx.var('c%d_%d' % (i, k), -1e6, 1e6) for k in range(n)] for i in range(size(nmin, nmax))]
    mark, com = {'default': ('#', None), 'percent': ('%', '%'), 'two': ('%', ('#', '%')), 'late': ('#', None),
                 'indented': ('#', '#'), 'many': ('#', None), 'mixed': ('#', ('#', '%', '!')), 'list': ('!', ('!', 'c'))}[style]
    lead = '   ' if style == 'indented' else ''
    pieces = [lead + mark + ' a comment 1 2 3\n']
    if style in ('many', 'two'):
        pieces += ['# another 5\n', lead + mark + '\n']
    pieces += ['%d %d %d %d %d\n' % (nmin, nmax, n, order, step)]
    if style == 'late':
        pieces += ['# between 3 4\n']
    for t in ts:
        pieces += ['  ', t]
    pieces += ['\n']
    if style == 'late':
        pieces += ['# between\n']
    if style == 'mixed':
        pieces += ['% between 4\n', '  ! 7\n']
    for i, (a, b) in enumerate(orders(nmin, nmax)):
        pieces += ['%d %d' % (a, b)]
        for k in range(n):
            pieces += ['   ', c[i][k]]
        pieces += ['\n']
        if style == 'late' and i == 0:
            pieces += ['# 1 2 3\n']
        if style == 'mixed':
            pieces += [('% 4 5\n', '!\n', ' # 6\n', '\t% 1 2 3\n')[i % 4]]
        if style == 'list':
            pieces += ['c 1 2 3\n']
    if style in ('list', 'late'):
        pieces += [mark + ' 0 0 0\n']
    path = ctx.tmp('hand.shc')
    ctx.write_text(path, pieces)
    kw = {} if com is None else {'comment': com}
    t, got, par = du.load_shcfile(path, leap_year=False, **kw)
    ctx.check('shapes', np.shape(t) == (n,) and np.shape(got) == (size(nmin, nmax), n))
    ctx.check('parameters', [par[k] for k in ('SHC', 'nmin', 'nmax', 'N', 'order', 'step')] ==
              ['hand.shc', nmin, nmax, n, order, step])
    for k in range(n):
        ctx.equal('time %d' % k, t[k], (ts[k] - 2000.0) * 365.25, 1e-9)
        for i in range(size(nmin, nmax)):
            ctx.equal('coefficient %d of snapshot %d' % (i, k), got[i, k], c[i][k], 1e-9)


def options(ctx, save, load):
    """The two ways of counting years."""
    du, np = ctx.mod('data_utils'), ctx.np
    f = ctx.var('fraction', 0.1, 0.9)
    year = 2004.0
    path = ctx.tmp('years.shc')
    ctx.write_text(path, ['# c\n1 1 1 1 0\n  ', f + year, '\n1 0 1.0\n1 1 2.0\n1 -1 3.0\n'])
    kw = {} if load is None else {'leap_year': load}
    t = du.load_shcfile(path, **kw)[0]
    ctx.equal('time', t[0], (1461.0 + f * 366 if load is not False else (f + 4) * 365.25), 1e-6)
    days = ctx.var('days', 1.0, 364.0)
    kw = {} if save is None else {'leap_year': save}
    du.save_shcfile([1461.0 + days], np.array([[1.0, 2.0, 3.0]]), filepath=path, **kw)
    rows = [r for r in ctx.read_rows(path) if not str(r[0]).startswith('#')]
    want = 2000.0 + (1461.0 + days) / 365.25 if save is False else 2004.0 + days / 366
    ctx.equal('decimal year', rows[1][0], want, 1.1e-8)


def refused(ctx, nmin, nmax):
    du = ctx.mod('data_utils')
    c = ctx.vec('c', (1, 15), -1e3, 1e3)
    ctx.raises('minimum above maximum', lambda: du.save_shcfile([0.0], c, filepath=ctx.tmp('x.shc'), nmin=nmin, nmax=nmax))


def cases(tier):
    thorough = tier == 'thorough'
    out = []
    kw = dict(n=2, nmin=None, nmax=None, order=None, leap=False, tform='array', cform='table', header=None, full=2)

    def add(name, **k):
        p = dict(kw)
        p.update(k)
        out.append(Case(name, save_load, exact=p['leap'] is not False, **p))
    top = 6 if thorough else 4
    for full in range(1, top + 1):
        for nmin in [None] + list(range(1, full + 1)):
            for nmax in [None] + list(range(nmin or 1, full + 1)):
                add('degrees %s to %s of %d' % (nmin, nmax, full), full=full, nmin=nmin, nmax=nmax, n=1 + full % 3)
    for nmin, nmax in ((1, 6), (1, 7), (5, 7), (7, 8)) + (((1, 9), (9, 10), (1, 11), (12, 13)) if thorough else ()):
        add('high degrees %s to %s' % (nmin, nmax), full=nmax, nmin=nmin, nmax=nmax, n=1 + nmax % 2)
        out.append(Case('file of high degrees %d to %d' % (nmin, nmax), read, n=1, nmin=nmin, nmax=nmax, order=2, step=1, style='default'))
    for n in (1, 2, 3, 4):
        for leap in (False, True, None):
            add('%d snapshots, leap years %s' % (n, leap), n=n, leap=leap, full=1)
    for big in (1e8, 1e10, 1e13):
        add('large coefficients %g' % big, top=big, n=3, full=1)
        add('large coefficients %g of one time' % big, top=big, n=1, tform='scalar', cform='vector', full=2)
    for order in range(1, 7):
        add('order %d' % order, order=order, n=order + 1, full=1)
    for tform in ('list', 'scalar'):
        for cform in ('table', 'vector'):
            for leap in (False, True):
                add('time as %s, coefficients as %s, leap years %s' % (tform, cform, leap), tform=tform, cform=cform, n=1,
                    leap=leap)
    add('time array of one, coefficients as vector', n=1, cform='vector', nmin=2)
    for i, h in enumerate(('', '# one\n', '# one\n# two 1 2 3\n#\n')):
        add('header %d' % i, header=h)
    add('header and minimum degree', header='# one\n', nmin=2, order=3, n=3)
    for style in ('default', 'percent', 'two', 'late', 'indented', 'many', 'mixed', 'list'):
        out.append(Case('comments %s' % style, read, n=2, nmin=1, nmax=1, order=2, step=1, style=style))
    for n, nmin, nmax, order, step in ((1, 1, 1, 1, 0), (5, 1, 2, 3, 2), (7, 2, 3, 4, 3), (3, 3, 3, 2, 1), (1, 2, 4, 1, 1)):
        out.append(Case('file of degrees %d to %d, %d snapshots' % (nmin, nmax, n), read, n=n, nmin=nmin, nmax=nmax, order=order,
                        step=step, style='default'))
    for s in (None, True, False):
        for l in (None, True, False):
            out.append(Case('year options %s %s' % (s, l), options, save=s, load=l, exact=True))
    for a, b in ((2, 1), (3, 2), (4, None)):
        out.append(Case('degrees %s > %s' % (a, b), refused, nmin=a, nmax=b))
    return out
