"""P35: text file of the ring-current index and its HDF5 copy."""
import numpy
from symx.harness import Case

BOUNDS = ('files of 1 to 5 rows (and one of 300 rows with given values and two symbolic rows) with any numbers in [-1e5, 1e5], '
          'comment lines, blank lines and comments behind the values anywhere, any flags of one letter or digit, dates as index for '
          'given times')
OUTSIDE = 'fetching the file from the network; flags of several letters'
ASSUMPTIONS = 'tables and HDF5 files of numbers as modelled in symx/fileio.py'
NAMES = ['time', 'RC', 'RC_e', 'RC_i', 'flag']
FLAGS = 'DPX1Q'


def h5(ctx):
    if ctx.symbolic:
        from symx import fileio
        return fileio.h5
    import h5py
    return h5py


def values(ctx, n, dates=False):
    rows = []
    for i in range(n):
        if n > 10 and i not in (7, n - 2):
            rows.append([i / 24 - 50.0, -3.25 * i, 1.5 * i - 7.0, 0.25 * i, FLAGS[i % 5]])
            continue
        t = (-40.0, 0.0, 7000.5)[dates - 1] + 1.25 * i if dates else ctx.var('t%d' % i, -1e5, 1e5)
        rows.append([t] + [ctx.var('%s%d' % (k, i), -1e5, 1e5) for k in 'rei'] + [FLAGS[i % 5]])
    return rows


def write(ctx, name, rows, style):
    out = []
    if style != 'plain':
        out += ['# RC index\n', '#   time   RC   RC_e   RC_i   flag\n']
    for i, r in enumerate(rows):
        if style == 'comments' and i == 1:
            out += ['\n', '# comment 1 2 3\n']
        sep = {'plain': ' ', 'comments': '   ', 'tabs': '\t', 'behind': '  '}[style]
        for k, x in enumerate(r):
            out += [sep if k or style == 'comments' else '', x]
        out += [' # note' if style == 'behind' and i != 1 else '', '\n']
    if style == 'comments':
        out += ['# end\n']
    ctx.write_text(name, out)


def column(ctx, df, k):
    return df[k].values


def load(ctx, n, style, dates=None):
    du, np = ctx.mod('data_utils'), ctx.np
    rows = values(ctx, n, dates and 1 + (n + len(style)) % 3)
    name = ctx.tmp('rc.dat')
    write(ctx, name, rows, style)
    kw = {} if dates is None else {'parse_dates': dates}
    df = du.load_RC_datfile(name, **kw)
    names = NAMES[1:] if dates else NAMES
    ctx.check('columns', list(df.columns) == names)
    for k, col in enumerate(NAMES):
        if col == 'flag':
            got = [str(x) for x in column(ctx, df, col)]
            ctx.check('flags', got == [r[4] for r in rows])
        elif col in names:
            got = column(ctx, df, col)
            ctx.check('number of rows of ' + col, len(got) == n)
            for i in range(n):
                ctx.equal('%s %d' % (col, i), got[i], rows[i][k], 1e-9)
    if dates:
        want = [numpy.datetime64('2000-01-01', 'ns') + numpy.timedelta64(int(r[0] * 86400e9), 'ns') for r in rows]
        ctx.check('dates', [numpy.datetime64(x, 'ns') for x in numpy.asarray(df.index)] == want)


def stored(ctx, f, rows, label=''):
    for k, col in enumerate(NAMES):
        ctx.check('%s%s is stored' % (label, col), col in f.keys())
        got = f[col][:]
        ctx.check('%snumber of rows of %s' % (label, col), len(got) == len(rows))
        if col == 'flag':
            ctx.check(label + 'flags', [bytes(x).decode() for x in got] == [r[4] for r in rows])
        else:
            for i, r in enumerate(rows):
                ctx.equal('%s%s %d' % (label, col, i), got[i], r[k], 1e-9)


def copy(ctx, n, style, twice):
    du = ctx.mod('data_utils')
    rows = values(ctx, n)
    name, out = ctx.tmp('rc.dat'), ctx.tmp('rc.h5')
    write(ctx, name, rows, style)
    if twice:                       # an older and longer file of the same name
        ctx.write_h5(out, **{k: numpy.arange(float(n + 2)) for k in NAMES})
    _, msgs = ctx.warned(lambda: du.save_RC_h5file(out, read_from=name))
    ctx.check('no warning', not msgs)
    with h5(ctx).File(out, 'r') as f:
        stored(ctx, f, rows)


def broken(ctx, how):
    """A source that cannot be read: warned of, and a file written before stays as it was."""
    du = ctx.mod('data_utils')
    rows = values(ctx, 2)
    name, out = ctx.tmp('rc.dat'), ctx.tmp('rc.h5')
    write(ctx, name, rows, 'comments')
    du.save_RC_h5file(out, read_from=name)
    bad = ctx.tmp('bad.dat')
    if how == 'words':
        ctx.write_text(bad, ['# RC\n', '1.0 2.0 x 4.0 D\n'])
    _, msgs = ctx.warned(lambda: du.save_RC_h5file(out, read_from=bad))
    ctx.check('warned', bool(msgs))
    with h5(ctx).File(out, 'r') as f:
        stored(ctx, f, rows, 'after failing: ')


def used(ctx, at):
    """The model finds the same index in the text file and in its copy."""
    from . import p31
    ch, np, du = ctx.mod('chaos'), ctx.np, ctx.mod('data_utils')
    m = p31.build(ctx)
    p31.files(ctx)
    times = [0.0, 10.0, 30.0, 100.0]
    rows = [[t] + [ctx.var('%s%d' % (k, i), -100., 100.) for k in 'rei'] + ['D'] for i, t in enumerate(times)]
    name, out = ctx.tmp('rc2.dat'), ctx.tmp('rc2.h5')
    write(ctx, name, rows, 'tabs')
    du.save_RC_h5file(out, read_from=name)
    t = ctx.var('t', *at)
    i = max(k for k in range(3) if times[k] <= at[0])
    w = (t - times[i]) / (times[i + 1] - times[i])
    for s, k in (('external', 2), ('internal', 3)):
        want, _ = ctx.warned(lambda: m.synth_coeffs_sm(t, source=s, rc=rows[i][k] * (1 - w) + rows[i + 1][k] * w))
        for f in (name, out):
            ctx.set_config('file.RC_index', f)
            got, _ = ctx.warned(lambda: m.synth_coeffs_sm(t, source=s))
            ctx.equal('coefficients with %s index from %s' % (s, f.rsplit('.')[-1]), got, want, 1e-7)


def cases(tier):
    for style in ('plain', 'comments', 'tabs', 'behind'):
        for n in (1, 2, 5):
            for dates in (None, False, True):
                yield Case('load-%s-%d-%s' % (style, n, dates), load, n=n, style=style, dates=dates)
            for twice in (False, True):
                yield Case('copy-%s-%d-%s' % (style, n, twice), copy, n=n, style=style, twice=twice)
    yield Case('load-long', load, n=300, style='comments')
    yield Case('copy-long', copy, n=300, style='comments', twice=False)
    for how in ('missing', 'words'):
        yield Case('broken-' + how, broken, how=how)
    for at in ((0.0, 9.9), (10.0, 29.9), (30.0, 39.5)):
        yield Case('used-%g' % at[0], used, at=at)
