"""P27: calendar dates, day numbers, timestamps and the leap rule."""
import datetime as dt
import numpy
from symx.harness import Case
from . import long

BOUNDS = ('all dates of the years 1 to 9999 (datetime objects and datetime64 in days to microseconds), all dates of the years '
          '-9999 to 9999 as components, nanosecond units for 1678-2262; all hours 0-23, minutes, seconds, microseconds and '
          'nanoseconds, also counts beyond the next larger unit (seconds of the day and the like) and negative ones up to about '
          'a day; scalars, vectors, broadcast of year/month/day/hour arrays up to 2x3; day numbers within +-80000 for '
          'timestamps; years within +-1000000 for the leap rule (integers of at least 16 bits)')
OUTSIDE = ('rounding of 64-bit day numbers and truncation of timestamps to nanoseconds; times outside 1678-2262 in timestamps; '
           'components that are no valid date')
ASSUMPTIONS = 'numpy datetime64 and text conversion as modelled in symx/dates.py'


def ints(ctx, x):
    a = ctx.np.asarray(x)
    return a.astype(int)


def jdn(y, m, d):
    """Days since 2000-01-01 (Fliegel and van Flandern; m is concrete)."""
    a = (14 - m) // 12
    yy = y + 4800 - a
    return d + (153 * (m + 12 * a - 3) + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045 - 2451545


def leap(y):
    """Number of leap days up to the year minus that up to the year before."""
    return (y // 4 - y // 100 + y // 400) - ((y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400)


def length(y, m):
    return 28 + leap(y) if m == 2 else (30 if m in (4, 6, 9, 11) else 31)


def date(ctx, tag, lo, hi, months=range(1, 13)):
    y = ctx.ivar(tag + 'year', lo, hi)
    m = ctx.ivar(tag + 'month', 1, 12)
    d = ctx.ivar(tag + 'day', 1, 31)
    m = concrete(ctx, m, months)
    if len(months) < 12 and not ctx.truth(m == months[0]) and m not in months:
        ctx.assume(False)
    ctx.assume(d <= length(y, m))
    return y, m, d


def concrete(ctx, m, months):
    for k in range(1, 12):
        if ctx.truth(m == k):
            return k
    return 12


UNITS = (('hour', 23, 24), ('minute', 59, 1440), ('second', 59, 86400), ('microsecond', 999999, 86400 * 10**6),
         ('nanosecond', 999, 86400 * 10**9))


LONG = {'hour': 100, 'minute': 10**4, 'second': 10**6, 'microsecond': 10**11, 'nanosecond': 10**14}


def clock(ctx, tag, parts, wide=False):
    vals, frac = {}, 0.0
    for n, hi, per in UNITS:
        if n in parts:
            v = ctx.ivar(tag + n, *((-LONG[n], LONG[n]) if wide else (0, hi)))
            vals[n] = v
            frac = frac + v / per if not ctx.symbolic else frac + ctx.np.asarray(v) / per
    return vals, frac


def components(ctx, parts, lo, hi, call, wide=False):
    du = ctx.mod('data_utils')
    y, m, d = date(ctx, '', lo, hi)
    vals, frac = clock(ctx, '', parts, wide)
    vals = {k: ints(ctx, v) for k, v in vals.items()}
    if call == 'keywords':
        got = du.mjd2000(year=ints(ctx, y), month=m, day=ints(ctx, d), **vals)
    elif call == 'positions':
        got = du.mjd2000(ints(ctx, y), ints(ctx, m), ints(ctx, d), *[vals[n] for n, _, _ in UNITS if n in vals])
    else:
        got = du.mjd2000(*[ints(ctx, [v]) for v in (y, m, d)], **{k: ctx.np.reshape(v, (1,)) for k, v in vals.items()})
        ctx.check('shape', ctx.np.shape(got) == (1,))
        got = got[0]
    ctx.equal('day number', got, jdn(y, m, d) + frac, 1e-9)


def near(ctx, day):
    """Small parts of the day, compared in nanoseconds close to the epoch."""
    du = ctx.mod('data_utils')
    h, mi, s = [ctx.ivar(n, 0, hi) for n, hi in (('hour', 23), ('minute', 59), ('second', 59))]
    us, ns = ctx.ivar('us', 0, 999999), ctx.ivar('ns', 0, 999)
    got = du.mjd2000(2000, 1, day, *[ints(ctx, v) for v in (h, mi, s, us, ns)])
    want = ctx.np.asarray(ns + 1000 * (us + 10**6 * (s + 60 * (mi + 60 * h)))) / 864e11 + (day - 1)
    ctx.equal('day number', (got - want) * 864e11, 0.0, 0.4)


def defaults(ctx, n):
    """Missing components take the documented defaults."""
    du = ctx.mod('data_utils')
    y, m, d = date(ctx, '', 1, 9999)
    v = (y, m, d)[:n]
    w = v + (1,) * (3 - n)
    if n == 2:
        ctx.equal('day number', du.mjd2000(ints(ctx, y), ints(ctx, m)), jdn(y, m, 1), 1e-9)
    else:
        ctx.equal('day number', du.mjd2000(*[ints(ctx, x) for x in v]), jdn(w[0], int(w[1]) if n > 1 else 1, w[2]), 1e-9)


def broadcast(ctx, kind):
    du, np = ctx.mod('data_utils'), ctx.np
    if kind == 'years':
        ys = [ctx.ivar('y%d' % i, -9999, 9999) for i in range(3)]
        got = du.mjd2000(ints(ctx, ys), 2, 1)
        ctx.check('shape', np.shape(got) == (3,))
        for i, y in enumerate(ys):
            ctx.equal('day number %d' % i, got[i], jdn(y, 2, 1), 1e-9)
    elif kind == 'year column, day row':
        ys = [ctx.ivar('y%d' % i, 1, 9999) for i in range(2)]
        ds = [ctx.ivar('d%d' % i, 1, 30) for i in range(3)]
        h = ctx.ivar('h', 0, 23)
        got = du.mjd2000(ints(ctx, [[y] for y in ys]), 11, ints(ctx, ds), hour=ints(ctx, h))
        ctx.check('shape', np.shape(got) == (2, 3))
        for i, y in enumerate(ys):
            for j, d in enumerate(ds):
                ctx.equal('day number %d %d' % (i, j), got[i, j], jdn(y, 11, d) + np.asarray(h) / 24, 1e-9)
    elif kind == 'hours':
        y = ctx.ivar('y', 1, 9999)
        hs = [ctx.ivar('h%d' % i, 0, 23) for i in range(2)]
        ms = [ctx.ivar('m%d' % i, 0, 59) for i in range(2)]
        got = du.mjd2000(ints(ctx, y), 7, 31, ints(ctx, [[h] for h in hs]), ints(ctx, ms))
        ctx.check('shape', np.shape(got) == (2, 2))
        for i, h in enumerate(hs):
            for j, m in enumerate(ms):
                ctx.equal('day number %d %d' % (i, j), got[i, j], jdn(y, 7, 31) + np.asarray(60 * h + m) / 1440, 1e-9)
    else:                                        # months of one year
        y = ctx.ivar('y', 1, 9999)
        ms = numpy.arange(1, 13)
        got = du.mjd2000(ints(ctx, y), ms)
        ctx.check('shape', np.shape(got) == (12,))
        for m in range(1, 13):
            ctx.equal('day number %d' % m, got[m - 1], jdn(y, m, 1), 1e-9)


def fields(ctx, tag, lo=1, hi=9999):
    y, m, d = date(ctx, tag, lo, hi)
    vals, frac = clock(ctx, tag, ('hour', 'minute', 'second', 'microsecond'))
    f = (y, m, d) + tuple(vals[n] for n in ('hour', 'minute', 'second', 'microsecond'))
    return f, jdn(y, m, d) + frac


def stamp(ctx, f):
    if ctx.symbolic:
        from symx import dates
        return dates.SymDatetime(*f)
    return dt.datetime(*[int(x) for x in f])


def objects(ctx, how):
    """datetime objects, alone and in arrays."""
    du, np = ctx.mod('data_utils'), ctx.np
    f, want = fields(ctx, '')
    x = stamp(ctx, f)
    if how == 'scalar':
        got = du.mjd2000(x)
        ctx.check('shape', np.shape(got) == ())
        ctx.equal('day number', got, want, 1e-9)
    else:
        y = dt.datetime(2002, 3, 4, 6)
        got = du.mjd2000([x, y] if how == 'list' else numpy.array([[x], [y]], dtype=object))
        ctx.check('shape', np.shape(got) == ((2,) if how == 'list' else (2, 1)))
        got = np.ravel(got)
        ctx.equal('day number', got[0], want, 1e-9)
        ctx.equal('other day number', got[1], 793.25, 1e-9)


PER = {'D': 1, 'h': 24, 'm': 1440, 's': 86400, 'ms': 86400 * 10**3, 'us': 86400 * 10**6, 'ns': 86400 * 10**9}


def units(ctx, unit, shape):
    """datetime64 of any unit: the count since 1970 in days less 10957."""
    du, np = ctx.mod('data_utils'), ctx.np
    lim = PER[unit] * (730000 if unit != 'ns' else 106000)
    n = 1 if shape == () else shape[0]
    cs = [ctx.ivar('c%d' % i, -lim, lim) for i in range(n)]
    x = ints(ctx, cs if shape else cs[0]).astype('datetime64[%s]' % unit)
    if not ctx.symbolic and shape == ():
        x = x[()]
    got = du.mjd2000(x)
    ctx.check('shape', np.shape(got) == shape)
    for i, c in enumerate(cs):
        ctx.equal('day number %d' % i, got[i] if shape else got, np.asarray(c) / PER[unit] - 10957.0, 1e-9)


def inverse(ctx, lo, hi, unit):
    """timestamp of a day number: the nanoseconds since 2000, cut to an integer."""
    du, np = ctx.mod('data_utils'), ctx.np
    t = ctx.var('time', lo, hi)
    got = du.timestamp(t)
    ctx.check('type', str(got.dtype) == 'datetime64[ns]')
    ns = (got - numpy.datetime64('2000-01-01', 'ns')) / numpy.timedelta64(1, 'ns')
    ctx.equal('nanoseconds', ns, t * 864e11, {'day': 1.01, 'century': 1.01}[unit])
    ctx.equal('back', du.mjd2000(got), t, 1e-9)


def stamps(ctx, shape):
    du, np = ctx.mod('data_utils'), ctx.np
    t = ctx.vec('time', shape, -80000.0, 80000.0)
    got = du.timestamp(t)
    ctx.check('shape', np.shape(got) == shape)
    one = numpy.timedelta64(1, 'ns')
    ctx.equal('nanoseconds', (got - numpy.datetime64('2000-01-01', 'ns')) / one, t * 864e11, 1.01)
    got = du.timestamp([t.ravel()[0], 0.0])
    ctx.equal('list', (got - numpy.datetime64('2000-01-01', 'ns')) / one, np.array([t.ravel()[0] * 864e11, 0.0]), 1.01)


def both(ctx):
    """A date and its timestamp agree exactly when there are no fractions of nanoseconds."""
    du = ctx.mod('data_utils')
    y, m, d = date(ctx, '', 1780, 2200)
    h = ctx.ivar('hour', 0, 23)
    got = du.timestamp(du.mjd2000(ints(ctx, y), m, ints(ctx, d), ints(ctx, h)))
    n = (got - numpy.datetime64('2000-01-01', 'ns')) / numpy.timedelta64(1, 's')
    ctx.equal('seconds', n, jdn(y, m, d) * 86400 + 3600 * h, 1e-3)


def rule(ctx, form):
    du, np = ctx.mod('data_utils'), ctx.np
    if form == 'scalar':
        y = ctx.ivar('year', -10**6, 10**6)
        got = du.is_leap_year(ints(ctx, y))
        ctx.check('leap year', ctx.truth(got) == ctx.truth(leap(y) == 1))
    elif form == 'python':
        for y in (1900, 2000, 2001, 2004, -1, 0, 1600, 2100):
            ctx.check('leap year %d' % y, bool(du.is_leap_year(y)) == (leap(y) == 1))
    elif form in ('int16', 'int32', 'uint16'):
        lo, hi = {'int16': (-32768, 32767), 'int32': (-10**6, 10**6), 'uint16': (0, 65535)}[form]
        y = ctx.ivar('year', lo, hi)
        a = np.asarray([y]).astype(form)
        ctx.check('leap year', ctx.truth(du.is_leap_year(a)[0]) == ctx.truth(leap(y) == 1))
    else:
        ys = [ctx.ivar('year%d' % i, -10**6, 10**6) for i in range(3)]
        a = ints(ctx, ys)
        got = du.is_leap_year(a if form == 'array' else np.reshape(a, (3, 1)))
        ctx.check('shape', np.shape(got) == ((3,) if form == 'array' else (3, 1)))
        got = np.ravel(got)
        for i, y in enumerate(ys):
            ctx.check('leap year %d' % i, ctx.truth(got[i]) == ctx.truth(leap(y) == 1))


def floats(ctx, form):
    du, np = ctx.mod('data_utils'), ctx.np
    y = ctx.var('year', -3000.0, 3000.0)
    ctx.raises('refused', lambda: du.is_leap_year({'scalar': y, 'array': np.array([y, 2000.0]), 'whole': 2000.0,
                                                   'whole array': np.array([2000.0, 2001.0])}[form]), TypeError)


def cases(tier):
    thorough = tier == 'thorough'
    kw = dict(exact=True, max_paths=1500, budget=250)
    out = list(long.cases('P27'))
    for form in ('scalar', 'python', 'array', 'column', 'int16', 'int32', 'uint16'):
        out.append(Case('leap rule %s' % form, rule, form=form, **kw))
    for form in ('scalar', 'array', 'whole', 'whole array'):
        out.append(Case('non-integer years %s' % form, floats, form=form, **kw))
    out.append(Case('date only', components, parts=(), lo=-9999, hi=9999, call='keywords', **kw))
    out.append(Case('date and hour', components, parts=('hour',), lo=1, hi=9999, call='positions', **kw))
    out.append(Case('date and time', components, parts=('hour', 'minute', 'second', 'microsecond'), lo=1, hi=9999,
                    call='positions', **kw))
    out.append(Case('date and time to nanoseconds', components,
                    parts=('hour', 'minute', 'second', 'microsecond', 'nanosecond'), lo=-9999, hi=9999, call='keywords', **kw))
    for n, _, _ in UNITS:
        out.append(Case('date and any count of the %s' % n, components, parts=(n,), lo=-9999, hi=9999, wide=True,
                        call='keywords', **kw))
    out.append(Case('date and any counts', components, parts=('minute', 'second', 'microsecond', 'nanosecond'), lo=1, hi=9999,
                    wide=True, call='arrays', **kw))
    out.append(Case('date and time arrays', components, parts=('hour', 'second', 'nanosecond'), lo=1, hi=9999,
                    call='arrays', **kw))
    for day in (1, 2):
        out.append(Case('time of day to the nanosecond, day %d' % day, near, day=day, **kw))
    for n in (1, 2, 3):
        out.append(Case('defaults after %d components' % n, defaults, n=n, **kw))
    for k in ('years', 'year column, day row', 'hours', 'months'):
        out.append(Case('broadcast %s' % k, broadcast, kind=k, **kw))
    for how in ('scalar', 'list', 'array'):
        out.append(Case('datetime objects %s' % how, objects, how=how, **kw))
    for u in PER:
        for shape in ((), (2,)):
            out.append(Case('datetime64[%s] %s' % (u, shape), units, unit=u, shape=shape, **kw))
    out.append(Case('timestamp close to the epoch', inverse, lo=-1.0, hi=1.0, unit='day', **kw))
    out.append(Case('timestamp', inverse, lo=-80000.0, hi=80000.0, unit='century', **kw))
    for shape in ((1,), (3,), (2, 2)):
        out.append(Case('timestamps %s' % (shape,), stamps, shape=shape, **kw))
    out.append(Case('timestamp of a date', both, **kw))
    return out
