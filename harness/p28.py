"""P28: decimal years and day numbers."""
import numpy
from symx.harness import Case
from . import long

BOUNDS = ('all times from year -2000 to 6000 with leap years (round trips in both directions, value, calendar year, order of any '
          'two times, one-sided limits at any new year), all times within +-1e7 days or +-30000 years without; scalars, lists '
          'and arrays up to 2x2')
OUTSIDE = 'rounding of 64-bit numbers'
ASSUMPTIONS = 'numpy datetime64 and text conversion as modelled in symx/dates.py'

LO, HI = -2000, 6000


def jan1(y):
    """Days from 2000-01-01 to the first of January."""
    return 365 * (y - 2000) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 - 484


def length(y):
    return jan1(y + 1) - jan1(y)


def num(ctx, y):
    return ctx.np.asarray(y) * 1.0


def new_year(ctx, name='year'):
    y = ctx.ivar(name, LO, HI)
    if ctx.symbolic:
        from symx import dates
        for k in (-1, 0, 1):
            dates.jan1(y + k)
    return y


def days(ctx, y):
    return 366.0 if ctx.truth(length(y) == 366) else 365.0


def wrapped(ctx, f, t, form, other, want):
    """Value for one time given as number, list or array."""
    np = ctx.np
    if form == 'scalar':
        got = f(t)
    elif form == 'explicit':
        got = f(t, leap_year=True)
    else:
        got = f([t, other] if form == 'list' else np.array([[t, other]]))
        ctx.check('shape', np.shape(got) == ((2,) if form == 'list' else (1, 2)))
        got = np.ravel(got)
        ctx.equal('other', got[1], want)
        got = got[0]
    ctx.check('shape of number', np.shape(got) == ())
    return got


def to_mjd(ctx, form):
    """A decimal year is the elapsed fraction of its calendar year."""
    y = new_year(ctx)
    f = ctx.var('fraction', 0.0, 0.9999)
    got = wrapped(ctx, ctx.mod('data_utils').dyear_to_mjd, num(ctx, y) + f, form, 2000.5, 183.0)
    ctx.equal('day number', got, num(ctx, jan1(y)) + f * days(ctx, y), 1e-8)


def inside(ctx, y, tag=''):
    """Day of the year with fraction (away from the last 9 seconds), and the length of the year."""
    n = days(ctx, y)
    d = ctx.var(tag + 'days', 0.0, 366.0)
    ctx.assume(d <= n - 1e-4)
    return d, n


def to_year(ctx, form):
    y = new_year(ctx)
    d, n = inside(ctx, y)
    got = wrapped(ctx, ctx.mod('data_utils').mjd_to_dyear, num(ctx, jan1(y)) + d, form, 183.0, 2000.5)
    ctx.equal('decimal year', got, num(ctx, y) + d / n, 1e-10)


def there_and_back(ctx, start):
    du = ctx.mod('data_utils')
    y = new_year(ctx)
    if start == 'days':
        t = num(ctx, jan1(y)) + inside(ctx, y)[0]
        ctx.equal('back', du.dyear_to_mjd(du.mjd_to_dyear(t)), t, 1e-6)
    else:
        t = num(ctx, y) + ctx.var('fraction', 0.0, 0.9999)
        ctx.equal('back', du.mjd_to_dyear(du.dyear_to_mjd(t)), t, 1e-8)


def increasing(ctx, which, apart):
    """Order of two times of the same year, of years that follow each other, of years further apart."""
    du = ctx.mod('data_utils')
    y = new_year(ctx)
    z = y + apart if apart < 2 else new_year(ctx, 'later year')
    if apart == 2:
        ctx.assume(z >= y + 2)
    if which == 'to days':
        a, b = [num(ctx, x) + ctx.var('fraction ' + n, 0.0, 0.999999) for x, n in ((y, 'a'), (z, 'b'))]
        ctx.assume(b >= a + 1e-6)
        ctx.check('increasing', du.dyear_to_mjd(b) > du.dyear_to_mjd(a))
    else:
        a, b = [num(ctx, jan1(x)) + inside(ctx, x, n)[0] for x, n in ((y, 'a'), (z, 'b'))]
        ctx.assume(b >= a + 1e-4)
        ctx.check('increasing', du.mjd_to_dyear(b) > du.mjd_to_dyear(a))


def boundary(ctx, which):
    """Values just before, at and just after a new year."""
    du = ctx.mod('data_utils')
    y = new_year(ctx)
    e = ctx.var('epsilon', 1e-5, 1e-3)
    n0, n1 = days(ctx, y - 1), days(ctx, y)
    if which == 'to days':
        at, want = num(ctx, y), num(ctx, jan1(y))
        ctx.equal('at', du.dyear_to_mjd(at), want, 1e-8)
        ctx.equal('before', du.dyear_to_mjd(at - e), want - e * n0, 1e-6)
        ctx.equal('after', du.dyear_to_mjd(at + e), want + e * n1, 1e-6)
    else:
        at, want = num(ctx, jan1(y)), num(ctx, y)
        ctx.equal('at', du.mjd_to_dyear(at), want, 1e-10)
        ctx.equal('before', du.mjd_to_dyear(at - e), want - e / n0, 1e-9)
        ctx.equal('after', du.mjd_to_dyear(at + e), want + e / n1, 1e-9)


def julian(ctx, which, form):
    """365.25 days per year from 2000."""
    du, np = ctx.mod('data_utils'), ctx.np
    if which == 'to days':
        f, t = du.dyear_to_mjd, ctx.var('time', -30000.0, 30000.0)
        want = (t - 2000.0) * 365.25
    else:
        f, t = du.mjd_to_dyear, ctx.var('time', -1e7, 1e7)
        want = t / 365.25 + 2000.0
    if form == 'scalar':
        got = f(t, leap_year=False)
        ctx.check('shape', np.shape(got) == ())
        ctx.equal('value', got, want, 1e-6)
    else:
        got = f([t] if form == 'list' else np.array([[t]]), leap_year=False)
        ctx.check('shape', np.shape(got) == ((1,) if form == 'list' else (1, 1)))
        ctx.equal('value', np.ravel(got)[0], want, 1e-6)
    g = du.mjd_to_dyear if which == 'to days' else du.dyear_to_mjd
    ctx.equal('back', g(f(t, leap_year=False), leap_year=False), t, 1e-6)


def many(ctx, which):
    """Each entry of an array is converted by itself."""
    du, np = ctx.mod('data_utils'), ctx.np
    ys = [new_year(ctx, 'year%d' % i) for i in range(3)]
    if which == 'to days':
        t = np.array([num(ctx, y) + 0.5 for y in ys])
        got = du.dyear_to_mjd(t)
        for i, y in enumerate(ys):
            ctx.equal('entry %d' % i, got[i], num(ctx, jan1(y)) + 0.5 * days(ctx, y), 1e-8)
    else:
        t = np.array([num(ctx, jan1(y)) for y in ys])
        got = du.mjd_to_dyear(t)
        for i, y in enumerate(ys):
            ctx.equal('entry %d' % i, got[i], num(ctx, y), 1e-9)


def cases(tier):
    kw = dict(exact=True, max_paths=3000, budget=300)
    out = list(long.cases('P28'))
    for form in ('scalar', 'explicit', 'list', 'array'):
        out.append(Case('year to days %s' % form, to_mjd, form=form, **kw))
        out.append(Case('days to year %s' % form, to_year, form=form, **kw))
    for s in ('days', 'years'):
        out.append(Case('there and back from %s' % s, there_and_back, start=s, **kw))
    for w in ('to days', 'to years'):
        for apart in (0, 1, 2):
            out.append(Case('increasing %s %d' % (w, apart), increasing, which=w, apart=apart, **kw))
        out.append(Case('new year %s' % w, boundary, which=w, **kw))
        out.append(Case('arrays %s' % w, many, which=w, **kw))
        for form in ('scalar', 'list', 'array'):
            out.append(Case('years of 365.25 days %s %s' % (w, form), julian, which=w, form=form, **kw))
    return out
