"""P15: models survive the SHC round trip as functions of time."""
import math
from symx.harness import Case

BOUNDS = ('splines of order 2 to 6 (only the file up to order 12) with 1 to 4 pieces of fixed break points (among them lengths of 30 days to 20 '
          'years, uneven, before 2000 and around leap days), all coefficients within +-6e4 nT with changes of up to 500 nT per '
          'power over the period, compared at any time of the model period; order 1 with 1 to 4 pieces; up to 12 pieces at fixed times; degrees 1 to 9 (thorough: 13), '
          'truncation, all leap-year options; files with up to 4 snapshots behind the last complete piece; through BaseModel and CHAOS')
OUTSIDE = 'symbolic break points (the spline is refitted by least squares at the times in the file); pieces far shorter than a day'
ASSUMPTIONS = ('printed numbers are the value rounded to the printed decimals; the least-squares refit is exact up to rounding; '
               'at fixed times, as many Chebyshev points per piece as the order are compared, which bounds the difference of the '
               'two polynomials in the whole piece by less than three times the tolerance')

BREAKS = {
    'years': [y * 365.25 for y in (-3.0, -2.5, -2.0, -1.5, -1.0)],
    'generic': [-1203.7, -841.33, -1.25, 302.2, 688.125],
    'uneven': [1000.0, 1030.0, 3500.0, 3600.5, 10905.0],
    'leap': [1461.0, 1500.0, 1826.5, 2191.0, 2922.0],
    'many': [-700.5, -400.0, -380.25, -100.0, 0.0, 365.0, 366.0, 1000.75, 1826.25, 4000.0, 4383.0, 5100.5, 5844.0],
    'old': [-38000.0, -36524.0, -35000.25, -30001.0, -29000.0],
}


def spline(ctx, order, b, D):
    """Coefficients (power, piece, component) of a spline from truncated powers."""
    np = ctx.np
    K, P = order, len(b) - 1
    a = ctx.vec('a', (K, D), -500.0, 500.0)
    m = ctx.vec('m', D, -6e4, 6e4)
    e = ctx.vec('e', (P, D), -500.0, 500.0)
    L = b[-1] - b[0]
    c = np.zeros((K, P, D)) * m[0]
    for d in range(D):
        for j in range(P):
            # sum of a_i ((t - b0)/L)^i and of e_q ((t - bq)/(bP - bq))^(K-1) for q <= j about b_j
            poly = [0.0] * K
            for i in range(K):
                s = (m[d] if i == 0 else a[i, d]) / L**i
                for p in range(i + 1):
                    poly[p] = poly[p] + s * math.comb(i, p) * (b[j] - b[0])**(i - p)
            for q in range(1, j + 1):
                s = e[q, d] / (b[-1] - b[q])**(K - 1)
                for p in range(K):
                    poly[p] = poly[p] + s * math.comb(K - 1, p) * (b[j] - b[q])**(K - 1 - p)
            for p in range(K):
                c[K - 1 - p, j, d] = poly[p]
    return c


def horner(c, s):
    r = 0.0
    for x in c:
        r = r * s + x
    return r


def trip(ctx, order, which, pieces, nmax, nmin, top, leap, how, at):
    np, ch = ctx.np, ctx.mod('chaos')
    b = BREAKS[which][:pieces + 1]
    P, D = pieces, nmax * (nmax + 2)
    if order == 1:
        c = ctx.vec('c', (1, P, D), -6e4, 6e4)
    else:
        c = spline(ctx, order, b, D)
    kw = {} if leap is None else {'leap_year': leap}
    path = ctx.tmp('mymodel.shc')
    if how == 'base':
        m = ch.BaseModel('orig', np.array(b), order, c)
        sv = dict(kw)
        if nmin is not None:
            sv['nmin'] = nmin
        if top is not None:
            sv['nmax'] = top
        m.to_shc(path, **sv)
        back = ch.BaseModel.from_shc(path, **kw)
        ctx.check('name', back.name == 'mymodel')
        ctx.check('source', back.source == 'internal')
    else:
        m = ch.CHAOS(np.array(b), order, coeffs_tdep=c)
        m.save_shcfile(path, **kw)
        back = ch.load_CHAOS_shcfile(path, **kw) if how == 'chaos' else ch.CHAOS.from_shc(path, **kw)
        ctx.check('name', back.name == 'mymodel')
        if order == 1 and P == 1:  # taken for a static model
            ctx.check('part', back.model_tdep is None and back.model_static is not None)
            back = back.model_static
        else:
            ctx.check('part', back.model_tdep is not None and back.model_static is None)
            back = back.model_tdep
    n = top or nmax
    lo = (nmin or 1)**2 - 1
    N = n * (n + 2)
    ctx.check('order', back.order == order)
    ctx.check('pieces', back.pieces == P)
    ctx.check('degree', back.nmax == n and back.dim == N)
    ctx.check('number of break points', np.shape(back.breaks) == (P + 1,))
    for i in range(P + (order > 1)):
        ctx.equal('break point %d' % i, back.breaks[i], b[i], 4e-6)
    # values anywhere in the period
    if at == 'nodes':
        # as many points per piece as the order: they determine the polynomials
        nodes = [(j, 0.5 - 0.499 * math.cos(math.pi * (i + 0.5) / order) / math.cos(0.5 * math.pi / order))
                 for j in range(P) for i in range(order)] if order > 1 else [(j, u) for j in range(P) for u in (0.001, 0.9)]
        ts = [b[j] + u * (b[j + 1] - b[j]) for j, u in nodes]
    elif isinstance(at[1], float):
        nodes = [at]
        ts = [b[at[0]] + at[1] * (b[at[0] + 1] - b[at[0]])]
    else:
        nodes = [at]
        ts = [ctx.var('t', b[at[0]] + 1e-4, b[at[0] + 1] - 1e-4)]
    got, _ = ctx.warned(lambda: back.synth_coeffs(np.array(ts)))
    ctx.check('shape', np.shape(got) == (len(ts), N))
    for k, (j, u) in enumerate(nodes):
        for d in range(N):
            if d < lo:
                ctx.equal('coefficient %d below the minimum degree' % d, got[k, d], 0.0, 1e-30)
            else:
                want = horner([c[p, j, d] for p in range(order)], ts[k] - b[j])
                ctx.equal('coefficient %d in piece %d at %s' % (d, j, u), got[k, d], want, TOL)


TOL = 1e-3


def samples(ctx, order, b):
    """Number and position of the snapshots (also for high orders, where SciPy cannot refit)."""
    np, ch, du = ctx.np, ctx.mod('chaos'), ctx.mod('data_utils')
    P = len(b) - 1
    c = np.zeros((order, P, 3)) + ctx.vec('c', 3, -6e4, 6e4)[None, None, :] * 0
    m = ctx.vec('m', 3, -6e4, 6e4)
    c[order - 1] = c[order - 1] + m
    path = ctx.tmp('high.shc')
    ch.BaseModel('orig', np.array(b), order, c).to_shc(path)
    t, got, par = du.load_shcfile(path, leap_year=False)
    step = max(order - 1, 1)
    N = P * step + (order > 1)
    ctx.check('parameters', [par[k] for k in ('nmin', 'nmax', 'N', 'order', 'step')] == [1, 1, N, order, order - 1])
    ctx.check('number of snapshots', np.shape(t) == (N,) and np.shape(got) == (3, N))
    for k in range(N):
        j = min(k // step, P - 1)
        ctx.equal('time %d' % k, t[k], b[j] + (b[j + 1] - b[j]) * (k - j * step) / step, 4e-6)
        ctx.equal('coefficients at time %d' % k, got[:, k], m, 1e-8)


def static(ctx, ns, nt, leap):
    """The static part above the degree of the time-dependent one."""
    np, ch = ctx.np, ctx.mod('chaos')
    b = BREAKS['generic']
    D = ns * (ns + 2)
    g = ctx.vec('g', (1, 1, D), -6e4, 6e4)
    kw = dict(coeffs_tdep=ctx.vec('c', (2, 4, nt * (nt + 2)))) if nt else {}
    m = ch.CHAOS(np.array(b), 2, coeffs_static=g, **kw)
    path = ctx.tmp('static.shc')
    kw = {} if leap is None else {'leap_year': leap}
    m.save_shcfile(path, model='static', **kw)
    back = ch.load_CHAOS_shcfile(path, **kw)
    ctx.check('part', back.model_tdep is None and back.model_static is not None)
    ctx.check('degree', back.model_static.nmax == ns)
    got = back.synth_coeffs_static()
    lo = (nt + 1)**2 - 1
    ctx.check('shape', np.shape(got) == (D,))
    for d in range(D):
        ctx.equal('coefficient %d' % d, got[d], 0.0 if d < lo else g[0, 0, d], 1e-8)
    back = ch.BaseModel.from_shc(path, source='external', name='other', **kw)
    ctx.check('source', back.source == 'external' and back.name == 'other')


def twice(ctx, order, leap):
    """The loaded model saved again gives the same file."""
    np, ch, du = ctx.np, ctx.mod('chaos'), ctx.mod('data_utils')
    b = BREAKS['years'][:3]
    c = spline(ctx, order, b, 3) if order > 1 else ctx.vec('c', (1, 2, 3), -6e4, 6e4)
    m = ch.BaseModel('orig', np.array(b), order, c)
    one, two = ctx.tmp('one.shc'), ctx.tmp('two.shc')
    m.to_shc(one, leap_year=leap)
    back = ch.BaseModel.from_shc(one, leap_year=leap)
    back.to_shc(two, leap_year=leap)
    t1, c1, p1 = du.load_shcfile(one, leap_year=leap)
    t2, c2, p2 = du.load_shcfile(two, leap_year=leap)
    ctx.check('parameters', [p1[k] for k in ('nmin', 'nmax', 'N', 'order', 'step')] ==
              [p2[k] for k in ('nmin', 'nmax', 'N', 'order', 'step')])
    ctx.equal('times', t2, t1, 8e-6)
    ctx.equal('coefficients', c2, c1, TOL)


def behind(ctx, order, pieces, extra, nmin):
    """Snapshots behind the last complete piece extend no spline."""
    np, ch, mu = ctx.np, ctx.mod('chaos'), ctx.mod('model_utils')
    nmax, step = nmin, order - 1
    D = 2 * nmin + 1
    years = [2001.0 + 1.5 * j * (1 + 0.25 * j) for j in range(pieces + 1)]
    at = [years[j] + (years[j + 1] - years[j]) * i / step for j in range(pieces) for i in range(step)] + [years[-1]]
    at += [years[-1] + 0.5 * (i + 1) for i in range(extra)]
    b = [(y - 2000.0) * 365.25 for y in years]
    c = spline(ctx, order, b, D)
    names = ['%d %d' % (nmin, m) for k in range(nmin + 1) for m in ((k, -k) if k else (0,))]
    text = ['# a model\n', '%d %d %d %d %d\n' % (nmin, nmax, len(at), order, step)]
    for y in at:
        text += ['  ', y]
    text += ['\n']
    for d in range(D):
        text += [names[d]]
        for k, y in enumerate(at):
            if k < pieces * step + 1:
                j = min(k // step, pieces - 1)
                v = horner([c[p, j, d] for p in range(order)], (y - 2000.0) * 365.25 - b[j])
            else:
                v = ctx.var('x%d_%d' % (d, k), -6e4, 6e4)
            text += ['  ', v]
        text += ['\n']
    path = ctx.tmp('behind.shc')
    ctx.write_text(path, text)
    m = ch.BaseModel.from_shc(path, leap_year=False)
    ctx.check('order, pieces and degree', (m.order, m.pieces, m.nmax) == (order, pieces, nmax))
    ctx.equal('break points', np.asarray(m.breaks), np.array(b), 1e-6)
    for j in range(pieces):
        for u in (0.01, 0.4, 0.99):
            t = b[j] + u * (b[j + 1] - b[j])
            got = m.synth_coeffs(t)
            for d in range(nmin * nmin - 1):
                ctx.equal('coefficient below the minimum degree', got[d], 0.0, 1e-30)
            for d in range(D):
                ctx.equal('coefficient %d in piece %d at %s' % (d, j, u), got[nmin * nmin - 1 + d],
                          horner([c[p, j, d] for p in range(order)], t - b[j]), TOL)


def cases(tier):
    thorough = tier == 'thorough'
    out = []
    kw = dict(order=3, which='generic', pieces=2, nmax=1, nmin=None, top=None, leap=None, how='base', at=(0, None))

    def add(**k):
        p = dict(kw)
        p.update(k)
        name = 'trip ' + ' '.join('%s=%s' % (a, b) for a, b in k.items())
        out.append(Case(name, trip, **p))
    top = 6
    for order in range(1, top + 1):
        for pieces in (1, 2, 3, 4):
            add(order=order, pieces=pieces, at='nodes')
            if order <= 3:
                for j in range(pieces):
                    add(order=order, pieces=pieces, at=(j, None))
    for order in range(1, top + 1):
        for at in ((0, 0.0), (1, 0.0), (1, 1.0)) if order > 1 else ((0, 0.0), (1, 1.0)):
            add(order=order, at=at)
    for which in ('years', 'uneven', 'leap', 'old'):
        for order in range(1, 7):
            for leap in (False, True):
                add(which=which, order=order, leap=leap, pieces=4, at='nodes')
                if order == 2 or thorough and order == 3:
                    for j in range(4):
                        add(which=which, order=order, leap=leap, pieces=4, at=(j, None))
    for pieces in range(5, 13):
        for order in range(1, 7) if thorough else (1, 2, 4, 6):
            add(which='many', order=order, pieces=pieces, leap=pieces % 2 == 0, at='nodes')
    for nmax, nmin, t in ((5, None, None), (7, 6, None), (8, None, None), (9, 2, 6)) + (((13, None, None),) if thorough else ()):
        for order in (1, 2):
            add(order=order, nmax=nmax, nmin=nmin, top=t, at='nodes')
    for how in ('chaos', 'classmethod'):
        for order in (1, 2, 4, 6):
            for pieces in (1, 3):
                for leap in (None, True, False):
                    add(how=how, order=order, pieces=pieces, leap=leap, at='nodes')
    for order in (1, 2, 4):
        for nmin in (1, 2, 3):
            for t in (None, 3):
                add(order=order, nmax=4, nmin=nmin, top=t, at='nodes')
        add(order=order, nmax=3, top=1, at='nodes')
        add(order=order, nmax=3, nmin=2, top=2, at='nodes')
    for order in range(1, 13):
        for i, b in enumerate(([-2642.8028304735262, 6247.186959558667], BREAKS['generic'], BREAKS['uneven'][1:], [0.1, 0.3, 0.7],
                               [-1000.1, -999.8, 4711.3, 9000.9])):
            out.append(Case('samples order=%d breaks %d' % (order, i), samples, order=order, b=b))
    for order in (2, 3, 4, 5, 6):
        for pieces in (1, 2, 3):
            for extra in range(order - 1):
                out.append(Case('behind order=%d pieces=%d extra=%d' % (order, pieces, extra), behind, order=order, pieces=pieces, extra=extra,
                                nmin=1 + (pieces == 2)))
    for ns, nt in ((1, 0), (2, 1), (4, 2), (3, 0)):
        for leap in (None, True):
            out.append(Case('static %d above %d leap=%s' % (ns, nt, leap), static, ns=ns, nt=nt, leap=leap))
    for order in (1, 2, 3, 4, 5):
        for leap in (False, True):
            out.append(Case('twice order=%d leap=%s' % (order, leap), twice, order=order, leap=leap))
    return out
