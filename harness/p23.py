"""P23: Fourier form of the time-dependent rotation matrices."""
import math
from symx.harness import Case
from . import long

BOUNDS = ('synthesis: any spectrum of up to 3 components, any frequencies [0, 4] per day and any times [-50, 50] days, '
          'times of 0 to 2 dimensions; analysis: any matrix time series of 1..7 (thorough: 1..11) samples in any one or two elements of the '
          'matrix (others fixed), any step [0.5, 3] h (ordering cases: 1 h and 2 h), any start date, degrees 1..2, any '
          'complex response, all numbers of kept components, scaled and unscaled')
OUTSIDE = ('component at the Nyquist frequency of an even number of samples (it enters twice by the documented scaling); '
           'components of equal size (either may be kept)')
ASSUMPTIONS = ('base vectors and rotation matrices (P19, P22) and the table of default responses are replaced by arbitrary '
               'values')


def cis(np, x):
    return np.cos(x), np.sin(x)


def series(ctx, freq, re, im, t, scaled):
    """Sum of the components at one time for one element."""
    np = ctx.np
    out = 0.0
    for f, a, b in zip(freq, re, im):
        c, s = cis(np, 2 * math.pi * f * t)
        w = 1.0 if scaled else np.where(f > 0, 2.0, 1.0)
        out = out + w * (a * c - b * s)
    return out


TIMES = {'0d': (), '1d': (2,), '2d': (2, 1)}


def synth(ctx, nfreq, form, times, scaled, freqs):
    import numpy
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    shape = TIMES[times]
    t = ctx.vec('t', shape, -50., 50.) if shape else np.array(ctx.var('t', -50., 50.))
    m, n = 2, 1
    if form == 'vector':
        f1 = [ctx.var('f%d' % i, 0.0, 4.0) if freqs is None else freqs[i] for i in range(nfreq)]
        frequency = np.array(f1)
        F = {(i, j): f1 for i in range(m) for j in range(n)}
    else:
        f3 = [[[ctx.var('f%d%d%d' % (k, i, j), 0.0, 4.0) if freqs is None else freqs[(k + i + j) % len(freqs)]
                for j in range(n)] for i in range(m)] for k in range(nfreq)]
        frequency = np.array(f3)
        F = {(i, j): [f3[k][i][j] for k in range(nfreq)] for i in range(m) for j in range(n)}
    if freqs is None:
        # zero or clearly positive
        for f in np.ravel(frequency):
            ctx.assume(f > 0.001)
    re, im = ctx.vec('a', (nfreq, m, n), -5., 5.), ctx.vec('b', (nfreq, m, n), -5., 5.)
    if isinstance(scaled, str):  # as it comes from the file of a spectrum
        scaled = scaled.endswith('True')
        kw = {'scaled': numpy.array(scaled)}
    else:
        kw = {} if scaled is None else {'scaled': scaled}
    got = cu.synth_rotate_gauss(t, frequency, re + 1j * im, **kw)
    ctx.check('shape', np.shape(got) == shape + (m, n))
    for idx in numpy.ndindex(*shape):
        for i in range(m):
            for j in range(n):
                want = series(ctx, F[i, j], [re[k, i, j] for k in range(nfreq)], [im[k, i, j] for k in range(nfreq)],
                              t[idx] if shape else t[()], bool(scaled))
                ctx.equal('matrix %s [%d,%d]' % (idx, i, j), got[idx + (i, j)], want, 1e-8)


class Stubs:
    """Arbitrary rotation matrices at the sample times."""

    def __init__(self, ctx, matrix, tokens=True):
        self.ctx, self.matrix, self.times, self.called = ctx, matrix, [], []
        cu = ctx.mod('coordinate_utils')
        self.old = {k: getattr(cu, k) for k in ('basevectors_gsm', 'basevectors_sm', 'rotate_gauss', 'q_response')}
        self.cu = cu
        np = ctx.np

        def frame(name):
            def f(time, dipole=None):
                self.called.append(name)
                self.times.append(time)
                z = np.zeros(np.shape(time) + (3,))
                return z + 1.0, z + 2.0, z + 3.0
            return f

        def rotate(nmax, kmax, base_1, base_2, base_3):
            self.degrees = (nmax, kmax)
            self.bases = (base_1, base_2, base_3)
            return np.array(matrix)
        cu.basevectors_gsm, cu.basevectors_sm, cu.rotate_gauss = frame('gsm'), frame('sm'), rotate

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.cu, k, v)

    def verify(self, name, N, step, start, nmax, kmax):
        ctx, np = self.ctx, self.ctx.np
        if not self.called or not hasattr(self, 'bases'):
            ctx.give_up('base vectors or matrices are not computed by the replaced functions')
            return
        ctx.check('reference frame', self.called == [name])
        ctx.equal('sample times', self.times[0], np.array([i * step / 24. + start for i in range(N)]), 1e-8)
        ctx.check('degrees', tuple(self.degrees) == (nmax, kmax))
        for k in range(3):
            ctx.equal('base vector %d' % (k + 1), self.bases[k], np.zeros((N, 3)) + (k + 1.0), 1e-12)


def fixed(i, j, n):
    """Values of the fixed elements: components well separated in size."""
    return 1.0 + 0.3 * i - 0.7 * j + math.cos(1.3 * n + i) + 0.25 * math.sin(2.9 * n + j)


def make(ctx, N, nmax, kmax, cells, amp=5.0):
    np = ctx.np
    M = [[[fixed(i, j, n) for j in range(kmax * (kmax + 2))] for i in range(nmax * (nmax + 2))] for n in range(N)]
    for (i, j) in cells:
        for n in range(N):
            M[n][i][j] = ctx.var('x%d%d_%d' % (i, j, n), -amp, amp)
    if N % 2 == 0:
        # no component at the Nyquist frequency
        for i in range(nmax * (nmax + 2)):
            for j in range(kmax * (kmax + 2)):
                M[N - 1][i][j] = sum(M[n][i][j] * (-1) ** n for n in range(N - 1))
    return M


def waves(ctx, N):
    """Any multiple of given waves: the largest component differs from the one of the largest real or imaginary part."""
    np = ctx.np
    a = ctx.var('a', 0.5, 5.0)
    W = [[[sum(A * math.cos(2 * math.pi * ((k * n) % N) / N + p + 0.15 * i * k + (1.2 * j if k else 0.0))
               for k, A, p in ((0, 0.3, 0.1 * i), (1, 1.0, 1.45), (2, 0.8, 0.6)))
           for j in range(3)] for i in range(3)] for n in range(N)]
    return [[[a * W[n][i][j] for j in range(3)] for i in range(3)] for n in range(N)]


def spectrum_of(M, i, j, N):
    """Positive-frequency discrete Fourier transform of one element: (real, imaginary)."""
    out = []
    for k in range(N // 2 + 1):
        re = sum(M[n][i][j] * math.cos(2 * math.pi * ((k * n) % N) / N) for n in range(N)) / N
        im = sum(M[n][i][j] * -math.sin(2 * math.pi * ((k * n) % N) / N) for n in range(N)) / N
        out.append((re, im))
    return out


def trip(ctx, N, nmax, kmax, cells, scaled, reference):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    step, start = ctx.var('step', 0.5, 3.0), ctx.var('start', -5000., 9000.)
    M = make(ctx, N, nmax, kmax, cells)
    kw = {} if reference is None else {'reference': reference}
    if scaled is not None:
        kw['scaled'] = scaled
    freqs = []

    def qfunc(freq, k):
        freqs.append(freq)
        return np.zeros(np.shape(freq)) + 1.0
    with Stubs(ctx, M) as s:
        f, sp, fi, si = cu.rotate_gauss_fft(nmax, kmax, qfunc=qfunc, step=step, N=N, start_date=start, **kw)
        s.verify((reference or 'gsm').lower(), N, step, start, nmax, kmax)
    shape = (N // 2 + 1, nmax * (nmax + 2), kmax * (kmax + 2))
    ctx.check('shapes', np.shape(f) == np.shape(sp) == np.shape(fi) == np.shape(si) == shape)
    for q in freqs[:1]:
        ctx.equal('frequencies of the response', q * step, np.array([k / N / 3600. for k in range(shape[0])]), 1e-12)
    t = np.array([n * step / 24. for n in range(N)])
    for lab, ff, ss in (('', f, sp), ('induced ', fi, si)):
        back = cu.synth_rotate_gauss(t, ff, ss, **({} if scaled is None else {'scaled': scaled}))
        for n in range(N):
            for (i, j) in list(cells) + [(0, 1), (1, 0)]:
                ctx.equal('%smatrix at sample %d [%d,%d]' % (lab, n, i, j), back[n, i, j], M[n][i][j], 1e-7)


def keep(ctx, N, filt, cell, scaled, step, which):
    """The largest components are kept, each with its frequency; induced ones are multiplied with the response."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    nmax = kmax = 1
    M = waves(ctx, N) if which == 'waves' else make(ctx, N, nmax, kmax, [cell] if which == 'matrix' else [])
    K = N // 2 + 1
    if which != 'response':
        R = [[(0.5 + 0.2 * k + 0.1 * f, -0.3 + 0.25 * f) for f in range(K)] for k in range(3)]
    else:
        R = [[(ctx.var('r%d%d' % (k, f), -2., 2.), ctx.var('s%d%d' % (k, f), -2., 2.)) if k == cell[0] else
              (0.5 + 0.2 * k + 0.1 * f, -0.3 + 0.25 * f) for f in range(K)] for k in range(3)]
    seen = []

    def qfunc(freq, k):
        seen.append((k, freq))
        return np.array([a + 1j * b for a, b in R[k]])
    kw = {} if filt is None else {'filter': filt}
    if scaled is not None:
        kw['scaled'] = scaled
    with Stubs(ctx, M):
        f, sp, fi, si = cu.rotate_gauss_fft(nmax, kmax, qfunc=qfunc, step=step, N=N, **kw)
    ctx.check('coefficients of the response', sorted(int(k) for k, _ in seen) == [0, 1, 2])
    for k, fr in seen:
        ctx.equal('frequencies of the response', fr, np.array([i / N / step / 3600. for i in range(K)]), 1e-12)
    F = K if filt is None else filt
    ctx.check('shapes', np.shape(f) == np.shape(sp) == np.shape(fi) == np.shape(si) == (F, 3, 3))
    for i, j in {cell, (cell[0], (cell[1] + 1) % 3), ((cell[0] + 1) % 3, cell[1])}:
        el = spectrum_of(M, i, j, N)
        ind = [(a * c - b * d, a * d + b * c) for (a, b), (c, d) in zip(el, R[i])]
        for lab, ff, ss, ref in (('', f, sp, el), ('induced ', fi, si, ind)):
            lab = '%s[%d,%d] ' % (lab, i, j)
            at = []
            for p in range(F):
                x = float(ff[p, i, j]) * N * step / 24.
                ctx.check(lab + 'frequency %d is one of the transform' % p, abs(x - round(x)) < 1e-6 and -0.5 < x < K - 0.5)
                at.append(min(max(int(round(x)), 0), K - 1))
            ctx.check(lab + 'frequencies are distinct', len(set(at)) == F)
            for p, k in enumerate(at):
                w = 2.0 if scaled and k else 1.0
                ctx.equal(lab + 'component %d real' % p, np.real(ss[p, i, j]), w * ref[k][0], 1e-8)
                ctx.equal(lab + 'component %d imaginary' % p, np.imag(ss[p, i, j]), w * ref[k][1], 1e-8)
                for o in range(K):
                    if o not in at:
                        ctx.check(lab + 'component %d is not smaller than the dropped %d' % (p, o),
                                  ref[k][0] ** 2 + ref[k][1] ** 2 >= ref[o][0] ** 2 + ref[o][1] ** 2 - 1e-8)


def default(ctx, nmax, N):
    """Without a response function the tabulated response of the degree of the coefficient is used."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    kmax = 1
    M = make(ctx, N, nmax, kmax, [])
    K = N // 2 + 1
    q = [[(ctx.var('r%d%d' % (k, f), 0.5, 2.), ctx.var('s%d%d' % (k, f), -2., 2.)) for f in range(K)] for k in range(nmax)]
    calls = []

    def response(frequency, n):
        calls.append((frequency, n))
        return np.array([[a + 1j * b for a, b in row] for row in q])
    with Stubs(ctx, M):
        cu.q_response = response
        f, sp, fi, si = cu.rotate_gauss_fft(nmax, kmax, N=N)
    if not calls:
        ctx.give_up('table of responses not used')
        return
    ctx.check('degree', all(n == nmax for _, n in calls))
    ctx.equal('frequencies', calls[0][0], np.array([k / N / 3600. for k in range(K)]), 1e-12)
    row = 0
    for n in range(1, nmax + 1):
        for _ in range(2 * n + 1):
            for j in range(3):
                el = spectrum_of(M, row, j, N)
                for p in range(K):
                    k = min(K - 1, max(0, int(round(float(fi[p, row, j]) * N / 24.))))
                    a, b = q[n - 1][k]
                    ctx.equal('component %d of row %d column %d real' % (p, row, j), np.real(si[p, row, j]),
                              a * el[k][0] - b * el[k][1], 1e-8)
                    ctx.equal('component %d of row %d column %d imaginary' % (p, row, j), np.imag(si[p, row, j]),
                              a * el[k][1] + b * el[k][0], 1e-8)
            row += 1


def written(ctx, N, scaled):
    """The file holds the returned arrays and the options."""
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    step, start = 2.0, ctx.var('start', -5000., 9000.)
    dip = ctx.vec('dip', 3, -30000., 30000.)
    ctx.set_config('params.dipole', dip)
    M = make(ctx, N, 1, 1, [(1, 2)])
    name = ctx.tmp('rot.npz')

    def qfunc(freq, k):
        return np.zeros(np.shape(freq)) + (0.5 + 0.25 * k)
    with Stubs(ctx, M):
        out = cu.rotate_gauss_fft(1, 1, qfunc=qfunc, step=step, N=N, filter=1, save_to=name, reference='sm',
                                  scaled=scaled, start_date=start)
    with np.load(name) as z:
        for k, v in zip(('frequency', 'spectrum', 'frequency_ind', 'spectrum_ind'), out):
            ctx.equal(k, z[k], v, 1e-12)
        ctx.equal('dipole', z['dipole'], dip, 1e-12)
        ctx.equal('start date', z['start_date'], np.array(start), 1e-12)
        ctx.check('options', int(z['N']) == N and int(z['filter']) == 1 and bool(z['scaled']) == scaled
                  and float(z['step']) == step and str(z['reference']).lower() == 'sm')


def refused(ctx):
    cu, np = ctx.mod('coordinate_utils'), ctx.np
    x = ctx.var('x', -1, 1)
    with Stubs(ctx, [[[x] * 3] * 3]):
        ctx.raises('unknown reference', lambda: cu.rotate_gauss_fft(1, 1, N=1, reference='geo'), ValueError)


def cases(tier):
    yield from long.cases('P23')
    for times in TIMES:
        for form in ('vector', 'full'):
            for scaled in (None, False, True, 'zero-d False', 'zero-d True'):
                for fr in (None, (0.0, 1.0, 2.5), (0.0,)):
                    for nfreq in ((1, 3) if fr is None else (len(fr),)):
                        yield Case('synth-%s-%s-%s-%d-%s' % (times, form, scaled, nfreq, fr), synth, nfreq=nfreq, form=form,
                                   times=times, scaled=scaled, freqs=fr)
    for N in (5, 7):
        for filt in (1, 2, 3):
            for cell in ((0, 0), (1, 2), (2, 1)):
                yield Case('keep-waves-%d-%d-%s' % (N, filt, cell), keep, N=N, filt=filt, cell=cell,
                           scaled=filt == 2 or None, step=1.0, which='waves')
    for N in ((1, 2, 3, 4, 5, 6, 7) if tier == 'quick' else range(1, 12)):
        for scaled in (None, False, True):
            for cells in ([(0, 0)], [(2, 1)]):
                for ref in (None, 'sm', 'GSM'):
                    if tier == 'quick' and (ref and scaled is False or
                                            N > 5 and (ref or cells[0] != (2, 1) or scaled == (N == 6))):
                        continue
                    yield Case('trip-%d-%s-%s-%s' % (N, scaled, cells[0], ref), trip, N=N, nmax=1, kmax=1, cells=cells,
                               scaled=scaled, reference=ref)
    yield Case('trip-degrees', trip, N=3, nmax=2, kmax=1, cells=[(7, 2)], scaled=None, reference='sm')
    yield Case('trip-degrees2', trip, N=3, nmax=1, kmax=2, cells=[(2, 7)], scaled=True, reference='gsm')
    for N in (3, 4, 5, 6):
        for filt in (None, 1, 2, 3):
            for scaled in (None, True):
                for which in ('matrix', 'response') if N < 5 else ('response',):
                    if filt == 3 and N < 6 or N == 5 and tier == 'quick' and filt != 2 or N > 5 and filt not in ((1,) if tier == 'quick' else (1, 2, 3)):
                        continue
                    for cell in (((1, 2),) if tier == 'quick' else ((1, 2), (0, 0), (2, 1))):
                        yield Case('keep-%d-%s-%s-%s-%s' % (N, filt, scaled, which, cell), keep, N=N, filt=filt, cell=cell,
                                   scaled=scaled, step=2.0 if filt else 1.0, which=which)
    for nmax in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        yield Case('default-%d' % nmax, default, nmax=nmax, N=1)
    yield Case('default-two-%d' % 1, default, nmax=1, N=2)
    yield Case('written', written, N=3, scaled=False)
    yield Case('written-scaled', written, N=3, scaled=True)
    yield Case('refused', refused)
