"""P16: MAT-files of models."""
from symx.harness import Case

BOUNDS = ('time-dependent part of order 1 to 6 (thorough: 9), 1 to 5 (9) pieces, degree 1 to 4; static degree 1 to 6; baseline offsets in 1 to 3 '
          'bins, Euler angles of 1 to 4 (default names) or 10 satellites in 0 to 3 bins each, equal and unequal; calibration in '
          '1 or 2 bins, files written by the model itself and files in MATLAB layout; every combination of missing optional '
          'parts; all numbers arbitrary')
OUTSIDE = ('bytes on disk (hdf5storage and scipy are under contract); far-magnetospheric coefficients other than the two '
           'zonal ones and first-degree means of the baseline, which the format does not hold; calibration of other satellites')
ASSUMPTIONS = 'hdf5storage returns what it has written with unchanged shapes; MATLAB structs and cells load as scipy loads them'
NAMES = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']


def ppdict(ctx, order, pieces, dim):
    np = ctx.np
    ch = ctx.mod('chaos')
    br = ctx.increasing('b', pieces + 1, -5., 5., (0.5, 3.))
    c = ctx.vec('c', (order, pieces, dim))
    m = ch.Base('m', br, order, c)
    pp = m.to_ppdict()
    ctx.check('form', pp['form'] == 'pp')
    for k, v in (('order', order), ('pieces', pieces), ('dim', dim)):
        ctx.equal(k, np.asarray(pp[k], dtype=float)[()], float(v))
    ctx.equal('breaks', pp['breaks'], br[None, :])
    ctx.check('shape', np.shape(pp['coefs']) == (pieces * dim, order))
    for j in range(pieces):
        for d in range(dim):
            ctx.equal('row %d %d' % (j, d), pp['coefs'][j * dim + d], c[:, j, d])
    pp['coefs'][...] = 0.0
    pp['breaks'][...] = 0.0
    ctx.equal('model coefficients unchanged', m.coeffs, c)
    ctx.equal('model breaks unchanged', m.breaks, br)


def breaks(ctx, name, bins):
    return ctx.increasing(name, bins + 1, -5., 5., (0.5, 3.))


class Parts:
    """All numbers of a model."""

    def __init__(self, ctx, order=3, pieces=2, nt=2, ns=3, bins=(1, 2), sats=(2, 1), cal=2, mean=False):
        np = ctx.np
        self.ctx, self.order, self.pieces, self.nt, self.ns = ctx, order, pieces, nt, ns
        self.breaks = breaks(ctx, 'b', pieces)
        self.tdep = ctx.vec('c', (order, pieces, nt * (nt + 2)))
        self.static = ctx.vec('g', (1, 1, ns * (ns + 2)))
        self.b_q10, self.b_qs11 = breaks(ctx, 'bq', bins[0]), breaks(ctx, 'bs', bins[1])
        self.q10 = ctx.vec('q10', bins[0])
        self.qs11 = ctx.vec('qs11', (bins[1], 2))
        self.sm = ctx.vec('sm', 8)
        self.gsm = ctx.vec('gsm', 2)
        self.sats = sats
        self.names = (NAMES + ['satellite_%d' % i for i in range(10, 15)])[:len(sats)]
        self.b_eul, self.eul = [], []
        for i, n in enumerate(sats):
            self.b_eul.append(breaks(ctx, 'be%d' % i, n) if n else np.array([ctx.var('be%d' % i, -5., 5.)]))
            self.eul.append(ctx.vec('e%d' % i, (n, 3)) if n else np.zeros((0, 3)))
        self.pre = ctx.vec('pre', (len(sats), 3)) if sats else None
        self.b_cal, self.cal = breaks(ctx, 'bc', cal), ctx.vec('cal', (1, cal, 9))

    def model(self, skip=()):
        ctx, np = self.ctx, self.ctx.np
        ch = ctx.mod('chaos')
        kw = {}
        if 'static' not in skip:
            kw['coeffs_static'] = self.static
        if 'ext' not in skip:
            g = [0.0] * 8
            g[0], g[3] = self.gsm[0], self.gsm[1]
            kw.update(coeffs_sm=self.sm, coeffs_gsm=np.array(g),
                      breaks_delta={'q10': self.b_q10, 'q11': self.b_qs11, 's11': self.b_qs11},
                      coeffs_delta={'q10': self.q10[None, :], 'q11': self.qs11[None, :, 0], 's11': self.qs11[None, :, 1]})
        if 'euler' not in skip:
            kw.update(breaks_euler=dict(zip(self.names, self.b_eul)),
                      coeffs_euler={n: e[None] for n, e in zip(self.names, self.eul)})
        if 'cal' not in skip:
            kw.update(breaks_cal={'cryosat-2_1': self.b_cal}, coeffs_cal={'cryosat-2_1': self.cal})
        meta = {'params': {'Euler_prerotation': None if 'pre' in skip else self.pre}, 'satellites': tuple(self.names)}
        return ch.CHAOS(self.breaks, self.order, coeffs_tdep=self.tdep, name='model', meta=meta, **kw)

    def matlab(self, skip=()):
        """Contents of the file in MATLAB layout."""
        np = self.ctx.np
        D = self.nt * (self.nt + 2)
        rows = [[self.tdep[o, j, d] for o in range(self.order)] for j in range(self.pieces) for d in range(D)]
        out = {'pp': {'form': 'pp', 'order': np.array([[float(self.order)]]), 'pieces': np.array([[float(self.pieces)]]),
                      'dim': np.array([[float(D)]]), 'breaks': self.breaks[None, :], 'coefs': np.array(rows)}}
        if 'static' not in skip:
            out['g'] = self.static[0, 0][:, None]
        if 'ext' not in skip:
            mean = [0.125, -3.0, 2.0] + [self.sm[i] for i in range(3, 8)]
            out['model_ext'] = {'t_break_q10': self.b_q10[:, None], 'q10': self.q10[:, None], 't_break_qs11': self.b_qs11[:, None],
                                'qs11': self.qs11, 'm_sm': np.array(mean)[:, None], 'm_gsm': self.gsm[:, None],
                                'm_Dst': self.sm[:3][:, None]}
        if 'euler' not in skip:
            out['model_Euler'] = {'alpha': [e[:, :1] for e in self.eul], 'beta': [e[:, 1:2] for e in self.eul],
                                  'gamma': [e[:, 2:] for e in self.eul], 't_break_Euler': [b[:, None] for b in self.b_eul]}
        if 'cal' not in skip:
            c = [[self.cal[0, j, d]] for j in range(self.cal.shape[1]) for d in range(9)]
            out['pp_CAL'] = [{'form': 'pp', 'order': np.array([[1.0]]), 'pieces': np.array([[float(self.cal.shape[1])]]),
                              'dim': np.array([[9.0]]), 'breaks': self.b_cal[None, :], 'coefs': np.array(c)}]
        if 'pre' not in skip:
            out['params'] = {'Euler_prerotation': self.pre, 'eps': np.array([[0.5]])}
        return out

    def compare(self, m, skip=(), label='', names=None):
        ctx, np = self.ctx, self.ctx.np
        t = m.model_tdep
        ctx.check(label + 'order, pieces and degree', (t.order, t.pieces, t.nmax) == (self.order, self.pieces, self.nt))
        ctx.equal(label + 'breaks', t.breaks, self.breaks)
        ctx.equal(label + 'time-dependent', t.coeffs, self.tdep)
        ctx.check(label + 'internal', t.source == 'internal')
        if 'static' in skip:
            ctx.check(label + 'no static part', m.model_static is None)
        else:
            ctx.equal(label + 'static', m.model_static.coeffs, self.static)
            ctx.equal(label + 'static breaks', m.model_static.breaks, self.breaks[[0, -1]])
        if 'ext' in skip:
            ctx.check(label + 'no magnetospheric part', [x is None for x in (m.coeffs_sm, m.coeffs_gsm, m.coeffs_delta,
                                                                             m.breaks_delta)])
        else:
            ctx.equal(label + 'near magnetosphere', np.asarray(m.coeffs_sm), self.sm)
            for i in range(8):
                ctx.equal(label + 'far magnetosphere %d' % i, np.asarray(m.coeffs_gsm)[i],
                          self.gsm[0] if i == 0 else (self.gsm[1] if i == 3 else 0.0))
            for k, b, c in (('q10', self.b_q10, self.q10), ('q11', self.b_qs11, self.qs11[:, 0]),
                            ('s11', self.b_qs11, self.qs11[:, 1])):
                ctx.equal(label + 'breaks of ' + k, np.asarray(m.breaks_delta[k]), b)
                ctx.equal(label + 'offset ' + k, np.asarray(m.coeffs_delta[k]), c[None, :])
        if 'euler' in skip:
            ctx.check(label + 'no Euler angles', m.model_euler is None)
        else:
            names = names or self.names
            ctx.check(label + 'satellites', list(m.model_euler) == list(names))
            ctx.check(label + 'names', list(m.meta['satellites']) == list(names))
            for i, n in enumerate(names):
                e = m.model_euler[n]
                want = self.b_eul[i] if self.sats[i] else np.concatenate([self.b_eul[i], self.b_eul[i]])
                ctx.equal(label + 'bins of satellite %d' % i, np.asarray(e.breaks), want)
                ctx.equal(label + 'angles of satellite %d' % i, np.asarray(e.coeffs), self.eul[i][None])
                p = e.meta['Euler_prerotation']
                if 'pre' in skip:
                    ctx.check(label + 'no pre-rotation', p is None)
                else:
                    ctx.equal(label + 'pre-rotation %d' % i, np.asarray(p), self.pre[i])
        if 'cal' in skip:
            ctx.check(label + 'no calibration', m.model_cal is None)
        else:
            ctx.check(label + 'calibrated satellite', list(m.model_cal) == ['cryosat-2_1'])
            ctx.equal(label + 'bins of calibration', m.model_cal['cryosat-2_1'].breaks, self.b_cal)
            ctx.equal(label + 'calibration', m.model_cal['cryosat-2_1'].coeffs, self.cal)


def roundtrip(ctx, skip=(), twice=False, **kw):
    ch = ctx.mod('chaos')
    p = Parts(ctx, **kw)
    m = p.model(skip)
    path = ctx.tmp('CHAOS-x.mat')
    m.save_matfile(path)
    p.compare(m, skip, 'saved model: ')
    k, w = ctx.warned(lambda: ch.load_CHAOS_matfile(path))
    ctx.check('name', k.name == 'CHAOS-x')
    p.compare(k, skip)
    if twice:
        path = ctx.tmp('again.mat')
        k.save_matfile(path)
        q = ch.CHAOS.from_mat(path, name='other')
        ctx.check('given name', q.name == 'other')
        p.compare(q, skip, 'second: ')


def matlab(ctx, skip=(), satellites=None, **kw):
    ch = ctx.mod('chaos')
    p = Parts(ctx, **kw)
    path = ctx.tmp('CHAOS-y.mat')
    ctx.write_mat(path, p.matlab(skip))
    opt = {} if satellites is None else {'satellites': satellites}
    names = None
    if satellites is not None and 'euler' not in skip:
        n = len(p.sats)
        names = list(satellites[:n]) + ['satellite_%d' % i for i in range(len(satellites) + 1, n + 1)]
    k, w = ctx.warned(lambda: ch.load_CHAOS_matfile(path, **opt))
    p.compare(k, skip, '', names)


def base(ctx, order, pieces, dim, path):
    np = ctx.np
    ch, du = ctx.mod('chaos'), ctx.mod('data_utils')
    br, c = breaks(ctx, 'b', pieces), ctx.vec('c', (order, pieces, dim))
    m = ch.Base('m', br, order, c) if path != 'model' else ch.BaseModel('m', br, order, c)
    file = ctx.tmp('base.mat')
    if path in (None, 'model'):
        m.save_matfile(file)
        d = du.load_matfile(file)['pp']
    else:
        m.save_matfile(file, path=path)
        d = du.load_matfile(file, variable_names=[path.strip('/')])[path.strip('/')]
    ctx.check('form', str(d['form']) == 'pp')
    for k, v in (('order', order), ('pieces', pieces), ('dim', dim)):
        ctx.equal(k, np.asarray(d[k], dtype=float)[()], float(v))
    ctx.equal('breaks', np.ravel(d['breaks']), br)
    ctx.equal('coefficients', np.reshape(d['coefs'], (pieces * dim, order)),
              np.array([[c[o, j, k] for o in range(order)] for j in range(pieces) for k in range(dim)]))


def cases(tier):
    import itertools
    top = 6 if tier == 'quick' else 9
    for order in range(1, top + 1):
        for pieces in (1, 2, 3, 5) if tier == 'quick' else (1, 2, 3, 4, 6, 9):
            for dim in (1, 3, 8):
                yield Case('ppdict-%d-%d-%d' % (order, pieces, dim), ppdict, order=order, pieces=pieces, dim=dim)
            for path in (None, '/other', 'model'):
                yield Case('base-%d-%d-%s' % (order, pieces, path), base, order=order, pieces=pieces, dim=3, path=path)
            for nt, ns in ((1, 1), (2, 3), (4, 4), (3, 6)):
                yield Case('roundtrip-%d-%d-%d-%d' % (order, pieces, nt, ns), roundtrip, order=order, pieces=pieces, nt=nt, ns=ns)
                yield Case('matlab-%d-%d-%d-%d' % (order, pieces, nt, ns), matlab, order=order, pieces=pieces, nt=nt, ns=ns)
    for sats in ((1,), (2,), (0,), (2, 2), (1, 1, 1), (3, 3), (1, 0, 2), (2, 1, 3, 2), (0, 0), (1,) * 9, (1, 2) * 5):
        tag = '.'.join(map(str, sats))
        if len(sats) <= 9:
            yield Case('roundtrip-sats-' + tag, roundtrip, sats=sats, twice=True, nt=1, ns=1)
        yield Case('matlab-sats-' + tag, matlab, sats=sats, nt=1, ns=1)
    for bins in ((1, 1), (1, 3), (3, 1), (2, 2)):
        for cal in (1, 2):
            kw = dict(bins=bins, cal=cal, nt=1, ns=1)
            yield Case('roundtrip-bins-%d%d%d' % (bins + (cal,)), roundtrip, twice=True, **kw)
            yield Case('matlab-bins-%d%d%d' % (bins + (cal,)), matlab, **kw)
    opt = ('static', 'ext', 'euler', 'cal', 'pre')
    for r in range(1, 6):
        for skip in itertools.combinations(opt, r):
            yield Case('roundtrip-without-' + '.'.join(skip), roundtrip, skip=skip, nt=1, ns=1)
            yield Case('matlab-without-' + '.'.join(skip), matlab, skip=skip, nt=1, ns=1)
    for sat in (['a', 'b'], ['a'], ('a', 'b', 'c'), ['a', 'b', 'c', 'd', 'e']):
        for sats in ((1, 2), (2, 1, 1)):
            yield Case('matlab-names-%d-%d' % (len(sat), len(sats)), matlab, satellites=sat, sats=sats, nt=1, ns=1)
