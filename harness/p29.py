"""P29: the configuration dictionary."""
import itertools
import os
from symx.harness import Case

BOUNDS = ('any numbers for the numeric parameters; every sequence of up to 3 (thorough: 4) operations out of: valid and invalid '
          'assignments to keys of every type, in-place changes of vectors, resets, temporary changes whose block contains the '
          'rest of the sequence and ends normally or by an exception; saving and loading any such state')
OUTSIDE = ('changes through dict methods that bypass the assignment (update, setdefault, del); keys of missing files; loading of '
           'files written by hand that stop at an invalid entry')

DOCUMENTED = {'params.r_surf': 6371.2, 'params.r_cmb': 3485.0, 'plots.figure_width': 6.3, 'params.cdf_to_mjd': 730485}
FLOATS = ('params.r_surf', 'params.r_cmb', 'plots.figure_width')
VECTORS = {'params.dipole': 3, 'params.ellipsoid': 2}
FILES = ('file.RC_index', 'file.GSM_spectrum', 'file.SM_spectrum', 'file.Earth_conductivity', 'file.shp_coastline')


class Boom(Exception):
    pass


def snapshot(ctx, cfg):
    """Values with vectors copied element by element."""
    out = {}
    for k, v in dict.items(cfg):
        out[k] = [v[i] for i in range(len(v))] if k in VECTORS else v
    return out


def compare(ctx, lab, cfg, want):
    np = ctx.np
    ctx.check(lab + 'keys', sorted(cfg) == sorted(want))
    for k, w in want.items():
        if k not in cfg:
            continue
        v = cfg[k]
        if k in VECTORS:
            ctx.check(lab + k + ' is a vector', isinstance(v, np.ndarray) and np.shape(v) == (VECTORS[k],))
            ctx.equal(lab + k, v, np.array(w), 1e-12)
        elif k in FLOATS:
            ctx.check(lab + k + ' is a number', not isinstance(v, (str, list, tuple, np.ndarray, type(None))))
            ctx.equal(lab + k, v, w, 1e-12)
        elif k == 'params.cdf_to_mjd':
            ctx.equal(lab + k, v, w, 1e-12)
        else:
            ctx.check(lab + k, v == w and (v is None or isinstance(v, str)))


def operations(ctx):
    """name -> (kind, key, value) with fresh symbolic values."""
    n = [0]

    def fresh(lo=-1e6, hi=1e6):
        n[0] += 1
        return ctx.var('v%d' % n[0], lo, hi)

    def vec(m):
        n[0] += 1
        return ctx.vec('v%d' % n[0], m, -1e5, 1e5)
    return fresh, vec


BAD = [('params.r_surf', 'abc'), ('params.r_cmb', '1.0 km'), ('plots.figure_width', 'wide'), ('params.dipole', [1.0, 2.0]),
       ('params.dipole', 5.0), ('params.dipole', [[1.0, 2.0, 3.0]]), ('params.dipole', ['a', 'b', 'c']),
       ('params.ellipsoid', [1.0, 2.0, 3.0]), ('params.ellipsoid', 'sphere'), ('params.CHAOS_version', 'seven'),
       ('params.CHAOS_version', 7), ('params.cdf_to_mjd', 'today'), ('file.SM_spectrum', '/nonexistent-verif/file'),
       ('params.r_srf', 1.0), ('r_surf', 1.0), ('params', {}), ('file.sm_spectrum', None), ('params.r_surf', None),
       ('params.r_surf', [1.0, 2.0]), ('params.cdf_to_mjd', None)]

OPS = ['float', 'text', 'vector', 'list', 'int', 'string', 'path', 'nopath', 'bad-value', 'bad-vector', 'bad-key', 'inplace',
       'inplace2', 'reset-float', 'reset-vector', 'reset-int', 'fullreset', 'context-float', 'context-vector',
       'context-bad', 'context-path', 'reset-bad']


def run(ctx, cfg, want, seq, how, fresh, vec, defaults):
    """Applies the operations; `want` is the expected state and is updated along."""
    np = ctx.np
    if not seq:
        if how == 'raise':
            raise Boom()
        if how == 'invalid':
            cfg['params.r_surf'] = 'abc'
        return
    op, rest = seq[0], seq[1:]
    if op == 'float':
        x = fresh()
        cfg['params.r_surf'] = x
        want['params.r_surf'] = x
    elif op == 'text':
        cfg['params.r_cmb'] = '3480.5'
        want['params.r_cmb'] = 3480.5
    elif op == 'vector':
        x = vec(3)
        cfg['params.dipole'] = x
        want['params.dipole'] = [x[i] for i in range(3)]
    elif op == 'list':
        x = vec(2)
        cfg['params.ellipsoid'] = [x[0], x[1]]
        want['params.ellipsoid'] = [x[0], x[1]]
    elif op == 'int':
        cfg['params.cdf_to_mjd'] = 730000
        want['params.cdf_to_mjd'] = 730000
    elif op == 'string':
        cfg['params.CHAOS_version'] = '8.1'
        want['params.CHAOS_version'] = '8.1'
    elif op == 'path':
        cfg['file.shp_coastline'] = os.devnull
        want['file.shp_coastline'] = os.devnull
    elif op == 'nopath':
        cfg['file.RC_index'] = None
        want['file.RC_index'] = None
    elif op == 'bad-value':
        ctx.raises('text for a number', lambda: cfg.__setitem__('params.r_surf', 'abc'), (ValueError, TypeError))
        ctx.raises('missing file', lambda: cfg.__setitem__('file.shp_coastline', '/nonexistent-verif/file'), OSError)
    elif op == 'bad-vector':
        x = vec(4)
        ctx.raises('vector of other length', lambda: cfg.__setitem__('params.dipole', x), (ValueError, TypeError))
        ctx.raises('number for a vector', lambda: cfg.__setitem__('params.dipole', x[0]), (ValueError, TypeError))
    elif op == 'bad-key':
        x = fresh()
        ctx.raises('unknown key', lambda: cfg.__setitem__('params.radius', x), KeyError)
    elif op == 'inplace':
        x = fresh()
        cfg['params.dipole'][1] = x
        want['params.dipole'][1] = x
    elif op == 'inplace2':
        x = fresh()
        cfg['params.ellipsoid'][...] = x
        want['params.ellipsoid'] = [x, x]
    elif op == 'reset-float':
        cfg.reset('params.r_surf')
        want['params.r_surf'] = defaults['params.r_surf']
    elif op == 'reset-vector':
        for k in VECTORS:
            cfg.reset(k)
            want[k] = list(defaults[k])
    elif op == 'reset-int':
        cfg.reset('params.cdf_to_mjd')
        cfg.reset('params.CHAOS_version')
        cfg.reset('plots.figure_width')
        for k in ('params.cdf_to_mjd', 'params.CHAOS_version', 'plots.figure_width'):
            want[k] = defaults[k]
    elif op == 'reset-bad':
        ctx.raises('reset of an unknown key', lambda: cfg.reset('params.radius'), KeyError)
    elif op == 'fullreset':
        cfg.fullreset()
        want.clear()
        want.update({k: list(v) if k in VECTORS else v for k, v in defaults.items()})
    elif op.startswith('context'):
        if op == 'context-bad':
            def enter():
                with cfg.context('params.r_cmb', 'abc'):
                    pass
            ctx.raises('context with an invalid value', enter, (ValueError, TypeError))

            def enter2():
                with cfg.context('params.radius', 1.0):
                    pass
            ctx.raises('context with an unknown key', enter2, KeyError)
        else:
            key = {'context-float': 'params.r_surf', 'context-vector': 'params.dipole', 'context-path': 'file.RC_index'}[op]
            x = {'context-float': fresh, 'context-vector': lambda: vec(3), 'context-path': lambda: os.devnull}[op]()
            v = [x[i] for i in range(3)] if op == 'context-vector' else x
            old = want[key]
            try:
                with cfg.context(key, x):
                    want[key] = v
                    if not rest:
                        compare(ctx, 'inside: ', cfg, want)
                    run(ctx, cfg, want, rest, how, fresh, vec, defaults)
            finally:
                want[key] = list(old) if key in VECTORS else old
                compare(ctx, 'after the block: ', cfg, want)
            return
    if not rest:            # longer prefixes are sequences of their own
        compare(ctx, 'after %s: ' % op, cfg, want)
    run(ctx, cfg, want, rest, how, fresh, vec, defaults)


def setup(ctx):
    cu = ctx.mod('config_utils')
    cfg = cu.basicConfig
    defaults = snapshot(ctx, cfg)
    for k, v in DOCUMENTED.items():
        ctx.equal('documented default of ' + k, defaults[k], v, 1e-12)
    ctx.check('same keys as the table of defaults', sorted(cfg) == sorted(cu.DEFAULTS))
    return cfg, defaults


def history(ctx, seqs, how):
    seqs = [s.split() for s in seqs.split(';')]
    cfg, defaults = setup(ctx)
    fresh, vec = operations(ctx)
    pristine = {k: list(v) if k in VECTORS else v for k, v in defaults.items()}
    for seq in seqs:
        want = snapshot(ctx, cfg)
        try:
            run(ctx, cfg, want, list(seq), how, fresh, vec, pristine)
        except (Boom, ValueError):
            pass
        compare(ctx, 'end: ', cfg, want)
        cfg.fullreset()
        compare(ctx, 'after full reset: ', cfg, pristine)


def invalid(ctx, key, value):
    """An invalid assignment raises and changes nothing."""
    cfg, defaults = setup(ctx)
    x = ctx.var('x', 1.0, 1e4)
    cfg['params.r_surf'] = x
    want = snapshot(ctx, cfg)
    ctx.raises('assignment', lambda: cfg.__setitem__(key, value), Exception)
    compare(ctx, '', cfg, want)


def valid(ctx, key):
    """Any number is stored as given."""
    cfg, defaults = setup(ctx)
    want = snapshot(ctx, cfg)
    if key in VECTORS:
        x = ctx.vec('x', VECTORS[key], -1e6, 1e6)
        for form in (x, [x[i] for i in range(VECTORS[key])], tuple(x[i] for i in range(VECTORS[key]))):
            cfg[key] = form
            want[key] = [x[i] for i in range(VECTORS[key])]
            compare(ctx, type(form).__name__ + ' ', cfg, want)
    elif key == 'params.cdf_to_mjd':
        for v in (0, -5, 730485, '12', 7.0):
            cfg[key] = v
            ctx.check('integer', type(cfg[key]) is int and cfg[key] == int(v))
            want[key] = int(v)
            compare(ctx, '', cfg, want)
    elif key in FLOATS:
        x = ctx.var('x', -1e6, 1e6)
        cfg[key] = x
        want[key] = x
        compare(ctx, '', cfg, want)
        for v in (5, '5', '5.0', ' 5 '):
            cfg[key] = v
            want[key] = 5.0
            compare(ctx, repr(v) + ' ', cfg, want)
            ctx.check('stored as a float', type(cfg[key]) is float)
    else:
        for v in (os.devnull, None, 'None', os.sep):
            cfg[key] = v
            want[key] = None if v == 'None' else v
            compare(ctx, '', cfg, want)


def version(ctx):
    cfg, defaults = setup(ctx)
    for v in ('7.18', '8.0', '10.02'):
        cfg['params.CHAOS_version'] = v
        ctx.check('version', cfg['params.CHAOS_version'] == v)
    for v in ('7', 'seven', '', 'latest', 'x.y'):
        ctx.raises('version ' + v, lambda: cfg.__setitem__('params.CHAOS_version', v), ValueError)
        ctx.check('unchanged', cfg['params.CHAOS_version'] == '10.02')


def files(ctx, changed, cls):
    """Saving and loading returns the same values."""
    cu, np = ctx.mod('config_utils'), ctx.np
    cfg, defaults = setup(ctx)
    cfg['file.RC_index'] = None
    for k in changed.split():
        k = {'f': 'params.r_surf', 'c': 'params.r_cmb', 'w': 'plots.figure_width', 'd': 'params.dipole',
             'e': 'params.ellipsoid', 'i': 'params.cdf_to_mjd', 'v': 'params.CHAOS_version', 'p': 'file.SM_spectrum'}[k]
        if k in VECTORS:
            cfg[k] = ctx.vec('x' + k[-2:], VECTORS[k], -1e6, 1e6)
        elif k in FLOATS:
            cfg[k] = ctx.var('x' + k[-2:], -1e6, 1e6)
        else:
            cfg[k] = {'params.cdf_to_mjd': 12345, 'params.CHAOS_version': '9.3', 'file.SM_spectrum': os.devnull}[k]
    want = snapshot(ctx, cfg)
    name = ctx.tmp('config.txt')
    cfg.save(name)
    compare(ctx, 'after saving: ', cfg, want)
    if cls == 'same':
        cfg.fullreset()
        cfg['params.dipole'] = [1.0, 2.0, 3.0]
        cfg['params.cdf_to_mjd'] = 1
        other = cfg
    else:
        other = cu.BasicConfig()
    other.load(name)
    compare(ctx, 'loaded: ', other, want)


def partial(ctx):
    """A file with some keys changes these only; empty files warn; invalid files are refused."""
    import json
    cfg, defaults = setup(ctx)
    x = ctx.var('x', 1.0, 1e4)
    cfg['params.r_cmb'] = x
    want = snapshot(ctx, cfg)
    cu = ctx.mod('config_utils')
    name = ctx.tmp('part.txt')
    part = cu.BasicConfig()
    part['params.r_surf'] = x + 1.0
    part.save(name)
    cfg.load(name)
    want['params.r_surf'] = x + 1.0
    compare(ctx, 'part: ', cfg, want)
    cu.BasicConfig().save(name)
    _, w = ctx.warned(lambda: cfg.load(name))
    ctx.check('warning of an empty file', len(w) == 1)
    compare(ctx, 'empty: ', cfg, want)


def cases(tier):
    depth = 2 if tier == 'quick' else 3
    for key in FLOATS + tuple(VECTORS) + FILES + ('params.cdf_to_mjd',):
        yield Case('valid-' + key, valid, key=key)
    for i, (key, value) in enumerate(BAD):
        yield Case('invalid-%d-%s' % (i, key), invalid, key=key, value=value)
    yield Case('version', version)
    for cls in ('same', 'new'):
        for ch in ('', 'f', 'f c w', 'd', 'e d', 'i v p', 'f c w d e i v p'):
            yield Case('files-%s-%s' % (cls, ch), files, changed=ch, cls=cls)
    yield Case('partial', partial)
    chunk = 22
    for how in ('return', 'raise', 'invalid'):
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            allseq = []
            for first in OPS:
                if n == 1:
                    allseq.append([first])
                    continue
                for rest in itertools.product(OPS, repeat=n - 1):
                    seq = [first] + list(rest)
                    if n == 3 and tier == 'quick' and not (
                            (first.startswith('context') or 'inplace' in first) and
                            any(s.startswith(('context', 'inplace', 'reset', 'full')) for s in rest)):
                        continue
                    if n == 4 and sum(s.startswith(('context', 'inplace')) for s in seq) < 3:
                        continue
                    if how != 'return' and not any(s.startswith('context') for s in seq):
                        continue
                    allseq.append(seq)
            for k in range(0, len(allseq), chunk):
                yield Case('history-%s-%d-%04d' % (how, n, k), history,
                           seqs=';'.join(' '.join(s) for s in allseq[k:k + chunk]), how=how)
