"""In-memory files: text with symbolic numbers as tokens, MAT/HDF5/npz containers as value stores."""
import builtins
import io
import os
import re
import types
import numpy as np
from . import core, arr
from .arr import SArr, sarr

VFS = {}
TOK = {}
OPEN, CLOSE = '\ue000', '\ue001'
TOKRE = re.compile(OPEN + r'(\d+)' + CLOSE)


def reset():
    VFS.clear()
    TOK.clear()
    PLACE.clear()


class VFile(io.StringIO):
    def __init__(self, key, mode):
        self.key, self.w = key, ('w' in mode or 'a' in mode or '+' in mode)
        super().__init__(VFS.get(key, '') if 'w' not in mode else '')
        if 'a' in mode:
            self.seek(0, 2)

    def close(self):
        if self.w and not self.closed:
            VFS[self.key] = self.getvalue()
        super().close()

    def __exit__(self, *a):
        self.close()


def vkey(p):
    return os.path.abspath(os.fspath(p))


def vopen(file, mode='r', *a, **k):
    key = vkey(file)
    if 'w' in mode or 'a' in mode or key in VFS:
        if 'b' in mode:
            raise core.EngineError('binary file')
        return VFile(key, mode)
    return builtins.open(file, mode, *a, **k)


_SPEC = re.compile(r'^(?P<fill>.?[<>=^])?(?P<sign>[+\- ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<comma>,)?'
                   r'(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$')


def token(v):
    i = len(TOK)
    TOK[i] = v
    return OPEN + str(i) + CLOSE


def format_sym(s, spec):
    if not spec:
        return token(s)
    m = _SPEC.match(spec)
    if m is None:
        raise core.EngineError('format spec %r' % spec)
    t = m.group('type') or 'g'
    width = int(m.group('width') or 0)
    prec = m.group('prec')
    lo, hi = core.ipoly(s.t)
    if t in 'fF':
        p = int(prec) if prec is not None else 6
        body = max(len(format(lo, '.%df' % p)), len(format(hi, '.%df' % p))) if np.isfinite(lo + hi) else 99
        v = rounded(s, 10.0 ** -p)
    elif t in 'eE':
        p = int(prec) if prec is not None else 6
        body = p + 8
        mag = max(abs(lo), abs(hi))
        v = rounded_rel(s, 10.0 ** -p, mag)
    elif t in 'gG':
        p = int(prec) if prec is not None else (6 if m.group('type') else 17)
        body = p + 8
        mag = max(abs(lo), abs(hi))
        v = s if p >= 17 else rounded_rel(s, 10.0 ** -(p - 1), mag)
    elif t == 'd':
        body, v = 12, s
    else:
        raise core.EngineError('format type ' + t)
    pad = ' ' * max(0, width - body)
    if m.group('fill') and m.group('fill')[-1] == '<':
        return token(v) + pad
    return pad + token(v)


def rounded(s, unit):
    """s rounded to a multiple of unit: s + e with |e| <= unit/2."""
    key = ('round', unit, tuple(sorted(s.t.items())))
    r = core.ST.multi.get(key)
    if r is None:
        e = core.ST.atom('var', 'rnd%d' % len(core.ST.atoms), lo=-unit / 2, hi=unit / 2, data=('round', s.t, unit))
        core.ST.rnd = getattr(core.ST, 'rnd', [])
        r = core.Sym(core.padd(s.t, {((e.i, 1),): core.K(1)}))
        core.ST.multi[key] = r
    return r


def rounded_rel(s, rel, mag):
    return rounded(s, rel * mag * 10 if np.isfinite(mag) and mag > 0 else rel)


def parse_token(t):
    m = TOKRE.fullmatch(t)
    if m:
        return TOK[int(m.group(1))]
    m = re.fullmatch(r'([+-]?)' + TOKRE.pattern + r'(?:[eE]([+-]?\d+))?', t)
    if m:
        # sign in front or exponent behind a symbolic number
        v = TOK[int(m.group(2))]
        if m.group(3):
            v = v * 10.0**int(m.group(3))
        return -v if m.group(1) == '-' else v
    if OPEN in t:
        raise core.EngineError('merged symbolic tokens %r' % t)
    return None


def fromstring(s, dtype=float, sep=' '):
    dt = arr.normdt(dtype)
    if sep.strip():
        parts = s.split(sep.strip())
    else:
        parts = s.split()
    vals = []
    for t in parts:
        t = t.strip()
        if not t:
            continue
        v = parse_token(t)
        vals.append(v if v is not None else np.float64(t))
    return sarr(vals, dtype=dt) if vals else arr.zeros(0, dt)


def loadtxt(fname, *a, **kw):
    if isinstance(fname, str) and vkey(fname) in VFS or hasattr(fname, 'read') or isinstance(fname, list):
        text = VFS[vkey(fname)] if isinstance(fname, str) else \
            (fname.read() if hasattr(fname, 'read') else '\n'.join(fname))
        if OPEN in text:
            com = kw.get('comments', '#')
            skip = kw.get('skiprows', kw.get('skip_header', 0))
            delim = kw.get('delimiter')
            rows = []
            for n, line in enumerate(text.splitlines()):
                if n < skip:
                    continue
                line = line.split(com)[0] if com else line
                if not line.strip():
                    continue
                rows.append([fromstring(t.strip())[0] for t in (line.split(delim) if delim else line.split())])
            if kw.get('max_rows'):
                rows = rows[:kw['max_rows']]
            r = sarr(rows)
            uc = kw.get('usecols')
            if uc is not None:
                r = r[:, uc if isinstance(uc, int) else list(uc)]
            r = r.squeeze() if kw.get('ndmin', 0) < 2 else r
            if kw.get('unpack'):
                r = r.T
            return r
        fname = io.StringIO(text)
    if 'dtype' in kw:
        kw['dtype'] = arr.normdt(kw['dtype'])
    f = np.genfromtxt if 'skip_header' in kw or 'names' in kw else np.loadtxt
    return arr.wrap(f(fname, *a, **kw))


def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
    raise core.EngineError('savetxt')


class NpzFile(dict):
    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def npload(fname, *a, **kw):
    key = vkey(fname)
    if key in VFS:
        return NpzFile({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in VFS[key].items()})
    r = np.load(fname, *a, **kw)
    if isinstance(r, np.ndarray):
        return arr.wrap(r)
    return NpzFile({k: arr.wrap(r[k]) for k in r.files})


def npsavez(fname, *args, **kw):
    d = {'arr_%d' % i: sarr(a).copy() for i, a in enumerate(args)}
    d.update({k: sarr(v).copy() for k, v in kw.items()})
    fname = os.fspath(fname)
    VFS[vkey(fname if fname.endswith('.npz') else fname + '.npz')] = d


# ------------------------------------------------------------------ MAT files through hdf5storage

def object_array(x):
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype == object:
        return x.copy()
    if isinstance(x, (list, tuple)):
        items = [sarr(v) if isinstance(v, (list, tuple)) else v for v in x]
        shapes = {np.shape(v) if not isinstance(v, dict) else None for v in items}
        if len(shapes) == 1 and None not in shapes and items:
            # numpy makes a full object array of equal-shaped entries
            sh = shapes.pop()
            o = np.empty((len(items),) + sh, dtype=object)
            for i, v in enumerate(items):
                o[i] = arr.plain(v) if isinstance(v, np.ndarray) and sh else v
            return o
        o = np.empty((len(items),), dtype=object)
        for i, v in enumerate(items):
            o[i] = v
        return o
    if isinstance(x, SArr):
        return arr.plain(x).copy()
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def mat_value(v):
    """What loadmat returns for a value written with matlab_compatible=True."""
    if isinstance(v, dict):
        # structs come back as structured arrays of object fields
        names = list(v)
        vals = [mat_value(v[k]) for k in names]
        r = np.empty((1, 1), dtype=[(str(n), object) for n in names])
        for n, x in zip(names, vals):
            r[str(n)][0, 0] = x
        return r
    if isinstance(v, SArr):
        a = v.copy()
        return a.reshape((1, 1)) if a.ndim == 0 else (a.reshape((1, -1)) if a.ndim == 1 else a)
    if isinstance(v, np.ndarray) and v.dtype == object:
        o = np.empty(v.shape, dtype=object)
        for idx in np.ndindex(*v.shape):
            o[idx] = mat_value(v[idx])
        if o.ndim == 0:
            return o.reshape((1, 1))
        return o.reshape((1, -1)) if o.ndim == 1 else o
    if isinstance(v, (list, tuple)):         # cell
        o = np.empty((1, len(v)), dtype=object)
        for i, x in enumerate(v):
            o[0, i] = mat_value(x)
        return o
    if arr.issym(v) or core.is_num(v) or isinstance(v, (complex, np.complexfloating)):
        return sarr(v).reshape((1, 1))
    if isinstance(v, str):
        return np.array([v])
    if v is None:
        return arr.zeros((0,))
    if isinstance(v, np.ndarray):
        return v.reshape((1, -1)) if v.ndim < 2 else v
    raise core.EngineError('MAT value %r' % type(v))


def stored(v):
    """Value as hdf5storage gives it back (shapes and Python types are kept in the file)."""
    if isinstance(v, dict):
        return {k: stored(x) for k, x in v.items()}
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, np.ndarray):
        o = v.copy()
        if v.dtype == object:
            for idx in np.ndindex(*v.shape):
                o[idx] = stored(v[idx])
        return arr.wrap(o) if o.dtype.kind in 'biufc' else o
    if isinstance(v, list):
        return [stored(x) for x in v]
    if isinstance(v, tuple):
        return tuple(stored(x) for x in v)
    return v


def hdf_write(data, path='/', filename='data.h5', truncate_existing=False, matlab_compatible=None, **kw):
    key = vkey(filename)
    d = VFS.setdefault(key, {}) if not truncate_existing else {}
    VFS[key] = d
    parts = [p for p in path.split('/') if p]
    if not parts:
        d.update({k: stored(v) for k, v in data.items()})
    elif len(parts) == 1:
        d[parts[0]] = stored(data)
    elif len(parts) == 2:
        d.setdefault(parts[0], Group())[parts[1]] = stored(data)
    else:
        raise core.EngineError('MAT path ' + path)


class Group(dict):
    """HDF5 group made by writing its members one by one: read back as a structured array."""

    def struct(self):
        r = np.empty((1,), dtype=[(k, object, v.shape) if isinstance(v, np.ndarray) else (k, object) for k, v in self.items()])
        for k, v in self.items():
            if isinstance(v, SArr) or not isinstance(v, np.ndarray) or v.dtype != object:
                raise core.EngineError('number in a group')
            for idx in np.ndindex(*v.shape):
                r[k][(0,) + idx] = v[idx]
        return r


def mat_write(path, data):
    """File as MATLAB itself writes it."""
    VFS[vkey(path)] = {k: mat_value(v) for k, v in data.items()}


def hdf_loadmat(file_name, mdict=None, appendmat=True, variable_names=None, **kw):
    key = vkey(file_name)
    if key not in VFS:
        import hdf5storage
        r = hdf5storage.loadmat(file_name, variable_names=variable_names, **kw)
        return {k: wrap_mat(v) for k, v in r.items()}
    d = VFS[key]
    out = {}
    names = variable_names if variable_names is not None else list(d)
    if isinstance(names, str):
        names = [names]
    for n in names:
        if n in d:
            out[n] = d[n].struct() if isinstance(d[n], Group) else stored(d[n])
    return out


def wrap_mat(v):
    if isinstance(v, np.ndarray) and v.dtype.names:
        r = np.empty(v.shape, dtype=[(n, object) for n in v.dtype.names])
        for n in v.dtype.names:
            for idx in np.ndindex(*v.shape):
                r[n][idx] = wrap_mat(v[n][idx])
        return r
    if isinstance(v, np.ndarray) and v.dtype == object:
        o = np.empty(v.shape, dtype=object)
        for idx in np.ndindex(*v.shape):
            o[idx] = wrap_mat(v[idx])
        return o
    return arr.wrap(v)


hdf = types.ModuleType('hdf5storage')
hdf.write = hdf_write
hdf.loadmat = hdf_loadmat
hdf.savemat = lambda file_name, mdict, **kw: hdf_write(mdict, '/', file_name, truncate_existing=True)


class H5File:
    def __init__(self, name, mode='r'):
        self.key, self.mode = vkey(name), mode
        if self.key in VFS and 'w' not in mode:
            if not isinstance(VFS[self.key], dict):
                raise OSError('Unable to open file (file signature not found)')
            self.d = VFS[self.key]
            self.real = None
        elif 'w' in mode:
            self.d = VFS[self.key] = {}
            self.real = None
        else:
            import h5py
            self.real = h5py.File(name, mode)
            self.d = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.real is not None:
            self.real.close()

    close = __exit__

    def __getitem__(self, k):
        if self.real is not None:
            return arr.wrap(self.real[k][...])
        return self.d[k]

    def keys(self):
        return (self.real if self.real is not None else self.d).keys()

    def __contains__(self, k):
        return k in self.keys()

    @property
    def filename(self):
        return self.key if self.real is None else self.real.filename

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if self.d is None or 'w' not in self.mode:
            raise core.EngineError('HDF5 file opened with mode %s' % self.mode)
        if data is not None:
            if isinstance(data, (bytes, str)) or np.asarray(data).dtype.kind in 'SU':
                v = np.array(data)
            else:
                v = sarr(data).copy()
            if dtype is not None:
                v = v.astype(dtype)
        else:
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            v = np.zeros(shape, dtype) if dtype is not None and np.dtype(dtype).kind == 'S' else sarr(np.zeros(shape, dtype or 'f4'))
        self.d[name] = v
        return v


h5 = types.ModuleType('h5py')
h5.File = H5File


# ------------------------------------------------------------------ pandas tables of numbers

class Column:
    def __init__(self, values):
        self.values = values

    def astype(self, t):
        return Column(self.values.astype(t))

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def iloc(self):
        return self.values

    loc = iloc

    def _op(self, f, o):
        return Column(f(self.values, o.values if isinstance(o, Column) else o))

    def __add__(self, o):
        return self._op(lambda a, b: a + b, o)

    def __sub__(self, o):
        return self._op(lambda a, b: a - b, o)

    def __mul__(self, o):
        return self._op(lambda a, b: a * b, o)

    def __truediv__(self, o):
        return self._op(lambda a, b: a / b, o)

    __radd__, __rmul__ = __add__, __mul__

    def __array__(self, *a, **k):
        return self.values

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]


class Frame(dict):
    @property
    def columns(self):
        return list(self)

    def drop(self, labels=None, axis=0, columns=None, inplace=False):
        names = columns if columns is not None else labels
        if columns is None and axis not in (1, 'columns'):
            raise core.EngineError('drop rows of a table')
        names = [names] if isinstance(names, str) else list(names)
        out = self if inplace else Frame(self)
        for n in names:
            del out[n]
        return None if inplace else out

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)):
            return Frame({n: dict.__getitem__(self, n) for n in k})
        return dict.__getitem__(self, k)

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def read_csv(filepath, sep=',', comment=None, dtype=None, names=None, **kw):
    key = vkey(filepath) if isinstance(filepath, (str, os.PathLike)) else None
    if key not in VFS:
        import pandas
        return pandas.read_csv(filepath, sep=sep, comment=comment, dtype=dtype, names=names, **kw)
    if kw.pop('index_col', None) is not None or kw.pop('header', None) is not None or names is None:
        raise core.EngineError('read_csv options %s' % sorted(kw))
    skip = kw.get('skiprows') or 0
    rows = []
    for line in VFS[key].splitlines()[skip:]:
        line = line.split(comment)[0] if comment else line
        if line.strip():
            rows.append(re.split(sep, line.strip()) if sep != ' ' else line.split())
    out = Frame()
    for i, n in enumerate(names):
        col = [r[i] for r in rows]
        want = dtype.get(n) if isinstance(dtype, dict) else dtype
        if want in ('category', str, 'str', object, 'object'):
            out[n] = Column(np.array(col))
            continue
        if want is not None:
            out[n] = Column(sarr([parse_token(t) if OPEN in t else np.float64(t) for t in col], dtype=arr.F8))
            continue
        try:
            out[n] = Column(sarr([parse_token(t) if OPEN in t else np.float64(t) for t in col], dtype=arr.F8))
        except ValueError:
            out[n] = Column(np.array(col))
    return out


class Pandas(types.ModuleType):
    def __getattr__(self, k):
        import pandas
        return getattr(pandas, k)


pd = Pandas('pandas')
pd.read_csv = read_csv


def to_datetime(arg, **kw):
    import pandas
    if isinstance(arg, Column):
        arg = arg.values
    if arr.issym(arg) or any(arr.issym(x) for x in np.ravel(np.asarray(arg, dtype=object))):
        raise core.EngineError('dates of symbolic numbers')
    return pandas.to_datetime(np.asarray(arg, dtype=float), **kw)


pd.to_datetime = to_datetime


# ------------------------------------------------------------------ json (numbers as unique floats standing for the symbols)

PLACE = {}


def _place(v, default):
    import json
    if isinstance(v, core.MinMax):
        v = v.force()
    if isinstance(v, core.Sym):
        x = 1.7e-300 * (len(PLACE) + 1)
        PLACE[x] = v
        return x
    if isinstance(v, core.SBool):
        return bool(v)
    if isinstance(v, SArr):
        if default is None:
            raise TypeError('Object of type ndarray is not JSON serializable')
        return _place(default(v), default)
    if isinstance(v, dict):
        return {k: _place(x, default) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_place(x, default) for x in v]
    if v is None or isinstance(v, (str, int, float)):
        return v
    if default is None:
        raise TypeError('Object of type %s is not JSON serializable' % type(v).__name__)
    return _place(default(v), default)


def _unplace(v):
    if isinstance(v, float) and not isinstance(v, bool):
        return PLACE.get(v, v)
    if isinstance(v, dict):
        return {k: _unplace(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_unplace(x) for x in v]
    return v


def _jdumps(obj, *a, default=None, cls=None, **kw):
    import json
    if cls is not None:
        d = cls().default
        default = d
    return json.dumps(_place(obj, default), *a, **kw)


def _jloads(s, *a, **kw):
    import json
    return _unplace(json.loads(s, *a, **kw))


class _Json(types.ModuleType):
    def __getattr__(self, n):
        import json
        return getattr(json, n)


js = _Json('json')
js.dumps, js.loads = _jdumps, _jloads
js.dump = lambda obj, f, *a, **k: f.write(_jdumps(obj, *a, **k)) and None
js.load = lambda f, *a, **k: _jloads(f.read(), *a, **k)
