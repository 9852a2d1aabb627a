"""Stand-in for the numpy module inside the symbolically executed package."""
import math
import types
import numpy as np
from . import arr, core
from .arr import SArr, sarr, wrap, deconc, any_sym, FUNCS, zeros, issym


class _Meta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._insts):
            return True
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, sub):
        r = getattr(sub, '_real', sub)
        return issubclass(r, cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __eq__(cls, o):
        return o is cls._real or o is cls or getattr(o, '_real', None) is cls._real

    def __hash__(cls):
        return hash(cls._real)


class SymFloat(metaclass=_Meta):
    _real, _insts, dtype = float, (core.Sym, core.MinMax), np.dtype(float)
    __name__ = 'float'

    def __new__(cls, x=0.0):
        if isinstance(x, (core.Sym, core.MinMax)):
            return x
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            return SymFloat(arr.plain(x).reshape(-1)[0])
        if isinstance(x, core.SBool):
            return float(bool(x))
        if isinstance(x, str):
            from . import fileio
            if fileio.OPEN in x:
                return fileio.parse_token(x.strip())
        return float(x)

    fromhex = float.fromhex


class SymInt(metaclass=_Meta):
    _real, _insts, dtype = int, (), np.dtype(int)

    def __new__(cls, x=0, *a):
        if isinstance(x, core.Sym):
            r = core.trunc(x)
            return r if issym(r) else int(r)
        if isinstance(x, core.MinMax):
            return SymInt(x.force())
        if isinstance(x, core.CSym):
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            return SymInt(arr.plain(x).reshape(-1)[0])
        return int(x, *a)

    from_bytes = int.from_bytes


class SymComplex(metaclass=_Meta):
    _real, _insts, dtype = complex, (), np.dtype(complex)

    def __new__(cls, x=0, y=0):
        if issym(x) or issym(y):
            return core.add(x, core.mul(y, 1j)) if issym(y) or y else core.tocsym(x)
        return complex(x, y) if y else complex(x)


class SymBool(metaclass=_Meta):
    _real, _insts, dtype = bool, (), np.dtype(bool)

    def __new__(cls, x=False):
        return bool(x)


def _np_scalar(real):
    class T(metaclass=_Meta):
        _real, _insts = real, ()
        dtype = np.dtype(real)

        def __new__(cls, x=0):
            if issym(x):
                return arr.cast(x, np.dtype(real))
            if isinstance(x, SArr):
                return x.astype(real)
            if isinstance(x, (list, tuple)):
                return sarr(x, dtype=real)
            return real(x)
    T.__name__ = real.__name__
    return T


class _UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *args, **kw):
        if len(args) > self._uf.nin:
            kw['out'] = args[self._uf.nin]
            args = args[:self._uf.nin]
        args = [sarr(a) if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and not isinstance(a, SArr))
                else a for a in args]
        if kw:
            if 'dtype' in kw:
                kw['dtype'] = arr.normdt(kw['dtype'])
            args2 = list(args)
            if not any(isinstance(a, SArr) for a in args2):
                args2[0] = sarr(args2[0])
            r = SArr.__array_ufunc__(args2[0], self._uf, '__call__', *args2, **kw)
            return r
        return arr.apply(self._uf, args)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        return arr.reduce_(self.__name__, a, axis, keepdims)

    def accumulate(self, a, axis=0, **kw):
        return arr.accumulate(self.__name__, a, axis)

    def outer(self, a, b, **kw):
        a, b = sarr(a), sarr(b)
        return arr.apply(self._uf, (a.reshape(a.shape + (1,) * b.ndim), b))

    def at(self, a, idx, b=None):
        return SArr.__array_ufunc__(a, self._uf, 'at', a, idx, b)

    def __getattr__(self, n):
        return getattr(self._uf, n)


def _prep(x):
    if isinstance(x, SArr) or issym(x):
        return x
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in arr.NUMERIC:
        return sarr(x)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        if any_sym(x) or any(isinstance(y, np.ndarray) for y in x):
            return type(x)(_prep2(y) for y in x)
        return x
    r = getattr(x, '_real', None)
    if r is not None and isinstance(x, type):
        return r
    return x


def _prep2(y):
    return sarr(y) if issym(y) else _prep(y)


def _fn(real, key):
    def f(*args, **kw):
        over = FUNCS.get(key)
        if over is not None:
            args = [_prep(a) for a in args]
            kw = {k: _prep(v) for k, v in kw.items()}
            r = over(*args, **kw)
            return r
        if not any_sym((args, kw)):
            return wrap(real(*deconc(list(args)), **deconc(kw)))
        args = [sarr(a) if issym(a) else _prep(a) for a in args]
        kw = {k: (sarr(v) if issym(v) else _prep(v)) for k, v in kw.items()}
        r = wrap(real(*args, **kw))
        return r
    f.__name__ = getattr(real, '__name__', key)
    return f


class Shim(types.ModuleType):
    def __init__(self, real, prefix=''):
        super().__init__('np_shim')
        self.__dict__['_realmod'] = real
        self.__dict__['_prefix'] = prefix
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if not self._prefix and name in SPECIAL:
            v = SPECIAL[name]
        else:
            try:
                real = getattr(self._realmod, name)
            except AttributeError:
                raise AttributeError("module 'numpy' has no attribute %r" % name)
            if isinstance(real, np.ufunc):
                v = _UfuncProxy(real)
            elif isinstance(real, types.ModuleType):
                if name in ('fft', 'linalg', 'polynomial', 'legendre', 'char', 'strings', 'random', 'ma', 'lib',
                            'stride_tricks', 'polyutils', 'exceptions', 'testing'):
                    v = Shim(real, self._prefix + name + '.') if name != 'exceptions' else real
                else:
                    v = real
            elif isinstance(real, type):
                v = real
                if issubclass(real, np.generic) and real in SCALARS:
                    v = _np_scalar(real)
            elif callable(real):
                v = _fn(real, self._prefix + name)
            else:
                v = real
        c[name] = v
        return v


SCALARS = {np.float64, np.float32, np.int64, np.int32, np.int16, np.int8, np.complex128, np.bool_, np.uint8,
           np.intp, np.uint64, np.uint32}


def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **kw):
    dt = arr.normdt(dtype)
    if dt is not None and dt.kind == 'O':
        from . import fileio
        return fileio.object_array(x)
    r = sarr(x, dtype, copy=bool(copy))
    if isinstance(r, SArr) or isinstance(r, np.ndarray):
        while r.ndim < ndmin:
            r = r[None]
    return r


def asarray(x, dtype=None, order=None, **kw):
    dt = arr.normdt(dtype)
    if dt is not None and dt.kind == 'O':
        from . import fileio
        return fileio.object_array(x)
    return sarr(x, dtype)


def empty(shape, dtype=None, **kw):
    """Uninitialised memory: distinct symbolic garbage."""
    r = zeros(shape, dtype)
    if r.dtype.kind in 'fc' and core.ST.path is not None:
        p = arr.plain(r)
        pf = p.reshape(-1)
        for i in range(pf.size):
            pf[i] = np.float64('nan') if r.dtype.kind == 'f' else np.complex128(complex('nan'))
    return r


def eye(N, M=None, k=0, dtype=float, **kw):
    return wrap(np.eye(N, M, k, dtype=arr.normdt(dtype)))


def broadcast(*args):
    shapes = [np.shape(a) for a in args]
    try:
        return np.broadcast(*[np.broadcast_to(np.int8(0), s) for s in shapes])
    except ValueError as e:
        raise ValueError('shape mismatch: objects cannot be broadcast to a single shape.') from e


def issubdtype(a, b):
    return np.issubdtype(arr.normdt(a) if not isinstance(a, type) or hasattr(a, '_real') else a,
                         getattr(b, '_real', b))


def shape(a):
    if issym(a):
        return ()
    if isinstance(a, np.ndarray):
        return a.shape
    return np.shape(a)


def ndim(a):
    return 0 if issym(a) else np.ndim(a)


def size(a, axis=None):
    return 1 if issym(a) else np.size(a, axis)


def isscalar(a):
    return True if issym(a) else np.isscalar(a)


def angle(z, deg=False):
    z = z if issym(z) else sarr(z)
    r = arr.ufunc_call('arctan2', arr._imag(z), arr._real(z))
    return arr.ufunc_call('rad2deg', r) if deg else r


def atleast_1d(*xs):
    r = [sarr(x) for x in xs]
    r = [x.reshape(1) if x.ndim == 0 else x for x in r]
    return r[0] if len(r) == 1 else r


def vectorize(f, *a, **k):
    def g(*args):
        args = [sarr(x) for x in args]
        b = np.broadcast_arrays(*[arr.plain(x) for x in args])
        o = np.empty(b[0].shape, dtype=object)
        for idx in np.ndindex(*o.shape):
            o[idx] = f(*[x[idx] for x in b])
        return wrap(o) if o.ndim else o[()]
    return g


def frombuffer_tokens(s, dtype=float, sep='', count=-1):
    from . import fileio
    return fileio.fromstring(s, dtype, sep)


def loadtxt(fname, *a, **kw):
    from . import fileio
    return fileio.loadtxt(fname, *a, **kw)


def load(fname, *a, **kw):
    from . import fileio
    return fileio.npload(fname, *a, **kw)


def savez(fname, *a, **kw):
    from . import fileio
    return fileio.npsavez(fname, *a, **kw)


def savetxt(fname, *a, **kw):
    from . import fileio
    return fileio.savetxt(fname, *a, **kw)


class _NdarrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, s):
        return issubclass(s, np.ndarray)


def fromiter(it, dtype, count=-1):
    return sarr(list(it), dtype)


def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = arr.where(where, src, dst)


def putmask(a, mask, values):
    a[mask] = sarr(values)[mask] if np.ndim(values) else values


def fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v if np.ndim(v) == 0 else v[i]


def identity(n, dtype=None):
    return eye(n, dtype=dtype or float)


def stackers(name):
    def f(tup, **kw):
        tup = [sarr(t) for t in tup]
        if name == 'vstack':
            return arr.concatenate([t.reshape(1, -1) if t.ndim < 2 else t for t in tup], 0)
        if name == 'column_stack':
            return arr.concatenate([t.reshape(-1, 1) if t.ndim < 2 else t for t in tup], 1)
        if name == 'dstack':
            tup = [t.reshape((1, -1, 1)) if t.ndim == 1 else (t[..., None] if t.ndim == 2 else t) for t in tup]
            return arr.concatenate(tup, 2)
        tup = [t.reshape(1) if t.ndim == 0 else t for t in tup]
        return arr.concatenate(tup, 0 if tup[0].ndim == 1 else 1)
    return f


class _R:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        for k in key:
            if isinstance(k, slice):
                st = k.step or 1
                if isinstance(st, complex):
                    out.append(arr.linspace(k.start, k.stop, int(abs(st))))
                else:
                    out.append(arr.arange(k.start or 0, k.stop, st))
            else:
                a = sarr(k)
                out.append(a.reshape(1) if a.ndim == 0 else a)
        return arr.concatenate(out)


def apply_along_axis(f, axis, a, *args, **kw):
    a = sarr(a)
    p = np.moveaxis(a, axis, -1)
    outs = [f(p[idx], *args, **kw) for idx in np.ndindex(*p.shape[:-1])]
    r = sarr(outs)
    r = r.reshape(p.shape[:-1] + r.shape[1:])
    return np.moveaxis(r, -1, axis) if r.ndim == a.ndim else r


SPECIAL = {
    'array': array, 'asarray': asarray, 'asanyarray': asarray, 'ascontiguousarray': asarray,
    'asfortranarray': asarray, 'require': asarray, 'asarray_chkfinite': asarray,
    'zeros': lambda shape, dtype=None, order='C', **k: zeros(shape, dtype, 0),
    'ones': lambda shape, dtype=None, order='C', **k: zeros(shape, dtype, 1),
    'empty': empty, 'full': arr.full, 'eye': eye, 'identity': identity, 'arange': arr.arange,
    'broadcast': broadcast, 'issubdtype': issubdtype, 'shape': shape, 'ndim': ndim, 'size': size,
    'isscalar': isscalar, 'angle': angle, 'atleast_1d': atleast_1d, 'vectorize': vectorize,
    'fromstring': frombuffer_tokens, 'loadtxt': loadtxt, 'genfromtxt': loadtxt, 'load': load, 'savez': savez,
    'savez_compressed': savez, 'savetxt': savetxt, 'fromiter': fromiter, 'copyto': copyto,
    'putmask': putmask, 'fill_diagonal': fill_diagonal,
    'vstack': stackers('vstack'), 'hstack': stackers('hstack'), 'column_stack': stackers('column_stack'),
    'dstack': stackers('dstack'), 'r_': _R(), 'apply_along_axis': apply_along_axis,
    'float_': SymFloat, 'int_': np.int64, 'bool_': np.bool_, 'bool': SymBool, 'ndarray': np.ndarray,
    'ndindex': np.ndindex, 'ndenumerate': lambda a: ((i, sarr(a)[i]) for i in np.ndindex(*sarr(a).shape)),
    'dtype': lambda x, *a, **k: arr.normdt(x),
    'broadcast_shapes': np.broadcast_shapes,
    'errstate': np.errstate, 'seterr': np.seterr,
    'transpose': lambda a, axes=None: sarr(a).transpose(axes) if axes is not None else sarr(a).T,
    'ravel': lambda a, order='C': sarr(a).ravel(order=order),
    'reshape': lambda a, *sh, **k: sarr(a).reshape(*[tuple(s) if isinstance(s, list) else s for s in
                                                     (sh or (k.get('shape') or k.get('newshape'),))],
                                                   order=k.get('order', 'C')),
    'squeeze': lambda a, axis=None: sarr(a).squeeze(axis=axis),
    'expand_dims': lambda a, axis: wrap(np.expand_dims(arr.plain(sarr(a)), axis)) if False else
    arr.mk(np.expand_dims(arr.plain(sarr(a)), axis), sarr(a).dtype),
    'math': math,
}


def _dt(name):
    def f(*a, **k):
        from . import dates
        return getattr(dates, name)(*a, **k)
    return f


from . import dates as _dates  # noqa: E402
SPECIAL['datetime64'] = _dates._make(np.datetime64)
SPECIAL['timedelta64'] = _dates._make(np.timedelta64)

np_shim = Shim(np)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real):
            return real
        alias = {'atan2': 'arctan2', 'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'pow': 'power'}

        def f(*a):
            a = [arr.plain(x).reshape(-1)[0] if isinstance(x, SArr) and x.size == 1 else x for x in a]
            if not any(issym(x) for x in a):
                return real(*a)
            if name == 'isnan' or name == 'isinf':
                return False
            if name == 'isfinite':
                return True
            if name == 'floor':
                return core.floor(a[0])
            if name == 'dist':
                raise core.EngineError('math.dist')
            if name == 'isclose':
                raise core.EngineError('math.isclose')
            g = arr.OPS.get(alias.get(name, name))
            if g is None:
                raise core.EngineError('math.%s of a symbolic value' % name)
            return g(*a)
        return f


math_shim = MathShim()
