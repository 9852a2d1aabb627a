"""Object arrays of symbolic values that imitate numpy arrays of a numeric dtype (views included)."""
import math
import numpy as np
from . import core
from .core import Sym, CSym, SBool, MinMax, EngineError

SYM = (Sym, CSym, SBool, MinMax)
F8, C16, I8, B1 = np.dtype(float), np.dtype(complex), np.dtype(int), np.dtype(bool)
NUMERIC = 'fciub'


def issym(x):
    return isinstance(x, SYM)


def vdtype_of(x):
    """Virtual dtype of a scalar or array."""
    if isinstance(x, SArr):
        return x.vd
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return infer_vd(x)
        return x.dtype
    if isinstance(x, Sym):
        return F8
    if isinstance(x, CSym):
        return C16
    if isinstance(x, SBool):
        return B1
    if isinstance(x, MinMax):
        return F8
    return np.asarray(x).dtype


def infer_vd(a):
    k = 0
    for x in a.flat:
        if is_bool(x):
            k = max(k, 1)
        elif isinstance(x, (int, np.integer)):
            k = max(k, 2)
        elif isinstance(x, (CSym, complex, np.complexfloating)):
            k = 4
        elif isinstance(x, (Sym, MinMax, float, np.floating)):
            k = max(k, 3)
        else:
            return np.dtype(object)
    return [F8, B1, I8, F8, C16][k]


def is_bool(x):
    return isinstance(x, (bool, np.bool_, SBool))


def normdt(dt):
    if dt is None:
        return None
    r = getattr(dt, '_real', None)
    if r is not None:
        dt = r
    return np.dtype(dt)


def cast(x, dt):
    """Cast one element to a dtype."""
    k = dt.kind
    if k == 'f':
        if isinstance(x, (Sym, MinMax)):
            return x
        if isinstance(x, CSym):
            return x.re
        if isinstance(x, SBool):
            return np.float64(1.0 if bool(x) else 0.0)
        if isinstance(x, (complex, np.complexfloating)):
            return dt.type(x.real)
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return cast(x[()], dt)
        return dt.type(x) if dt.itemsize != 8 or not isinstance(x, np.float64) else x
    if k == 'c':
        if isinstance(x, CSym):
            return x
        if isinstance(x, (Sym, MinMax)):
            return CSym(x, np.float64(0.0))
        if isinstance(x, SBool):
            return np.complex128(bool(x))
        return np.complex128(x)
    if k in 'iu':
        if isinstance(x, (Sym, MinMax)):
            return core.trunc(x if isinstance(x, Sym) else x.force())
        if isinstance(x, SBool):
            return np.int64(bool(x))
        if isinstance(x, CSym):
            return core.trunc(x.re)
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return np.int64(-2**63)
        return dt.type(int(x))
    if k == 'b':
        if isinstance(x, SYM):
            return core.tobool(x) if not isinstance(x, MinMax) else core.cmp(x, 0, '!=')
        return np.bool_(x)
    if k in 'OMmU':
        return x
    raise EngineError('cast of a symbolic value to %s' % dt)


class SFlat:
    def __init__(self, a):
        self.a = a

    def __iter__(self):
        for x in np.ndarray.flat.__get__(self.a):
            yield x

    def __len__(self):
        return self.a.size

    def __getitem__(self, k):
        return self.a.ravel()[k]

    def __setitem__(self, k, v):
        idx = np.arange(self.a.size).reshape(self.a.shape).ravel()[fixkey(k, None)]
        b = np.broadcast_to(np.asarray(plain(v), dtype=object), np.shape(idx))
        for i, x in zip(np.ravel(idx), np.ravel(b)):
            np.ndarray.__setitem__(self.a, np.unravel_index(int(i), self.a.shape), cast(x, self.a.vd))


class SArr(np.ndarray):
    vd = F8

    def __array_finalize__(self, obj):
        if isinstance(obj, SArr):
            self.vd = obj.vd

    # ---- metadata
    @property
    def dtype(self):
        return self.vd

    @property
    def itemsize(self):
        return self.vd.itemsize

    @property
    def flat(self):
        return SFlat(self)

    @property
    def nbytes(self):
        return self.vd.itemsize * self.size

    @property
    def real(self):
        if self.vd.kind == 'c':
            return mk(fmap(lambda x: core.real_part(x), self), F8)
        return self

    @real.setter
    def real(self, v):
        if self.vd.kind != 'c':
            self[...] = v
            return
        im = self.imag
        self[...] = ufunc_call('add', v, ufunc_call('multiply', im, 1j))

    @property
    def imag(self):
        if self.vd.kind == 'c':
            return mk(fmap(lambda x: core.imag_part(x), self), F8)
        return zeros(self.shape, self.vd)

    @imag.setter
    def imag(self, v):
        re = self.real
        self[...] = ufunc_call('add', re, ufunc_call('multiply', v, 1j))

    # ---- item access
    def __getitem__(self, key):
        key = fixkey(key, self)
        r = np.ndarray.__getitem__(self, key)
        if isinstance(r, np.ndarray) and isinstance(r, SArr):
            return r
        if isinstance(r, np.ndarray):
            return mk(r, self.vd)
        return out_scalar(r, self.vd)

    def __setitem__(self, key, val):
        key = fixkey(key, self)
        if self.vd.kind in 'Mm':
            from . import dates
            v = dates.asarray(val, self.vd)
            v = dates.counts(v, self.vd.kind)[0]
            return np.ndarray.__setitem__(self, key, v if v.ndim else v[()])
        if self.vd.kind == 'O' or self.vd.kind not in NUMERIC:
            return np.ndarray.__setitem__(self, key, val)
        if isinstance(val, np.ndarray):
            v = plain(val)
        elif isinstance(val, (list, tuple)):
            v = plain(sarr(val))
        elif issym(val) or core.is_num(val) or isinstance(val, (complex, np.complexfloating)):
            v = scalar_obj(val)
        else:
            v = plain(sarr(val))
        if isinstance(v, np.ndarray):
            if v.dtype == object or True:
                w = np.empty(v.shape, dtype=object)
                wf, vf = w.reshape(-1), v.reshape(-1)
                for i in range(w.size):
                    wf[i] = cast(vf[i], self.vd)
                v = w
            if v.ndim == 0:
                v = v[()]
        np.ndarray.__setitem__(self, key, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(core.tobool(plain(self).reshape(-1)[0]))

    def __float__(self):
        return float(plain(self).reshape(-1)[0])

    def __int__(self):
        return int(plain(self).reshape(-1)[0])

    def __complex__(self):
        return complex(plain(self).reshape(-1)[0])

    def __index__(self):
        if self.ndim or self.vd.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(plain(self)[()])

    def __contains__(self, x):
        return bool((self == x).any())

    def __repr__(self):
        return 'SArr(%s)' % np.array2string(plain(self), formatter={'all': str}, threshold=20)

    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(plain(self)[()], spec)
        return str(self)

    def __reduce__(self):
        return (mk, (plain(self), self.vd))

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # ---- methods
    def astype(self, dtype, order=None, casting=None, subok=True, copy=True):
        dt = normdt(dtype)
        if dt.kind in 'Mm' or self.vd.kind in 'MmU':
            from . import dates
            return dates.astype(self, dt) if dt.kind in 'Mm' else dates.from_dates(self, dt)
        if dt.kind in 'SU' and has_sym(self):
            from . import dates
            return dates.to_text(self, dt)
        if dt == self.vd and not copy:
            return self
        if dt.kind in 'SU':
            return concrete(self).astype(dt)
        return mk(fmap(lambda x: cast(x, dt), self), dt)

    def copy(self, order='C'):
        return mk(np.array(plain(self), dtype=object, copy=True, order=order), self.vd)

    def item(self, *args):
        if not args:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return pyscalar(plain(self).reshape(-1)[0])
        return pyscalar(plain(self).item(*args))

    def tolist(self):
        if self.ndim == 0:
            return pyscalar(plain(self)[()])
        return [x.tolist() if isinstance(x, SArr) else pyscalar(x) for x in self]

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('logical_or', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('logical_and', self, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_('add', self, axis, keepdims, out=out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_('multiply', self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size // max(1, (s.size if isinstance(s, np.ndarray) else 1))
        return ufunc_call('true_divide', s, n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        m = self.mean(axis=axis, keepdims=True)
        d = ufunc_call('subtract', self, m)
        s = ufunc_call('multiply', d, d).sum(axis=axis, keepdims=keepdims)
        n = self.size // max(1, (s.size if isinstance(s, np.ndarray) else 1))
        return ufunc_call('true_divide', s, n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return ufunc_call('sqrt', self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('minimum', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_('maximum', self, axis, keepdims)

    def ptp(self, axis=None, **kw):
        return ufunc_call('subtract', self.max(axis), self.min(axis))

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate('add', self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate('multiply', self, axis)

    def dot(self, other, out=None):
        return dot(self, other)

    def conj(self):
        return ufunc_call('conjugate', self)

    conjugate = conj

    def round(self, decimals=0, out=None):
        return round_(self, decimals)

    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None:
            r = ufunc_call('maximum', r, min)
        if max is not None:
            r = ufunc_call('minimum', r, max)
        return r

    def argmin(self, axis=None, **kw):
        if not has_sym(self):
            return wrap(concrete(self).argmin(axis, **kw))
        return _argm(self, axis, '<')

    def argmax(self, axis=None, **kw):
        if not has_sym(self):
            return wrap(concrete(self).argmax(axis, **kw))
        return _argm(self, axis, '>')

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        if not has_sym(self):
            return wrap(np.argsort(concrete(self), axis=axis, kind='stable'))
        return along(lambda v: sort_idx(v), self, axis, I8)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        self[...] = sort(self, axis)

    def nonzero(self):
        b = boolmask(self)
        return tuple(wrap(x) for x in b.nonzero())

    def take(self, indices, axis=None, out=None, mode='raise'):
        return take(self, indices, axis=axis, mode=mode)

    def compress(self, condition, axis=None, out=None):
        return take(self, boolmask(sarr(condition)).nonzero()[0], axis=axis)

    def repeat(self, repeats, axis=None):
        r = intarr(sarr(repeats)) if np.ndim(repeats) else fix1(repeats)
        return mk(np.repeat(plain(self), r, axis=axis), self.vd)

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return mk(np.array(plain(self).diagonal(offset, axis1, axis2)), self.vd)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return self.diagonal(offset, axis1, axis2).sum(axis=-1)

    def choose(self, choices, out=None, mode='raise'):
        raise EngineError('choose')

    def put(self, indices, values, mode='raise'):
        f = self.reshape(-1)
        if not np.shares_memory(f, self):
            raise EngineError('put')
        f[intarr(sarr(indices))] = values

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def view(self, *a, **k):
        return self[...] if not a and not k else _noview(self, *a, **k)

    def fill(self, v):
        self[...] = v

    def tobytes(self, *a, **k):
        return concrete(self).tobytes(*a, **k)

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if method == '__call__':
            where = kw.pop('where', True)
            kw.pop('casting', None)
            kw.pop('subok', None)
            kw.pop('order', None)
            dt = kw.pop('dtype', None)
            kw.pop('axes', None)
            if kw:
                raise EngineError('ufunc keyword %r' % list(kw))
            if where is not True:
                return where_ufunc(ufunc, inputs, out, where)
            r = apply(ufunc, inputs)
            if dt is not None:
                r = sarr(r).astype(dt)[()]
            if out is not None:
                outs = out if isinstance(out, tuple) else (out,)
                rs = r if isinstance(r, tuple) else (r,)
                for o, x in zip(outs, rs):
                    store_out(ufunc, o, x, dt)
                return outs[0] if len(outs) == 1 else outs
            return r
        if method == 'reduce':
            axis = kw.pop('axis', 0)
            keep = kw.pop('keepdims', False)
            o = kw.pop('out', out)
            r = reduce_(name, inputs[0], axis, keep)
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return r
        if method == 'accumulate':
            return accumulate(name, inputs[0], kw.get('axis', 0))
        if method == 'outer':
            a, b = sarr(inputs[0]), sarr(inputs[1])
            return apply(ufunc, (a.reshape(a.shape + (1,) * b.ndim), b))
        if method == 'at':
            a, idx = inputs[0], inputs[1]
            for t in range(len(idx)):
                b = inputs[2][t] if np.ndim(inputs[2]) else inputs[2]
                a[int(idx[t])] = apply(ufunc, (a[int(idx[t])], b))
            return None
        raise EngineError('ufunc method ' + method)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(qual(func))
        if f is not None:
            return f(*args, **kwargs)
        if not any_sym((args, kwargs)):
            r = func(*deconc(args), **deconc(kwargs))
            return wrap(r)
        r = func._implementation(*args, **kwargs)
        return wrap(r)


def _noview(a, *args, **k):
    if args and args[0] is np.ndarray:
        return plain(a)
    if args and isinstance(args[0], type) and issubclass(args[0], np.ndarray):
        return a
    if not has_sym(a):
        return wrap(concrete(a).view(*args, **k))
    raise EngineError('view of a symbolic array')


def qual(func):
    m = getattr(func, '__module__', '') or ''
    n = getattr(func, '__name__', '')
    if m.startswith('numpy.linalg'):
        return 'linalg.' + n
    if m.startswith('numpy.fft'):
        return 'fft.' + n
    return n


def pyscalar(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def out_scalar(x, vd):
    if issym(x) and vd.kind in NUMERIC:
        if vd.kind in 'iu' and isinstance(x, Sym) and not core.ST.nointscalar:
            return mk(scalar_obj(x), vd)
        return x
    if vd.kind in 'MmU':
        from . import dates
        return dates.done(scalar_obj(x), vd)
    if vd.kind in NUMERIC and not isinstance(x, np.generic) and core.is_num(x):
        return vd.type(x)
    return x


def scalar_obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def plain(a):
    """Plain object ndarray sharing memory."""
    if isinstance(a, SArr):
        return np.ndarray.view(a, np.ndarray)
    if isinstance(a, np.ndarray):
        if np.ndarray.dtype.__get__(a) == object:
            return a
        o = np.empty(a.shape, dtype=object)
        of, af = o.reshape(-1), a.reshape(-1)
        for i in range(o.size):
            of[i] = af[i]
        return o
    return plain(sarr(a))


def mk(o, vd):
    """SArr from a plain object ndarray (shared)."""
    if not isinstance(o, np.ndarray):
        o = scalar_obj(o)
    r = np.ndarray.view(o, SArr)
    r.vd = vd
    return r


def fmap(f, a):
    p = plain(a)
    o = np.empty(p.shape, dtype=object)
    if p.ndim == 0:
        o[()] = f(p[()])
        return o
    of = o.reshape(-1)
    i = 0
    for x in p.flat:
        of[i] = f(x)
        i += 1
    return o


def has_sym(a):
    if isinstance(a, SArr) or (isinstance(a, np.ndarray) and a.dtype == object):
        for x in plain(a).flat:
            if isinstance(x, SYM):
                return True
        return False
    return isinstance(a, SYM)


def any_sym(x):
    if isinstance(x, (list, tuple)):
        return any(any_sym(y) for y in x)
    if isinstance(x, dict):
        return any(any_sym(y) for y in x.values())
    return has_sym(x)


def concrete(a):
    """Real ndarray of a constant SArr."""
    if isinstance(a, SArr):
        if has_sym(a):
            raise EngineError('symbolic value where a concrete array is needed')
        if a.vd.kind == 'O':
            return plain(a)
        return np.array(plain(a).tolist(), dtype=a.vd).reshape(a.shape)
    return a


def deconc(x):
    if isinstance(x, SArr):
        return concrete(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(deconc(y) for y in x)
    if isinstance(x, list):
        return [deconc(y) for y in x]
    if isinstance(x, dict):
        return {k: deconc(v) for k, v in x.items()}
    r = getattr(x, '_real', None)
    if r is not None and isinstance(x, type):
        return r
    return x


def wrap(r):
    """Wrap results of real numpy calls."""
    if isinstance(r, SArr):
        return r if r.ndim or True else r[()]
    if isinstance(r, np.ndarray):
        if type(r) is not np.ndarray:
            return r
        if r.dtype == object:
            if r.ndim == 0 and issym(r[()]):
                return r[()]
            vd = infer_vd(r)
            return mk(r, vd) if vd.kind != 'O' else r
        if r.dtype.kind in NUMERIC:
            return mk(plain(r), r.dtype)
        return r
    if type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    if isinstance(r, tuple) and hasattr(r, '_fields'):
        return type(r)(*[wrap(x) for x in r])
    return r


def sarr(x, dtype=None, copy=False):
    """np.array / np.asarray."""
    dt = normdt(dtype)
    if dt is not None and dt.kind in 'MmSU':
        from . import dates
        return dates.asarray(x, dt)
    if dt is not None and dt.kind in NUMERIC and not isinstance(x, SArr):
        x = numbers(x)
    if isinstance(x, SArr):
        if dt is not None and dt != x.vd:
            return x.astype(dt)
        return x.copy() if copy else x
    if isinstance(x, SYM):
        r = mk(scalar_obj(x), vdtype_of(x))
        return r.astype(dt) if dt is not None else r
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            r = mk(x.copy() if copy else x, infer_vd(x))
            if r.vd.kind == 'O':
                from . import dates
                return r if dates.any_symdt(x) else x
        elif x.dtype.kind in NUMERIC:
            r = mk(plain(x), x.dtype)
        else:
            return x
        return r.astype(dt) if dt is not None and dt != r.vd else r
    if not has_nested_sym(x):
        x = deconc(x)
        r = np.array(x, dtype=dt)
        if r.dtype.kind not in NUMERIC:
            if r.dtype.kind == 'O':
                from . import dates
                if dates.any_symdt(r):
                    return mk(r, r.dtype)
            return r
        return mk(plain(r), r.dtype)
    # nested sequences
    o = nested(x)
    if dt is None:
        dt = res_vd(x)
    return mk(fmap(lambda v: cast(v, dt), o), dt)


def res_vd(x):
    if isinstance(x, (list, tuple)):
        ds = [res_vd(y) for y in x]
        return np.result_type(*ds) if ds else F8
    return vdtype_of(x)


def numbers(x):
    """Replace symbolic numbers in text by their values."""
    if isinstance(x, str):
        from . import fileio
        if fileio.OPEN in x:
            return fileio.parse_token(x.strip())
    elif isinstance(x, (list, tuple)):
        if any(isinstance(y, (str, list, tuple)) for y in x):
            return [numbers(y) for y in x]
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'UO' and x.ndim and any(isinstance(y, str) for y in x.flat):
        return numbers(x.tolist())
    return x


def has_nested_sym(x):
    if isinstance(x, (list, tuple)):
        return any(has_nested_sym(y) for y in x)
    return isinstance(x, SYM) or (isinstance(x, SArr) and has_sym(x))


def nested(x):
    if isinstance(x, (list, tuple)):
        parts = [nested(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
        o = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            if sh == ():
                o[i] = p[()]
            else:
                o[i] = p
        return o
    if isinstance(x, np.ndarray):
        return plain(x)
    return scalar_obj(x)


def zeros(shape, dtype=None, value=0):
    dt = normdt(dtype) or F8
    if dt.kind not in NUMERIC:
        return np.full(shape, value, dtype=dt)
    if not isinstance(shape, (tuple, list)):
        shape = (int(shape),) if not isinstance(shape, np.ndarray) else tuple(int(s) for s in np.atleast_1d(shape))
    shape = tuple(int(s) for s in shape)
    if any(s < 0 for s in shape):
        raise ValueError('negative dimensions are not allowed')
    o = np.empty(shape, dtype=object)
    o.fill(cast(value, dt))
    return mk(o, dt)


# ---------------------------------------------------------------------------------- indexing

def boolmask(a):
    p = plain(a)
    o = np.empty(p.shape, dtype=bool)
    of = o.reshape(-1)
    i = 0
    for x in p.flat:
        of[i] = bool(core.tobool(x)) if not isinstance(x, MinMax) else bool(core.cmp(x, 0, '!='))
        i += 1
    return o


def fix1(k):
    if isinstance(k, SArr):
        if k.vd.kind == 'b':
            return boolmask(k)
        if k.vd.kind in 'iu':
            return intarr(k)
        if k.size == 0:
            return concrete(k).astype(int) if False else concrete(k)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, SBool):
        return np.bool_(bool(k))
    if isinstance(k, Sym):
        return intval(k)
    if isinstance(k, MinMax):
        return intval(k.force())
    if isinstance(k, list) and has_nested_sym(k):
        return fix1(sarr(k))
    if isinstance(k, slice):
        f = [intval(v) if isinstance(v, (Sym, MinMax)) else v for v in (k.start, k.stop, k.step)]
        return slice(*f)
    return k


def intval(s):
    """Concretise a symbolic integer by forking over its possible values."""
    if not isinstance(s, Sym):
        if isinstance(s, (MinMax,)):
            s = s.force()
        if not isinstance(s, Sym):
            return int(s)
    if not core.is_intpoly(s.t):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                         'integer or boolean arrays are valid indices')
    lo, hi = core.ipoly(s.t)
    if not (hi - lo < 400):
        raise EngineError('unbounded symbolic index')
    lo, hi = int(lo), int(hi)
    while lo < hi:                       # binary search by branching
        mid = (lo + hi) // 2
        if bool(core.cmp(s, mid, '<=')):
            hi = mid
        else:
            lo = mid + 1
    return lo


def intarr(k):
    o = np.empty(k.shape, dtype=int)
    of = o.reshape(-1)
    for i, x in enumerate(plain(k).flat):
        of[i] = intval(x) if issym(x) else int(x)
    return o


def fixkey(key, arr):
    if isinstance(key, tuple):
        return tuple(fix1(k) for k in key)
    return fix1(key)


# ---------------------------------------------------------------------------------- elementwise

def _deg2rad(x):
    return core.mul(x, math.pi / 180) if issym(x) else np.deg2rad(x)


def _rad2deg(x):
    return core.mul(x, 180 / math.pi) if issym(x) else np.rad2deg(x)


def _f(name):
    np_f = getattr(np, name)
    sf = getattr(core, {'arccos': 'arccos'}.get(name, name))

    def g(x):
        if issym(x):
            return sf(x)
        with np.errstate(all='ignore'):
            return np_f(x)
    return g


def _opq(name):
    np_f = getattr(np, name)

    def g(x):
        if issym(x):
            return core.opaque(name, [x])
        with np.errstate(all='ignore'):
            return np_f(x)
    return g


def _sign(x):
    if not issym(x):
        return np.sign(x)
    x = core.wrap(core.P(x))
    if not issym(x):
        return np.sign(x)
    if bool(core.cmp(x, 0, '==')):
        return np.float64(0.0)
    return np.float64(core.sign_of(x.t))


def _finite(name, const):
    def g(x):
        return np.bool_(const) if issym(x) else getattr(np, name)(x)
    return g


def _ceil(x):
    return core.neg(core.floor(core.neg(x))) if issym(x) else np.ceil(x)


def _rint(x):
    if not issym(x):
        return np.rint(x)
    x = core.wrap(core.P(x))
    if not issym(x) or core.is_intpoly(x.t):
        return x
    core.ST.notes.add('rounding at exact halves goes up')
    return core.floor(core.add(x, 0.5))


def _conj(x):
    return x.conjugate() if isinstance(x, CSym) else (x if issym(x) else np.conjugate(x))


def _max2(a, b):
    if not issym(a) and not issym(b):
        return np.maximum(a, b)
    return core.minmax([a, b], 'max')


def _min2(a, b):
    if not issym(a) and not issym(b):
        return np.minimum(a, b)
    return core.minmax([a, b], 'min')


def _xor(a, b):
    return np.bool_(bool(core.tobool(a)) != bool(core.tobool(b)))


def _cmp(rel):
    def g(a, b):
        return core.cmp(a, b, rel)
    return g


def _bw(name, f):
    npf = getattr(np, name)

    def g(*a):
        if any(issym(x) for x in a):
            if all(is_bool(x) for x in a):
                return f(*a)
            raise EngineError(name + ' of symbolic integers')
        return npf(*a)
    return g


def _copysign(a, b):
    if not issym(a) and not issym(b):
        return np.copysign(a, b)
    m = core.absolute(a)
    return m if bool(core.cmp(b, 0, '>=')) else core.neg(m)


def _fmod(a, b):
    if not issym(a) and not issym(b):
        return np.fmod(a, b)
    return core.sub(a, core.mul(b, core.trunc(core.div(a, b))))


def _divc(a, b):
    """true_divide with numpy semantics for integer constants."""
    return core.div(a, b)


OPS = {
    'add': core.add, 'subtract': core.sub, 'multiply': core.mul, 'true_divide': _divc, 'divide': _divc,
    'power': core.power, 'float_power': core.power, 'negative': core.neg, 'positive': lambda x: x,
    'absolute': core.absolute, 'fabs': core.absolute, 'abs': core.absolute,
    'sqrt': core.sqrt, 'square': lambda x: core.mul(x, x),
    'cbrt': lambda x: core.root(x, 3) if issym(x) else np.cbrt(x),
    'reciprocal': lambda x: core.div(1.0, x),
    'cos': _f('cos'), 'sin': _f('sin'), 'tan': _f('tan'), 'arctan': _f('arctan'),
    'arccos': _f('arccos'), 'arcsin': _f('arcsin'), 'arctan2': core.arctan2,
    'acos': _f('arccos'), 'asin': _f('arcsin'), 'atan': _f('arctan'), 'atan2': core.arctan2,
    'hypot': lambda a, b: core.hypot(a, b) if issym(a) or issym(b) else np.hypot(a, b),
    'deg2rad': _deg2rad, 'radians': _deg2rad, 'rad2deg': _rad2deg, 'degrees': _rad2deg,
    'exp': _opq('exp'), 'log': _opq('log'), 'log10': _opq('log10'), 'tanh': _opq('tanh'),
    'sinh': _opq('sinh'), 'cosh': _opq('cosh'),
    'floor': lambda x: core.floor(x) if issym(x) else np.floor(x), 'ceil': _ceil,
    'trunc': lambda x: core.trunc(x) if issym(x) else np.trunc(x), 'rint': _rint,
    'floor_divide': core.floordiv, 'remainder': core.remainder, 'mod': core.remainder, 'fmod': _fmod,
    'less': _cmp('<'), 'less_equal': _cmp('<='), 'greater': _cmp('>'), 'greater_equal': _cmp('>='),
    'equal': _cmp('=='), 'not_equal': _cmp('!='),
    'logical_and': core.band, 'logical_or': core.bor, 'logical_not': core.bnot, 'logical_xor': _xor,
    'bitwise_and': _bw('bitwise_and', core.band), 'bitwise_or': _bw('bitwise_or', core.bor),
    'bitwise_xor': _bw('bitwise_xor', _xor), 'invert': _bw('invert', core.bnot),
    'bitwise_not': _bw('invert', core.bnot),
    'maximum': _max2, 'minimum': _min2, 'fmax': _max2, 'fmin': _min2,
    'isnan': _finite('isnan', False), 'isfinite': _finite('isfinite', True), 'isinf': _finite('isinf', False),
    'sign': _sign, 'conjugate': _conj, 'copysign': _copysign,
    'signbit': lambda x: core.cmp(x, 0, '<') if issym(x) else np.signbit(x),
    'heaviside': lambda x, h: (np.heaviside(x, h) if not issym(x) else
                               (h if bool(core.cmp(x, 0, '==')) else np.float64(bool(core.cmp(x, 0, '>'))))),
    'left_shift': np.left_shift, 'right_shift': np.right_shift,
}
_VD = {}


def result_vd(ufunc, inputs):
    key = [ufunc.__name__]
    args = []
    for x in inputs:
        if type(x) in (int, float, complex, bool):
            args.append(type(x)(1))
            key.append(type(x))
        else:
            d = vdtype_of(x)
            key.append(d)
            args.append(np.ones((), dtype=d)[()])
    key = tuple(key)
    r = _VD.get(key)
    if r is None:
        with np.errstate(all='ignore'):
            o = ufunc(*args)
        r = tuple(np.asarray(q).dtype for q in o) if isinstance(o, tuple) else np.asarray(o).dtype
        _VD[key] = r
    return r


def apply(ufunc, inputs):
    name = ufunc.__name__
    from . import dates
    if any(dates.is_date(x) for x in inputs):
        return dates.ufunc(ufunc, inputs)
    if name in ('matmul', 'vecdot'):
        return FUNCS[name](*inputs)
    if not any(has_sym(x) for x in inputs) and not core.ST.exact:
        conc = [concrete(x) if isinstance(x, np.ndarray) else x for x in inputs]
        with np.errstate(all='ignore'):
            r = ufunc(*conc)
        if name in ('cos', 'sin') and r.dtype.kind == 'f':
            # the rounding residue of multiples of 90 degrees would survive symbolic cancellation
            r = np.where(np.abs(r) < 1e-15, 0.0, r).astype(r.dtype)[()]
        return wrap(r)
    if name in ('divmod', 'modf'):
        if name == 'divmod':
            return apply(np.floor_divide, inputs), apply(np.remainder, inputs)
        t = apply(np.trunc, inputs)
        return apply(np.subtract, (inputs[0], t)), t
    f = OPS.get(name)
    if f is None:
        raise EngineError('ufunc %s of symbolic values' % name)
    vd = result_vd(ufunc, inputs)
    arrs = [plain(x) if isinstance(x, np.ndarray) else (plain(sarr(x)) if isinstance(x, (list, tuple))
            else scalar_obj(x)) for x in inputs]
    if len(arrs) == 1:
        o = fmap(f, arrs[0])
    else:
        try:
            b = np.broadcast_arrays(*arrs)
        except ValueError:
            shapes = ' '.join(str(a.shape).replace(' ', '') for a in arrs)
            raise ValueError('operands could not be broadcast together with shapes ' + shapes)
        o = np.empty(b[0].shape, dtype=object)
        if o.ndim == 0:
            o[()] = f(*[x[()] for x in b])
        else:
            of = o.reshape(-1)
            i = 0
            for xs in zip(*[x.flat for x in b]):
                of[i] = f(*xs)
                i += 1
    if o.ndim == 0:
        return out_scalar(o[()], vd)
    return mk(o, vd)


def ufunc_call(name, *args):
    return apply(getattr(np, name), args)


def store_out(ufunc, o, x, dt):
    if o is None:
        return
    xv = vdtype_of(x)
    ov = vdtype_of(o)
    if not np.can_cast(xv, ov, 'same_kind'):
        raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', xv, ov, 0)
    if isinstance(o, SArr):
        if np.shape(x) != o.shape and np.broadcast_shapes(np.shape(x), o.shape) != o.shape:
            raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast '
                             'shape %s' % (o.shape, np.shape(x)))
        o[...] = x
    else:
        if has_sym(x):
            raise EngineError('symbolic result stored into a concrete array')
        o[...] = concrete(x) if isinstance(x, SArr) else x


def where_ufunc(ufunc, inputs, out, where):
    r = sarr(apply(ufunc, inputs))
    w = boolmask(sarr(where))
    o = out[0] if out else zeros(np.broadcast_shapes(r.shape, w.shape), r.vd)
    w = np.broadcast_to(w, o.shape)
    rb = np.broadcast_to(plain(r), o.shape)
    for idx in np.ndindex(*o.shape):
        if w[idx]:
            o[idx] = rb[idx]
    return o


# ---------------------------------------------------------------------------------- reductions

def _norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    axis = tuple(axis)
    for a in axis:
        if not -nd <= a < nd:
            raise np.exceptions.AxisError(a, nd)
    return tuple(a % nd for a in axis)


def red_fn(name):
    if name == 'add':
        def f(v):
            if not v:
                return np.float64(0.0)
            return addmany(v)
        return f
    if name == 'multiply':
        def f(v):
            r = np.float64(1.0)
            for i, x in enumerate(v):
                r = x if i == 0 else core.mul(r, x)
            return r
        return f
    if name in ('logical_and', 'all'):
        return lambda v: core.band(*[core.tobool(x) for x in v])
    if name in ('logical_or', 'any'):
        return lambda v: core.bor(*[core.tobool(x) for x in v])
    if name in ('maximum', 'fmax'):
        return lambda v: core.minmax(v, 'max')
    if name in ('minimum', 'fmin'):
        return lambda v: core.minmax(v, 'min')
    raise EngineError('reduction ' + name)


def addmany(v):
    if all(isinstance(x, Sym) for x in v):
        terms = []
        for x in v:
            terms.extend(x.t.items())
        return core.wrap(core.paccum(terms))
    r = v[0]
    for x in v[1:]:
        r = core.add(r, x)
    return r


def reduce_(name, a, axis=None, keepdims=False, out=None):
    a = sarr(a)
    if keepdims is np._NoValue:
        keepdims = False
    if not isinstance(a, SArr):
        return getattr(np, name).reduce(a, axis=axis, keepdims=keepdims)
    if not has_sym(a) and not core.ST.exact:
        c = concrete(a)
        if name in ('add', 'multiply', 'logical_and', 'logical_or', 'maximum', 'minimum'):
            r = {'add': np.sum, 'multiply': np.prod, 'logical_and': np.all, 'logical_or': np.any,
                 'maximum': np.max, 'minimum': np.min}[name](c, axis=axis, keepdims=keepdims)
        else:
            r = getattr(np, name).reduce(c, axis=axis, keepdims=keepdims)
        r = wrap(r)
    else:
        ax = _norm_axis(axis, a.ndim)
        f = red_fn(name)
        p = plain(a)
        rest = [i for i in range(a.ndim) if i not in ax]
        p = p.transpose(rest + list(ax)).reshape([a.shape[i] for i in rest] + [-1])
        o = np.empty(p.shape[:-1], dtype=object)
        for idx in np.ndindex(*o.shape):
            o[idx] = f(list(p[idx]))
        if name.startswith('logical') or name in ('all', 'any'):
            vd = B1
        elif a.vd.kind == 'b' and name in ('add', 'multiply'):
            vd = I8
        else:
            vd = a.vd
        if keepdims:
            o = o.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
        r = out_scalar(o[()], vd) if o.ndim == 0 else mk(o, vd)
    if out is not None:
        out[...] = r
        return out
    return r


def accumulate(name, a, axis=None):
    a = sarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    f = OPS[name]
    p = np.moveaxis(plain(a), axis, 0)
    o = np.empty(p.shape, dtype=object)
    for idx in np.ndindex(*p.shape[1:]):
        acc = None
        for i in range(p.shape[0]):
            v = p[(i,) + idx]
            acc = v if acc is None else f(acc, v)
            o[(i,) + idx] = acc
    return mk(np.moveaxis(o, 0, axis), a.vd if a.vd.kind != 'b' else I8)


def _argm(a, axis, rel):
    def f(v):
        b = 0
        for i in range(1, len(v)):
            if bool(core.cmp(v[i], v[b], rel)):
                b = i
        return np.int64(b)
    if axis is None:
        return f(list(plain(a).flat))
    p = np.moveaxis(plain(a), axis, -1)
    o = np.empty(p.shape[:-1], dtype=object)
    for idx in np.ndindex(*o.shape):
        o[idx] = f(list(p[idx]))
    return mk(o, I8) if o.ndim else o[()]


def along(f, a, axis, vd):
    p = np.moveaxis(plain(a), axis, -1)
    o = np.empty(p.shape, dtype=object)
    for idx in np.ndindex(*p.shape[:-1]):
        o[idx] = f(list(p[idx]))
    return mk(np.moveaxis(o, -1, axis), vd)


def _insort(v, key):
    """Stable insertion sort by branching comparisons."""
    out = []
    for i in range(len(v)):
        k = len(out)
        while k > 0 and bool(core.cmp(v[i], v[out[k - 1]], '<')):
            k -= 1
        out.insert(k, i)
    return out


def sort_idx(v):
    return [np.int64(i) for i in _insort(v, None)]


def sort(a, axis=-1, **kw):
    a = sarr(a)
    if axis is None:
        a, axis = a.ravel(), -1
    if not has_sym(a):
        return wrap(np.sort(concrete(a), axis=axis))
    return along(lambda v: [v[i] for i in _insort(v, None)], a, axis, a.vd)


def searchsorted(a, v, side='left', sorter=None):
    a = sarr(a)
    if not has_sym(a) and not has_sym(v):
        return wrap(np.searchsorted(concrete(a), deconc(v), side=side))
    xs = list(plain(a).flat)
    rel = '<' if side == 'left' else '<='

    def f(x):
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            if bool(core.cmp(xs[mid], x, rel)):
                lo = mid + 1
            else:
                hi = mid
        return np.int64(lo)
    if isinstance(v, (np.ndarray, list, tuple)):
        return mk(fmap(f, sarr(v)), I8)
    return f(v)


def digitize(x, bins, right=False):
    bins = sarr(bins)
    if bins.size > 1 and bool(core.cmp(bins[0], bins[-1], '>')):
        n = bins.size
        r = searchsorted(bins[::-1], x, side='right' if right else 'left')
        return ufunc_call('subtract', n, r)
    return searchsorted(bins, x, side='left' if right else 'right')


def round_(a, decimals=0, out=None):
    if not any_sym(a):
        return wrap(np.round(deconc(a), decimals))
    if decimals == 0:
        return ufunc_call('rint', a)
    f = 10.0 ** decimals
    return ufunc_call('true_divide', ufunc_call('rint', ufunc_call('multiply', a, f)), f)


# ---------------------------------------------------------------------------------- functions

def _sc(a, vd=None):
    """Return scalar for 0-d."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return out_scalar(plain(a)[()], a.vd if isinstance(a, SArr) else a.dtype)
    return a


def where(cond, x=None, y=None):
    if x is None and y is None:
        return sarr(cond).nonzero() if np.ndim(cond) else sarr(cond).reshape(1).nonzero()
    c, xa, ya = sarr(cond), sarr(x), sarr(y)
    vd = np.result_type(*[v if type(v) in (int, float, complex) else vdtype_of(v) for v in (x, y)])
    cb, xb, yb = np.broadcast_arrays(plain(c), plain(xa), plain(ya))
    o = np.empty(cb.shape, dtype=object)
    for idx in np.ndindex(*cb.shape):
        t = cb[idx]
        xv, yv = xb[idx], yb[idx]
        if issym(t) and not issym(xv) and not issym(yv) and xv == yv:
            o[idx] = cast(xv, vd)
            continue
        b = bool(core.tobool(t)) if not isinstance(t, MinMax) else bool(core.cmp(t, 0, '!='))
        o[idx] = cast(xv if b else yv, vd)
    return mk(o, vd)


def dot(a, b, out=None):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc_call('multiply', _sc(a), _sc(b))
    if b.ndim == 1:
        return contract(a, b, -1, 0)
    return contract(a, b, -1, b.ndim - 2)


def contract(a, b, ia, ib):
    p = np.moveaxis(plain(a), ia, -1)
    q = np.moveaxis(plain(b), ib, -1)
    if p.shape[-1] != q.shape[-1]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    vd = np.result_type(a.vd, b.vd)
    o = np.empty(p.shape[:-1] + q.shape[:-1], dtype=object)
    P2 = p.reshape((-1, p.shape[-1])) if p.size or p.shape[-1] else p.reshape((int(np.prod(p.shape[:-1])), 0))
    Q2 = q.reshape((-1, q.shape[-1])) if q.size or q.shape[-1] else q.reshape((int(np.prod(q.shape[:-1])), 0))
    of = o.reshape((P2.shape[0], Q2.shape[0]))
    for i in range(P2.shape[0]):
        for j in range(Q2.shape[0]):
            of[i, j] = cast(inner1(P2[i], Q2[j]), vd)
    return mk(o, vd) if o.ndim else o[()]


def inner1(u, v):
    ts = [core.mul(x, y) for x, y in zip(u, v)]
    if not ts:
        return np.float64(0.0)
    return addmany(ts)


def matmul(a, b, out=None, **kw):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if not has_sym(a) and not has_sym(b) and not core.ST.exact:
        return wrap(np.matmul(concrete(a), concrete(b)))
    a1, b1 = a.ndim == 1, b.ndim == 1
    p = plain(a)[None, :] if a1 else plain(a)
    q = plain(b)[:, None] if b1 else plain(b)
    if p.shape[-1] != q.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is '
                         'different from %d)' % (q.shape[-2], p.shape[-1]))
    sh = np.broadcast_shapes(p.shape[:-2], q.shape[:-2])
    p = np.broadcast_to(p, sh + p.shape[-2:])
    q = np.broadcast_to(q, sh + q.shape[-2:])
    vd = np.result_type(a.vd, b.vd)
    o = np.empty(sh + (p.shape[-2], q.shape[-1]), dtype=object)
    for idx in np.ndindex(*o.shape):
        h, i, j = idx[:-2], idx[-2], idx[-1]
        o[idx] = cast(inner1(p[h + (i,)], q[h + (slice(None), j)]), vd)
    if a1:
        o = o[..., 0, :]
    if b1:
        o = o[..., 0]
    return mk(o, vd) if isinstance(o, np.ndarray) and o.ndim else (o[()] if isinstance(o, np.ndarray) else o)


def inner(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ufunc_call('multiply', _sc(a), _sc(b))
    return contract(a, b, -1, -1)


def tensordot(a, b, axes=2):
    a, b = sarr(a), sarr(b)
    if isinstance(axes, (int, np.integer)):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, (int, np.integer)) else list(aa)
        bb = [bb] if isinstance(bb, (int, np.integer)) else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    ra = [i for i in range(a.ndim) if i not in aa]
    rb = [i for i in range(b.ndim) if i not in bb]
    if [a.shape[i] for i in aa] != [b.shape[i] for i in bb]:
        raise ValueError('shape-mismatch for sum')
    p = a.transpose(ra + aa).reshape([a.shape[i] for i in ra] + [int(np.prod([a.shape[i] for i in aa]))])
    q = b.transpose(rb + bb).reshape([b.shape[i] for i in rb] + [int(np.prod([b.shape[i] for i in bb]))])
    return contract(p, q, -1, -1)


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise EngineError('einsum sublist format')
    ops = [sarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins, out = spec, None
    ins = ins.split(',')
    nell = 0
    terms = []
    for s, o in zip(ins, ops):
        if '...' in s:
            n = o.ndim - (len(s) - 3)
            nell = max(nell, n)
    ell = ['#%d' % i for i in range(nell)]

    def expand(s, nd):
        if '...' in s:
            a, b = s.split('...')
            n = nd - len(a) - len(b)
            return list(a) + ell[nell - n:] + list(b)
        return list(s)
    for s, o in zip(ins, ops):
        t = expand(s, o.ndim)
        if len(t) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match the operand')
        terms.append(t)
    if out is None:
        flat = [c for t in terms for c in t]
        o_idx = ell + sorted({c for c in flat if flat.count(c) == 1 and not c.startswith('#')})
    else:
        o_idx = expand(out, nell + len(out.replace('...', '')))
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
            elif n not in (1, dims[c]):
                raise ValueError('operands could not be broadcast together')
    summed = [c for c in dims if c not in o_idx]
    vd = np.result_type(*[o.vd for o in ops])
    res = np.empty([dims[c] for c in o_idx], dtype=object)
    ps = [plain(o) for o in ops]
    for idx in np.ndindex(*res.shape):
        env = dict(zip(o_idx, idx))
        acc = []
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            v = None
            for t, p in zip(terms, ps):
                x = p[tuple(env[c] if p.shape[k] > 1 else 0 for k, c in enumerate(t))]
                v = x if v is None else core.mul(v, x)
                if not issym(v) and v == 0:
                    break
            acc.append(v)
        res[idx] = cast(addmany(acc), vd) if acc else cast(0, vd)
    return mk(res, vd) if res.ndim else res[()]


def norm(x, ord=None, axis=None, keepdims=False):
    x = sarr(x)
    if not has_sym(x) and not core.ST.exact:
        return wrap(np.linalg.norm(concrete(x), ord=ord, axis=axis, keepdims=keepdims))
    if ord not in (None, 2) or (ord == 2 and axis is None and x.ndim > 1) or \
            (isinstance(axis, tuple) and ord is not None):
        raise EngineError('norm order')
    a = ufunc_call('absolute', x) if x.vd.kind == 'c' else x
    return ufunc_call('sqrt', ufunc_call('multiply', a, a).sum(axis=axis, keepdims=keepdims))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not any_sym((a, b)):
        return wrap(np.isclose(deconc(a), deconc(b), rtol, atol, equal_nan))

    def f(x, y):
        if not issym(x) and not issym(y):
            return np.isclose(x, y, rtol, atol, equal_nan)
        if (not issym(x) and not np.isfinite(x)) or (not issym(y) and not np.isfinite(y)):
            return np.False_
        t = core.add(atol, core.mul(rtol, core.absolute(y)))
        d = core.sub(x, y)
        return core.band(core.cmp(d, t, '<='), core.cmp(core.neg(d), t, '<='))
    p, q = np.broadcast_arrays(plain(a), plain(b))
    o = np.empty(p.shape, dtype=object)
    for idx in np.ndindex(*o.shape):
        o[idx] = f(p[idx], q[idx])
    return mk(o, B1) if o.ndim else o[()]


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return r.all() if isinstance(r, np.ndarray) else r


def array_equal(a, b, equal_nan=False):
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return reduce_('logical_and', ufunc_call('equal', a, b)) if a.size else True


def like(value):
    def f(a, dtype=None, order='K', subok=True, shape=None, **kw):
        a = sarr(a)
        return zeros(a.shape if shape is None else shape, dtype or a.dtype, value)
    return f


def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **kw):
    a = sarr(a)
    r = zeros(a.shape if shape is None else shape, dtype or a.dtype)
    r[...] = fill_value
    return r


def full(shape, fill_value, dtype=None, **kw):
    if dtype is None:
        dtype = vdtype_of(fill_value)
    r = zeros(shape, dtype)
    r[...] = fill_value
    return r


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if not any_sym(ar):
        return wrap(np.unique(deconc(sarr(ar)), return_index, return_inverse, return_counts, axis=axis))
    a = sarr(ar)
    v = list(plain(a).flat)
    order = _insort(v, None)
    out, first, counts, inv = [], [], [], np.zeros(len(v), dtype=int)
    for i in order:
        if out and bool(core.cmp(v[i], out[-1], '==')):
            counts[-1] += 1
        else:
            out.append(v[i])
            first.append(i)
            counts.append(1)
        inv[i] = len(out) - 1
    r = [sarr(out)]
    if return_index:
        r.append(wrap(np.array(first)))
    if return_inverse:
        r.append(wrap(inv.reshape(a.shape)))
    if return_counts:
        r.append(wrap(np.array(counts)))
    return r[0] if len(r) == 1 else tuple(r)


def interp(x, xp, fp, left=None, right=None, period=None):
    if not any_sym((x, xp, fp)):
        return wrap(np.interp(deconc(x), deconc(sarr(xp)), deconc(sarr(fp)), left, right, period))
    if period is not None:
        raise EngineError('interp period')
    xp, fp = sarr(xp), sarr(fp)
    n = xp.size

    def f(v):
        if bool(core.cmp(v, xp[0], '<')):
            return fp[0] if left is None else left
        if bool(core.cmp(v, xp[n - 1], '>')):
            return fp[n - 1] if right is None else right
        j = min(int(searchsorted(xp, v, 'right')) - 1, n - 2) if n > 1 else 0
        if n == 1:
            return fp[0]
        sl = core.div(core.sub(fp[j + 1], fp[j]), core.sub(xp[j + 1], xp[j]))
        return core.add(core.mul(sl, core.sub(v, xp[j])), fp[j])
    if isinstance(x, (np.ndarray, list, tuple)):
        return mk(fmap(f, sarr(x)), F8)
    return f(x)


def diff(a, n=1, axis=-1, **kw):
    a = sarr(a)
    for _ in range(n):
        s1, s2 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        a = ufunc_call('subtract', a[tuple(s1)], a[tuple(s2)])
    return a


def polyval(p, x):
    p = sarr(p)
    y = zeros(np.shape(x)) if np.ndim(x) else np.float64(0.0)
    for c in p:
        y = ufunc_call('add', ufunc_call('multiply', y, x), c)
    return y


def gauss_solve(a, b):
    """Gaussian elimination with branching pivot selection (non-zero)."""
    a, b = sarr(a), sarr(b)
    n = a.shape[-1]
    M = [[plain(a)[i, j] for j in range(n)] for i in range(n)]
    bb = plain(b)
    vec = bb.ndim == 1
    R = [[bb[i]] if vec else list(bb[i]) for i in range(n)]
    for c in range(n):
        piv = None
        for r in range(c, n):
            x = M[r][c]
            if not issym(x) and x == 0:
                continue
            if issym(x) and not bool(core.cmp(x, 0, '!=')):
                continue
            piv = r
            break
        if piv is None:
            raise np.linalg.LinAlgError('Singular matrix')
        M[c], M[piv], R[c], R[piv] = M[piv], M[c], R[piv], R[c]
        inv = core.div(1.0, M[c][c])
        for r in range(n):
            if r == c or (not issym(M[r][c]) and M[r][c] == 0):
                continue
            f = core.mul(M[r][c], inv)
            for k in range(c, n):
                M[r][k] = core.sub(M[r][k], core.mul(f, M[c][k]))
            for k in range(len(R[r])):
                R[r][k] = core.sub(R[r][k], core.mul(f, R[c][k]))
    for r in range(n):
        inv = core.div(1.0, M[r][r])
        R[r] = [core.mul(x, inv) for x in R[r]]
    o = nested(R)
    return mk(o[:, 0] if vec else o, F8)


def solve(a, b):
    if not has_sym(a):
        A = concrete(sarr(a))
        if not has_sym(b):
            return wrap(np.linalg.solve(A, concrete(sarr(b))))
        return matmul(wrap(np.linalg.inv(A)), b)
    return gauss_solve(a, b)


def inv(a):
    if not has_sym(a):
        return wrap(np.linalg.inv(concrete(sarr(a))))
    return gauss_solve(a, sarr(np.eye(a.shape[-1])))


def det(a):
    a = sarr(a)
    if not has_sym(a):
        return wrap(np.linalg.det(concrete(a)))
    if a.ndim > 2:
        o = np.empty(a.shape[:-2], dtype=object)
        for idx in np.ndindex(*o.shape):
            o[idx] = det(a[idx])
        return mk(o, F8)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    r = np.float64(0.0)
    for j in range(n):
        keep = [k for k in range(n) if k != j]
        m = mk(plain(a)[1:][:, keep], a.vd)
        r = core.add(r, core.mul(core.mul((-1.0) ** j, a[0, j]), det(m)))
    return r


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = sarr(a), sarr(b)
    a, b = np.moveaxis(a, axisa, -1), np.moveaxis(b, axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise ValueError('incompatible dimensions for cross product')
    m, s = lambda x, y: ufunc_call('multiply', x, y), lambda x, y: ufunc_call('subtract', x, y)
    x = s(m(a[..., 1], b[..., 2]), m(a[..., 2], b[..., 1]))
    y = s(m(a[..., 2], b[..., 0]), m(a[..., 0], b[..., 2]))
    z = s(m(a[..., 0], b[..., 1]), m(a[..., 1], b[..., 0]))
    return np.moveaxis(stack([sarr(x), sarr(y), sarr(z)], axis=-1), -1, axisc)


def stack(arrays, axis=0, out=None, **kw):
    arrays = [sarr(a) for a in arrays]
    vd = np.result_type(*[a.vd for a in arrays])
    r = mk(np.stack([plain(a) for a in arrays], axis=axis), vd)
    return r.astype(vd) if any(a.vd != vd for a in arrays) else r


def concatenate(arrays, axis=0, out=None, dtype=None, **kw):
    arrays = [sarr(a) for a in arrays]
    if not all(isinstance(a, SArr) for a in arrays):
        from . import dates
        return dates.concatenate(arrays, axis)
    vd = np.result_type(*[a.vd for a in arrays])
    r = mk(np.concatenate([plain(a) for a in arrays], axis=axis), vd)
    r = r.astype(vd) if any(a.vd != vd for a in arrays) else r
    if out is not None:
        out[...] = r
        return out
    return r


def append(arr, values, axis=None):
    if axis is None:
        arr, values = sarr(arr).ravel(), sarr(values).ravel()
        axis = 0
    return concatenate((arr, values), axis=axis)


def _dft(x, sign, n):
    out = []
    for k in range(n):
        ts = []
        for j in range(n):
            a = -sign * 2 * math.pi * ((k * j) % n) / n
            ts.append(core.mul(x[j], np.complex128(complex(_snap(math.cos(a)), _snap(math.sin(a))))))
        out.append(addc(ts))
    return out


def addc(ts):
    r = ts[0]
    for t in ts[1:]:
        r = core.add(r, t)
    return r


def _snap(v):
    for w in (0.0, 0.5, -0.5, 1.0, -1.0):
        if abs(v - w) < 1e-15:
            return w
    return v


def _fftlike(kind):
    npf = getattr(np.fft, kind)

    def f(a, n=None, axis=-1, norm=None, out=None):
        a = sarr(a)
        if not has_sym(a):
            return wrap(npf(concrete(a), n=n, axis=axis, norm=norm))
        p = np.moveaxis(plain(a), axis, -1)
        nin = p.shape[-1]
        if kind == 'irfft':
            N = n if n is not None else 2 * (nin - 1)
        else:
            N = n if n is not None else nin
        outs = []
        for idx in np.ndindex(*p.shape[:-1]):
            v = list(p[idx])
            if kind == 'irfft':
                v = v[:N // 2 + 1] + [np.float64(0.0)] * max(0, N // 2 + 1 - len(v))
                fullv = list(v) + [None] * (N - len(v))
                for k in range(len(v), N):
                    fullv[k] = core.tocsym(v[N - k]).conjugate()
                fullv[0] = core.tocsym(fullv[0]).re
                if N % 2 == 0:
                    fullv[N // 2] = core.tocsym(fullv[N // 2]).re
                r = [core.tocsym(x).re for x in _dft(fullv, -1, N)]
            else:
                v = v[:N] + [np.float64(0.0)] * max(0, N - len(v))
                r = _dft(v, -1 if kind == 'ifft' else 1, N)
                if kind == 'rfft':
                    r = r[:N // 2 + 1]
            s = 1.0
            inverse = kind in ('ifft', 'irfft')
            if norm == 'ortho':
                s = 1 / math.sqrt(N)
            elif (norm in (None, 'backward')) == inverse:
                s = 1 / N
            r = [core.mul(x, s) for x in r]
            outs.append(r)
        m = len(outs[0])
        o = np.empty(p.shape[:-1] + (m,), dtype=object)
        for idx, r in zip(np.ndindex(*p.shape[:-1]), outs):
            for k in range(m):
                o[idx + (k,)] = r[k]
        return mk(np.moveaxis(o, -1, axis), F8 if kind == 'irfft' else C16)
    return f


def _real(x):
    if isinstance(x, (Sym, MinMax, SBool)):
        return x
    if isinstance(x, CSym):
        return core.real_part(x)
    return sarr(x).real if isinstance(x, np.ndarray) else np.real(x)


def _imag(x):
    if isinstance(x, (Sym, MinMax, SBool)):
        return np.float64(0.0)
    if isinstance(x, CSym):
        return core.imag_part(x)
    return sarr(x).imag if isinstance(x, np.ndarray) else np.imag(x)


IDENT = {'sum': 0, 'prod': 1, 'any': False, 'all': True}


def _meth(name):
    def f(a, *args, **kw):
        mask = kw.pop('where', np._NoValue)
        init = kw.pop('initial', np._NoValue)
        a = sarr(a)
        if mask is not np._NoValue and mask is not True and mask is not None:
            m = np.broadcast_to(boolmask(sarr(mask)), a.shape)
            if name == 'mean':
                ax = args[0] if args else kw.get('axis')
                kd = kw.get('keepdims', False)
                kd = False if kd is np._NoValue else kd
                s = where(wrap(m), a, 0).sum(axis=ax, keepdims=kd)
                return ufunc_call('true_divide', s, wrap(np.sum(m, axis=ax, keepdims=kd)))
            if name in ('min', 'max'):
                if init is np._NoValue:
                    raise ValueError('reduction operation does not have an identity, so to use a where mask '
                                     'one has to specify "initial"')
                a = where(wrap(m), a, init)
            elif name in IDENT:
                a = where(wrap(m), a, IDENT[name])
            else:
                raise EngineError('where= in ' + name)
        if name in ('min', 'max') and init is not np._NoValue and a.size == 0:
            return init
        r = getattr(sarr(a), name)(*args, **kw)
        if init is not np._NoValue and name in ('sum', 'prod', 'min', 'max'):
            op = {'sum': 'add', 'prod': 'multiply', 'min': 'minimum', 'max': 'maximum'}[name]
            r = ufunc_call(op, r, init)
        return r
    return f


def _nanmeth(name):
    fill = {'min': np.inf, 'max': -np.inf, 'sum': 0.0, 'prod': 1.0}

    def f(a, *args, **kw):
        a = sarr(a)
        bad = boolmask(ufunc_call('isnan', a)) if a.vd.kind in 'fc' else None
        if bad is not None and bad.any():
            if name == 'mean':
                return _meth('mean')(a, *args, where=wrap(~bad), **kw)
            if name not in fill:
                raise EngineError('nan' + name)
            a = where(wrap(bad), fill[name], a)
        return _meth(name)(a, *args, **kw)
    return f


def take_along_axis(arr, indices, axis=-1):
    return wrap(np.take_along_axis(plain(arr), intarr(sarr(indices)), axis))


def take(a, indices, axis=None, out=None, mode='raise'):
    a = sarr(a)
    idx = intarr(sarr(indices)) if np.ndim(indices) else fix1(indices)
    r = np.take(plain(a), idx, axis=axis, mode=mode)
    return mk(r, a.vd) if isinstance(r, np.ndarray) and r.ndim else out_scalar(r if not isinstance(r, np.ndarray) else r[()], a.vd)


def insert(arr, obj, values, axis=None):
    a = sarr(arr)
    if axis is None:
        a, axis = a.ravel(), 0
    obj = deconc(obj) if isinstance(obj, (list, np.ndarray)) else fix1(obj)
    v = sarr(values)
    r = np.insert(plain(a), obj, plain(v) if v.ndim else plain(v)[()], axis=axis)
    return mk(r, a.vd).astype(a.vd)


def delete(arr, obj, axis=None):
    a = sarr(arr)
    obj = deconc(obj) if isinstance(obj, (list, np.ndarray)) else fix1(obj)
    return mk(np.delete(plain(a), obj, axis=axis), a.vd)


def repeat(a, repeats, axis=None):
    a = sarr(a)
    return mk(np.repeat(plain(a), deconc(repeats), axis=axis), a.vd)


def tile(a, reps):
    a = sarr(a)
    return mk(np.tile(plain(a), deconc(reps)), a.vd)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        return v if issym(v) else np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    a = sarr(x)
    r = mk(fmap(f, a), a.vd)
    return _sc(r) if not isinstance(x, np.ndarray) else r


def clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    r = a
    if a_min is not None:
        r = ufunc_call('maximum', r, a_min)
    if a_max is not None:
        r = ufunc_call('minimum', r, a_max)
    return r


def unwrap_(p, discont=None, axis=-1, period=2 * math.pi):
    if not any_sym(p):
        return wrap(np.unwrap(deconc(p), discont=discont, axis=axis, period=period))
    raise EngineError('unwrap')


def outer(a, b, out=None):
    a, b = sarr(a).ravel(), sarr(b).ravel()
    return ufunc_call('multiply', a[:, None], b[None, :])


def kron(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return outer(a, b).ravel()
    return ufunc_call('multiply', a[:, None, :, None], b[None, :, None, :]).reshape(
        (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not any_sym((start, stop)):
        return wrap(np.linspace(deconc(start), deconc(stop), num, endpoint, retstep, normdt(dtype), axis=axis))
    d = num - 1 if endpoint else num
    step = ufunc_call('true_divide', ufunc_call('subtract', stop, start), max(d, 1))
    out = [ufunc_call('add', start, ufunc_call('multiply', step, i)) for i in range(num)]
    if endpoint and num > 1:
        out[-1] = stop
    r = sarr(out)
    return (r, step) if retstep else r


def arange(*args, dtype=None, **kw):
    start, stop, step = 0, None, 1
    if 'start' in kw or 'stop' in kw or 'step' in kw:
        start, stop, step = kw.get('start', 0), kw.get('stop'), kw.get('step', 1)
        if len(args) == 1:
            stop = args[0]
        elif len(args) >= 2:
            start, stop = args[:2]
    else:
        if len(args) == 1:
            stop = args[0]
        else:
            start, stop = args[0], args[1]
            if len(args) > 2:
                step = args[2]
    start, stop, step = [_sc(v) if isinstance(v, np.ndarray) else v for v in (start, stop, step)]
    if any(isinstance(v, (np.datetime64, np.timedelta64, str)) for v in (start, stop, step)):
        return np.arange(start, stop, step, dtype=dtype)
    if not any(issym(v) for v in (start, stop, step)):
        return wrap(np.arange(start, stop, step, dtype=normdt(dtype)))
    # number of elements by branching
    n = intval(core.neg(core.floor(core.neg(core.div(core.sub(stop, start), step)))))
    n = max(n, 0)
    out = [core.add(start, core.mul(step, i)) if i else start for i in range(n)]
    return sarr(out, dtype=dtype) if out else zeros(0, dtype)


def meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [sarr(x).ravel() for x in xs]
    r = np.meshgrid(*[plain(x) for x in xs], indexing=indexing, sparse=sparse)
    return tuple(mk(o, x.vd) for o, x in zip(r, xs))


def broadcast_to(a, shape, subok=False):
    a = sarr(a)
    r = np.broadcast_to(plain(a), tuple(int(s) for s in shape) if not isinstance(shape, (int, np.integer)) else shape)
    return mk(r, a.vd)


def broadcast_arrays(*args, subok=False):
    args = [sarr(a) for a in args]
    r = np.broadcast_arrays(*[plain(a) if isinstance(a, SArr) else a for a in args])
    return tuple(mk(o, a.vd) if isinstance(a, SArr) else o for o, a in zip(r, args))


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = sarr(y)
    y = np.moveaxis(y, axis, -1)
    s = ufunc_call('add', y[..., 1:], y[..., :-1])
    d = dx if x is None else diff(sarr(x))
    return ufunc_call('multiply', ufunc_call('multiply', s, d), 0.5).sum(axis=-1)


def count_nonzero(a, axis=None, keepdims=False):
    m = boolmask(sarr(a)) if sarr(a).vd.kind == 'b' else boolmask(ufunc_call('not_equal', sarr(a), 0))
    return wrap(np.count_nonzero(m, axis=axis, keepdims=keepdims))


def array2string(a, *args, **kw):
    return str(plain(a))


def isin(element, test_elements, **kw):
    e, t = sarr(element), sarr(test_elements).ravel()
    if not has_sym(e) and not has_sym(t):
        return wrap(np.isin(deconc(e), deconc(t), **kw))
    r = ufunc_call('equal', e[..., None], t)
    r = reduce_('logical_or', r, -1)
    return ufunc_call('logical_not', r) if kw.get('invert') else r


def average(a, axis=None, weights=None, **kw):
    a = sarr(a)
    if weights is None:
        return a.mean(axis)
    w = sarr(weights)
    if w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return ufunc_call('true_divide', ufunc_call('multiply', a, w).sum(axis=axis),
                      broadcast_to(w, a.shape).sum(axis=axis))


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


def piecewise(x, condlist, funclist, *args, **kw):
    x = sarr(x)
    r = zeros(x.shape, x.vd)
    n = len(condlist)
    masks = [boolmask(sarr(c)) for c in condlist]
    if len(funclist) == n + 1:
        masks.append(~np.any(masks, axis=0))
    for m, f in zip(masks, funclist):
        r[m] = f(x[m], *args, **kw) if callable(f) else f
    return r


def flatnonzero(a):
    return sarr(a).ravel().nonzero()[0]


def maximum_reduce(name):
    return lambda a, axis=None, out=None, keepdims=False, **kw: reduce_(name, a, axis, keepdims)


FUNCS = {
    'where': where, 'dot': dot, 'matmul': matmul, 'inner': inner, 'tensordot': tensordot, 'einsum': einsum,
    'vdot': lambda a, b: dot(ufunc_call('conjugate', sarr(a)).ravel(), sarr(b).ravel()),
    'vecdot': lambda a, b, axis=-1, **k: ufunc_call('multiply', ufunc_call('conjugate', a), b).sum(axis=axis),
    'linalg.norm': norm, 'linalg.solve': solve, 'linalg.inv': inv, 'linalg.det': det,
    'linalg.cross': lambda a, b, axis=-1: cross(a, b, axis=axis),
    'linalg.vecdot': lambda a, b, axis=-1: ufunc_call('multiply', a, b).sum(axis=axis),
    'linalg.matmul': matmul, 'linalg.outer': outer,
    'isclose': isclose, 'allclose': allclose, 'array_equal': array_equal,
    'zeros_like': like(0), 'ones_like': like(1), 'empty_like': like(0), 'full_like': full_like,
    'unique': unique, 'interp': interp, 'sort': sort, 'searchsorted': searchsorted, 'digitize': digitize,
    'argsort': _meth('argsort'), 'argmin': _meth('argmin'), 'argmax': _meth('argmax'),
    'diff': diff, 'polyval': polyval, 'cross': cross, 'stack': stack, 'concatenate': concatenate,
    'append': append, 'real': _real, 'imag': _imag, 'all': _meth('all'), 'any': _meth('any'),
    'min': _meth('min'), 'max': _meth('max'), 'amin': _meth('min'), 'amax': _meth('max'),
    'nanmin': _nanmeth('min'), 'nanmax': _nanmeth('max'), 'nanmean': _nanmeth('mean'), 'nanprod': _nanmeth('prod'), 'ptp': _meth('ptp'),
    'sum': _meth('sum'), 'prod': _meth('prod'), 'mean': _meth('mean'), 'std': _meth('std'), 'var': _meth('var'),
    'nansum': _nanmeth('sum'), 'cumsum': _meth('cumsum'), 'cumprod': _meth('cumprod'),
    'take': take, 'take_along_axis': take_along_axis, 'insert': insert, 'delete': delete,
    'repeat': repeat, 'tile': tile, 'nan_to_num': nan_to_num, 'clip': clip, 'round': round_,
    'around': round_, 'unwrap': unwrap_, 'outer': outer, 'kron': kron, 'linspace': linspace,
    'meshgrid': meshgrid, 'broadcast_to': broadcast_to, 'broadcast_arrays': broadcast_arrays,
    'trapezoid': trapezoid, 'count_nonzero': count_nonzero, 'array2string': array2string, 'isin': isin,
    'average': average, 'select': select, 'piecewise': piecewise, 'flatnonzero': flatnonzero,
    'nonzero': lambda a: sarr(a).nonzero(), 'copy': lambda a, order='K', subok=False: sarr(a).copy(),
    'result_type': lambda *a: np.result_type(*[vdtype_of(x) if isinstance(x, (np.ndarray, Sym, CSym)) else deconc(x) for x in a]),
    'fft.fft': _fftlike('fft'), 'fft.ifft': _fftlike('ifft'), 'fft.rfft': _fftlike('rfft'),
    'fft.irfft': _fftlike('irfft'),
    'iscomplexobj': lambda x: vdtype_of(x).kind == 'c', 'isrealobj': lambda x: vdtype_of(x).kind != 'c',
    'iscomplex': lambda x: ufunc_call('not_equal', _imag(x), 0),
    'isreal': lambda x: ufunc_call('equal', _imag(x), 0),
    'array_repr': lambda a, *k, **kw: repr(a), 'array_str': lambda a, *k, **kw: repr(a),
}


def _iop(name):
    def f(self, o):
        uf = getattr(np, name)
        r = apply(uf, (self, sarr(o) if isinstance(o, (list, tuple)) else o))
        store_out(uf, self, r, None)
        return self
    return f


for _d, _n in (('iadd', 'add'), ('isub', 'subtract'), ('imul', 'multiply'), ('itruediv', 'true_divide'),
               ('ifloordiv', 'floor_divide'), ('imod', 'remainder'), ('ipow', 'power'),
               ('iand', 'bitwise_and'), ('ior', 'bitwise_or')):
    setattr(SArr, '__%s__' % _d, _iop(_n))


def _bop(name, swap=False):
    def f(self, o):
        if isinstance(o, (list, tuple)):
            o = sarr(o)
        if o is None or isinstance(o, (str, dict)):
            return NotImplemented
        if isinstance(o, np.ndarray) and not isinstance(o, SArr):
            o = sarr(o)
        return ufunc_call(name, o, self) if swap else ufunc_call(name, self, o)
    return f


for _d, _n in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'true_divide'),
               ('floordiv', 'floor_divide'), ('mod', 'remainder'), ('pow', 'power'), ('matmul', 'matmul'),
               ('and', 'bitwise_and'), ('or', 'bitwise_or'), ('xor', 'bitwise_xor')):
    setattr(SArr, '__%s__' % _d, _bop(_n))
    setattr(SArr, '__r%s__' % _d, _bop(_n, True))
for _d, _n in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal'),
               ('eq', 'equal'), ('ne', 'not_equal')):
    setattr(SArr, '__%s__' % _d, _bop(_n))
SArr.__hash__ = None
SArr.__neg__ = lambda self: ufunc_call('negative', self)
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: ufunc_call('absolute', self)
SArr.__invert__ = lambda self: ufunc_call('invert', self)
SArr.__divmod__ = lambda self, o: (ufunc_call('floor_divide', self, o), ufunc_call('remainder', self, o))
