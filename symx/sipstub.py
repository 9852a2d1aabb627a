"""Executable contracts of the scipy.interpolate classes the package uses (same algorithms, symbolic values)."""
import math
import types
import numpy as np
from . import arr, core
from .arr import SArr, sarr, plain, issym, mk


def find_interval(x, xs, last_closed=True, first=0, last=None):
    """Largest i in [first, last] with xs[i] <= x (branching); x is known to be inside."""
    lo, hi = first, last
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if bool(core.cmp(xs[mid], x, '<=')):
            lo = mid
        else:
            hi = mid - 1
    return lo


class PPoly:
    def __init__(self, c, x, extrapolate=None, axis=0):
        self.c = sarr(c)
        self.x = sarr(x, dtype=float)
        if self.c.dtype.kind in 'iub':
            self.c = self.c.astype(float)
        self.extrapolate = True if extrapolate is None else \
            (extrapolate if extrapolate == 'periodic' else bool(extrapolate))
        if self.c.ndim < 2:
            raise ValueError('Coefficients array must be at least 2-dimensional.')
        if axis != 0:
            self.c = np.moveaxis(np.moveaxis(self.c, axis + 1, 0), axis + 1, 0)
        self.axis = axis
        if self.x.ndim != 1:
            raise ValueError('x must be 1-dimensional')
        if self.x.size < 2:
            raise ValueError('at least 2 breakpoints are needed')
        if self.c.shape[0] == 0:
            raise ValueError('polynomial must be at least of order 0')
        if self.c.shape[1] != self.x.size - 1:
            raise ValueError('number of coefficients != len(x)-1')

    @classmethod
    def construct_fast(cls, c, x, extrapolate=None, axis=0):
        self = object.__new__(cls)
        self.c, self.x, self.axis = sarr(c), sarr(x), axis
        self.extrapolate = True if extrapolate is None else extrapolate
        return self

    @classmethod
    def from_spline(cls, tck, extrapolate=None):
        if isinstance(tck, BSpline):
            t, c, k = tck.t, tck.c, tck.k
            if extrapolate is None:
                extrapolate = tck.extrapolate
        else:
            t, c, k = tck
            t, c = sarr(t), sarr(c)
        n = t.size
        cv = arr.zeros((k + 1, n - 1))
        b = BSpline.construct_fast(t, c, k, True)
        for i in range(n - 1):
            ell = b._interval(t[i])
            for m in range(k + 1):
                y = b._eval1(t[i], m, ell)
                cv[k - m, i] = core.div(y[()] if isinstance(y, np.ndarray) else y, math.factorial(m))
        return cls.construct_fast(cv, t, extrapolate)

    def derivative(self, nu=1):
        if nu < 0:
            return self.antiderivative(-nu)
        c2 = self.c.copy() if nu == 0 else self.c[:-nu].copy()
        if c2.shape[0] == 0:
            c2 = arr.zeros((1,) + c2.shape[1:], c2.dtype)
        n = c2.shape[0]
        for i in range(n):
            f = 1.0
            for j in range(nu):
                f *= (n - i) + j
            c2[i] = c2[i] * f
        return self.construct_fast(c2, self.x, self.extrapolate, self.axis)

    def antiderivative(self, nu=1):
        raise core.EngineError('antiderivative')

    def extend(self, c, x):
        c, x = sarr(c), sarr(x)
        if c.ndim < 2:
            raise ValueError('invalid dimensions for c')
        if x.ndim != 1:
            raise ValueError('invalid dimensions for x')
        if x.shape[0] != c.shape[1]:
            raise ValueError('Shapes of x %s and c %s are incompatible' % (x.shape, c.shape))
        if c.shape[2:] != self.c.shape[2:] or c.ndim != self.c.ndim:
            raise ValueError('Shapes of c %s and self.c %s are incompatible' % (c.shape, self.c.shape))
        if c.size == 0:
            return
        xs = list(plain(x))
        old = list(plain(self.x))
        if any(bool(core.cmp(b, a, '<')) for a, b in zip(xs, xs[1:])):
            raise ValueError('`x` is not sorted.')
        if bool(core.cmp(xs[0], old[-1], '>=')):
            parts, newx = (self.c, c), old + xs
        elif bool(core.cmp(xs[-1], old[0], '<=')):
            parts, newx = (c, self.c), xs + old
        else:
            raise ValueError('`x` is neither on the left or on the right from `self.x`.')
        k = max(c.shape[0], self.c.shape[0])
        c2 = arr.zeros((k, c.shape[1] + self.c.shape[1]) + self.c.shape[2:], self.c.dtype)
        m = 0
        for q in parts:
            c2[k - q.shape[0]:, m:m + q.shape[1]] = q
            m += q.shape[1]
        self.c, self.x = c2, sarr(newx, dtype=float)

    def __call__(self, x, nu=0, extrapolate=None):
        if extrapolate is None:
            extrapolate = self.extrapolate
        x = sarr(x)
        if x.dtype.kind in 'iub':
            x = x.astype(float)
        p = self.derivative(nu) if nu else self
        tail = self.c.shape[2:]
        out = np.empty((x.size,) + tail, dtype=object)
        xs = list(plain(self.x))
        c = plain(p.c)
        n = len(xs) - 1
        for i, v in enumerate(plain(x).reshape(-1)):
            out[i] = self._eval1(v, xs, c, n, tail, extrapolate)
        dt = self.c.dtype if self.c.dtype.kind in 'fc' else arr.F8
        r = mk(out.reshape(x.shape + tail), dt)
        if self.axis != 0:
            nd = x.ndim
            l = list(range(r.ndim))
            l = l[nd:nd + self.axis] + l[:nd] + l[nd + self.axis:]
            r = r.transpose(l)
        return r

    def _eval1(self, v, xs, c, n, tail, extrapolate):
        nanv = np.empty(tail, dtype=object)
        nanv.fill(np.float64('nan'))
        if core.special(v) and v != v:
            return nanv if tail else np.float64('nan')
        if extrapolate == 'periodic':
            per = core.sub(xs[-1], xs[0])
            v = core.add(xs[0], core.remainder(core.sub(v, xs[0]), per))
        elif not extrapolate:
            if not (bool(core.cmp(v, xs[0], '>=')) and bool(core.cmp(v, xs[n], '<='))):
                return nanv if tail else np.float64('nan')
        j = find_interval(v, xs, first=0, last=n - 1)
        s = core.sub(v, xs[j])
        res = np.empty(tail, dtype=object)
        K = c.shape[0]
        for idx in np.ndindex(*tail):
            r = c[(K - 1, j) + idx]
            z = np.float64(1.0)
            for k in range(1, K):
                z = core.mul(z, s)
                r = core.add(r, core.mul(c[(K - 1 - k, j) + idx], z))
            res[idx] = r
        return res if tail else res[()]


class BSpline:
    def __init__(self, t, c, k, extrapolate=True, axis=0):
        self.k = int(k)
        self.c, self.t = sarr(c), sarr(t, dtype=float)
        self.extrapolate = extrapolate if extrapolate == 'periodic' else bool(extrapolate)
        n = self.t.shape[0] - self.k - 1
        self.axis = axis
        if k < 0:
            raise ValueError('Spline order cannot be negative.')
        if self.t.ndim != 1:
            raise ValueError('Knot vector must be one-dimensional.')
        if n < self.k + 1:
            raise ValueError('Need at least %d knots for degree %d' % (2 * k + 2, k))
        d = arr.diff(self.t)
        if bool((d < 0).any()):
            raise ValueError('Knots must be in a non-decreasing order.')
        if self.c.ndim < 1:
            raise ValueError('Coefficients must be at least 1-dimensional.')
        if self.c.shape[0] < n:
            raise ValueError('Knots, coefficients and degree are inconsistent.')
        if self.c.dtype.kind in 'iub':
            self.c = self.c.astype(float)

    @classmethod
    def construct_fast(cls, t, c, k, extrapolate=True, axis=0):
        self = object.__new__(cls)
        self.t, self.c, self.k, self.extrapolate, self.axis = sarr(t), sarr(c), int(k), extrapolate, axis
        return self

    @property
    def tck(self):
        return self.t, self.c, self.k

    @classmethod
    def basis_element(cls, t, extrapolate=True):
        raise core.EngineError('basis_element')

    def derivative(self, nu=1):
        raise core.EngineError('BSpline.derivative')

    @classmethod
    def design_matrix(cls, x, t, k, extrapolate=False):
        t = sarr(t)
        n = t.size - k - 1
        b = cls.construct_fast(t, sarr(np.eye(n)), k, extrapolate)
        r = b(x)

        class _M:
            def toarray(self):
                return r

            todense = toarray
        return _M()

    def _interval(self, v):
        t, k = list(plain(self.t)), self.k
        n = len(t) - k - 1
        return self._find(v, t, k, n)

    def _find(self, v, t, k, n):
        # last i in [k, n-1] with t[i] <= v and t[i] < t[i+1] where possible
        i = find_interval(v, t, first=k, last=n - 1)
        while i > k and bool(core.cmp(t[i], t[i + 1], '==')):
            i -= 1
        return i

    def _eval1(self, v, nu, ell):
        """de Boor with symbolic values; returns an array of trailing shape."""
        t, k = list(plain(self.t)), self.k
        c = plain(self.c)
        tail = c.shape[1:]
        res = np.empty(tail, dtype=object)
        for idx in np.ndindex(*tail):
            if nu > k:
                res[idx] = np.float64(0.0)
                continue
            d = [c[(j,) + idx] for j in range(ell - k, ell + 1)]
            deg = k
            for _ in range(nu):
                nd = []
                for j in range(len(d) - 1):
                    a = ell - deg + 1 + j
                    nd.append(core.mul(deg, core.div(core.sub(d[j + 1], d[j]), core.sub(t[a + deg], t[a]))))
                d = nd
                deg -= 1
            for r in range(1, deg + 1):
                for j in range(deg, r - 1, -1):
                    a = ell - deg + j
                    w = core.div(core.sub(v, t[a]), core.sub(t[a + deg - r + 1], t[a]))
                    d[j] = core.add(core.mul(core.sub(1.0, w), d[j - 1]), core.mul(w, d[j]))
            res[idx] = d[deg]
        return res

    def __call__(self, x, nu=0, extrapolate=None):
        if extrapolate is None:
            extrapolate = self.extrapolate
        x = sarr(x)
        t, k = list(plain(self.t)), self.k
        n = len(t) - k - 1
        tail = self.c.shape[1:]
        out = np.empty((x.size,) + tail, dtype=object)
        for i, v in enumerate(plain(x).reshape(-1)):
            nan = core.special(v) and v != v
            if extrapolate == 'periodic':
                raise core.EngineError('periodic BSpline')
            if nan or (not extrapolate and not (bool(core.cmp(v, t[k], '>=')) and bool(core.cmp(v, t[n], '<=')))):
                for idx in np.ndindex(*tail):
                    out[(i,) + idx] = np.float64('nan')
                continue
            ell = self._find(v, t, k, n)
            r = self._eval1(v, nu, ell)
            for idx in np.ndindex(*tail):
                out[(i,) + idx] = r[idx]
        return mk(out.reshape(x.shape + tail), arr.F8)


def make_lsq_spline(x, y, t, k=3, w=None, axis=0, check_finite=True, **kw):
    """Least squares spline by normal equations (exact interpolation if square)."""
    x, y, t = sarr(x), sarr(y), sarr(t)
    n = t.size - k - 1
    b = BSpline.construct_fast(t, sarr(np.eye(n)), k, False)
    A = b(x)
    if x.size < n:
        raise ValueError('Need more sample points than coefficients')
    y2 = y.reshape((y.shape[0], -1))
    AT = A.T
    N = arr.matmul(AT, A)
    # condition of the normal matrix is irrelevant here: its inverse is computed once
    if not arr.has_sym(A):
        S = arr.wrap(np.linalg.pinv(arr.concrete(A)))
        c = arr.matmul(S, y2)
    else:
        c = arr.gauss_solve(N, arr.matmul(AT, y2))
    c = c.reshape((n,) + y.shape[1:])
    return BSpline.construct_fast(t, c, k)


def make_interp_spline(x, y, k=3, t=None, **kw):
    if t is None:
        if k == 1:
            x = sarr(x)
            t = arr.concatenate([x[:1], x, x[-1:]])
            return BSpline.construct_fast(t, sarr(y), 1)
        raise core.EngineError('make_interp_spline')
    return make_lsq_spline(x, y, t, k)


class interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan,
                 assume_sorted=False):
        self.x, self.y = sarr(x), sarr(y)
        self.x = self.x[...]
        if kind not in ('linear', 'previous', 'nearest', 'zero') or self.y.ndim != 1:
            raise core.EngineError('interp1d kind %s' % kind)
        self.kind = kind
        self.fill = fill_value
        self.extra = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if bounds_error is None:
            bounds_error = not self.extra and not (isinstance(fill_value, tuple) or
                                                   not (isinstance(fill_value, float) and fill_value != fill_value))
        self.bounds_error = bounds_error
        if self.x.size != self.y.size:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')

    def _check_bounds(self, t):
        t = sarr(t)
        below, above = t < self.x[0], t > self.x[-1]
        if self.bounds_error and (bool(np.any(below)) or bool(np.any(above))):
            raise ValueError('A value in x_new is outside the interpolation range.')
        return below, above

    def __call__(self, t):
        t = sarr(t)
        xs, ys = list(plain(self.x)), list(plain(self.y))
        n = len(xs)

        def f(v):
            if not self.extra:
                below = bool(core.cmp(v, xs[0], '<'))
                above = not below and bool(core.cmp(v, xs[-1], '>'))
                if below or above:
                    if self.bounds_error:
                        raise ValueError('A value in x_new is %s the interpolation range.'
                                         % ('below' if below else 'above'))
                    if isinstance(self.fill, tuple):
                        return self.fill[0] if below else self.fill[1]
                    return np.float64(self.fill)
            # scipy: searchsorted(x, v) clipped to [1, n-1]; interval (i-1, i)
            lo, hi = 1, n - 1
            if self.kind in ('previous', 'zero'):
                i = find_interval(v, xs, first=0, last=n - 1)
                return ys[i]
            while lo < hi:
                mid = (lo + hi) // 2
                if bool(core.cmp(xs[mid], v, '<')):
                    lo = mid + 1
                else:
                    hi = mid
            i = lo
            if self.kind == 'nearest':
                raise core.EngineError('nearest')
            s = core.div(core.sub(ys[i], ys[i - 1]), core.sub(xs[i], xs[i - 1]))
            return core.add(core.mul(s, core.sub(v, xs[i - 1])), ys[i - 1])
        return mk(arr.fmap(f, t), arr.F8)


mod = types.ModuleType('scipy.interpolate')
for _o in (PPoly, BSpline, make_lsq_spline, make_interp_spline, interp1d):
    setattr(mod, _o.__name__, _o)
scipy = types.ModuleType('scipy')
scipy.interpolate = mod
