"""Symbolic values: Laurent polynomials over atoms, with rewriting, branching and z3 translation.

A ``Sym`` is a polynomial (dict monomial -> coefficient) over *atoms*.  A monomial is a sorted tuple of
(atom index, integer exponent).  Atoms are input variables or values of non-polynomial functions
(cos/sin pairs, square roots, inverses, floors, angles ...), each with an interval and defining axioms.
"""
import math
from fractions import Fraction
import numpy as np
import z3


class EngineError(BaseException):
    """The engine cannot represent an operation (never a verdict)."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


TWO_PI = 2 * math.pi
INF = math.inf
DROP = 1e-12        # relative cancellation threshold (float mode)


class Atom:
    __slots__ = ('i', 'kind', 'name', 'lo', 'hi', 'data', 'unit', 'integer', 'rule', 'nonzero')

    def __init__(self, i, kind, name, lo=-INF, hi=INF, data=None, unit=None, integer=False,
                 nonzero=False):
        self.i, self.kind, self.name, self.lo, self.hi = i, kind, name, lo, hi
        self.data, self.unit, self.integer, self.nonzero = data, unit, integer, nonzero
        self.rule = False

    def __repr__(self):
        return self.name


class State:
    """All engine state of one symbolic execution."""

    def __init__(self, exact=False):
        self.exact = exact
        self.atoms = []
        self.bykey = {}          # kind -> list of (poly, atom)
        self.vars = {}
        self.redcache = {}
        self.nointscalar = False
        self.jans = []           # (year, day number of its first day, atoms)
        self.path = None
        self.notes = set()
        self.multi = {}
        self.eagercache = {}
        self.lazy = False        # keep powers of square roots until a value is compared
        self.field = None        # atom of the imaginary unit: complex values are polynomials of complex atoms

    def atom(self, kind, name, **kw):
        a = Atom(len(self.atoms), kind, name, **kw)
        self.atoms.append(a)
        return a


ST = State()


def reset(exact=False, path=None, lazy=False, field=False):
    global ST
    ST = State(exact)
    ST.path = path
    ST.lazy = lazy
    if field:
        ST.field = ST.atom('imag', 'I', lo=-1.0, hi=1.0)
        ST.field.rule = True
        ST.field.nonzero = True
    return ST


def K(x):
    """Convert a finite real constant to the coefficient type."""
    if isinstance(x, Fraction):
        return x if ST.exact else float(x)
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if ST.exact:
        if isinstance(x, (int, np.integer)):
            return Fraction(int(x))
        return Fraction(float(x))
    return float(x)


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_, Fraction)) and \
        not isinstance(x, np.timedelta64)


# --------------------------------------------------------------------------- polynomial arithmetic

def padd(p, q, sgn=1):
    r = dict(p)
    for m, c in q.items():
        c = c if sgn == 1 else -c
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            n = o + c
            if ST.exact:
                if n == 0:
                    del r[m]
                else:
                    r[m] = n
            else:
                if abs(n) <= DROP * (abs(o) if abs(o) > abs(c) else abs(c)):
                    del r[m]
                else:
                    r[m] = n
    return r


def paccum(terms):
    """Sum many (mono, coef) with compensated dropping: track the magnitude accumulated per monomial."""
    acc, mag = {}, {}
    ex = ST.exact
    for m, c in terms:
        if m in acc:
            acc[m] += c
            if not ex:
                mag[m] += abs(c)
        else:
            acc[m] = c
            if not ex:
                mag[m] = abs(c)
    if ex:
        return {m: c for m, c in acc.items() if c != 0}
    return {m: c for m, c in acc.items() if abs(c) > DROP * mag[m]}


def merge(m1, m2):
    """Product of two monomials (no reduction)."""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)


def reduce_mono(m):
    """Reduce a monomial by the atom rules.  Returns a dict poly or None if already reduced."""
    atoms = ST.atoms
    hit = False
    for a, e in m:
        if atoms[a].rule:
            hit = True
            break
    if not hit:
        return None
    r = ST.redcache.get(m, 0)
    if r != 0:
        return r
    r = _reduce(m)
    ST.redcache[m] = r
    return r


def _without(m, *idx):
    return tuple(t for t in m if t[0] not in idx)


def _reduce(m):
    atoms = ST.atoms
    d = dict(m)
    for a, e in m:
        at = atoms[a]
        if not at.rule:
            continue
        if at.kind == 'cos' or at.kind == 'sin':
            if at.kind == 'cos':
                ci, si = a, at.data[0]
            else:
                ci, si = at.data[0], a
            ec, es = d.get(ci, 0), d.get(si, 0)
            rest = _without(m, ci, si)
            if es >= 2 and ec >= 0 or (es >= 2 and ec < 0):
                # s^2 -> 1 - c^2
                t1 = _mk(rest, ci, ec, si, es - 2)
                t2 = _mk(rest, ci, ec + 2, si, es - 2)
                return _rsum([(t1, 1), (t2, -1)])
            if es < 0 and ec >= 2:
                t1 = _mk(rest, ci, ec - 2, si, es)
                t2 = _mk(rest, ci, ec - 2, si, es + 2)
                return _rsum([(t1, 1), (t2, -1)])
            if es < 0 and ec < 0:
                t1 = _mk(rest, ci, ec + 2, si, es)
                t2 = _mk(rest, ci, ec, si, es + 2)
                return _rsum([(t1, 1), (t2, 1)])
        elif at.kind == 'imag':
            if e not in (0, 1):
                k = e % 4
                return _rmul([(_mk(_without(m, a), a, k % 2), -1 if k >= 2 else 1)])
        elif at.kind == 'root':
            if ST.lazy:
                continue
            k = at.data[1]
            if e >= k:
                return _rmul(_poly_times_mono(at.data[0], _mk(_without(m, a), a, e - k)))
            if e < 0:
                inv = pinv(at.data[0])
                return _rmul(_poly_times_mono(inv, _mk(_without(m, a), a, e + k)))
        elif at.kind == 'inv':
            L, restp = at.data[1], at.data[2]
            if e < 0:
                return _rmul(_poly_times_mono(at.data[0], _mk(_without(m, a), a, e + 1)))
            ok = True
            for b, f in L:
                if d.get(b, 0) < f:
                    ok = False
                    break
            if ok:
                q = merge(m, tuple((b, -f) for b, f in L))
                # L*i = 1 - rest*i
                t1 = merge(q, ((a, -1),))
                out = [(t1, 1)]
                for mm, c in restp.items():
                    out.append((merge(q, mm), -c))
                return _rsum(out)
    return None


def _mk(rest, *pairs):
    out = list(rest)
    for k in range(0, len(pairs), 2):
        if pairs[k + 1]:
            out.append((pairs[k], pairs[k + 1]))
    out.sort()
    return tuple(out)


def _rsum(terms):
    acc = []
    for m, c in terms:
        r = reduce_mono(m)
        if r is None:
            acc.append((m, c))
        else:
            acc.extend((mm, cc * c) for mm, cc in r.items())
    return paccum(acc)


def _poly_times_mono(p, m):
    return [(merge(mm, m), c) for mm, c in p.items()]


def _rmul(terms):
    return _rsum(terms)


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            if c == 1:
                return dict(q)
            if c == 0:
                return {}
            return {mm: cc * c for mm, cc in q.items()}
    terms = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = merge(m1, m2)
            r = reduce_mono(m)
            if r is None:
                terms.append((m, c1 * c2))
            else:
                cc = c1 * c2
                terms.extend((mm, c * cc) for mm, c in r.items())
    if len(terms) > 400000:
        raise EngineError('polynomial too large')
    return paccum(terms)


def pscale(p, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in p.items()}


def pconst(c):
    return {(): c} if c != 0 else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), K(0)) if p else K(0)


# --------------------------------------------------------------------------- intervals

def _ipow(lo, hi, e):
    if e < 0:
        if lo > 0 or hi < 0:
            a, b = 1.0 / lo if lo else INF, 1.0 / hi if hi else INF
            return _ipow(min(a, b), max(a, b), -e)
        if lo == 0 and hi > 0:
            return _ipow(1.0 / hi, INF, -e)
        if e % 2 == 0:
            return (0.0, INF)
        return (-INF, INF)
    if e % 2 == 0:
        a, b = abs(lo), abs(hi)
        mx = max(a, b)
        mn = 0.0 if lo <= 0 <= hi else min(a, b)
        try:
            return (mn ** e, mx ** e)
        except OverflowError:
            return (0.0, INF)
    try:
        return (float(lo) ** e, float(hi) ** e)
    except OverflowError:
        return (-INF, INF)


def _imul(a, b):
    v = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                v.append(0.0)
            else:
                v.append(x * y)
    return (min(v), max(v))


def imono(m):
    r = (1.0, 1.0)
    for a, e in m:
        at = ST.atoms[a]
        r = _imul(r, _ipow(float(at.lo), float(at.hi), e))
    return r


def ipoly(p):
    lo = hi = 0.0
    for m, c in p.items():
        a, b = imono(m) if m else (1.0, 1.0)
        c = float(c)
        x, y = (c * a if a else 0.0), (c * b if b else 0.0)
        if x > y:
            x, y = y, x
        lo += x
        hi += y
    return lo, hi


def clean(p):
    """Drop terms that are rounding residue relative to the dominating one."""
    if ST.lazy:
        p = eager(p)
    if ST.exact or ST.field is not None or len(p) < 2:
        return p
    mx = 0.0
    big = {}
    for m, c in p.items():
        b = max(abs(t) for t in imono(m)) if m else 1.0
        if not (b < INF):
            b = 1.0
        v = abs(c) * b
        big[m] = v
        mx = max(mx, v)
    return {m: c for m, c in p.items() if big[m] > 1e-12 * mx and abs(c) > 0}


def eager(p):
    """Apply the rules for square roots that the lazy mode leaves out."""
    for m in p:
        for a, e in m:
            if ST.atoms[a].kind == 'root' and (e < 0 or e >= ST.atoms[a].data[1]):
                break
        else:
            continue
        break
    else:
        return p
    saved, ST.redcache, ST.lazy = ST.redcache, ST.eagercache, False
    try:
        return _rsum(list(p.items()))
    finally:
        ST.redcache, ST.lazy = saved, True


def same_poly(p, q, rel=1e-9):
    if p.keys() != q.keys():
        return False
    if ST.exact:
        return p == q
    mx = max((abs(c) for c in p.values()), default=0)
    return all(abs(c - q[m]) <= rel * mx for m, c in p.items())


def lookup(kind, p):
    key = (kind, frozenset(p.keys()))
    for q, a in ST.bykey.get(key, ()):
        if same_poly(p, q):
            return a
    return None


def remember(kind, p, a):
    ST.bykey.setdefault((kind, frozenset(p.keys())), []).append((p, a))


# --------------------------------------------------------------------------- Sym

class Sym:
    __slots__ = ('t',)
    __array_ufunc__ = None
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t):
        self.t = t

    # -- helpers
    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return np.float64(0.0)

    def __repr__(self):
        return 'Sym(' + pstr(self.t) + ')'

    __str__ = __repr__

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __format__(self, spec):
        from . import fileio
        return fileio.format_sym(self, spec)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if is_const(self.t):
            return float(cval(self.t))
        raise EngineError('float() of a symbolic value')

    def __int__(self):
        if is_const(self.t):
            return int(cval(self.t))
        raise EngineError('int() of a symbolic value')

    def __index__(self):
        if is_const(self.t):
            return int(cval(self.t))
        from . import arr
        try:
            return arr.intval(self)
        except IndexError:
            raise TypeError("'float' object cannot be interpreted as an integer")

    # -- array-like protocol
    def __getitem__(self, key):
        from . import arr
        return arr.sarr(self)[key]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in _ARRATTR:
            from . import arr
            return getattr(arr.sarr(self), name)
        raise AttributeError(name)

    # -- arithmetic
    def _bin(self, other, f):
        if isinstance(other, Sym):
            return f(self, other)
        if is_num(other):
            return f(self, other)
        return NotImplemented

    def __add__(self, o):
        return add(self, o) if _scal(o) else _arr('add', self, o)

    def __radd__(self, o):
        return add(o, self) if _scal(o) else _arr('add', o, self)

    def __sub__(self, o):
        return sub(self, o) if _scal(o) else _arr('subtract', self, o)

    def __rsub__(self, o):
        return sub(o, self) if _scal(o) else _arr('subtract', o, self)

    def __mul__(self, o):
        return mul(self, o) if _scal(o) else _arr('multiply', self, o)

    def __rmul__(self, o):
        return mul(o, self) if _scal(o) else _arr('multiply', o, self)

    def __truediv__(self, o):
        return div(self, o) if _scal(o) else _arr('true_divide', self, o)

    def __rtruediv__(self, o):
        return div(o, self) if _scal(o) else _arr('true_divide', o, self)

    def __pow__(self, o):
        return power(self, o) if _scal(o) else _arr('power', self, o)

    def __rpow__(self, o):
        return power(o, self) if _scal(o) else _arr('power', o, self)

    def __mod__(self, o):
        return remainder(self, o) if _scal(o) else _arr('remainder', self, o)

    def __rmod__(self, o):
        return remainder(o, self) if _scal(o) else _arr('remainder', o, self)

    def __floordiv__(self, o):
        return floordiv(self, o) if _scal(o) else _arr('floor_divide', self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self) if _scal(o) else _arr('floor_divide', o, self)

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __lt__(self, o):
        return cmp(self, o, '<') if _scal(o) else _arr('less', self, o)

    def __le__(self, o):
        return cmp(self, o, '<=') if _scal(o) else _arr('less_equal', self, o)

    def __gt__(self, o):
        return cmp(self, o, '>') if _scal(o) else _arr('greater', self, o)

    def __ge__(self, o):
        return cmp(self, o, '>=') if _scal(o) else _arr('greater_equal', self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return cmp(self, o, '==') if _scal(o) else _arr('equal', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return cmp(self, o, '!=') if _scal(o) else _arr('not_equal', self, o)

    def __round__(self, n=None):
        return floor(add(self, 0.5))

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return neg(floor(neg(self)))

    def __trunc__(self):
        return trunc(self)

    def __complex__(self):
        raise EngineError('complex() of a symbolic value')

    def conjugate(self):
        return self

    conj = conjugate

    def copy(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return is_intpoly(self.t)


_ARRATTR = {'reshape', 'astype', 'any', 'all', 'sum', 'T', 'transpose', 'flatten', 'ravel', 'squeeze',
            'min', 'max', 'mean', 'tolist', 'repeat', 'prod', 'swapaxes', 'flat', 'itemsize', 'nbytes',
            'round', 'clip', 'dot'}


def _scal(o):
    return isinstance(o, (Sym, CSym, SBool, MinMax)) or is_num(o) or isinstance(o, (complex, np.complexfloating))


_ARRLIKE = (list, tuple, np.ndarray, np.datetime64, np.timedelta64)


def _arr(name, a, b):
    from . import arr
    if isinstance(a, _ARRLIKE) or isinstance(b, _ARRLIKE):
        return arr.ufunc_call(name, a, b)
    return NotImplemented


def pstr(t, n=8):
    out = []
    for m, c in list(t.items())[:n]:
        s = '%.6g' % float(c)
        for a, e in m:
            s += '*' + ST.atoms[a].name + ('^%d' % e if e != 1 else '')
        out.append(s)
    if len(t) > n:
        out.append('...(%d terms)' % len(t))
    return ' + '.join(out) or '0'


def P(x):
    """Poly dict of a real scalar."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, MinMax):
        return x.force_poly()
    if isinstance(x, SBool):
        return pconst(K(1)) if bool(x) else {}
    return pconst(K(x))


def special(x):
    """True for nan / inf constants."""
    if isinstance(x, (float, np.floating)):
        return x != x or x in (INF, -INF)
    return False


def wrap(t):
    """Sym or np.float64 for constants."""
    if is_const(t):
        c = cval(t)
        if ST.exact:
            f = float(c)
            if Fraction(f) == c:
                return np.float64(f)
            return Sym(t)
        return np.float64(c)
    return Sym(t)


def mksym(t):
    return wrap(t)


class CSym:
    """Complex value with real/imag parts that may be symbolic."""
    __slots__ = ('re', 'im')
    __array_ufunc__ = None
    __array_priority__ = 1001
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def dtype(self):
        return np.dtype(complex)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __repr__(self):
        return 'CSym(%r, %r)' % (self.re, self.im)

    def __getitem__(self, key):
        from . import arr
        return arr.sarr(self)[key]

    def __getattr__(self, name):
        if name in _ARRATTR:
            from . import arr
            return getattr(arr.sarr(self), name)
        raise AttributeError(name)

    def conjugate(self):
        return CSym(self.re, neg(self.im))

    conj = conjugate

    def copy(self):
        return self

    def __hash__(self):
        return hash((hash(self.re), hash(self.im)))

    def __add__(self, o):
        return add(self, o) if _scal(o) else _arr('add', self, o)

    def __radd__(self, o):
        return add(o, self) if _scal(o) else _arr('add', o, self)

    def __sub__(self, o):
        return sub(self, o) if _scal(o) else _arr('subtract', self, o)

    def __rsub__(self, o):
        return sub(o, self) if _scal(o) else _arr('subtract', o, self)

    def __mul__(self, o):
        return mul(self, o) if _scal(o) else _arr('multiply', self, o)

    def __rmul__(self, o):
        return mul(o, self) if _scal(o) else _arr('multiply', o, self)

    def __truediv__(self, o):
        return div(self, o) if _scal(o) else _arr('true_divide', self, o)

    def __rtruediv__(self, o):
        return div(o, self) if _scal(o) else _arr('true_divide', o, self)

    def __pow__(self, o):
        return power(self, o) if _scal(o) else _arr('power', self, o)

    def __rpow__(self, o):
        return power(o, self) if _scal(o) else _arr('power', o, self)

    def __neg__(self):
        return CSym(neg(self.re), neg(self.im))

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __eq__(self, o):
        if not _scal(o):
            return _arr('equal', self, o)
        o = tocsym(o)
        return band(cmp(self.re, o.re, '=='), cmp(self.im, o.im, '=='))

    def __ne__(self, o):
        return bnot(self == o)

    def __bool__(self):
        return bool(self != 0)


def fpoly(z):
    """Field mode: polynomial of a complex value."""
    z = tocsym(z)
    return P(mkc(z.re, z.im).re) if isinstance(z.re, Sym) or isinstance(z.im, Sym) else \
        padd(P(z.re), pmul({((ST.field.i, 1),): K(1)}, P(z.im)))


def ffn(kind, z, lo=-INF, hi=INF):
    """Field mode: atom standing for a function of a complex value."""
    p = clean(fpoly(z))
    a = lookup('f' + kind, p)
    if a is None:
        a = ST.atom('cfn', '%s%d' % (kind, len(ST.atoms)), lo=lo, hi=hi)
        a.data = (kind, p)
        remember('f' + kind, p, a)
    return Sym({((a.i, 1),): K(1)})


def real_part(x):
    x = tocsym(x)
    return ffn('re', x) if ST.field is not None and isinstance(x.re, Sym) else x.re


def imag_part(x):
    x = tocsym(x)
    return ffn('im', x) if ST.field is not None and isinstance(x.re, Sym) else x.im


CFN = {'sqrt': lambda x: np.sqrt(complex(x)), 'exp': lambda x: np.exp(complex(x)), 're': lambda x: complex(x).real,
       'im': lambda x: complex(x).imag}


def is_cplx(x):
    return isinstance(x, (CSym, complex, np.complexfloating))


def tocsym(x):
    if isinstance(x, CSym):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return CSym(np.float64(x.real), np.float64(x.imag))
    return CSym(x, np.float64(0.0))


def mkc(re, im):
    if ST.field is not None and (isinstance(re, Sym) or isinstance(im, Sym)):
        return CSym(wrap(padd(P(re), pmul({((ST.field.i, 1),): K(1)}, P(im)))), np.float64(0.0))
    if not isinstance(re, Sym) and not isinstance(im, Sym):
        return np.complex128(complex(float(re), float(im)))
    return CSym(re, im)


def add(a, b):
    if is_cplx(a) or is_cplx(b):
        a, b = tocsym(a), tocsym(b)
        return mkc(add(a.re, b.re), add(a.im, b.im))
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if sa and sb:
        return wrap(padd(a.t, b.t))
    if special(a) or special(b):
        if sa or sb:
            x = a if not sa else b
            return np.float64(x)
        return np.float64(a) + np.float64(b)
    if not sa and not sb and not isinstance(a, (MinMax, SBool)) and not isinstance(b, (MinMax, SBool)):
        return cadd(a, b)
    return wrap(padd(P(a), P(b)))


def _exactc(f, a, b):
    if ST.exact and not (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer))):
        return wrap(pconst(f(K(a), K(b))))
    return None


def cadd(a, b):
    r = _exactc(lambda x, y: x + y, a, b)
    return np.add(a, b) if r is None else r


def sub(a, b):
    if is_cplx(a) or is_cplx(b):
        a, b = tocsym(a), tocsym(b)
        return mkc(sub(a.re, b.re), sub(a.im, b.im))
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if special(a) or special(b):
        if sa:
            return np.float64(-b)
        if sb:
            return np.float64(a)
        return np.float64(a) - np.float64(b)
    if not sa and not sb and not isinstance(a, (MinMax, SBool)) and not isinstance(b, (MinMax, SBool)):
        r = _exactc(lambda x, y: x - y, a, b)
        return np.subtract(a, b) if r is None else r
    return wrap(padd(P(a), P(b), -1))


def neg(a):
    if isinstance(a, (Sym, CSym)):
        return -a
    if isinstance(a, (SBool, MinMax)):
        return wrap(pscale(P(a), -1))
    return np.negative(a)


def mul(a, b):
    if is_cplx(a) or is_cplx(b):
        ca, cb = is_cplx(a), is_cplx(b)
        if ca and not cb:
            a = tocsym(a)
            return mkc(mul(a.re, b), mul(a.im, b))
        if cb and not ca:
            b = tocsym(b)
            return mkc(mul(a, b.re), mul(a, b.im))
        a, b = tocsym(a), tocsym(b)
        return mkc(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if sa and sb:
        return wrap(pmul(a.t, b.t))
    if special(a) or special(b):
        if sa or sb:
            s, x = (a, b) if sa else (b, a)
            if x != x:
                return np.float64('nan')
            sg = sign_of(s.t)
            return np.float64(sg * x) if sg else np.float64('nan')
        return np.float64(a) * np.float64(b)
    if not sa and not sb and not isinstance(a, (MinMax, SBool)) and not isinstance(b, (MinMax, SBool)):
        r = _exactc(lambda x, y: x * y, a, b)
        return np.multiply(a, b) if r is None else r
    return wrap(pmul(P(a), P(b)))


def div(a, b):
    if is_cplx(a) or is_cplx(b):
        if not is_cplx(b):
            a = tocsym(a)
            return mkc(div(a.re, b), div(a.im, b))
        a, b = tocsym(a), tocsym(b)
        if ST.field is not None and (isinstance(b.re, Sym) or isinstance(b.im, Sym)):
            return CSym(wrap(pmul(fpoly(a), pinv(fpoly(b)))), np.float64(0.0))
        d = add(mul(b.re, b.re), mul(b.im, b.im))
        n = mul(a, b.conjugate())
        n = tocsym(n)
        return mkc(div(n.re, d), div(n.im, d))
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if special(a) or special(b):
        if not sa and not sb:
            return np.float64(a) / np.float64(b)
        if a is not None and not sa and a != a or (not sb and b != b):
            return np.float64('nan')
        if sa:
            return np.float64(0.0)
        sg = sign_of(b.t)
        return np.float64(sg * a) if sg else np.float64('nan')
    if not sa and not sb and not isinstance(a, (MinMax, SBool)) and not isinstance(b, (MinMax, SBool)):
        if ST.exact and float(b) != 0:
            return wrap(pconst(K(a) / K(b)))
        with np.errstate(all='ignore'):
            return np.true_divide(a, b)
    pb = P(b)
    if is_const(pb):
        c = cval(pb)
        if c == 0:
            sg = sign_of(P(a))
            return np.float64(sg * INF) if sg else np.float64('nan')
        if ST.exact:
            return wrap(pscale(P(a), 1 / c))
        return wrap({m: v / c for m, v in P(a).items()})
    return wrap(pmul(P(a), pinv(pb)))


def lex_order(m):
    """The order in which all rewrite rules decrease: later atoms are larger."""
    return m[::-1]


def mono_order(m):
    return (sum(abs(e) for _, e in m), m)


def pinv(p):
    """Poly of 1/p."""
    p = clean(p)
    if not p:
        raise EngineError('division by a zero polynomial')
    if is_const(p):
        return pconst(1 / cval(p))
    if len(p) == 1:
        (m, c), = p.items()
        for a, e in m:
            ST.notes.add('divisor %s != 0' % ST.atoms[a].name)
        mm = tuple((a, -e) for a, e in m)
        r = reduce_mono(mm)
        if r is None:
            return {mm: 1 / c}
        return pscale(r, 1 / c)
    # try trig alternative forms that are monomials
    alt = alt_monomial(p)
    if alt is not None:
        return pinv(alt)
    # factor common monomial
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            new = {}
            for a in set(common) | set(d):
                e = min(common.get(a, 0), d.get(a, 0))
                if e:
                    new[a] = e
            common = new
    pre = {(): K(1)}
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        p = _rsum(_poly_times_mono(p, cm))
        p = clean(p)
        r = reduce_mono(cm)
        pre = {cm: K(1)} if r is None else r
        if len(p) == 1 or is_const(p):
            return pmul(pre, pinv(p))
    L = max(p, key=lex_order)
    if any(e < 0 for _, e in L):
        cand = [m for m in p if all(e > 0 for _, e in m) and m]
        if not cand:
            raise EngineError('cannot invert ' + pstr(p))
        L = max(cand, key=lex_order)
    lc = p[L]
    q = {m: c / lc for m, c in p.items()}
    a = lookup('inv', q)
    if a is None:
        a = ST.atom('inv', 'inv%d' % len(ST.atoms))
        lo, hi = ipoly(q)
        if lo > 0 or hi < 0:
            x, y = 1 / hi, 1 / lo
            a.lo, a.hi = min(x, y) * (1 - 1e-9 if min(x, y) > 0 else 1 + 1e-9), \
                max(x, y) * (1 + 1e-9 if max(x, y) > 0 else 1 - 1e-9)
        else:
            ST.notes.add('divisor %s != 0' % pstr(q, 4))
        rest = dict(q)
        del rest[L]
        a.data = (q, L, rest)
        a.nonzero = True
        remember('inv', q, a)
        # existing cached reductions stay valid; rule applies to monomials with this atom
        a.rule = True
    return pscale(pmul(pre, {((a.i, 1),): K(1)}), 1 / lc)


def has_denominator(p):
    return any(e < 0 or ST.atoms[a].kind == 'inv' for m in p for a, e in m)


def vanishes(p, limit=20000):
    """True if p is identically zero after multiplying with all denominators it contains."""
    p = eager(p) if ST.lazy else p
    mag = max((abs(c) for c in p.values()), default=0)
    for _ in range(60):
        if not p:
            return True
        invs = [a for m in p for a, e in m if ST.atoms[a].kind == 'inv']
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if invs:
            i = max(invs)
            q = ST.atoms[i].data[0]
            top = max(dict(m).get(i, 0) for m in p)
            pw = [pconst(K(1))]
            for _ in range(top):
                pw.append(pmul(pw[-1], q))
            terms = []
            for m, c in p.items():
                r = _without(m, i)
                for m2, c2 in pw[top - dict(m).get(i, 0)].items():
                    terms.append((merge(r, m2), c * c2))
        elif neg:
            f = tuple(sorted(neg.items()))
            terms = [(merge(m, f), c) for m, c in p.items()]
        else:
            break
        if len(terms) > limit:
            return False
        p = _rsum(terms)
        mag = max([abs(c) for _, c in terms])
        if len(p) > limit:
            return False
        if ST.field is not None and p:       # every term must cancel by itself
            sums = {}
            for m, c in terms:
                for mm, cc in (reduce_mono(m) or {m: 1.0}).items():
                    sums[mm] = sums.get(mm, 0.0) + abs(c * cc)
            p = {m: c for m, c in p.items() if abs(c) > 1e-10 * sums.get(m, 0.0)}
    if not p:
        return True
    if ST.exact or ST.field is not None:
        return False
    return max(abs(c) for c in p.values()) <= 1e-9 * mag


def as_constant(p):
    """The constant a polynomial with denominators is identically equal to, or None."""
    if not has_denominator(p) or ST.path is None:
        return None
    v = []
    for k, env in ST.path.sample_envs()[:6]:
        ST.path.sync(k, env)
        try:
            v.append(eval_poly(p, env))
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    if len(v) < 3 or max(v) - min(v) > 1e-9 * max(1e-30, abs(v[0])):
        return None
    c = K(int(round(v[0]))) if abs(v[0] - round(v[0])) < 1e-9 else K(v[0])
    return c if vanishes(padd(p, pconst(c), -1)) else None


def trig_pairs(p):
    s = set()
    for m in p:
        for a, e in m:
            at = ST.atoms[a]
            if at.kind == 'cos':
                s.add((a, at.data[0]))
            elif at.kind == 'sin':
                s.add((at.data[0], a))
    return sorted(s)


def to_sin_form(p, ci, si):
    """Rewrite even powers of cos as powers of sin (not reduced form)."""
    out = []
    for m, c in p.items():
        d = dict(m)
        e = d.get(ci, 0)
        if e < 2:
            out.append((m, c))
            continue
        k = e // 2
        r = _without(m, ci, si)
        for j in range(k + 1):
            out.append((_mk(r, ci, e - 2 * k, si, d.get(si, 0) + 2 * j),
                        c * math.comb(k, j) * (-1) ** j))
    return paccum(out)


def alt_forms(p):
    pairs = trig_pairs(p)[:4]
    for mask in range(1, 1 << len(pairs)):
        q = p
        for b, (ci, si) in enumerate(pairs):
            if mask >> b & 1:
                q = to_sin_form(q, ci, si)
        yield clean(q)


def alt_monomial(p):
    if len(p) > 60:
        return None
    for q in alt_forms(p):
        if len(q) == 1:
            return q
    return None


def power(a, b):
    if isinstance(b, (MinMax, SBool)):
        b = wrap(P(b))
    if isinstance(b, CSym) or isinstance(b, Sym) and not is_const(b.t):
        if not is_cplx(a) and not isinstance(a, (MinMax, SBool)):
            if isinstance(a, Sym):
                if ipoly(clean(a.t))[0] > 0:
                    return exp(mul(b, opaque('log', [a])))
            elif a > 0:
                return exp(mul(b, np.float64(math.log(a))))
        raise EngineError('symbolic exponent')
    if isinstance(b, Sym):
        b = float(cval(b.t))
    if is_cplx(b) and not isinstance(a, (Sym, CSym)):
        with np.errstate(all='ignore'):
            return np.power(a, b)
    if not isinstance(a, (Sym, CSym)):
        if isinstance(a, (MinMax, SBool)):
            a = wrap(P(a))
            return power(a, b)
        if ST.exact and float(b) == int(b) and not isinstance(a, (complex, np.complexfloating)):
            if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and b >= 0:
                return np.power(a, b)
            return wrap(pconst(K(a) ** int(b)))
        with np.errstate(all='ignore'):
            return np.power(a, b) if not (isinstance(b, (int, np.integer)) and b < 0) else np.float_power(a, b)
    if is_cplx(b):
        raise EngineError('complex exponent')
    bf = float(b)
    if bf == int(bf):
        n = int(bf)
        if isinstance(a, CSym):
            r = mkc(np.float64(1.0), np.float64(0.0))
            base = a if n >= 0 else div(1.0, a)
            for _ in range(abs(n)):
                r = mul(r, base)
            return r
        if n == 0:
            return np.float64(1.0)
        if n < 0:
            return wrap(ppow(pinv(a.t), -n))
        return wrap(ppow(a.t, n))
    if isinstance(a, CSym):
        if bf == 0.5:
            return csqrt(a)
        raise EngineError('complex fractional power')
    fr = Fraction(bf).limit_denominator(12)
    if abs(float(fr) - bf) < 1e-12:
        n, k = fr.numerator, fr.denominator
        r = root(a, k)
        return power(r, n)
    return opaque('pow', [a, b])


def ppow(p, n):
    r = None
    while n:
        if n & 1:
            r = p if r is None else pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r if r is not None else pconst(K(1))


def sign_of(p):
    """+1/-1/0 if decided by intervals, else decided by forking."""
    p = clean(p)
    if not p:
        return 0
    lo, hi = ipoly(p)
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if len(p) == 1:
        (m, c), = p.items()
        s = 1 if c > 0 else -1
        ok = True
        for a, e in m:
            if e % 2 == 0:
                continue
            at = ST.atoms[a]
            if at.lo >= 0:
                continue
            if at.hi <= 0:
                s = -s
                continue
            ok = False
            break
        if ok:
            return s
        for a, e in m:
            at = ST.atoms[a]
            if e % 2 and not (at.lo >= 0) and not (at.hi <= 0):
                if not bool(cmp(Sym({((a, 1),): K(1)}), 0, '>=')):
                    s = -s
            elif e % 2 and at.hi <= 0 and not at.lo >= 0:
                pass
        # re-evaluate with fixed-sign atoms
        s2 = 1 if c > 0 else -1
        for a, e in m:
            at = ST.atoms[a]
            if e % 2 == 0 or at.lo >= 0:
                continue
            if at.hi <= 0:
                s2 = -s2
            elif not bool(cmp(Sym({((a, 1),): K(1)}), 0, '>=')):
                s2 = -s2
        return s2
    if bool(cmp(Sym(p), 0, '>=')):
        return 1
    return -1


def realpoly(p):
    """Field mode: built from real atoms only."""
    for m in p:
        for a, _ in m:
            at = ST.atoms[a]
            if at.kind == 'imag' or at.kind == 'cfn' and at.data[0] in ('sqrt', 'exp'):
                return False
            if at.kind in ('inv', 'root') and not all(realpoly(q) for q in defs(at)):
                return False
    return True


def fabs(p):
    """Field mode: size of a product of real values, square roots and the unit, or None."""
    if realpoly(p):
        return absolute(wrap(p))
    if len(p) > 1:
        u = {merge(m, ((ST.field.i, 3),)): c for m, c in p.items()}     # -i p
        u = clean({(reduced(m)[0]): c * reduced(m)[1] for m, c in u.items()})
        if realpoly(u):
            return absolute(wrap(u))
        return None
    (m, c), = p.items()
    r = np.float64(abs(float(c)))
    for a, e in m:
        at = ST.atoms[a]
        if at.kind == 'imag':
            continue
        if at.kind == 'cfn' and at.data[0] == 'sqrt':
            t = fabs(at.data[1])
            if t is None:
                return None
            r = mul(r, power(sqrt(t), e))
        elif not realpoly({((a, 1),): 1}):
            return None
        else:
            r = mul(r, power(absolute(Sym({((a, 1),): K(1)})), e))
    return r


def reduced(m):
    """Monomial with the powers of the unit reduced, and its sign."""
    e = dict(m).get(ST.field.i, 0) % 4
    m = tuple(ae for ae in m if ae[0] != ST.field.i)
    return (merge(m, ((ST.field.i, 1),)) if e % 2 else m), (-1 if e >= 2 else 1)


def absolute(x):
    if isinstance(x, (complex, np.complexfloating)):
        return np.abs(x)
    if isinstance(x, CSym):
        if ST.field is not None:
            r = fabs(clean(fpoly(x)))
            if r is not None:
                return r
            return sqrt(add(power(ffn('re', x), 2), power(ffn('im', x), 2)))
        return sqrt(add(mul(x.re, x.re), mul(x.im, x.im)))
    if isinstance(x, (MinMax, SBool)):
        x = wrap(P(x))
    if not isinstance(x, Sym):
        return np.abs(x)
    s = sign_of(x.t)
    return x if s >= 0 else -x


def psqrt_poly(p):
    """Polynomial square root: q with q*q == p, or None."""
    if len(p) > 200:
        return None
    order = sorted(p, key=mono_order, reverse=True)
    L = order[0]
    c = p[L]
    if c <= 0 or any(e % 2 for _, e in L):
        return None
    lm = tuple((a, e // 2) for a, e in L)
    lc = _csqrt(c)
    if lc is None:
        return None
    q = {lm: lc}
    rem = clean(padd(p, pmul(q, q), -1))
    for _ in range(40):
        if not rem:
            return q
        M = max(rem, key=mono_order)
        t = merge(M, tuple((a, -e) for a, e in lm))
        if any(e < 0 for _, e in t) and not any(e < 0 for m in p for _, e in m):
            return None
        tc = rem[M] / (2 * lc)
        if t in q:
            return None
        q = padd(q, {t: tc})
        rem = clean(padd(p, pmul(q, q), -1))
        mx = max(abs(v) for v in p.values())
        if not ST.exact:
            rem = {m: v for m, v in rem.items() if abs(v) > 1e-10 * mx}
    return None


def _csqrt(c):
    if ST.exact:
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fraction(rn, rd)
        return None
    return math.sqrt(c)


def sqrt(x):
    if isinstance(x, CSym):
        return csqrt(x)
    if isinstance(x, (MinMax, SBool)):
        x = wrap(P(x))
    if not isinstance(x, Sym):
        with np.errstate(all='ignore'):
            if ST.exact and float(x) >= 0:
                c = _csqrt(K(x))
                if c is not None:
                    return wrap(pconst(c))
            return np.sqrt(x)
    return root(x, 2)


def csqrt(z):
    """Principal square root of a complex symbolic value: atom pair (u, v), u>=0."""
    if ST.field is not None:
        p = clean(fpoly(z))         # scaled by a power of two to a size near one
        size = 0.0
        for m, c in p.items():
            v = abs(float(c))
            for a, e in m:
                at = ST.atoms[a]
                if at.kind != 'imag' and 0 < at.lo and at.hi < INF:
                    v *= math.sqrt(at.lo * at.hi) ** e
            size = max(size, v)
        f = 2.0 ** round(math.log2(size) / 2) if size else 1.0
        return CSym(mul(ffn('sqrt', CSym(wrap(pscale(p, K(f ** -2))), np.float64(0.0))), np.float64(f)), np.float64(0.0))
    # |z|
    mod = absolute(z)
    u = sqrt(mul(add(mod, z.re), 0.5))
    # v = im/(2u)
    v = div(z.im, mul(2.0, u))
    return mkc(u, v)


def root(x, k):
    """k-th root of a non-negative value."""
    if not isinstance(x, Sym):
        with np.errstate(all='ignore'):
            if k == 2:
                return sqrt(x)
            return np.power(x, 1.0 / k)
    p = clean(x.t)
    if not p:
        return np.float64(0.0)
    if is_const(p):
        return root(np.float64(float(cval(p))), k)
    c = as_constant(p)
    if c is not None:
        return root(np.float64(float(c)), k)
    lo, hi = ipoly(p)
    if hi < 0:
        return np.float64('nan')
    # monomial content
    if len(p) == 1:
        return _root_mono(p, k)
    if k == 2:
        alt = alt_monomial(p)
        if alt is not None:
            return _root_mono(alt, k)
        q = psqrt_poly(p)
        if q is None:
            for f in alt_forms(p):
                if 1 < len(f) <= 60:
                    q = psqrt_poly(f)
                    if q is not None:
                        break
        if q is not None:
            q = _rsum(list(q.items()))
            return absolute(wrap(q))
    # common even monomial factor
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {a: min(common.get(a, 0), d.get(a, 0))
                                           for a in set(common) | set(d)}
        common = {a: e for a, e in common.items() if e}
    out = np.float64(1.0)
    if common:
        even = {a: e - (e % k) for a, e in common.items() if e - (e % k)}
        # trig sin^2 content is hidden by reduction; only literal common factors are taken
        if even:
            em = tuple(sorted(even.items()))
            p = clean(_rsum(_poly_times_mono(p, tuple((a, -e) for a, e in em))))
            out = _root_mono({em: K(1)}, k)
            if len(p) == 1:
                return mul(out, _root_mono(p, k))
    # hidden factor sin^2: try dividing by sin^2 for each pair
    if k == 2:
        for ci, si in trig_pairs(p):
            f = clean(to_sin_form(p, ci, si))
            if f and all(dict(m).get(si, 0) >= 2 for m in f):
                g = paccum([(merge(m, ((si, -2),)), c) for m, c in f.items()])
                g = clean(_rsum(list(g.items())))
                out = mul(out, absolute(Sym({((si, 1),): K(1)})))
                return mul(out, root(wrap(g), 2))
    # normalise the leading coefficient
    L = max(p, key=mono_order)
    lc = abs(p[L])
    c = _csqrt(lc) if k == 2 else (None if ST.exact else lc ** (1.0 / k))
    if c is None:
        c, lc = K(1), K(1)
    p = {m: v / lc for m, v in p.items()}
    a = lookup('root%d' % k, p)
    if a is None and k == 2:
        r = _root_relation(p)
        if r is not None:
            return mul(out, wrap(pscale(_rsum([(r[0], 1)]), c * r[1])))
    if a is None:
        lo, hi = ipoly(p)
        lo = max(lo, 0.0)
        a = ST.atom('root', 'root%d_%d' % (k, len(ST.atoms)),
                    lo=lo ** (1.0 / k) * (1 - 1e-9), hi=(hi ** (1.0 / k) * (1 + 1e-9) if hi < INF else INF))
        a.data = (p, k)
        a.rule = True
        remember('root%d' % k, p, a)
        if ipoly(p)[0] < 0:
            ST.notes.add('radicand %s >= 0' % pstr(p, 4))
    return mul(out, wrap({((a.i, 1),): c}))


def _shape(p):
    return max(sum(e for _, e in m) for m in p), frozenset(a for m in p for a, _ in m)


def _root_relation(p):
    """sqrt(p) as product or quotient of existing square roots."""
    rts = [(a, a.data[0]) for a in ST.atoms if a.kind == 'root' and a.data[1] == 2 and len(a.data[0]) > 1][-24:]
    if not rts or len(p) > 2000 or len(p) < 2:
        return None
    info = [(a, q) + _shape(q) for a, q in rts]
    d, at = _shape(p)
    for i, (a, q, dq, aq) in enumerate(info):
        for b, r, dr, ar in info[:i + 1]:
            if dq + dr == d and aq | ar == at and len(q) * len(r) <= 4000 and same_poly(clean(pmul(q, r)), p):
                return (((a.i, 2),) if a is b else tuple(sorted(((a.i, 1), (b.i, 1))))), 1
    for a, q, dq, aq in info:
        for b, r, dr, ar in info:
            if a is not b and dr + d == dq and ar | at == aq and len(p) * len(r) <= 4000 \
                    and same_poly(clean(pmul(p, r)), q):
                return tuple(sorted(((a.i, 1), (b.i, -1)))), 1
    if has_denominator(p) or any(has_denominator(q) for _, q in rts):
        return _root_ratio(p, rts)
    return None


def _root_ratio(p, rts):
    """The same search modulo denominators: candidates are found numerically and confirmed as identities."""
    pts = []
    for k, env in (ST.path.sample_envs() if ST.path else [])[:8]:
        ST.path.sync(k, env)
        try:
            pts.append((eval_poly(p, env), [eval_poly(q, env) for _, q in rts]))
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    if len(pts) < 4:
        return None
    one = pconst(K(1))
    qs = [(a, q) for a, q in rts] + [(None, one)]
    vals = np.array([[*v, 1.0] for _, v in pts])
    vp = np.array([v for v, _ in pts])
    if not (vp > 0).all() or not (vals > 0).all():
        return None
    n = len(qs)
    for i in range(n):
        for j in range(n):
            for prod in (True, False):
                if prod and j > i or not prod and i == j:
                    continue
                c = vp / (vals[:, i] * vals[:, j]) if prod else vp * vals[:, j] / vals[:, i]
                if np.ptp(c) > 1e-9 * c[0]:
                    continue
                x = K(float(c[0]))
                if abs(c[0] - round(c[0])) < 1e-9:
                    x = K(int(round(c[0])))
                (a, q), (b, r) = qs[i], qs[j]
                t = padd(p, pscale(pmul(q, r), x), -1) if prod else padd(pmul(p, r), pscale(q, x), -1)
                if not vanishes(t):
                    continue
                m = {}
                for at, e in ((a, 1), (b, 1 if prod else -1)):
                    if at is not None:
                        m[at.i] = m.get(at.i, 0) + e
                cc = _csqrt(x)
                if cc is None:
                    continue
                return tuple(sorted((k, e) for k, e in m.items() if e)), cc
    return None


def _root_mono(p, k):
    (m, c), = p.items()
    if k == 2 and c < 0 and ipoly(p)[1] <= 0:
        return np.float64('nan')
    cc = _csqrt(c) if k == 2 and c > 0 else (c ** (1.0 / k) if c > 0 and not ST.exact else None)
    rest = []
    outer = []
    for a, e in m:
        q, r = divmod(e, k)
        if q:
            outer.append((a, q))
        if r:
            rest.append((a, r))
    res = np.float64(1.0)
    for a, e in outer:
        base = Sym({((a, 1),): K(1)})
        at = ST.atoms[a]
        if k == 2 and not at.lo >= 0 and e % 2:
            base = absolute(base)
        res = mul(res, power(base, e))
    if not rest and cc is not None:
        return mul(res, cc if not isinstance(cc, Fraction) else wrap(pconst(cc)))
    if cc is None:
        inner = {tuple(rest): c}
        cc = K(1)
    else:
        inner = {tuple(rest): K(1)}
    a = lookup('root%d' % k, inner)
    if a is None:
        lo, hi = ipoly(inner)
        a = ST.atom('root', 'root%d_%d' % (k, len(ST.atoms)), lo=max(lo, 0.0) ** (1.0 / k) * (1 - 1e-9),
                    hi=(max(hi, 0.0) ** (1.0 / k) * (1 + 1e-9) if hi < INF else INF))
        a.data = (inner, k)
        a.rule = True
        remember('root%d' % k, inner, a)
        if lo < 0:
            ST.notes.add('radicand %s >= 0' % pstr(inner, 4))
    return mul(res, wrap({((a.i, 1),): cc}))


# --------------------------------------------------------------------------- floor & co

def is_intpoly(p):
    for m, c in p.items():
        if not float(c).is_integer():
            return False
        for a, e in m:
            if not ST.atoms[a].integer or e < 0:
                return False
    return True


def floor(x):
    if isinstance(x, (MinMax, SBool)):
        x = wrap(P(x))
    if not isinstance(x, Sym):
        return np.floor(x)
    p = x.t
    ip, rest = {}, {}
    for m, c in p.items():
        if m and all(ST.atoms[a].integer and e > 0 for a, e in m) and float(c).is_integer():
            ip[m] = c
        else:
            rest[m] = c
    c0 = cval(rest)
    if is_const(rest):
        f = K(math.floor(c0))
        return wrap(padd(ip, pconst(f)))
    f0 = K(math.floor(c0))
    if f0:
        rest = padd(rest, pconst(f0), -1)
        ip = padd(ip, pconst(f0))
    lo, hi = ipoly(rest)
    if math.floor(lo) == math.floor(hi) and lo == lo and abs(lo) < 1e300:
        return wrap(padd(ip, pconst(K(math.floor(lo)))))
    a = lookup('floor', rest)
    if a is None:
        a = ST.atom('floor', 'fl%d' % len(ST.atoms), integer=True,
                    lo=math.floor(lo) if lo > -INF else -INF, hi=math.floor(hi) if hi < INF else INF)
        a.data = rest
        remember('floor', rest, a)
    return wrap(padd(ip, {((a.i, 1),): K(1)}))


def trunc(x):
    if not isinstance(x, Sym):
        return np.trunc(x)
    if is_intpoly(x.t):
        return x
    lo, hi = ipoly(x.t)
    if lo >= 0:
        return floor(x)
    if hi <= 0 or not bool(cmp(x, 0, '>=')):
        return neg(floor(neg(x)))
    return floor(x)


def floordiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return floor(div(a, b))
    return np.floor_divide(a, b)


def remainder(a, b):
    if not isinstance(a, (Sym, MinMax)) and not isinstance(b, (Sym, MinMax)):
        if ST.exact and not isinstance(a, (int, np.integer)):
            return wrap(pconst(K(a) % K(b)))
        return np.remainder(a, b)
    return sub(a, mul(b, floor(div(a, b))))


# --------------------------------------------------------------------------- trigonometry

def new_pair(name, base=None):
    c = ST.atom('cos', 'cos(%s)' % name, lo=-1.0, hi=1.0)
    s = ST.atom('sin', 'sin(%s)' % name, lo=-1.0, hi=1.0)
    c.data = (s.i, base)
    s.data = (c.i, base)
    c.rule = s.rule = True
    return c, s


def angle_cs(atom):
    """(cos, sin) polys of an angle atom (in its unit)."""
    if atom.data is None or 'cs' not in atom.data:
        if atom.data is None:
            atom.data = {}
        c, s = new_pair(atom.name, {((atom.i, 1),): K(1) * atom.unit})
        # intervals of cos/sin over [lo, hi]
        lo, hi = float(atom.lo) * atom.unit, float(atom.hi) * atom.unit
        if hi - lo < TWO_PI:
            c.lo, c.hi = _range_cos(lo, hi)
            s.lo, s.hi = _range_cos(lo - math.pi / 2, hi - math.pi / 2)
        atom.data['cs'] = ({((c.i, 1),): K(1)}, {((s.i, 1),): K(1)})
    return atom.data['cs']


def _range_cos(lo, hi):
    eps = 1e-12
    k = math.ceil(lo / math.pi - eps)
    vals = [math.cos(lo), math.cos(hi)]
    while k * math.pi <= hi + eps:
        vals.append(1.0 if k % 2 == 0 else -1.0)
        k += 1
    mn, mx = min(vals), max(vals)
    if abs(mn) < 1e-12:
        mn = 0.0
    if abs(mx) < 1e-12:
        mx = 0.0
    return mn, mx


def cs_power(cs, k):
    """cos(k a), sin(k a) polys."""
    if k < 0:
        c, s = cs_power(cs, -k)
        return c, pscale(s, -1)
    if k == 0:
        return pconst(K(1)), {}
    c, s = cs
    rc, rs = c, s
    for _ in range(k - 1):
        rc, rs = padd(pmul(rc, c), pmul(rs, s), -1), padd(pmul(rc, s), pmul(rs, c))
    return rc, rs


def cossin(x):
    """Return (cos x, sin x) of a real scalar in radians."""
    if isinstance(x, (MinMax, SBool)):
        x = wrap(P(x))
    if not isinstance(x, Sym):
        return np.cos(x), np.sin(x)
    p = x.t
    key = ('cs', tuple(sorted(p.items())))
    r = ST.multi.get(key)
    if r is not None:
        return r
    const = 0.0
    factors = []
    rest = {}
    for m, c in p.items():
        if not m:
            const = float(c)
            continue
        if len(m) == 1 and m[0][1] == 1:
            at = ST.atoms[m[0][0]]
            if at.integer:
                k = float(c) / TWO_PI
                if abs(k - round(k)) < 1e-9 and round(k) != 0:
                    continue
            if at.unit is not None:
                k = float(c) / at.unit
                if abs(k - round(k)) < 1e-9 and round(k) != 0:
                    factors.append((at, int(round(k))))
                    continue
        rest[m] = c
    C, S = pconst(K(1)), {}
    for at, k in factors:
        kk = ('pw', at.i, k)
        if kk not in ST.multi:
            ST.multi[kk] = cs_power(angle_cs(at), k)
        c, s = ST.multi[kk]
        C, S = padd(pmul(C, c), pmul(S, s), -1), padd(pmul(C, s), pmul(S, c))
    if rest:
        c, s = rest_cs(rest)
        C, S = padd(pmul(C, c), pmul(S, s), -1), padd(pmul(C, s), pmul(S, c))
    if const:
        cc, ss = math.cos(const), math.sin(const)
        if abs(cc) < 1e-15:
            cc = 0.0
        if abs(ss) < 1e-15:
            ss = 0.0
        cc, ss = K(cc), K(ss)
        C, S = padd(pscale(C, cc), pscale(S, ss), -1), padd(pscale(S, cc), pscale(C, ss))
    r = wrap(C), wrap(S)
    ST.multi[key] = r
    return r


def rest_cs(rest):
    L = max(rest, key=mono_order)
    ks = frozenset(rest.keys())
    for base, pair in ST.bykey.get(('angle', ks), ()):
        k = float(rest[L]) / float(base[L])
        if abs(k - round(k)) < 1e-9 and round(k) != 0 and same_poly(rest, pscale(base, K(round(k)))):
            return cs_power(pair, int(round(k)))
    base = rest if rest[L] > 0 else pscale(rest, -1)
    c, s = new_pair('ang%d' % len(ST.atoms), base)
    lo, hi = ipoly(base)
    if hi - lo < TWO_PI:
        c.lo, c.hi = _range_cos(lo, hi)
        s.lo, s.hi = _range_cos(lo - math.pi / 2, hi - math.pi / 2)
    pair = ({((c.i, 1),): K(1)}, {((s.i, 1),): K(1)})
    ST.bykey.setdefault(('angle', ks), []).append((base, pair))
    return pair if rest[L] > 0 else (pair[0], pscale(pair[1], -1))


def cos(x):
    if is_cplx(x):
        return _ccall(np.cos, x)
    return cossin(x)[0]


def sin(x):
    if is_cplx(x):
        return _ccall(np.sin, x)
    return cossin(x)[1]


def _ccall(f, x):
    x = tocsym(x)
    if isinstance(x.re, Sym) or isinstance(x.im, Sym):
        raise EngineError('complex function of symbolic value')
    return f(complex(float(x.re), float(x.im)))


def tan(x):
    c, s = cossin(x)
    return div(s, c)


def angle_atom(name, cs, lo, hi, key):
    """Angle in radians given its cos/sin polynomials."""
    c, s = cs
    kk = padd({((-1, 1),) + m if m else ((-1, 1),): v for m, v in clean(c).items()},
              {((-2, 1),) + m if m else ((-2, 1),): v for m, v in clean(s).items()})
    a = lookup('angle_%s_%g_%g' % (key, lo, hi), kk)
    if a is None:
        a = ST.atom('angle', '%s%d' % (name, len(ST.atoms)), lo=lo, hi=hi, unit=1.0)
        a.data = {'cs': (c, s), 'fn': key}
        remember('angle_%s_%g_%g' % (key, lo, hi), kk, a)
    return Sym({((a.i, 1),): K(1)})


def arctan2(y, x):
    if isinstance(y, (MinMax, SBool)):
        y = wrap(P(y))
    if isinstance(x, (MinMax, SBool)):
        x = wrap(P(x))
    if not isinstance(y, Sym) and not isinstance(x, Sym):
        return np.arctan2(y, x)
    py, px = clean(P(y)), clean(P(x))
    ylo, yhi = ipoly(py)
    xlo, xhi = ipoly(px)
    if not py:
        return np.float64(0.0) if sign_of(px) > 0 else np.float64(math.pi)
    if not px:
        return np.float64(math.pi / 2) if sign_of(py) > 0 else np.float64(-math.pi / 2)
    rho = sqrt(wrap(padd(pmul(px, px), pmul(py, py))))
    C, S = P(div(wrap(px), rho)), P(div(wrap(py), rho))
    ST.notes.add('arctan2 arguments not both zero')
    sy = 1 if ylo >= 0 else (-1 if yhi <= 0 else 0)
    sx = 1 if xlo >= 0 else (-1 if xhi <= 0 else 0)
    pi = math.pi
    lo, hi = {(1, 1): (0, pi / 2), (1, -1): (pi / 2, pi), (1, 0): (0, pi),
              (-1, 1): (-pi / 2, 0), (-1, -1): (-pi, -pi / 2), (-1, 0): (-pi, 0),
              (0, 1): (-pi / 2, pi / 2), (0, -1): (-pi, pi), (0, 0): (-pi, pi)}[(sy, sx)]
    return angle_atom('atan2_', (C, S), lo, hi, 'atan2')


def arctan(x):
    if not isinstance(x, Sym):
        return np.arctan(x)
    invs = sorted({a for m in x.t for a, e in m if ST.atoms[a].kind == 'inv'})
    if invs and ST.field is None:            # u/v with v > 0 is the polar angle of (v, u)
        d = {(): K(1)}
        for i in invs:
            q = ST.atoms[i].data[0]
            if ipoly(q)[0] <= 0:
                break
            top = max(dict(m).get(i, 0) for m in x.t)
            for _ in range(top):
                d = pmul(d, q)
        else:
            y = clean(pmul(x.t, d))
            if not any(ST.atoms[a].kind == 'inv' for m in y for a, e in m):
                return arctan2(wrap(y), wrap(d))
    lo, hi = ipoly(x.t)
    r = sqrt(add(1.0, mul(x, x)))
    C = P(div(1.0, r))
    S = P(div(x, r))
    return angle_atom('atan_', (C, S), math.atan(lo), math.atan(hi), 'atan')


def arccos(x):
    if not isinstance(x, Sym):
        return np.arccos(x)
    lo, hi = ipoly(x.t)
    ST.notes.add('arccos/arcsin argument within [-1, 1]')
    return angle_atom('acos_', (x.t, P(sqrt(sub(1.0, mul(x, x))))), 0.0, math.pi, 'acos')


def arcsin(x):
    if not isinstance(x, Sym):
        return np.arcsin(x)
    ST.notes.add('arccos/arcsin argument within [-1, 1]')
    return angle_atom('asin_', (P(sqrt(sub(1.0, mul(x, x)))), x.t), -math.pi / 2, math.pi / 2, 'asin')


def hypot(x, y):
    return sqrt(add(mul(x, x), mul(y, y)))


_OPAQUE = {'exp': (np.exp, 0.0, INF), 'log': (np.log, -INF, INF), 'log10': (np.log10, -INF, INF),
           'pow': (np.power, -INF, INF), 'tanh': (np.tanh, -1.0, 1.0), 'sinh': (np.sinh, -INF, INF),
           'cosh': (np.cosh, 1.0, INF)}


def fexp(x):
    """Field mode: the factors of the terms, whole multiples of one term being powers of one atom."""
    r = None
    for m, c in sorted(clean(fpoly(x)).items(), key=lambda mc: mono_order(mc[0])):
        if not m:
            t = np.float64(math.exp(float(c)))
        else:
            t = None
            for base, a in ST.bykey.get(('fexp', m), ()):
                k = float(c) / base
                if abs(k - round(k)) < 1e-9 and 0 < abs(round(k)) <= 256:
                    t = CSym(Sym({((a.i, round(k)),): K(1)}), np.float64(0.0))
                    break
            if t is None:
                base = abs(float(c)) / 4.0          # halves and quarters are powers as well
                a = ST.atom('cfn', 'exp%d' % len(ST.atoms), lo=-INF, hi=INF)
                a.nonzero = True
                a.data = ('exp', {m: K(base)})
                ST.bykey.setdefault(('fexp', m), []).append((base, a))
                t = CSym(Sym({((a.i, 4 if c > 0 else -4),): K(1)}), np.float64(0.0))
        r = t if r is None else mul(r, t)
    return np.complex128(1.0) if r is None else r


def log(x):
    """log of a monomial of positive atoms is the sum of the logs of its factors."""
    if isinstance(x, CSym):
        raise EngineError('complex log')
    if isinstance(x, (MinMax, SBool)):
        x = wrap(P(x))
    if isinstance(x, Sym):
        p = clean(x.t)
        if len(p) == 1:
            (m, c), = p.items()
            if m and (c != 1 or len(m) > 1 or m[0][1] != 1) and c > 0 and all(ST.atoms[a].lo > 0 for a, _ in m):
                r = np.float64(math.log(float(c)))
                for a, e in m:
                    r = add(r, mul(opaque('log', [Sym({((a, 1),): K(1)})]), np.float64(e)))
                return r
    return None


def exp(x):
    """exp of multiples of one expression are powers of one atom."""
    if isinstance(x, CSym):
        if ST.field is not None:
            return fexp(x)
        m = exp(x.re)
        c, s = cossin(x.im)
        return mkc(mul(m, c), mul(m, s))
    if isinstance(x, (MinMax, SBool)):
        x = wrap(P(x))
    if not isinstance(x, Sym):
        with np.errstate(all='ignore'):
            return np.exp(x)
    p = dict(clean(x.t))
    f = math.exp(float(p.pop((), 0)))
    if not p:
        return np.float64(f)
    L = max(p, key=mono_order)
    ks = frozenset(p.keys())
    r = None
    for base, a in ST.bykey.get(('exp', ks), ()):
        k = float(p[L]) / float(base[L])
        if abs(k - round(k)) < 1e-9 and 0 < abs(round(k)) <= 12 and same_poly(p, pscale(base, K(round(k)))):
            r = power(Sym({((a.i, 1),): K(1)}), int(round(k)))
            break
    if r is None:
        base = p if p[L] > 0 else pscale(p, -1)
        lo, hi = ipoly(base)
        with np.errstate(all='ignore'):
            a = ST.atom('fn', 'exp%d' % len(ST.atoms), lo=float(np.exp(lo)), hi=float(np.exp(hi)))
        a.data = ('exp', [base])
        ST.bykey.setdefault(('exp', ks), []).append((base, a))
        r = Sym({((a.i, 1),): K(1)})
        if p[L] < 0:
            r = div(1.0, r)
    return r if f == 1.0 else mul(r, f)


def opaque(name, args):
    if name == 'exp':
        return exp(args[0])
    if name == 'log':
        r = log(args[0])
        if r is not None:
            return r
    if not any(isinstance(a, (Sym, CSym)) for a in args):
        with np.errstate(all='ignore'):
            return _OPAQUE[name][0](*args)
    if any(isinstance(a, CSym) for a in args):
        if name in ('tanh', 'sinh', 'cosh'):
            e = exp(args[0])
            i = div(1.0, e)
            if name == 'tanh':
                return div(sub(e, i), add(e, i))
            return mul(sub(e, i) if name == 'sinh' else add(e, i), np.float64(0.5))
        raise EngineError('complex %s' % name)
    key = (name,) + tuple(tuple(sorted(P(a).items())) for a in args)
    r = ST.multi.get(key)
    if r is None:
        f, lo, hi = _OPAQUE[name]
        a = ST.atom('fn', '%s%d' % (name, len(ST.atoms)), lo=lo, hi=hi)
        a.data = (name, [P(x) for x in args])
        r = Sym({((a.i, 1),): K(1)})
        ST.multi[key] = r
    return r


# --------------------------------------------------------------------------- booleans and branching

class SBool:
    """op: 'cmp' (poly, rel) with rel in >=,>,==,!= against zero; 'and','or','not'; 'const'."""
    __slots__ = ('op', 'a', 'b')
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b

    @property
    def dtype(self):
        return np.dtype(bool)

    def key(self):
        if self.op == 'cmp':
            return ('cmp', tuple(sorted(self.a.items())), self.b)
        if self.op == 'not':
            return ('not', self.a.key())
        return (self.op,) + tuple(x.key() for x in self.a)

    def __bool__(self):
        return ST.path.decide(self)

    def __hash__(self):
        return hash(self.key())

    def __and__(self, o):
        return band(self, o) if _scal(o) else _arr('logical_and', self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o) if _scal(o) else _arr('logical_or', self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return np.bool_(bool(self) != bool(o))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else bnot(self)
        return np.bool_(bool(self) == bool(o))

    def __ne__(self, o):
        return bnot(self == o)

    def __add__(self, o):
        return add(int(bool(self)), o)

    __radd__ = __add__

    def __mul__(self, o):
        return mul(int(bool(self)), o) if _scal(o) else _arr('multiply', int(bool(self)), o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return sub(int(bool(self)), o)

    def __rsub__(self, o):
        return sub(o, int(bool(self)))

    def any(self, *a, **k):
        return self

    all = any

    def __getitem__(self, key):
        from . import arr
        return arr.sarr(self)[key]

    def __repr__(self):
        if self.op == 'cmp':
            return '(%s %s 0)' % (pstr(self.a, 4), self.b)
        return '%s(%r)' % (self.op, self.a)

    def __index__(self):
        return int(bool(self))

    def astype(self, t, **kw):
        return np.dtype(t if not hasattr(t, '_real') else t._real).type(bool(self))


def cmp(a, b, rel):
    if isinstance(a, CSym) or isinstance(b, CSym):
        a, b = tocsym(a), tocsym(b)
        r = band(cmp(a.re, b.re, '=='), cmp(a.im, b.im, '=='))
        if rel == '==':
            return r
        if rel == '!=':
            return bnot(r)
        raise EngineError('ordering of complex')
    if isinstance(a, MinMax):
        return a.compare(b, rel)
    if isinstance(b, MinMax):
        return b.compare(a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(rel, rel))
    if isinstance(a, SBool):
        a = int(bool(a))
    if isinstance(b, SBool):
        b = int(bool(b))
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        f = {'<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal,
             '==': np.equal, '!=': np.not_equal}[rel]
        return f(a, b)
    for x, other, flip in ((a, b, False), (b, a, True)):
        if special(x):
            if x != x:
                return np.bool_(rel == '!=')
            f = {'<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal,
                 '==': np.equal, '!=': np.not_equal}[rel]
            return f(x, 0.0) if not flip else f(0.0, x)
    d = padd(P(a), P(b), -1)
    if rel == '<':
        d, rel = pscale(d, -1), '>'
    elif rel == '<=':
        d, rel = pscale(d, -1), '>='
    d = clean(d)
    return pcmp(squared(d), rel)


def squared(d):
    """Sign-equivalent polynomial without roots for c1*sqrt(P) - c2*sqrt(Q) and c*sqrt(P) - const (same positive sign rules)."""
    if not 1 <= len(d) <= 2:
        return d
    terms = []
    for m, c in d.items():
        if m == ():
            terms.append((c, None))
        elif len(m) == 1 and m[0][1] == 1 and ST.atoms[m[0][0]].kind == 'root' and ST.atoms[m[0][0]].data[1] == 2:
            terms.append((c, ST.atoms[m[0][0]].data[0]))
        else:
            return d
    if all(p is None for _, p in terms):
        return d
    pos = [(c, p) for c, p in terms if c > 0]
    neg = [(c, p) for c, p in terms if c < 0]
    if len(pos) > 1 or len(neg) > 1:
        return d
    out = {}
    for c, p in pos + neg:
        out = padd(out, pscale({(): 1.0} if p is None else p, c * abs(c)))
    return clean(out)


def pcmp(d, rel):
    if is_const(d):
        c = cval(d)
        return np.bool_({'>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[rel])
    lo, hi = ipoly(d)
    if rel == '>':
        if lo > 0:
            return np.True_
        if hi <= 0:
            return np.False_
    elif rel == '>=':
        if lo >= 0:
            return np.True_
        if hi < 0:
            return np.False_
    elif rel == '==':
        if lo > 0 or hi < 0:
            return np.False_
    elif rel == '!=':
        if lo > 0 or hi < 0:
            return np.True_
    # canonical scaling
    L = max(d, key=mono_order)
    s = abs(d[L])
    d = {m: c / s for m, c in d.items()}
    if rel in ('==', '!=') and d[L] < 0:
        d = pscale(d, -1)
    if rel == '!=':
        return SBool('not', SBool('cmp', d, '=='))
    return SBool('cmp', d, rel)


def tobool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return np.bool_(bool(x))


def band(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if isinstance(x, SBool):
            out.append(x)
        elif not x:
            return np.False_
    if not out:
        return np.True_
    if len(out) == 1:
        return out[0]
    return SBool('and', tuple(out))


def bor(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if isinstance(x, SBool):
            out.append(x)
        elif x:
            return np.True_
    if not out:
        return np.False_
    if len(out) == 1:
        return out[0]
    return SBool('or', tuple(out))


def bnot(x):
    x = tobool(x)
    if not isinstance(x, SBool):
        return np.bool_(not x)
    if x.op == 'not':
        return x.a
    if x.op == 'cmp' and x.b == '>':
        return pcmp(pscale(x.a, -1), '>=')
    if x.op == 'cmp' and x.b == '>=':
        return pcmp(pscale(x.a, -1), '>')
    return SBool('not', x)


class MinMax:
    """min or max of several symbolic values: comparisons stay symbolic, arithmetic forks."""
    __slots__ = ('xs', 'kind', 'picked')
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, xs, kind):
        self.xs, self.kind, self.picked = xs, kind, None

    @property
    def dtype(self):
        return np.dtype(float)

    def compare(self, c, rel):
        ex = bor if (self.kind == 'min') == (rel in ('<', '<=')) else band
        if rel in ('<', '<=', '>', '>='):
            return ex(*[cmp(x, c, rel) for x in self.xs])
        bound = '>=' if self.kind == 'min' else '<='
        eq = band(band(*[cmp(x, c, bound) for x in self.xs]), bor(*[cmp(x, c, '==') for x in self.xs]))
        return eq if rel == '==' else bnot(eq)

    def force(self):
        if self.picked is None:
            best = self.xs[0]
            for x in self.xs[1:]:
                if bool(cmp(x, best, '<' if self.kind == 'min' else '>')):
                    best = x
            self.picked = best
        return self.picked

    def force_poly(self):
        return P(self.force())

    def __repr__(self):
        return '%s%r' % (self.kind, self.xs)

    def __format__(self, spec):
        return str(self)

    def __float__(self):
        return float(self.force())

    def __lt__(self, o): return cmp(self, o, '<') if _scal(o) else _arr('less', self, o)
    def __le__(self, o): return cmp(self, o, '<=') if _scal(o) else _arr('less_equal', self, o)
    def __gt__(self, o): return cmp(self, o, '>') if _scal(o) else _arr('greater', self, o)
    def __ge__(self, o): return cmp(self, o, '>=') if _scal(o) else _arr('greater_equal', self, o)
    def __eq__(self, o): return cmp(self, o, '==')
    def __ne__(self, o): return cmp(self, o, '!=')
    __hash__ = None
    def __add__(self, o): return add(self.force(), o)
    def __radd__(self, o): return add(o, self.force())
    def __sub__(self, o): return sub(self.force(), o)
    def __rsub__(self, o): return sub(o, self.force())
    def __mul__(self, o): return self.force() * o
    def __rmul__(self, o): return o * self.force()
    def __truediv__(self, o): return self.force() / o
    def __rtruediv__(self, o): return o / self.force()
    def __neg__(self): return neg(self.force())
    def __abs__(self): return absolute(self.force())


def minmax(xs, kind):
    xs = list(xs)
    if not xs:
        raise ValueError('zero-size array to reduction operation %s which has no identity'
                         % ('minimum' if kind == 'min' else 'maximum'))
    xs = [x.force() if isinstance(x, MinMax) else x for x in xs]
    for x in xs:
        if special(x) and x != x:
            return np.float64('nan')
    if not any(isinstance(x, Sym) for x in xs):
        return (np.min if kind == 'min' else np.max)(np.array(xs))
    # prune dominated
    ivs = [ipoly(x.t) if isinstance(x, Sym) else (float(x), float(x)) for x in xs]
    keep = []
    for i, x in enumerate(xs):
        dom = False
        for j in range(len(xs)):
            if i == j:
                continue
            if kind == 'min' and (ivs[j][1] < ivs[i][0]):
                dom = True
            if kind == 'max' and (ivs[j][0] > ivs[i][1]):
                dom = True
        if not dom and not any(_same(x, y) for y in keep):
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return MinMax(keep, kind)


def _same(x, y):
    if isinstance(x, Sym) and isinstance(y, Sym):
        return x.t == y.t
    if isinstance(x, Sym) or isinstance(y, Sym):
        return False
    return x == y


# --------------------------------------------------------------------------- numeric evaluation

def eval_atom(a, env):
    v = env.get(a.i)
    if v is not None:
        return v
    k = a.kind
    if k == 'var':
        raise KeyError(a.name)
    if k in ('cos', 'sin'):
        base = a.data[1]
        x = eval_poly(base, env)
        v = math.cos(x) if k == 'cos' else math.sin(x)
    elif k == 'root':
        x = eval_poly(a.data[0], env)
        v = x ** (1.0 / a.data[1]) if x > 0 else (0.0 if x > -1e-9 else float('nan'))
    elif k == 'inv':
        x = eval_poly(a.data[0], env)
        v = 1.0 / x if x else float('nan')
    elif k == 'floor':
        v = float(math.floor(eval_poly(a.data, env)))
    elif k == 'year':
        from . import dates
        v = dates.eval_year(eval_poly(a.data[0], env))
    elif k == 'angle':
        c, s = a.data['cs']
        v = math.atan2(eval_poly(s, env), eval_poly(c, env))
    elif k == 'imag':
        v = 1j
    elif k == 'cfn':
        v = CFN[a.data[0]](eval_poly(a.data[1], env))
    elif k == 'fn':
        v = float(_OPAQUE[a.data[0]][0](*[eval_poly(p, env) for p in a.data[1]]))
    else:
        raise EngineError('eval ' + k)
    env[a.i] = v
    return v


def eval_poly(p, env):
    r = 0.0
    for m, c in p.items():
        v = float(c)
        for a, e in m:
            v *= eval_atom(ST.atoms[a], env) ** e
        r += v
    return r


def eval_bool(b, env):
    if not isinstance(b, SBool):
        return bool(b)
    if b.op == 'cmp':
        v = eval_poly(b.a, env)
        if isinstance(v, (complex, np.complexfloating)):      # field mode: a candidate, confirmed on the real code
            v = v.real if abs(v.imag) <= 1e-9 * abs(v) else max(v.real, abs(v.imag))
        return {'>': v > 0, '>=': v >= 0, '==': abs(v) < 1e-12}[b.b]
    if b.op == 'not':
        return not eval_bool(b.a, env)
    if b.op == 'and':
        return all(eval_bool(x, env) for x in b.a)
    return any(eval_bool(x, env) for x in b.a)


def eval_val(x, env):
    if isinstance(x, Sym):
        return eval_poly(x.t, env)
    if isinstance(x, CSym):
        return complex(eval_val(x.re, env) + 1j * eval_val(x.im, env))
    if isinstance(x, SBool):
        return eval_bool(x, env)
    if isinstance(x, MinMax):
        v = [eval_val(y, env) for y in x.xs]
        return min(v) if x.kind == 'min' else max(v)
    return x


def atoms_of(p, acc=None):
    """All atoms a poly depends on, transitively."""
    acc = set() if acc is None else acc
    for m in p:
        for a, _ in m:
            if a not in acc:
                acc.add(a)
                at = ST.atoms[a]
                for q in defs(at):
                    atoms_of(q, acc)
                if at.kind in ('cos', 'sin'):
                    acc.add(at.data[0])
    return acc


def defs(at):
    if at.kind in ('cos', 'sin'):
        return [at.data[1]] if at.data[1] else []
    if at.kind == 'root':
        return [at.data[0]]
    if at.kind == 'inv':
        return [at.data[0]]
    if at.kind == 'floor':
        return [at.data]
    if at.kind == 'year':
        return [at.data[0]]
    if at.kind == 'angle':
        return list(at.data['cs'])
    if at.kind == 'fn':
        return list(at.data[1])
    if at.kind == 'cfn':
        return [at.data[1]]
    return []


def bool_polys(b):
    if not isinstance(b, SBool):
        return []
    if b.op == 'cmp':
        return [b.a]
    if b.op == 'not':
        return bool_polys(b.a)
    return [p for x in b.a for p in bool_polys(x)]


def new_var(name, lo, hi, unit=None, integer=False):
    if name in ST.vars:
        return Sym({((ST.vars[name].i, 1),): K(1)})
    a = ST.atom('var', name, lo=lo, hi=hi, unit=unit, integer=integer)
    ST.vars[name] = a
    if unit is not None:
        a.data = {}
    return Sym({((a.i, 1),): K(1)})
