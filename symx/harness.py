"""Cases, symbolic and concrete contexts, and the per-case verdict."""
import contextlib
import copy
import importlib
import io
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings
import numpy as np
from . import core, arr, solve, loader, npshim, fileio
from .core import EngineError, PathAbort, SBool

RAD = math.pi / 180


class Skip(BaseException):
    """Concrete input outside the assumptions."""


class Case:
    def __init__(self, name, fn, max_paths=400, exact=False, samples=24, budget=240.0, tries=12,
                 lazy=False, field=False, **params):
        self.lazy, self.field = lazy, field
        self.name, self.fn, self.params = name, fn, params
        self.max_paths, self.exact, self.samples, self.budget, self.tries = max_paths, exact, samples, budget, tries


class Claim:
    def __init__(self, label, negs, got=None, trivial=False):
        self.label, self.negs, self.got, self.trivial = label, negs, got, trivial


def flat(x):
    if isinstance(x, arr.SArr):
        return list(arr.plain(x).reshape(-1))
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return np.shape(arr.sarr(x)) if arr.has_nested_sym(x) else np.shape(x)
    return ()


class Base:
    def angle(self, name, lo=-180.0, hi=180.0):
        return self.var(name, lo, hi, unit=RAD)

    def ivar(self, name, lo, hi):
        return self.var(name, lo, hi, integer=True)

    def vec(self, name, n, lo=-1.0, hi=1.0, unit=None):
        if isinstance(n, int):
            n = (n,)
        o = np.empty(n, dtype=object)
        for idx in np.ndindex(*n):
            o[idx] = self.var(name + '_' + '_'.join(map(str, idx)), lo, hi, unit=unit)
        return self.np.array(o.tolist())

    def ivec(self, name, n, lo, hi):
        """Array of integers (integer type)."""
        n = (n,) if isinstance(n, int) else n
        o = np.empty(n, dtype=object)
        for idx in np.ndindex(*n):
            o[idx] = self.ivar(name + '_' + '_'.join(map(str, idx)), lo, hi)
        return self.np.asarray(self.np.array(o.tolist())).astype(int)

    def angles(self, name, n, lo, hi):
        return self.vec(name, n, lo, hi, unit=RAD)

    def set_config(self, key, value):
        dict.__setitem__(self.mod('config_utils').basicConfig, key, value)

    def write_text(self, path, pieces):
        """Text file from strings and numbers (numbers are written in full)."""
        if self.symbolic:
            fileio.VFS[fileio.vkey(path)] = ''.join(
                x if isinstance(x, str) else (fileio.token(x) if arr.issym(x) else repr(float(x))) for x in pieces)
        else:
            with open(path, 'w') as f:
                f.write(''.join(x if isinstance(x, str) else repr(float(x)) for x in pieces))

    def read_rows(self, path):
        """Lines of a text file as lists of numbers (words that are no numbers stay text)."""
        if self.symbolic:
            text = fileio.VFS[fileio.vkey(path)]
        else:
            with open(path) as f:
                text = f.read()
        out = []
        for line in text.splitlines():
            row = []
            for w in line.split():
                v = fileio.parse_token(w) if self.symbolic else None
                if v is None:
                    try:
                        v = float(w)
                    except ValueError:
                        v = w
                row.append(v)
            out.append(row)
        return out

    def write_mat(self, path, data):
        """MAT-file as MATLAB writes it: dictionaries are structs, lists are cells."""
        if self.symbolic:
            fileio.mat_write(path, data)
        else:
            import scipy.io

            def conv(v):
                if isinstance(v, dict):
                    return {k: conv(x) for k, x in v.items()}
                if isinstance(v, list):
                    o = np.empty((1, len(v)), dtype=object)
                    for i, x in enumerate(v):
                        o[0, i] = conv(x)
                    return o
                return v
            scipy.io.savemat(path, {k: conv(v) for k, v in data.items()})

    def write_h5(self, path, **data):
        if self.symbolic:
            with fileio.h5.File(path, 'w') as f:
                for k, v in data.items():
                    f.create_dataset(k, data=v)
        else:
            import h5py
            with h5py.File(path, 'w') as f:
                for k, v in data.items():
                    f.create_dataset(k, data=v)

    def increasing(self, name, n, lo, hi, gap):
        """Strictly increasing symbolic numbers from lo with steps in gap=(min, max)."""
        t = self.var(name + '0', lo, hi)
        out = [t]
        for i in range(1, n):
            t = t + self.var(name + '_d%d' % i, *gap)
            out.append(t)
        return self.np.array(out)


class SymCtx(Base):
    symbolic = True

    def __init__(self, path, conc, rng):
        self.path = path
        self.pkg = loader.Package()
        self.np = npshim.np_shim
        self.claims = []
        self.conc = conc           # degrade level
        self.rng = rng
        self.values = {}
        self.ncall = 0

    def mod(self, name):
        return self.pkg.mod(name)

    @property
    def math(self):
        return npshim.math_shim

    def var(self, name, lo, hi, unit=None, integer=False):
        if self.conc == 2 or (self.conc == 1 and (unit is not None or integer or not (lo <= 0 <= hi))):
            if name not in self.values:
                x = self.rng.randint(lo, hi) if integer else lo + (hi - lo) * self.rng.random()
                self.values[name] = x
            return self.values[name] if integer else np.float64(self.values[name])
        return core.new_var(name, lo, hi, unit, integer)

    def assume(self, cond):
        c = cond.all() if isinstance(cond, np.ndarray) else cond
        self.path.assume(core.tobool(c))

    def equal(self, label, got, want, tol=1e-9, scale=1.0):
        sg, sw = shape(got), shape(want)
        if sg != sw:
            self.claims.append(Claim(label + ' (shape %s, expected %s)' % (sg, sw), [np.True_], got))
            return
        negs = []
        t = tol * scale
        n = 0
        for a, b in zip(flat(got), flat(want)):
            n += 1
            negs += diff_negs(a, b, t)
        self.claims.append(Claim(label, negs, got, trivial=n == 0))

    def check(self, label, cond):
        negs = []
        for c in flat(cond):
            negs.append(core.bnot(core.tobool(c)))
        self.claims.append(Claim(label, negs, cond))

    def same(self, label, a, b):
        self.check(label, type(a) is type(b) and a == b)

    def truth(self, cond):
        return bool(cond)

    def numeric(self, x):
        return x

    def raises(self, label, fn, exc=(ValueError, AssertionError)):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn()
        except exc:
            self.claims.append(Claim(label, []))
            return True
        except Exception as e:
            self.claims.append(Claim(label + ' (raised %s instead of %s)' % (
                type(e).__name__, '/'.join(x.__name__ for x in (exc if isinstance(exc, tuple) else (exc,)))),
                [np.True_]))
            return False
        self.claims.append(Claim(label + ' (nothing raised)', [np.True_]))
        return False

    def warned(self, fn):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn()
        return r, [str(x.message) for x in w]

    def tmp(self, name):
        return '/nonexistent-virtual/' + name

    def give_up(self, why):
        """This case cannot be decided symbolically (concrete runs follow, no verdict)."""
        raise core.EngineError(why)


def diff_negs(a, b, t):
    """SBools stating |a - b| > t."""
    if core.is_cplx(a) or core.is_cplx(b):
        a, b = core.tocsym(a), core.tocsym(b)
        return diff_negs(a.re, b.re, t) + diff_negs(a.im, b.im, t)
    if isinstance(a, arr.SArr):
        a = a[()]
    if isinstance(b, arr.SArr):
        b = b[()]
    if isinstance(a, (core.SBool, bool, np.bool_)) and isinstance(b, (core.SBool, bool, np.bool_)):
        return [np.bool_(bool(a) != bool(b))]
    if not (arr.issym(a) or core.is_num(a)) or not (arr.issym(b) or core.is_num(b)):
        return [np.bool_(not (a is b or a == b))]
    sa, sb = core.special(a), core.special(b)
    if sa or sb:
        if sa and sb and (a == b or (a != a and b != b)):
            return [np.False_]
        return [np.True_]
    d = core.sub(a, b)
    if not arr.issym(d):
        return [np.bool_(abs(float(d)) > t)]
    if isinstance(d, core.Sym) and (core.ST.field is not None or core.has_denominator(d.t)) and core.vanishes(d.t):
        return [np.False_]
    return [core.cmp(d, t, '>'), core.cmp(d, -t, '<')]


class ConCtx(Base):
    """The same case on the real package with concrete numbers."""
    symbolic = False

    def __init__(self, values, rng=None, tmpdir=None):
        self.values = dict(values)
        self.rng = rng
        self.np = np
        self.math = math
        self.fails = []
        self.gots = []
        self.labels = []
        self.tmpdir = tmpdir

    def mod(self, name):
        return importlib.import_module('chaosmagpy' + ('.' + name if name else ''))

    def var(self, name, lo, hi, unit=None, integer=False):
        if name not in self.values:
            if self.rng is None:
                self.values[name] = (int((lo + hi) // 2) if integer else (lo + hi) / 2)
            elif integer:
                self.values[name] = self.rng.randint(int(lo), int(hi))
            else:
                r = self.rng.random()
                if self.rng.random() < 0.15:
                    r = self.rng.choice([0.0, 1.0, 0.5, 0.25, 0.75])
                self.values[name] = lo + (hi - lo) * r
        v = self.values[name]
        return int(v) if integer else np.float64(v)

    def assume(self, cond):
        if not np.all(cond):
            raise Skip()

    def equal(self, label, got, want, tol=1e-9, scale=1.0):
        self.labels.append(label)
        self.gots.append(got)
        try:
            g, w = np.asarray(got), np.asarray(want)
            if g.shape != w.shape:
                self.fails.append((label, 'shape %s, expected %s' % (g.shape, w.shape)))
                return
            if g.dtype == object or w.dtype == object or g.dtype.kind not in 'biufc' or w.dtype.kind not in 'biufc':
                if not (g == w).all():
                    self.fails.append((label, '%r, expected %r' % (got, want)))
                return
            with np.errstate(all='ignore'):
                bad = ~((np.abs(g * 1.0 - w * 1.0) <= tol * scale + 1e-10 * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w))
            if bad.any():
                i = np.unravel_index(np.argmax(bad), bad.shape)
                self.fails.append((label, 'at %s: %r, expected %r' % (list(map(int, i)), g[i].item(), w[i].item())))
        except (TypeError, ValueError) as e:
            self.fails.append((label, 'not comparable: %s' % e))

    def check(self, label, cond):
        self.labels.append(label)
        self.gots.append(cond)
        if not np.all(cond):
            self.fails.append((label, 'false'))

    def same(self, label, a, b):
        self.check(label, type(a) is type(b) and a == b)

    def truth(self, cond):
        return bool(cond)

    def numeric(self, x):
        return x

    def raises(self, label, fn, exc=(ValueError, AssertionError)):
        self.labels.append(label)
        self.gots.append(None)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn()
        except exc:
            return True
        except Exception as e:
            self.fails.append((label, 'raised %s: %s' % (type(e).__name__, e)))
            return False
        self.fails.append((label, 'nothing raised'))
        return False

    warned = SymCtx.warned

    def give_up(self, why):
        pass

    def tmp(self, name):
        return os.path.join(self.tmpdir, name)


_saved = None


def run_concrete(case, values, rng=None):
    """Run the case on the real package.  Returns (status, fails, ctx)."""
    global _saved
    import tempfile
    import shutil
    cu = importlib.import_module('chaosmagpy.config_utils')
    if _saved is None:
        _saved = (copy.deepcopy(dict(cu.basicConfig)), {k: copy.deepcopy(v[0]) for k, v in cu.DEFAULTS.items()})
    d = tempfile.mkdtemp(prefix='verifcase')
    cwd = os.getcwd()
    ctx = ConCtx(values, rng, d)
    try:
        os.chdir(d)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            try:
                case.fn(ctx, **case.params)
            except Skip:
                return 'skip', [], ctx
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
                ctx.fails.append(('no unexpected exception', '%s: %s (%s)' % (type(e).__name__, e, where)))
                return 'exc', ctx.fails, ctx
        return ('fail' if ctx.fails else 'ok'), ctx.fails, ctx
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        dict.clear(cu.basicConfig)
        dict.update(cu.basicConfig, copy.deepcopy(_saved[0]))
        for k, v in _saved[1].items():
            if k in cu.DEFAULTS:
                cu.DEFAULTS[k][0] = copy.deepcopy(v)


def agree(symgot, congot, env, tol=1e-6):
    """Compare a symbolic result, evaluated numerically, with the concrete one."""
    try:
        s = [core.eval_val(x, env) for x in flat(symgot)]
        c = [x.item() if isinstance(x, np.generic) else x for x in flat(congot)]
    except (ZeroDivisionError, OverflowError, ValueError):
        return True
    if len(s) != len(c):
        return False
    try:
        sc = max([1.0] + [abs(x) for x in c if isinstance(x, (int, float, complex)) and x == x and abs(x) < 1e300])
    except TypeError:
        return True
    for a, b in zip(s, c):
        if isinstance(a, np.generic):
            a = a.item()
        if not isinstance(a, (int, float, complex, bool)) or not isinstance(b, (int, float, complex, bool)):
            continue
        if a != a and b != b or a == b:
            continue
        if not abs(a - b) <= tol * sc:
            return False
    return True


class Result:
    def __init__(self, case):
        self.case = case.name
        self.paths = self.claims = self.transitions = self.validated = self.mismatch = 0
        self.violations = []        # (label, detail, values)
        self.inconclusive = []
        self.degraded = None
        self.samples = []
        self.notes = set()
        self.funcs = []
        self.wall = 0.0
        self.stats = {k: 0 for k in solve.STATS}
        self.vars = {}
        self.conc_runs = 0


END = float('inf')            # time at which the whole check stops exploring


def run_case(case, seed=1, max_violations=1):
    res = Result(case)
    t0 = time.time()
    if t0 > END:
        res.degraded = (4, 'not run: time budget of the check exhausted')
        return res
    for k in solve.STATS:
        solve.STATS[k] = 0 if k != 'solver_s' else 0.0
    loader._seen.clear()
    loader.sys.monitoring.restart_events()
    rng = random.Random('%s/%s' % (seed, case.name))
    for level in (0, 1, 2, 3):
        try:
            if level == 3:
                concrete_only(case, res, rng, 40)
            else:
                explore(case, res, rng, level, t0, max_violations)
            break
        except EngineError as e:
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
            res.degraded = (level + 1, '%s' % e)
            res.inconclusive = []
            if res.violations:
                break
        except PathAbort:
            break
        except RecursionError as e:
            res.degraded = (level + 1, 'recursion')
    if not res.violations and (res.inconclusive or res.mismatch):
        # fall back on concrete runs for this case only
        concrete_only(case, res, rng, 40)
    res.funcs = loader.functions_seen()
    res.wall = time.time() - t0
    res.stats = dict(solve.STATS)
    return res


def concrete_only(case, res, rng, n):
    for i in range(n):
        st, fails, ctx = run_concrete(case, {}, rng)
        res.conc_runs += 1
        if st in ('fail', 'exc'):
            res.violations.append((fails[0][0], fails[0][1], ctx.values))
            return


def explore(case, res, rng, level, t0, max_violations):
    deadline = min(t0 + case.budget * (1 if level == 0 else 1.3), END)
    rounds = 1 if level == 0 else 6
    for rd in range(rounds):
        ex = solve.Explorer(seed=rng.randrange(1 << 30), max_paths=case.max_paths, nsamples=case.samples,
                            deadline=deadline)
        cvals = {}
        for path in ex:
            core.reset(exact=case.exact, path=path, lazy=case.lazy, field=case.field)
            fileio.reset()
            ctx = SymCtx(path, level, rng)
            ctx.values = cvals
            exc = None
            try:
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    case.fn(ctx, **case.params)
            except PathAbort:
                continue
            except Exception as e:
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                where = '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
                exc = '%s: %s (%s)' % (type(e).__name__, e, where)
                ctx.claims.append(Claim('no unexpected exception: ' + exc, [np.True_]))
            res.paths += 1
            decide_path(case, ctx, path, res, cvals)
            if len(res.violations) >= max_violations:
                break
            res.notes |= core.ST.notes
            for n, a in core.ST.vars.items():
                res.vars[n] = (a.lo, a.hi)
        res.transitions += ex.transitions
        if res.violations:
            break


def decide_path(case, ctx, path, res, cvals):
    # one trace of this path on the real code
    validated = False
    for k, env in path.sample_envs()[:1]:
        path.sync(k, env)
        vals = {n: env[a.i] for n, a in core.ST.vars.items()}
        validated = validate(case, ctx, path, res, vals, env, cvals)
    if res.violations:
        return
    for cl in ctx.claims:
        res.claims += 1
        if solve.prove(path, cl.negs):
            continue
        path.ex.check_time()
        models = solve.find_models(path, cl.negs, tries=case.tries)
        if models is None:
            continue
        confirmed = False
        for m in models:
            m = dict(m)
            m.update(cvals)
            st, fails, cc = run_concrete(case, m)
            res.conc_runs += 1
            if st in ('fail', 'exc'):
                f = [x for x in fails if x[0] == cl.label] or fails
                res.violations.append((f[0][0], f[0][1], cc.values))
                confirmed = True
                break
        if confirmed:
            return
        res.inconclusive.append('%s: %s' % (cl.label, 'model not reproduced by the code' if models else 'no model found'))
        if os.environ.get('SYMX_DEBUG'):
            print('INCONCLUSIVE', case.name, cl.label, [n for n in cl.negs if n is not False][:3], models[:1],
                  'PC', path.pc)
    if not validated and path.pc:
        ms = solve.linear_models(path, [np.True_], 6, 1)
        if not ms:
            ok, mt = solve.prove_nra(path, [np.True_], 2000)
            if mt:
                a = solve.nra_assignment(*mt)
                ms = [a] if a else []
        if ms:
            env = {core.ST.vars[n].i: float(v) for n, v in ms[0].items()}
            validate(case, ctx, path, res, ms[0], env, cvals)
    if len(res.samples) < 2:
        res.samples.append({'case': case.name, 'path_condition': [repr(c)[:200] for c in path.pc[:6]],
                            'claims': [c.label for c in ctx.claims][:8]})


def validate(case, ctx, path, res, vals, env, cvals):
    v = dict(vals)
    v.update(cvals)
    st, fails, cc = run_concrete(case, v)
    if st == 'skip':
        return False
    if st in ('fail', 'exc'):
        res.violations.append((fails[0][0], fails[0][1], cc.values))
        return True
    syms = [c.got for c in ctx.claims]
    if len(syms) != len(cc.gots):
        res.mismatch += 1
        if os.environ.get('SYMX_DEBUG'):
            print('MISMATCH count', case.name, [c.label for c in ctx.claims], cc.labels)
        return True
    try:
        for e in list(core.ST.atoms):
            if e.kind == 'var' and e.i not in env and isinstance(e.data, tuple):
                x = core.eval_poly(e.data[1], env)
                env[e.i] = round(x / e.data[2]) * e.data[2] - x
        for c, g in zip(ctx.claims, cc.gots):
            if c.got is not None and not agree(c.got, g, env):
                res.mismatch += 1
                if os.environ.get('SYMX_DEBUG'):
                    print('MISMATCH', case.name, c.label, 'sym', [core.eval_val(x, env) for x in flat(c.got)][:6],
                          'real', flat(g)[:6], vals)
                return True
    except (KeyError, ZeroDivisionError, OverflowError):
        return False
    res.validated += 1
    return True
