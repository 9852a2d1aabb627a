"""Loads /repo's modules from their current source into a package whose numpy/scipy/file layer is symbolic."""
import ast
import builtins
import importlib
import os
import re
import sys
import types
import numpy as np
from . import npshim, sipstub, fileio, figures, arr, core

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'chaosmagpy'
SYMPKG = 'symcp'
_code = {}
_shims = {}


class _TextMod(ast.NodeTransformer):
    """'...' % value goes through format_mod, as str itself cannot show a symbolic value."""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and (isinstance(node.left, ast.JoinedStr) or
                                             isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name('__format_mod__', ast.Load()), [node.left, node.right], []), node)
        return node


_SPEC = re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])')


def format_mod(fmt, args):
    if not arr.any_sym((args,)):
        return fmt % args
    vals = args if isinstance(args, tuple) else (args,)
    pos = [0]

    def one(m):
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            return '%'
        if key is not None:
            v = args[key]
        else:
            v = vals[pos[0]]
            pos[0] += 1
        if not arr.any_sym((v,)):
            return m.group(0).replace('(%s)' % key, '') % (v,)
        if width == '*' or prec == '*':
            raise core.EngineError('%-format of a symbolic value')
        if conv in 'di':
            spec = 'd'
        elif conv in 'rsa':
            spec = ''
        else:
            spec = conv
        if not spec:
            return format(v, '')
        align = '<' if '-' in flags else ''
        sign = '+' if '+' in flags else ' ' if ' ' in flags else ''
        zero = '0' if '0' in flags and not align else ''
        return format(v, align + sign + zero + (width or '') + ('.' + prec if prec else '') + spec)
    return _SPEC.sub(one, fmt)


def code_for(path):
    c = _code.get(path)
    if c is None:
        with open(path, 'rb') as f:
            t = _TextMod().visit(ast.parse(f.read(), path))
        c = compile(ast.fix_missing_locations(t), path, 'exec', dont_inherit=True)
        _code[path] = c
    return c


class _TypeProxy:
    pass


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _minmax(kind, real):
    def f(*args, **kw):
        if kw:
            return real(*args, **kw)
        if len(args) == 1:
            args = (list(args[0]),)
        xs = args[0] if len(args) == 1 else list(args)
        if any(isinstance(x, np.ndarray) and x.ndim for x in xs) or not any(arr.issym(x) or (
                isinstance(x, np.ndarray) and arr.has_sym(x)) for x in xs):
            return real(*args)
        return core.minmax([arr.plain(x)[()] if isinstance(x, np.ndarray) else x for x in xs], kind)
    return f


def sym_open(file, mode='r', *a, **k):
    return fileio.vopen(file, mode, *a, **k)


class Package:
    def __init__(self, extra=None):
        self.mods = {}
        self.root = os.path.join(REPO, PKG)
        self.extra = extra or {}
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['float'], b['int'], b['complex'] = npshim.SymFloat, npshim.SymInt, npshim.SymComplex
        b['print'] = lambda *a, **k: None
        b['open'] = sym_open
        b['min'], b['max'] = _minmax('min', min), _minmax('max', max)
        b['__format_mod__'] = format_mod
        b['sum'] = sym_sum
        b['type'] = type
        self.builtins = b

    def mod(self, name):
        """Module by short name ('' for the package itself)."""
        full = SYMPKG + ('.' + name if name else '')
        if full in self.mods:
            return self.mods[full]
        base = os.path.join(self.root, *name.split('.')) if name else self.root
        if os.path.isdir(base):
            path, ispkg = os.path.join(base, '__init__.py'), True
        else:
            path, ispkg = base + '.py', False
        if not os.path.exists(path):
            raise ImportError('no module ' + full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rpartition('.')[0]
        if ispkg:
            m.__path__ = [base]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        if name and not ispkg or name:
            parent = full.rpartition('.')[0]
            if parent in self.mods:
                setattr(self.mods[parent], full.rpartition('.')[2], m)
        exec(code_for(path), m.__dict__)
        return m

    def _pkgmod(self, full):
        return self.mod(full[len(SYMPKG) + 1:])

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level or name == PKG or name.startswith(PKG + '.'):
            if level:
                pkg = globals['__package__']
                for _ in range(level - 1):
                    pkg = pkg.rpartition('.')[0]
                full = pkg + ('.' + name if name else '')
            else:
                full = SYMPKG + name[len(PKG):]
            if fromlist:
                # importing a submodule directly does not run the package __init__ here
                if full == SYMPKG and level and not name:
                    holder = types.SimpleNamespace()
                    for item in fromlist:
                        try:
                            setattr(holder, item, self._pkgmod(SYMPKG + '.' + item))
                        except ImportError:
                            setattr(holder, item, getattr(self._pkgmod(SYMPKG), item))
                    return holder
                m = self._pkgmod(full)
                for item in fromlist:
                    if not hasattr(m, item) and hasattr(m, '__path__'):
                        self._pkgmod(full + '.' + item)
                return m
            self._pkgmod(full)
            return self._pkgmod(SYMPKG)
        if name in self.extra:
            return self.extra[name]
        top = name.partition('.')[0]
        if top == 'numpy':
            if not fromlist:
                return npshim.np_shim
            m = npshim.np_shim
            for part in name.split('.')[1:]:
                m = getattr(m, part)
            return m
        if name == 'math':
            return npshim.math_shim
        if name in ('scipy.interpolate',):
            return sipstub.mod if fromlist else sipstub.scipy
        if name == 'scipy':
            return sipstub.scipy
        if top == 'scipy':
            if name not in _shims:
                _shims[name] = npshim.Shim(importlib.import_module(name), name + '.')
            if fromlist:
                return _shims[name]
            setattr(sipstub.scipy, name.split('.')[1], _shims[name])
            return sipstub.scipy
        if name == 'hdf5storage':
            return fileio.hdf
        if name == 'json':
            return fileio.js
        if name == 'h5py':
            return fileio.h5
        if top == 'matplotlib':
            return figures.get(name, fromlist)
        if name == 'pandas':
            return fileio.pd
        if name == 'datetime' and 'datetime' in self.extra:
            return self.extra['datetime']
        return builtins.__import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------------ functions actually executed

_seen = {}
_tool = None


def monitor_start():
    global _tool
    mon = sys.monitoring
    _tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(_tool, 'symx')
    except ValueError:
        pass
    root = os.path.join(REPO, PKG)

    def start(code, off):
        if code.co_filename.startswith(root) and code.co_name != '<module>':
            _seen[(os.path.relpath(code.co_filename, REPO), code.co_qualname)] = code.co_firstlineno
        return mon.DISABLE
    mon.register_callback(_tool, mon.events.PY_START, start)
    mon.set_events(_tool, mon.events.PY_START)


def functions_seen():
    return sorted('%s:%s' % k for k in _seen if '<' not in k[1].replace('<locals>', ''))
