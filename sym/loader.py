"""Loads the real package from the repository, either plainly or with symbolic built-ins."""
import ast
import builtins
import operator as _operator
import importlib
import importlib.abc
import importlib.util
import importlib.machinery
import math as _math
import cmath as _cmath
import os
import random as _rmod
import sys
import types
import numpy as _np

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'blueqat'


class _Math(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_math, n)


class _CMath(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_cmath, n)


class _Rnd(types.ModuleType):
    def __getattr__(self, n):
        from .num import Unsupported
        raise Unsupported("random.%s" % n)


class _Numbers(types.ModuleType):
    pass


def make_env():
    """the module map and builtins seen by symbolically executed modules"""
    from . import num, npshim, spshim
    from .num import SNum, tosnum, Unsupported
    from .sint import SInt, SRange, SSlice, zt
    import z3

    def isinst(o, c):
        if isinstance(c, tuple):
            return any(isinst(o, x) for x in c)
        c = npshim.unproxy(c)
        if isinstance(o, SNum):
            if c is float:
                return not o.cplx
            if c is complex:
                return o.cplx
            if c in (_np.floating, _np.inexact, _np.number, _np.generic):
                return False
            return isinstance(o, c)
        if isinstance(o, SInt):
            if c is int:
                return True
            return isinstance(o, c)
        if isinstance(o, SSlice):
            return c is slice or isinstance(o, c)
        if isinstance(o, SRange):
            return c is range or isinstance(o, c)
        return isinstance(o, c)

    class mcx(type):
        def __instancecheck__(cls, o):
            return isinst(o, cls._real)

        def __eq__(cls, o):
            return o is cls or o is cls._real

        def __hash__(cls):
            return hash(cls._real)

    class complexP(complex, metaclass=mcx):
        _real = complex

        def __new__(cls, re=0, im=0):
            if isinstance(re, (SNum, SInt)) or isinstance(im, (SNum, SInt)):
                r = tosnum(re) + num.IUNIT * tosnum(im)
                return SNum(r.p, True)
            if isinstance(re, str):
                return complex(re)
            return complex(re, im) if im != 0 or not isinstance(re, complex) else complex(re)

    class floatP(float, metaclass=mcx):
        _real = float

        def __new__(cls, x=0.0):
            if isinstance(x, SNum):
                if x.cplx:
                    raise TypeError("can't convert complex to float")
                return x
            for f in num.FOREIGN:
                r = f(x)
                if r is not None:
                    return r
            return float(x)

    class intP(int, metaclass=mcx):
        _real = int

        def __new__(cls, x=0, base=None):
            if isinstance(x, SInt):
                return x
            if isinstance(x, SNum):
                return int(x)
            return int(x) if base is None else int(x, base)

        from_bytes = int.from_bytes

    class sliceP(metaclass=mcx):
        _real = slice

        def __new__(cls, *a):
            if any(isinstance(x, SInt) for x in a):
                if len(a) == 1:
                    return SSlice(None, a[0], None)
                return SSlice(a[0], a[1], a[2] if len(a) > 2 else None)
            return slice(*a)

    class rangeP(metaclass=mcx):
        _real = range

        def __new__(cls, *a):
            return SRange(*a) if any(isinstance(x, SInt) for x in a) else range(*a)

    npshim.PROXIES.update({complexP: complex, floatP: float, intP: int, sliceP: slice, rangeP: range})

    def typ(*a):
        if len(a) == 1:
            o = a[0]
            if isinstance(o, SNum):
                return complexP if o.cplx else floatP
            if isinstance(o, SInt):
                return intP
            if isinstance(o, SSlice):
                return sliceP
            return type(o)
        return type(*a)

    math = _Math('math')
    for n in ('cos', 'sin', 'sqrt', 'exp', 'log', 'tanh', 'tan'):
        setattr(math, n, getattr(npshim, 'n_' + n))
    math.hypot = lambda *a: npshim.n_sqrt(sum((tosnum(x) * x for x in a), tosnum(0)))

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if not npshim.has_sym((a, b)):
            return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(tosnum(a) - b)
        return bool(a == b) or any(bool(d <= t) for t in (rel_tol * abs(tosnum(a)), rel_tol * abs(tosnum(b)), abs_tol))
    math.isclose = isclose
    math.fmod = lambda a, b: _math.fmod(a, b) if not npshim.has_sym((a, b)) else \
        (a % b if a >= 0 else -(-a % b))
    math.remainder = lambda a, b: _math.remainder(a, b) if not npshim.has_sym((a, b)) else (a + b / 2) % b - b / 2
    math.floor = lambda a: a // 1 if isinstance(a, SNum) and not a.is_const() else _math.floor(a)
    math.degrees = lambda a: a * 180 / _math.pi
    math.radians = lambda a: a * _math.pi / 180
    math.isnan = lambda a: False if isinstance(a, SNum) else _math.isnan(a)
    math.fabs = lambda a: abs(a)
    math.fsum = lambda it: npshim.ssum(it)
    math.pow = lambda a, b: a ** b
    cmath = _CMath('cmath')
    for n in ('cos', 'sin', 'sqrt', 'exp'):
        setattr(cmath, n, getattr(npshim, 'n_' + n))

    def _rect(r, phi):
        e = npshim.n_exp(1j * phi)
        return r * e
    cmath.rect = _rect
    cmath.phase = lambda z: npshim.n_angle(z)
    cmath.polar = lambda z: (abs(z), npshim.n_angle(z))
    rnd = _Rnd('random')
    rnd.random = lambda: npshim.SOURCE.uniform()
    rnd.uniform = lambda a, b: a + (b - a) * npshim.SOURCE.uniform()
    rnd.randint = lambda a, b: a + npshim.SOURCE.choose(b - a + 1)
    rnd.randrange = lambda a, b=None: npshim.SOURCE.choose(a) if b is None else a + npshim.SOURCE.choose(b - a)
    rnd.choice = lambda s: s[npshim.SOURCE.choose(len(s))]
    rnd.seed = lambda *a: None
    scipy = types.ModuleType('scipy')
    scipy.__path__ = []
    scipy.sparse = spshim.shim
    opt = types.ModuleType('scipy.optimize')
    opt.minimize = lambda f, x0, **k: MINIMIZE(f, x0, **k)
    scipy.optimize = opt
    mods = {'numpy': npshim.shim, 'math': math, 'cmath': cmath, 'random': rnd, 'scipy': scipy,
            'scipy.sparse': spshim.shim, 'scipy.optimize': opt, 'numpy.random': npshim.shim.random,
            'numpy.linalg': npshim.shim.linalg}
    b = dict(builtins.__dict__)
    b.update(complex=complexP, float=floatP, int=intP, slice=sliceP, range=rangeP, isinstance=isinst, type=_TypeProxy(typ))
    b['round'] = lambda x, n=None: round(x) if n is None else round(x, n)
    def vidx(x):
        return x if isinstance(x, SInt) else x.__index__()

    def extremum(real, less):
        def f(*a, **k):
            xs = list(a[0]) if len(a) == 1 else list(a)
            if k.get('key') is None and any(isinstance(x, SInt) for x in xs) and \
                    all(isinstance(x, (SInt, int)) for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    p, q = zt(r), zt(x)
                    r = SInt(z3.simplify(z3.If(less(q, p), q, p)))
                return r
            if 'default' in k and len(a) == 1:
                return real(xs, **k)
            return real(xs, **k) if len(a) == 1 else real(*a, **k)
        return f
    b['max'] = extremum(max, lambda q, p: q > p)
    b['min'] = extremum(min, lambda q, p: q < p)
    b['__vidx__'] = vidx
    op = types.ModuleType('operator')
    op.__dict__.update(_operator.__dict__)
    op.index = vidx
    mods['operator'] = op
    b['print'] = lambda *a, **k: None
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in FAKES:
                return FAKES[name]
            m = mods.get(name)
            if m is not None:
                if fromlist:
                    return m
                top = name.split('.')[0]
                return mods.get(top, m)
            if name.split('.')[0] == 'scipy':
                raise ImportError("no symbolic model of " + name)
        return real_import(name, globals, locals, fromlist, level)
    b['__import__'] = imp
    return b


def MINIMIZE(f, x0, **k):
    raise NotImplementedError


FAKES = {}


class _TypeProxy:
    def __init__(self, typ):
        self._t = typ

    def __call__(self, *a, **k):
        return self._t(*a, **k)

    def __getattr__(self, n):
        return getattr(type, n)


_CODE = {}


def _compiled(loader):
    c = _CODE.get(loader.path)
    if c is None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = _CODE[loader.path] = compile(loader.get_data(loader.path), loader.path, 'exec', dont_inherit=True)
    return c


class _Index(ast.NodeTransformer):
    """x.__index__() keeps a symbolic integer symbolic (the interpreter's own conversions still enumerate it)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ('__index__', '__int__') and not n.args and not n.keywords:
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name('__vidx__', ast.Load()), n), [f.value], []), n)
        return n


def _compiled_sym(loader):
    c = _CODE.get((loader.path, 'sym'))
    if c is None:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t = ast.fix_missing_locations(_Index().visit(ast.parse(loader.get_data(loader.path))))
            c = _CODE[loader.path, 'sym'] = compile(t, loader.path, 'exec', dont_inherit=True)
    return c


class SymLoader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__['__builtins__'] = _BUILTINS
        exec(_compiled_sym(self), module.__dict__)


class PlainLoader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        exec(_compiled(self), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, loader):
        self.loader = loader

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        rel = name.replace('.', '/')
        p = os.path.join(REPO, rel)
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(name, f, loader=self.loader(name, f),
                                                          submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self.loader(name, f))
        return None


_BUILTINS = None
MODE = None


def load(symbolic):
    """import the package afresh; returns the top-level module"""
    global _BUILTINS, MODE
    for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]:
        del sys.modules[n]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    if symbolic:
        _BUILTINS = make_env()
        sys.meta_path.insert(0, Finder(SymLoader))
    else:
        sys.meta_path.insert(0, Finder(PlainLoader))
    MODE = symbolic
    return importlib.import_module(PKG)
