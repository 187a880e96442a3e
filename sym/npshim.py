"""numpy as seen by symbolically executed code: inexact arrays are object arrays of exact numbers."""
import types
import random as _random
import numpy as np
from fractions import Fraction
from . import num
from .num import SNum, Unsupported, tosnum
from .sint import SInt

CDT = np.dtype(np.complex128)
FDT = np.dtype(np.float64)


class SArr(np.ndarray):
    """object array posing as a float64/complex128 array"""
    _pd = CDT

    def __array_finalize__(self, obj):
        if obj is not None:
            self._pd = getattr(obj, '_pd', CDT)

    @property
    def dtype(self):
        d = np.ndarray.dtype.__get__(self)
        return self._pd if d == object else d

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("dtype assignment")

    @property
    def real(self):
        if np.ndarray.dtype.__get__(self) != object:
            return np.asarray(self).real
        return mk(_real(np.asarray(self)), FDT)

    @real.setter
    def real(self, v):
        im = _imag(np.asarray(self))
        np.copyto(self, _obj(v) + num.IUNIT * im)

    @property
    def imag(self):
        if np.ndarray.dtype.__get__(self) != object:
            return np.asarray(self).imag
        return mk(_imag(np.asarray(self)), FDT)

    @imag.setter
    def imag(self, v):
        re = _real(np.asarray(self))
        np.copyto(self, re + num.IUNIT * _obj(v))

    def conj(self):
        return mk(_conj(np.asarray(self)), self._pd)
    conjugate = conj

    def astype(self, dtype, *a, **k):
        dt = mapdt(dtype)
        if np.ndarray.dtype.__get__(self) != object:
            if dt.kind in 'fc':
                return mk(np.asarray(self).astype(object), dt)
            return np.asarray(self).astype(dt, *a, **k)
        if dt.kind in 'fc':
            return mk(np.array(self, dtype=object), dt)
        if dt.kind == 'O':
            return np.array(self, dtype=object)
        return np.array([dt.type(int(x)) if dt.kind in 'iu' else bool(x) for x in np.asarray(self).ravel()],
                        dtype=dt).reshape(self.shape)

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a, **k)
        if not a and not k:
            return np.ndarray.view(self)
        raise Unsupported("view")

    def round(self, decimals=0, out=None):
        return n_round(self, decimals, out)

    def _red(self, name, a, k):
        base = np.asarray(self)
        if np.ndarray.dtype.__get__(self) != object:
            return wrapres(getattr(base, name)(*a, **k))
        a = tuple(unproxy(x) for x in a)
        k.pop('dtype', None)
        out = k.pop('out', None)
        r = getattr(base, name)(*a, **k)
        if out is not None:
            np.copyto(out, r, casting='unsafe')
            return out
        return mk(r, self._pd) if isinstance(r, np.ndarray) else r

    def sum(self, *a, **k):
        return self._red('sum', a, k)

    def prod(self, *a, **k):
        return self._red('prod', a, k)

    def mean(self, *a, **k):
        return self._red('mean', a, k)

    def cumsum(self, *a, **k):
        return self._red('cumsum', a, k)

    def trace(self, *a, **k):
        return self._red('trace', a, k)

    def dot(self, other):
        return shim.dot(self, other)

    def max(self, *a, **k):
        return self._red('max', a, k)

    def min(self, *a, **k):
        return self._red('min', a, k)

    def any(self, *a, **k):
        return self._test('any', a, k)

    def all(self, *a, **k):
        return self._test('all', a, k)

    def _test(self, name, a, k):
        if np.ndarray.dtype.__get__(self) != object:
            return getattr(np.asarray(self), name)(*a, **k)
        return getattr(_map(bool, np.asarray(self)).astype(bool), name)(*a, **k)

    def nonzero(self):
        if np.ndarray.dtype.__get__(self) != object:
            return np.asarray(self).nonzero()
        return _map(bool, np.asarray(self)).astype(bool).nonzero()

    def item(self, *a):
        return np.asarray(self).item(*a)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        own = OWN.get(name)
        if own is not None and method == '__call__' and any(
                isinstance(x, SArr) and np.ndarray.dtype.__get__(x) == object for x in inputs):
            return own(*inputs, **kw)
        cp = False
        ins = []
        for x in inputs:
            if isinstance(x, SArr):
                if x._pd.kind == 'c' and np.ndarray.dtype.__get__(x) == object:
                    cp = True
                x = x.view(np.ndarray)
            elif not cp:
                cp = isinstance(x, complex) or isinstance(x, SNum) and x.cplx or \
                    isinstance(x, np.ndarray) and x.dtype.kind == 'c'
            ins.append(x)
        out = kw.get('out')
        if out is not None:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, SArr) else o for o in out)
            if method == '__call__':
                kw['casting'] = 'unsafe'
        if 'where' in kw and isinstance(kw['where'], SArr):
            kw['where'] = kw['where'].view(np.ndarray)
        if 'dtype' in kw and kw['dtype'] is not None and mapdt(kw['dtype']).kind in 'fc':
            kw.pop('dtype')
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        if isinstance(r, np.ndarray):
            if r.dtype == object:
                if not r.ndim:
                    return r[()]
                r = r.view(SArr)
                r._pd = FDT if name in ('absolute', 'fabs') else CDT if cp else FDT
                return r
            return wrapres(r)
        return r

    def std(self, *a, **k):
        raise Unsupported('std')

    def var(self, *a, **k):
        raise Unsupported('var')

    @property
    def nbytes(self):
        return self.size * self._pd.itemsize

    @property
    def itemsize(self):
        return self._pd.itemsize

    def __reduce__(self):
        raise Unsupported("pickling symbolic array")

    def __abs__(self):
        return mk(_map(abs, np.asarray(self)), FDT)


def mk(a, dt=CDT):
    a = np.asarray(a)
    if np.ndarray.dtype.__get__(a) != object:
        a = a.astype(object)
    r = a.view(SArr)
    r._pd = np.dtype(dt)
    return r


def _obj(v):
    if isinstance(v, np.ndarray):
        return np.asarray(v)
    return v


def _map(f, a):
    out = np.empty(a.shape, dtype=object)
    fl = out.reshape(-1) if out.ndim else None
    if out.ndim == 0:
        out[()] = f(a[()])
        return out
    for i, x in enumerate(a.reshape(-1)):
        fl[i] = f(x)
    return fl.reshape(a.shape)


_real = lambda a: _map(lambda x: x.real, a)
_imag = lambda a: _map(lambda x: x.imag, a)
_conj = lambda a: _map(lambda x: x.conjugate() if hasattr(x, 'conjugate') else x, a)


def mapdt(d):
    """numpy dtype for a possibly proxied type"""
    d = unproxy(d)
    return np.dtype(d)


PROXIES = {}


def unproxy(d):
    try:
        return PROXIES.get(d, d)
    except TypeError:
        return d


def has_sym(x, depth=0):
    if isinstance(x, (SNum,)):
        return True
    if isinstance(x, SArr):
        return np.ndarray.dtype.__get__(x) == object
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(y, SNum) for y in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def wrapres(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fc':
            return mk(r, CDT if r.dtype.kind == 'c' else FDT)
        if r.dtype == object and has_sym(r):
            return mk(r, CDT)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrapres(x) for x in r)
    if isinstance(r, list):
        return [wrapres(x) for x in r]
    return r


def _plain(x, kinds):
    if isinstance(x, SArr) and np.ndarray.dtype.__get__(x) == object:
        kinds.add(x._pd.kind)
        return np.asarray(x)
    if isinstance(x, (np.ndarray, complex)) and (isinstance(x, complex) or x.dtype.kind == 'c'):
        kinds.add('c')
    if type(x) in (list, tuple) and len(x) < 4096:
        return type(x)(_plain(y, kinds) for y in x)
    return x


def _isarr(x):
    return isinstance(x, (np.ndarray, list, tuple))


def _kind(dt):
    return dt.kind


def n_zeros(shape, dtype=float, order='C', **k):
    dt = mapdt(dtype)
    if dt.kind in 'fc':
        a = np.empty(shape, dtype=object)
        a.fill(0.0 if dt.kind == 'f' else 0j)
        return mk(a, dt)
    return np.zeros(shape, dtype=dt)


def n_full(shape, fill, dtype=None, **k):
    if dtype is None:
        if isinstance(fill, SNum):
            dt = CDT if fill.cplx else FDT
        else:
            dt = np.asarray(fill).dtype
    else:
        dt = mapdt(dtype)
    if dt.kind in 'fcO':
        a = np.empty(shape, dtype=object)
        a.fill(fill)
        return mk(a, dt if dt.kind != 'O' else CDT)
    return np.full(shape, fill, dtype=dt)


def n_ones(shape, dtype=float, **k):
    return n_full(shape, 1.0, mapdt(dtype)) if mapdt(dtype).kind in 'fc' else np.ones(shape, dtype=mapdt(dtype))


def n_empty(shape, dtype=float, order='C', **k):
    dt = mapdt(dtype)
    if dt.kind in 'fc':
        e = num.engine()
        a = np.empty(shape, dtype=object)
        a.fill(e.real(e.fresh('uninit')))
        return mk(a, dt)
    r = np.empty(shape, dtype=dt)
    r.fill(57) if dt.kind in 'iu' else None
    return r


def _like(f):
    def g(a, dtype=None, **k):
        a2 = a if isinstance(a, np.ndarray) else n_array(a)
        k.pop('subok', None)
        k.pop('order', None)
        return f(a2.shape, dtype=a2.dtype if dtype is None else dtype)
    return g


def n_full_like(a, fill, dtype=None, **k):
    return n_full(a.shape, fill, a.dtype if dtype is None else dtype)


def n_array(obj, dtype=None, copy=True, ndmin=0, **k):
    if dtype is not None:
        dt = mapdt(dtype)
        if dt.kind in 'fc':
            a = np.array(_deobj(obj), dtype=object, ndmin=ndmin)
            if isinstance(obj, np.ndarray) and obj.dtype.kind in 'iub':
                a = _map(int, a)
            return mk(a, dt)
        if isinstance(obj, SArr) and np.ndarray.dtype.__get__(obj) == object:
            return obj.astype(dt)
        return np.array(obj, dtype=dt, ndmin=ndmin)
    if isinstance(obj, SArr):
        return obj.copy() if copy else obj
    if has_sym(obj):
        a = np.array(_deobj(obj), dtype=object, ndmin=ndmin)
        cp = any(isinstance(x, complex) or (isinstance(x, SNum) and x.cplx) for x in a.ravel())
        return mk(a, CDT if cp else FDT)
    if isinstance(obj, (list, tuple)) and any(isinstance(x, SArr) for x in obj):
        return mk(np.array(_deobj(obj), dtype=object))
    return wrapres(np.array(obj, ndmin=ndmin))


def _deobj(o):
    if isinstance(o, SArr):
        return np.asarray(o)
    if isinstance(o, (list, tuple)):
        return [_deobj(x) for x in o]
    return o


def n_asarray(obj, dtype=None, **k):
    if isinstance(obj, np.ndarray) and dtype is None:
        return obj
    if isinstance(obj, SArr) and dtype is not None and mapdt(dtype).kind in 'fc':
        return obj
    return n_array(obj, dtype)


def n_copyto(dst, src, casting='same_kind', where=True):
    if isinstance(src, SArr):
        src = np.asarray(src)
    np.copyto(dst, src, casting='unsafe', where=where)


def _unary(name, scal, npf, outdt=None):
    def f(x, *a, **k):
        out = k.pop('out', None)
        if a and isinstance(a[0], np.ndarray):
            out = a[0]
        if isinstance(x, SNum) or isinstance(x, SInt):
            return scal(tosnum(x))
        if _isarr(x):
            ar = n_asarray(x)
            if np.ndarray.dtype.__get__(ar) == object:
                r = mk(_map(lambda y: scal(tosnum(y)), np.asarray(ar)), outdt or ar.dtype)
                if out is not None:
                    np.copyto(out, r, casting='unsafe')
                    return out
                return r
            if ar.dtype.kind in 'iub' and name in EXACT:
                return mk(_map(lambda y: EXACT[name](float(y)), ar), FDT)
            return wrapres(npf(ar))
        if name in EXACT:
            return EXACT[name](x)
        return npf(x)
    return f


def _simp(s):
    """plain float when rational"""
    q = s.rational()
    if q is not None and not s.cplx:
        return float(q)
    return s


def x_cos(x):
    if isinstance(x, (complex, np.complexfloating)):
        import cmath
        return cmath.cos(x)
    return _simp(num.lift_float(float(x)).cos())


def x_sin(x):
    if isinstance(x, (complex, np.complexfloating)):
        import cmath
        return cmath.sin(x)
    return _simp(num.lift_float(float(x)).sin())


def x_exp(x):
    import math
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        if x.imag == 0:
            return complex(math.exp(x.real))
        e = num.lift_float(x.imag)._expi()
        return e if x.real == 0 else math.exp(x.real) * e
    return math.exp(float(x))


def x_sqrt(x):
    import math
    if isinstance(x, (complex, np.complexfloating)):
        import cmath
        return cmath.sqrt(x)
    x = float(x)
    if x < 0:
        raise ValueError("math domain error")
    f = Fraction(x)
    if f.denominator <= 1 << 10 and f.numerator < 1 << 20:
        return _simp(SNum.const(f).sqrt())
    return math.sqrt(x)


EXACT = {'cos': x_cos, 'sin': x_sin, 'exp': x_exp, 'sqrt': x_sqrt}

n_sqrt = _unary('sqrt', lambda s: s.sqrt(), np.sqrt)
n_cos = _unary('cos', lambda s: s.cos(), np.cos)
n_sin = _unary('sin', lambda s: s.sin(), np.sin)
n_exp = _unary('exp', lambda s: s.exp(), np.exp)
n_log = _unary('log', lambda s: s.log(), np.log)
n_tanh = _unary('tanh', lambda s: s.tanh(), np.tanh)
n_tan = _unary('tan', lambda s: s.tan(), np.tan)
n_abs = _unary('abs', abs, np.abs, FDT)
n_conj = _unary('conj', lambda s: s.conjugate(), np.conj)
n_real = _unary('real', lambda s: s.real, np.real, FDT)
n_imag = _unary('imag', lambda s: s.imag, np.imag, FDT)
n_square = _unary('square', lambda s: s * s, np.square)
n_reciprocal = _unary('reciprocal', lambda s: s.inverse(), np.reciprocal)


def n_fmod(a, b):
    if isinstance(a, np.ndarray):
        return np.array([n_fmod(x, b) for x in a.ravel()], dtype=object).reshape(a.shape)
    return a % b if a >= 0 else -(-a % b)


def n_isnan(x):
    return np.zeros(np.shape(x), dtype=bool) if has_sym(x) else np.isnan(x)


def n_isfinite(x):
    return np.ones(np.shape(x), dtype=bool) if has_sym(x) else np.isfinite(x)


def ssum(it):
    t = 0
    for x in it:
        t = t + x
    return t


def n_vdot(a, b):
    a, b = np.asarray(n_asarray(a)).ravel(), np.asarray(n_asarray(b)).ravel()
    if a.shape != b.shape:
        raise ValueError("cannot reshape array for vdot")
    return ssum(_c(x) * y for x, y in zip(a, b))


def _c(x):
    return x.conjugate()


def n_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, 'fro') or axis is not None:
        if not has_sym(x) and not isinstance(x, SArr):
            return np.linalg.norm(np.asarray(x), ord, axis, keepdims)
        if isinstance(axis, int) and not keepdims and ord in (None, 2):
            rows = np.moveaxis(np.asarray(n_asarray(x)), axis, -1)
            o = np.empty(rows.shape[:-1], dtype=object)
            for i in np.ndindex(o.shape):
                o[i] = n_norm(rows[i])
            return mk(o, FDT)
        if ord == 1 and axis is None and np.ndim(x) == 1:
            return ssum(n_abs(x))
        if ord == np.inf and axis is None and np.ndim(x) == 1:
            return max(n_abs(x))
        raise Unsupported("norm(ord=%r, axis=%r)" % (ord, axis))
    a = np.asarray(n_asarray(x)).ravel()
    tot = SNum.const(0)
    for v in a:
        s = tosnum(v)
        if s.p:
            tot = tot + s.abs2()
    tot = SNum(tot.p, False)
    num.engine().known_nonneg(tot)
    return _simp(tot.sqrt())


def _near(x, y, rtol=1e-05, atol=1e-08, equal_nan=False):
    d = abs2(tosnum(x) - tosnum(y))
    if d.is_const() and not d.p:
        return True
    tol = tosnum(atol) + (tosnum(rtol) * abs(tosnum(y)) if rtol else 0)
    return bool(d <= tol * tol)


def abs2(z):
    return z.abs2()


def n_allclose(a, b, *r, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.allclose(a, b, *r, **k)
    a, b = np.broadcast_arrays(_objarr(a), _objarr(b))
    return all(_near(x, y, *r, **k) for x, y in zip(a.ravel(), b.ravel()))


def n_isclose(a, b, *r, **k):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, *r, **k)
    a, b = np.broadcast_arrays(_objarr(a), _objarr(b))
    r = np.array([_near(x, y, *r, **k) for x, y in zip(a.ravel(), b.ravel())]).reshape(a.shape)
    return r if r.shape else bool(r)


def _objarr(x):
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else np.asarray(x)


def n_round(a, decimals=0, out=None):
    if not has_sym(a) or out is not None:
        return np.round(a, decimals, out)

    def one(x):
        x = tosnum(x)
        if x.cplx:
            return round(x.real, decimals) + num.IUNIT * round(x.imag, decimals)
        return round(x, decimals)
    if isinstance(a, SNum):
        return one(a)
    v = _objarr(a)
    o = np.empty(v.shape, dtype=object)
    o.reshape(-1)[:] = [one(x) for x in v.ravel()]
    return mk(o, a.dtype if isinstance(a, SArr) else FDT)


def n_angle(z):
    if not has_sym(z):
        return np.angle(z)
    if isinstance(z, SNum):
        return z.arg()
    v = _objarr(z)
    o = np.empty(v.shape, dtype=object)
    o.reshape(-1)[:] = [tosnum(x).arg() for x in v.ravel()]
    return mk(o, FDT)


def n_iscomplexobj(x):
    if isinstance(x, SNum):
        return x.cplx
    if isinstance(x, SArr):
        return x.dtype.kind == 'c'
    return np.iscomplexobj(x)


class _Random(types.ModuleType):
    """np.random stand-in: every draw is a symbolic input of the run"""

    def __getattr__(self, n):
        raise Unsupported("np.random.%s" % n)

    def rand(self, *shape):
        if not shape:
            return SOURCE.uniform()
        a = np.empty(shape, dtype=object)
        fl = a.reshape(-1)
        for i in range(fl.size):
            fl[i] = SOURCE.uniform()
        return mk(a, FDT)

    def random(self, size=None):
        if size is None:
            return SOURCE.uniform()
        return self.rand(*((size,) if isinstance(size, int) else size))
    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + SOURCE.choose(high - low)
        n = int(np.prod(size))
        return np.array([low + SOURCE.choose(high - low) for _ in range(n)], dtype=int).reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, int) else list(a)
        if p is not None or not replace:
            raise Unsupported("np.random.choice with p")
        vals = sorted(set(a), key=a.index)
        if size is None:
            return vals[SOURCE.choose(len(vals))] if len(vals) > 1 else vals[0]
        n = int(np.prod(size))
        r = [vals[SOURCE.choose(len(vals))] if len(vals) > 1 else vals[0] for _ in range(n)]
        return n_array(np.array(r).reshape(size))

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise Unsupported("multinomial size")
        return SOURCE.multinomial(n, pvals)

    def seed(self, *a):
        pass


class Source:
    """the random draws of a symbolic run"""

    def __init__(self):
        self.choose_fn = None

    def uniform(self):
        if FIXED:
            DRAWS.append(FIXED[len(DRAWS) % len(FIXED)])
            return DRAWS[-1]
        e = num.engine()
        name = e.fresh('draw')
        r = e.real(name, lambda g: g.uniform(0.0, 0.999))
        e.nonneg.add(name)
        e.assume('lt', r - 1)
        DRAWS.append(r)
        return r

    def choose(self, n):
        e = num.engine()
        if FIXED_PICKS:
            r = FIXED_PICKS[len(PICKS) % len(FIXED_PICKS)] % n
        else:
            r = e.choose(e.fresh('pick'), n) if n > 1 else 0
        PICKS.append(r)
        if PICK_LIMIT and len(PICKS) > PICK_LIMIT[0]:
            raise RuntimeError('more random choices than the %d there should be' % PICK_LIMIT[0])
        return r

    def multinomial(self, n, pvals):
        e = num.engine()
        k = len(pvals)
        MULTI.append((n, list(pvals)))
        names = [e.fresh('mult') for _ in range(k - 1)]
        vs = []
        tot = SNum.const(0)
        for nm in names:
            v = e.real(nm, lambda g: float(g.randint(0, max(1, n // k))))
            e.nonneg.add(nm)
            vs.append(v)
            tot = tot + v
        last = SNum.const(n) - tot
        e.assume('le', -last)
        vs.append(last)
        return mk(np.array(vs, dtype=object), FDT)


SOURCE = Source()
MULTI = []
DRAWS = []
FIXED = []
PICKS = []
FIXED_PICKS = []
PICK_LIMIT = []

_OVR = dict(
    zeros=n_zeros, ones=n_ones, empty=n_empty, full=n_full, array=n_array, asarray=n_asarray,
    asanyarray=n_asarray, ascontiguousarray=n_asarray, zeros_like=_like(n_zeros), ones_like=_like(n_ones),
    empty_like=_like(n_empty), full_like=n_full_like, copyto=n_copyto, sqrt=n_sqrt, cos=n_cos, sin=n_sin,
    exp=n_exp, log=n_log, tanh=n_tanh, tan=n_tan, abs=n_abs, absolute=n_abs, conj=n_conj, conjugate=n_conj,
    real=n_real, imag=n_imag, square=n_square, reciprocal=n_reciprocal, vdot=n_vdot, allclose=n_allclose,
    isclose=n_isclose, round=n_round, around=n_round, round_=n_round, angle=n_angle, iscomplexobj=n_iscomplexobj, isnan=n_isnan, isfinite=n_isfinite,
    random=_Random('numpy.random'),
)


class _Linalg(types.ModuleType):
    norm = staticmethod(n_norm)
    multi_dot = staticmethod(lambda *a, **k: n_multi_dot(*a, **k))
    matrix_power = staticmethod(lambda *a, **k: n_matrix_power(*a, **k))

    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if callable(f):
            def g(*a, **k):
                if any(has_sym(x) for x in a):
                    raise Unsupported("np.linalg.%s on symbolic data" % n)
                return wrapres(f(*a, **k))
            return g
        return f


def _wrapk(r, dt):
    if type(r) in (list, tuple):
        return type(r)(_wrapk(x, dt) for x in r)
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SArr):
        return mk(r, dt) if r.ndim else r[()]
    return wrapres(r)


def _boolarr(x):
    x = n_asarray(x)
    return _map(bool, np.asarray(x)).astype(bool) if np.ndarray.dtype.__get__(x) == object else np.asarray(x)


def n_hypot(a, b, **k):
    return n_sqrt(n_abs(a) ** 2 + n_abs(b) ** 2)


def n_bincount(x, weights=None, minlength=0):
    if weights is None or not (has_sym(weights) or isinstance(weights, SArr)):
        return np.bincount(x, weights, minlength)
    x = np.asarray(x)
    n = max(int(x.max()) + 1 if x.size else 0, minlength)
    o = np.empty(n, dtype=object)
    o.fill(0.0)
    for i, w in zip(x.ravel(), np.asarray(n_asarray(weights)).ravel()):
        o[i] = o[i] + w
    return mk(o, FDT)


def n_multi_dot(arrays, out=None):
    r = arrays[0]
    for a in arrays[1:]:
        r = shim.dot(r, a)
    return r


def n_matrix_power(m, n):
    if n < 0:
        raise Unsupported("matrix_power with a negative exponent")
    r = shim.eye(len(m))
    for _ in range(n):
        r = shim.dot(r, m)
    return r


def _u(f):
    return lambda x, **k: f(x, **k)


OWN = dict(
    sqrt=n_sqrt, exp=n_exp, cos=n_cos, sin=n_sin, log=n_log, tanh=n_tanh, tan=n_tan, square=n_square,
    conjugate=n_conj, reciprocal=n_reciprocal, absolute=n_abs, fabs=n_abs, hypot=n_hypot,
    logical_not=lambda x, **k: np.logical_not(_boolarr(x), **k),
    logical_and=lambda x, y, **k: np.logical_and(_boolarr(x), _boolarr(y), **k),
    logical_or=lambda x, y, **k: np.logical_or(_boolarr(x), _boolarr(y), **k),
    logical_xor=lambda x, y, **k: np.logical_xor(_boolarr(x), _boolarr(y), **k),
    deg2rad=lambda x: x * (np.pi / 180), rad2deg=lambda x: x * (180 / np.pi), radians=lambda x: x * (np.pi / 180),
    mod=lambda a, b: a % b, remainder=lambda a, b: a % b, floor_divide=lambda a, b: a // b, fmod=lambda a, b: n_fmod(a, b),
    degrees=lambda x: x * (180 / np.pi), isnan=n_isnan, isfinite=n_isfinite,
)
_OVR.update(
    {k: v for k, v in OWN.items() if k not in _OVR},
    any=lambda a, *r, **k: np.any(_boolarr(a), *r, **k), all=lambda a, *r, **k: np.all(_boolarr(a), *r, **k),
    bincount=n_bincount, fromiter=lambda it, dtype=float, count=-1: n_array(list(it), dtype=dtype),
)


class NPShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__.update(_OVR)
        self.__dict__['linalg'] = _Linalg('numpy.linalg')
        self.__path__ = []

    def __getattr__(self, n):
        if n == '__all__':
            return [x for x in np.__all__]
        v = getattr(np, n)
        if isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
            return v
        if isinstance(v, np.ufunc):
            return UFunc(v)

        def w(*a, **k):
            a = tuple(unproxy(x) if isinstance(x, type) else x for x in a)
            k = {kk: (unproxy(x) if isinstance(x, type) else x) for kk, x in k.items()}
            if 'dtype' in k and k['dtype'] is not None and np.dtype(k['dtype']).kind in 'fc':
                dt = np.dtype(k.pop('dtype'))
                r = v(*a, **k)
                return mk(r, dt) if isinstance(r, np.ndarray) else r
            kinds = set()
            pa = tuple(_plain(x, kinds) for x in a)
            if kinds:
                # numpy's own Python code allocates by dtype: show it the object arrays
                r = v(*pa, **{kk: _plain(x, kinds) for kk, x in k.items()})
                return _wrapk(r, CDT if 'c' in kinds else FDT)
            return wrapres(v(*a, **k))
        w.__name__ = n
        return w


class UFunc:
    """binary/unary ufuncs on symbolic arrays; where=/out= supported through numpy's object loops"""

    def __init__(self, u):
        self.u = u

    def __call__(self, *a, **k):
        if any(isinstance(x, SNum) for x in a) and not any(isinstance(x, np.ndarray) for x in a):
            import operator
            op = {'multiply': operator.mul, 'add': operator.add, 'subtract': operator.sub,
                  'divide': operator.truediv, 'true_divide': operator.truediv, 'negative': operator.neg,
                  'power': operator.pow, 'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt,
                  'greater': operator.gt}.get(self.u.__name__)
            if op:
                return op(*a)
        if 'casting' not in k and k.get('out') is not None:
            k['casting'] = 'unsafe'
        return wrapres(self.u(*a, **k))

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if callable(m):
            return lambda *a, **k: wrapres(m(*a, **k))
        return m


shim = NPShim()
