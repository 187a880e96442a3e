"""A stand-in for numba, which the sandbox lacks: decorated functions run as the Python they are written in.

Integers of the fixed-width types are mathematical integers; arrays of them wrap on store.  Parallel loops
run one iteration at a time while every access to a float/complex array is recorded per iteration: two
iterations that touch the same element, at least one of them writing, make the outcome depend on the
schedule and are reported.
"""
import functools
import types
import numpy as np

RACES = []
ORDER = 'forward'


class _Type:
    def __init__(self, name, bits=None, conv=None):
        self.name, self.bits, self.conv = name, bits, conv

    def __call__(self, *a):
        if len(a) != 1 or isinstance(a[0], _Type):
            return ('sig', self, a)
        if self.bits:
            return int(a[0]) & ((1 << self.bits) - 1)
        return self.conv(a[0]) if self.conv else a[0]

    def __getitem__(self, i):
        return _Type(self.name + '[]')


class IntArr(list):
    """array of fixed-width integers"""
    bits = 64
    signed = False

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise TypeError("slice store")
        v = int(v) & ((1 << self.bits) - 1)
        if self.signed and v >> (self.bits - 1):
            v -= 1 << self.bits
        list.__setitem__(self, i, v)

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        if isinstance(i, slice):
            r = _intarr(r, self.bits, self.signed)
        return r

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    def copy(self):
        return _intarr(self, self.bits, self.signed)


def _intarr(vals, bits, signed):
    r = IntArr()
    r.bits, r.signed = bits, signed
    for v in vals:
        list.append(r, 0)
        r[len(r) - 1] = v
    return r


class Recorder:
    """element accesses of a parallel loop"""

    def __init__(self, arr, log):
        self._a, self._log = arr, log

    def _k(self, i):
        i = int(i)
        n = len(self._a)
        if not 0 <= i < n:
            RACES.append('index %d outside the state of %d amplitudes' % (i, n))
            raise IndexError(i)
        return i

    def __getitem__(self, i):
        i = self._k(i)
        self._log.note(id(self._a), i, False)
        return self._a[i]

    def __setitem__(self, i, v):
        i = self._k(i)
        self._log.note(id(self._a), i, True)
        self._a[i] = v

    def __len__(self):
        return len(self._a)

    @property
    def size(self):
        return self._a.size

    @property
    def shape(self):
        return self._a.shape

    @property
    def dtype(self):
        return self._a.dtype


class _Log:
    def __init__(self):
        self.iter = None
        self.acc = {}

    def note(self, a, i, w):
        if self.iter is None:
            return
        d = self.acc.setdefault((a, i), {})
        d[self.iter] = d.get(self.iter, False) or w

    def finish(self, name):
        for (a, i), d in self.acc.items():
            if len(d) > 1 and any(d.values()):
                RACES.append('%s: iterations %s of a parallel loop share amplitude %d' % (name, sorted(d)[:4], i))
                break
        self.acc = {}


_STACK = []


def prange(*a):
    rng = list(range(*[int(x) for x in a]))
    if ORDER == 'backward':
        rng.reverse()
    log = _STACK[-1] if _STACK else None
    if log is None:
        yield from rng
        return
    try:
        for i in rng:
            log.iter = i
            yield i
    finally:
        log.iter = None
        log.finish(log.name)


class _NP(types.ModuleType):
    def __init__(self, base):
        super().__init__('numpy')
        self.__dict__['_b'] = base

    def __getattr__(self, n):
        return getattr(self._b, n)

    def _mk(self, vals, dtype):
        dt = np.dtype(dtype)
        return _intarr(vals, dt.itemsize * 8, dt.kind == 'i')

    def empty(self, n, dtype=float):
        if _kind(dtype) in 'iu':
            return self._mk([57] * int(n), dtype)
        return self._b.empty(n, dtype=dtype)

    def zeros(self, n, dtype=float):
        if _kind(dtype) in 'iu':
            return self._mk([0] * int(n), dtype)
        return self._b.zeros(n, dtype=dtype)


def _kind(d):
    try:
        return np.dtype(d).kind
    except TypeError:
        return 'O'


def _wrap(f, parallel):
    @functools.wraps(f)
    def g(*args):
        log = _Log()
        log.name = f.__name__
        a2 = []
        for x in args:
            if isinstance(x, np.ndarray) and np.dtype(x.dtype).kind in 'iu':
                x = _intarr(x.tolist(), x.dtype.itemsize * 8, x.dtype.kind == 'i')
            elif isinstance(x, np.integer):
                x = int(x)
            elif isinstance(x, np.ndarray) and parallel:
                x = Recorder(x, log)
            a2.append(x)
        gl = dict(f.__globals__)
        if 'np' in gl:
            gl['np'] = _NP(gl['np'])
        if 'numpy' in gl:
            gl['numpy'] = _NP(gl['numpy'])
        h = types.FunctionType(f.__code__, gl, f.__name__, f.__defaults__, f.__closure__)
        _STACK.append(log)
        try:
            r = h(*a2)
        finally:
            _STACK.pop()
        return r._a if isinstance(r, Recorder) else r
    g.py_func = f
    return g


def njit(*a, **k):
    if len(a) == 1 and not k and callable(a[0]) and not isinstance(a[0], _Type):
        return _wrap(a[0], False)
    return lambda f: _wrap(f, bool(k.get('parallel')))


def module():
    RACES.clear()
    m = types.ModuleType('numba')
    m.jit = m.njit = njit
    m.prange = prange
    for n, b in (('uint8', 8), ('uint16', 16), ('uint32', 32), ('uint64', 64), ('intp', None), ('int32', None),
                 ('int64', None), ('uintp', 64)):
        setattr(m, n, _Type(n, b, int))
    m.float64 = _Type('float64')
    m.complex128 = _Type('complex128')
    m.complex64 = _Type('complex64')
    m.void = _Type('void')
    m.types = m
    m.vectorize = m.guvectorize = njit
    m.__path__ = []
    return m


def fakes(concrete):
    return {'numba': module()}
