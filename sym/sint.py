"""Symbolic integers and slices over z3 linear integer arithmetic."""
import numbers
import z3
from . import num
from .num import SNum, Unsupported


def zt(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if hasattr(x, '__index__') and not isinstance(x, float):
        return z3.IntVal(x.__index__())
    return None


class SInt(numbers.Integral):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        if isinstance(o, (SNum, float, complex)):
            return NotImplemented
        o = zt(o)
        if o is None:
            return NotImplemented
        return SInt(z3.simplify(f(self.e, o)))

    def __add__(self, o):
        if isinstance(o, (SNum, float, complex)):
            return int(self) + o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, (SNum, float, complex)):
            return o + int(self)
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, (SNum, float, complex)):
            return int(self) - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, (SNum, float, complex)):
            return o - int(self)
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (SNum, float, complex)):
            return int(self) * o
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return SInt(z3.simplify(-self.e))
    def __pos__(self): return self
    def __abs__(self): return self if self >= 0 else -self

    def __floordiv__(self, o):
        # python floor division; z3 div is euclidean: they agree for positive divisors
        oc = int(o)
        if oc == 0:
            raise ZeroDivisionError
        if oc > 0:
            return SInt(z3.simplify(self.e / oc))
        return SInt(z3.simplify((-self.e) / (-oc)))

    def __mod__(self, o):
        return self - (self // o) * int(o)

    def __rfloordiv__(self, o): return o // int(self)
    def __rmod__(self, o): return o % int(self)
    def __truediv__(self, o): return int(self) / o
    def __rtruediv__(self, o): return o / int(self)
    def __pow__(self, o, m=None): return int(self) ** o
    def __rpow__(self, o): return o ** int(self)
    def __lshift__(self, o): return int(self) << int(o)
    def __rlshift__(self, o): return o << int(self)
    def __rshift__(self, o): return int(self) >> int(o)
    def __rrshift__(self, o): return o >> int(self)
    def __and__(self, o): return int(self) & int(o)
    def __rand__(self, o): return o & int(self)
    def __or__(self, o): return int(self) | int(o)
    def __ror__(self, o): return o | int(self)
    def __xor__(self, o): return int(self) ^ int(o)
    def __rxor__(self, o): return o ^ int(self)
    def __invert__(self): return -self - 1

    def _cmp(self, o, f):
        if isinstance(o, (SNum, float)):
            return NotImplemented
        o = zt(o)
        if o is None:
            return NotImplemented
        return num.engine().ifork(f(self.e, o))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return num.engine().ifork(self.e != 0)

    def __index__(self):
        return num.engine().concretize(self.e)

    __int__ = __index__

    def __hash__(self): return hash(int(self))
    def __float__(self): return float(int(self))
    def __trunc__(self): return int(self)
    def __floor__(self): return int(self)
    def __ceil__(self): return int(self)
    def __round__(self, n=None): return int(self)
    def __str__(self): return str(int(self))
    __repr__ = __str__
    def __format__(self, spec): return format(int(self), spec)
    def _snum_(self): return SNum.const(int(self))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    @property
    def real(self): return self
    @property
    def imag(self): return 0


class SSlice:
    """A slice whose components may be SInt or None; `indices` follows CPython's PySlice_AdjustIndices."""
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return (self.start, self.stop, self.step) == (o.start, o.stop, o.step)
    __hash__ = None

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        return 'slice(%r, %r, %r)' % (self.start, self.stop, self.step)

    def concrete(self):
        f = lambda x: None if x is None else int(x)
        return slice(f(self.start), f(self.stop), f(self.step))

    def indices(self, length):
        step = 1 if self.step is None else self.step
        if step == 0:
            raise ValueError("slice step cannot be zero")
        neg = step < 0
        lower, upper = (-1, length - 1) if neg else (0, length)

        def adj(v, default):
            if v is None:
                return default
            if v < 0:
                v = v + length
                if v < lower:
                    v = lower
            elif v > upper:
                v = upper
            return v
        start = adj(self.start, upper if neg else lower)
        stop = adj(self.stop, lower if neg else upper)
        return start, stop, step


class SRange:
    """range() with symbolic bounds: iterates by comparing, so that a path is a length and not a set of values"""

    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i, up = self.start, self.step > 0
        while (i < self.stop) if up else (i > self.stop):
            yield i
            i = i + self.step

    def __len__(self): return sum(1 for _ in self)
    def __bool__(self): return any(True for _ in self)
    def __getitem__(self, k): return list(self)[k]
    def __reversed__(self): return reversed(list(self))
    def count(self, x): return list(self).count(x)
    def index(self, x): return list(self).index(x)
