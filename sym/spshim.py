"""scipy.sparse stand-in with exact entries (model of the documented constructors and operations)."""
import types
import numpy as np
from .num import SNum, tosnum, Unsupported
from . import npshim
from .npshim import mk, SArr, CDT, ssum


class SpMat:
    fmt = 'coo'
    ndim = 2

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        ent = {}
        if isinstance(arg, SpMat):
            ent = dict(arg.ent)
            shape = arg.shape
        elif isinstance(arg, np.ndarray) or isinstance(arg, list):
            a = np.asarray(npshim.n_asarray(arg))
            if a.ndim != 2:
                a = a.reshape(1, -1)
            shape = a.shape
            for i in range(a.shape[0]):
                for j in range(a.shape[1]):
                    if not _zero(a[i, j]):
                        ent[i, j] = a[i, j]
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            data, ind, ptr = list(np.asarray(data)), [int(x) for x in ind], [int(x) for x in ptr]
            if self.fmt not in ('csr', 'csc', 'bsr'):
                raise Unsupported("3-tuple constructor for " + self.fmt)
            if len(data) != len(ind):
                raise ValueError("indices and data should have the same size")
            if ptr[0] != 0 or ptr[-1] > len(ind):
                raise ValueError("index pointer values must be consistent with indices")
            major = len(ptr) - 1
            if shape is None:
                minor = max(ind) + 1 if ind else 0
                shape = (major, minor) if self.fmt == 'csr' else (minor, major)
            if major != (shape[0] if self.fmt != 'csc' else shape[1]):
                raise ValueError("index pointer size (%d) should be (%d)" % (major + 1, shape[0] + 1))
            for m in range(major):
                for k in range(ptr[m], ptr[m + 1]):
                    ij = (m, ind[k]) if self.fmt != 'csc' else (ind[k], m)
                    ent[ij] = ent[ij] + data[k] if ij in ent else data[k]
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            data = list(np.asarray(data))
            row, col = [int(x) for x in row], [int(x) for x in col]
            if not (len(data) == len(row) == len(col)):
                raise ValueError("row, column, and data array must all be the same length")
            for v, i, j in zip(data, row, col):
                ent[i, j] = ent[i, j] + v if (i, j) in ent else v
            if shape is None:
                shape = (max(row) + 1, max(col) + 1)
        elif isinstance(arg, tuple) and len(arg) == 2:
            shape = (int(arg[0]), int(arg[1]))
        else:
            raise Unsupported("sparse constructor")
        self.ent = ent
        self.shape = tuple(int(x) for x in shape)
        for i, j in ent:
            if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
                raise ValueError("row/column index exceeds matrix dimensions")

    # -- entries; an array handed out as .data writes through to them
    _live = None

    @property
    def ent(self):
        if self._live is not None:
            keys, arr = self._live
            for k, v in zip(keys, arr):
                self._ent[k] = v
        return self._ent

    @ent.setter
    def ent(self, e):
        self._ent, self._live = e, None

    @property
    def data(self):
        e = self.ent
        if self._live is None or self._live[0] != list(e):
            self._live = (list(e), mk(np.array(list(e.values()) + [None], dtype=object)[:-1], CDT))
        return self._live[1]

    @data.setter
    def data(self, arr):
        arr = list(arr)
        if len(arr) != len(self.ent):
            raise Unsupported("data of another length")
        self.ent = dict(zip(list(self.ent), arr))

    # -- basics
    @property
    def dtype(self):
        return CDT

    @property
    def nnz(self):
        return len(self.ent)

    def getformat(self):
        return self.fmt

    @property
    def format(self):
        return self.fmt

    def get_shape(self):
        return self.shape

    def toarray(self, order=None, out=None):
        a = npshim.n_zeros(self.shape, dtype=complex)
        for (i, j), v in self.ent.items():
            a[i, j] = v
        return a
    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def _new(self, ent, shape=None):
        r = type(self).__new__(type(self))
        r.ent, r.shape = ent, shape or self.shape
        return r

    def copy(self):
        return self._new(dict(self.ent))

    def eliminate_zeros(self):
        self.ent = {k: v for k, v in self.ent.items() if not _zero(v)}

    def sum_duplicates(self):
        pass

    def sort_indices(self):
        pass

    def asformat(self, fmt, copy=False):
        return self if fmt is None else CLS[fmt](self)

    def __getattr__(self, n):
        if n.startswith('to') and n[2:] in CLS:
            return lambda *a, **k: CLS[n[2:]](self)
        raise AttributeError(n)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        return self._new({(j, i): v for (i, j), v in self.ent.items()}, self.shape[::-1])

    def conj(self, copy=True):
        return self._new({k: tosnum(v).conjugate() for k, v in self.ent.items()})
    conjugate = conj

    @property
    def H(self):
        return self.conj().transpose()
    getH = lambda self: self.H

    def __getitem__(self, ij):
        if isinstance(ij, tuple) and all(isinstance(x, (int, np.integer)) for x in ij):
            return self.ent.get((int(ij[0]), int(ij[1])), 0j)
        raise Unsupported("sparse indexing")

    def diagonal(self, k=0):
        return mk(np.array([self.ent.get((i, i + k), 0j) for i in range(min(self.shape) - abs(k))], dtype=object))

    # -- algebra
    def dot(self, o):
        if isinstance(o, SpMat):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            ent = {}
            byrow = {}
            for (i, j), v in o.ent.items():
                byrow.setdefault(i, []).append((j, v))
            for (i, k), v in self.ent.items():
                for j, w in byrow.get(k, ()):
                    ent[i, j] = ent[i, j] + v * w if (i, j) in ent else v * w
            return self._new(ent, (self.shape[0], o.shape[1]))
        if np.isscalar(o) or isinstance(o, SNum):
            return self * o
        a = np.asarray(npshim.n_asarray(o))
        if a.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        out = npshim.n_zeros((self.shape[0],) + a.shape[1:], dtype=complex)
        for (i, j), v in self.ent.items():
            out[i] = out[i] + v * a[j]
        return out

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return self.transpose().dot(np.asarray(o).T).T

    def __mul__(self, o):
        if isinstance(o, (SpMat, np.ndarray)):
            return self.dot(o)
        return self._new({k: v * o for k, v in self.ent.items()})

    def __rmul__(self, o):
        return self._new({k: o * v for k, v in self.ent.items()})

    def multiply(self, o):
        if isinstance(o, SpMat):
            return self._new({k: v * o.ent[k] for k, v in self.ent.items() if k in o.ent})
        return self._new({k: v * o for k, v in self.ent.items()})

    def __truediv__(self, o):
        return self._new({k: v / o for k, v in self.ent.items()})

    def __neg__(self):
        return self._new({k: -v for k, v in self.ent.items()})

    def __add__(self, o):
        if isinstance(o, SpMat):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            ent = dict(self.ent)
            for k, v in o.ent.items():
                ent[k] = ent[k] + v if k in ent else v
            return self._new(ent)
        if isinstance(o, (int, float)) and o == 0:
            return self.copy()
        raise Unsupported("sparse + dense")
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)


def _zero(v):
    if isinstance(v, SNum):
        return not v.p       # only structural zeros can be dropped without changing the matrix
    return v == 0


def _mkcls(f):
    return type(f + '_matrix', (SpMat,), {'fmt': f})


CLS = {f: _mkcls(f) for f in ('bsr', 'coo', 'csc', 'csr', 'dia', 'dok', 'lil')}


def kron(a, b, format=None):
    a = a if isinstance(a, SpMat) else CLS['coo'](a)
    b = b if isinstance(b, SpMat) else CLS['coo'](b)
    ent = {}
    for (i, j), v in a.ent.items():
        for (k, l), w in b.ent.items():
            ent[i * b.shape[0] + k, j * b.shape[1] + l] = v * w
    r = CLS[format or 'coo']((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
    r.ent = ent
    return r


def identity(n, dtype=float, format=None):
    r = CLS[format or 'dia']((n, n))
    r.ent = {(i, i): 1.0 for i in range(n)}
    return r


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    d = np.asarray(npshim.n_asarray(diagonals))
    if not (offsets == 0):
        raise Unsupported("diags offsets")
    d = d.ravel()
    r = CLS[format or 'dia']((len(d), len(d)))
    r.ent = {(i, i): v for i, v in enumerate(d)}
    return r


shim = types.ModuleType('scipy.sparse')
for f, c in CLS.items():
    setattr(shim, f + '_matrix', c)
    setattr(shim, f + '_array', c)
shim.kron = kron
shim.identity = identity
shim.eye = lambda m, n=None, k=0, dtype=float, format=None: identity(m, format=format)
shim.diags = diags
shim.issparse = lambda x: isinstance(x, SpMat)
shim.isspmatrix = shim.issparse
shim.spmatrix = SpMat
