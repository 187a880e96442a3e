"""Helpers shared by the checks."""
import numpy as np
from sym import ref


def ops_of(S, spec, stem='a'):
    """spec: list of (name, target) -> list of (name, symbolic args, target)"""
    out = []
    for i, (name, t) in enumerate(spec):
        args = tuple(S.angle('%s%d_%d' % (stem, i, k)) for k in range(ref.NARGS.get(name, 0)))
        out.append((name, args, t))
    return out


def add_ops(c, ops):
    for name, args, t in ops:
        g = getattr(c, name)
        if args:
            g = g(*args)
        g[t]
    return c


def find_state(ctx, n):
    """the array that holds the state of a simulator context: the one equal to |0...0>"""
    seen = []

    def visit(o, depth):
        if isinstance(o, np.ndarray):
            seen.append(o)
        elif depth < 3 and hasattr(o, '__dict__'):
            for v in vars(o).values():
                visit(v, depth + 1)
        elif depth < 3 and isinstance(o, (list, tuple)):
            for v in o:
                visit(v, depth + 1)
        elif depth < 3 and isinstance(o, dict):
            for v in o.values():
                visit(v, depth + 1)
    visit(ctx, 0)
    good = []
    for a in seen:
        if a.size == 1 << n and getattr(a, 'dtype', None) is not None and np.dtype(a.dtype).kind == 'c':
            x = np.asarray(a).ravel()
            if isone(x[0]) and all(iszero(y) for y in x[1:]):
                good.append(a)
    return good


def isone(x):
    p = getattr(x, 'rational', None)
    return (p() == 1) if p else x == 1


def iszero(x):
    p = getattr(x, 'rational', None)
    return (p() == 0) if p else x == 0


def inject(S, backend='numpy'):
    """registers the pseudo gate `symstate`, which loads an arbitrary state into a simulator, and `ccz`"""
    bq = S.bq
    circ = S.mod('circuit')
    gate = S.mod('gate')
    inst = circ.BACKENDS[backend]()

    class SymState(gate.OneQubitGate):
        lowername = 'symstate'

        def __init__(self, targets, st, **kw):
            super().__init__(targets, (), **kw)
            self.st = st

        def dagger(self):
            return self

    def gate_symstate(self, g, ctx):
        n = ctx.n_qubits
        arrs = find_state(ctx, n)
        if not arrs:
            from sym.num import Unsupported
            raise Unsupported("no state array found in the simulator context")
        for a in arrs:
            S.load_state(a, g.st)
        return ctx
    type(inst).gate_symstate = gate_symstate
    if 'ccz' not in circ.GATE_SET:      # a gate class without a name of its own in circuits
        bq.BlueqatGlobalSetting.register_gate('ccz', gate.CCZGate)
    bq.BlueqatGlobalSetting.register_gate('symstate', SymState)
    return type(inst)


def vec(S, v, n):
    """run result as list, length-checked"""
    S.true(len(v) == 1 << n, 'length', 'state has %d entries for %d qubits' % (len(v), n))
    return list(np.asarray(v).ravel())


def place(k, n, rot):
    """a deterministic permutation of range(n), varied by rot"""
    import itertools
    ps = list(itertools.permutations(range(n), k))
    return ps[rot % len(ps)]


class Rand:
    """a fixed sequence of choices (the same in every run)"""

    def __init__(self, seed):
        self.x = (seed * 7919 + 12345) % 2147483647

    def __call__(self, n):
        for _ in range(3):
            self.x = self.x * 48271 % 2147483647
        return (self.x >> 7) % n

    def pick(self, xs):
        return xs[self(len(xs))]

    def perm(self, xs):
        xs, out = list(xs), []
        while xs:
            out.append(xs.pop(self(len(xs))))
        return out

    def word(self, length, qubits):
        """Pauli factors in any order, with repetitions"""
        return ' '.join(self.pick('XYZ') + str(self.pick(qubits)) for _ in range(length))

    def string(self, n, dense=3):
        """letters of n qubits, the last not I"""
        w = [self.pick('IXYZ' + 'XYZ' * (dense - 1)) for _ in range(n - 1)]
        return ''.join(w) + self.pick('XYZ')
