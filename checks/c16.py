"""C16: QUBO matrices, Ising models and Pauli Hamiltonians have equal energies."""
import itertools
import types
import numpy as np
from .c17 import energy
from .common import Rand

BOUNDS = {
    'quick': 'QUBO matrices of 1-4 variables (full matrices, lists, tuples, arrays; zero patterns) with every entry symbolic, '
             'all assignments (Pauli form of 3-4 variables: entries of one sign, or no diagonal); choose-k-of-n for up to 4 variables with symbolic k and every list of up to 3 preferred '
             'variables; squares, products and diagonals of 0-4 symbolic coefficients; edge lists of up to 3 edges on 3-4 '
             'nodes, all choices of endpoints; weighted sums of up to 4 matrices with symbolic weights; the model handed to '
             'the quantum annealer service (a stand-in) and to QAOA; matrices of 6-12 variables with every entry symbolic, compared coefficient by coefficient (which decides every assignment)',
    'thorough': 'as quick with matrices of up to 5 variables and 4 edges',
}
OUTSIDE = 'larger matrices; adding matrices of different sizes; hardware graphs that lack a node or coupler the model needs'


def bitsets(n):
    return list(itertools.product((0, 1), repeat=n))


def qenergy(Q, b):
    t = 0
    for i, j in itertools.product(range(len(b)), repeat=2):
        if b[i] and b[j]:
            t = t + Q[i][j]
    return t


def matrix(S, n, kind, pattern='full', stem='Q', sign=None):
    ok = {'full': lambda i, j: True, 'upper': lambda i, j: i <= j, 'lower': lambda i, j: i >= j,
          'offdiag': lambda i, j: i != j, 'strict lower': lambda i, j: i > j}[pattern]
    new = S.real if sign is None else S.posreal if sign > 0 else lambda x: -S.posreal(x)
    Q = [[new('%s%d%d' % (stem, i, j)) if ok(i, j) else 0.0 for j in range(n)] for i in range(n)]
    return Q, as_kind(S, Q, kind)


def as_kind(S, Q, kind):
    if kind == 'list':
        return [list(r) for r in Q]
    if kind == 'tuple':
        return tuple(tuple(r) for r in Q)
    if S.concrete:
        return np.array(Q)
    return S.mod('wq').np.array(Q)


def diag_energy(S, H, b):
    """<b|H|b> of a sum of products of Z"""
    t = 0
    for term in H.terms:
        x = S.num(term.coeff)
        for op in term.ops:
            S.true(op.op == 'Z', 'diagonal Hamiltonian', repr(op))
            x = x * (1 - 2 * b[op.n])
        t = t + x
    return t


def pauli(S, n, kind, pattern, sign=None):
    wq = S.mod('wq')
    Q, q = matrix(S, n, kind, pattern, sign=sign)
    H = S.mod('pauli').Expr.from_number(0) + wq.pauli(q)
    for b in bitsets(n):
        S.eq([(diag_energy(S, H, b), qenergy(Q, b))], 'energy of %s' % (b,))


def snapshot(q):
    return [list(r) for r in q]


def ising(S, n, kind, pattern):
    wq = S.mod('wq')
    Q, q = matrix(S, n, kind, pattern)
    o = wq.Opt()
    o.qubo = q
    if n:
        o.qi()
    J, ep = o.J, o.ep
    for b in bitsets(n):
        s = [2 * x - 1 for x in b]
        S.eq([(energy(s, J) + ep, qenergy(Q, b))], 'energy of %s' % (b,))
    S.eq([(J[i][j], 0) for i in range(n) for j in range(i)], 'upper triangular')
    S.eqv([x for r in q for x in r], [x for r in Q for x in r], 'the QUBO is untouched')
    r = o.reJ()
    S.eq([(r[i][j], J[min(i, j)][max(i, j)]) for i in range(n) for j in range(n)], 'symmetric form')
    # the energies recorded by the annealer are those of the QUBO
    got = o.run(targetT=o.Ts)
    S.true(len(o.E) == 1 and len(got) == n, 'no sweeps')
    S.eq([(o.E[0], qenergy(Q, got))], 'recorded energy')


def offset_kept(S, n):
    """a second model on the same optimizer starts afresh"""
    wq = S.mod('wq')
    o = wq.Opt()
    A, a = matrix(S, n, 'list', stem='A')
    B, b = matrix(S, n, 'array', stem='B')
    o.qubo = a
    o.qi()
    o.qi()
    for x in bitsets(n):
        S.eq([(energy([2 * v - 1 for v in x], o.J) + o.ep, qenergy(A, x))], 'converted twice')
    o.qubo = b
    o.qi()
    for x in bitsets(n):
        S.eq([(energy([2 * v - 1 for v in x], o.J) + o.ep, qenergy(B, x))], 'second model')


def shape(S, q, n, label='shape'):
    S.true(len(q) == n and all(len(r) == n for r in q), label, '%s' % (np.shape(q),))


def sel(S, n, k, arr):
    wq = S.mod('wq')
    K = S.real('K') if k is None else k
    q = wq.sel(n, K) if arr is None else wq.sel(n, K, list(arr))
    shape(S, q, n)
    for b in bitsets(n):
        e = (sum(b) - K) * (sum(b) - K) - K * K
        for i in arr or ():
            e = e - 0.5 * b[i]
        S.eq([(qenergy(q, b), e)], 'energy of %s' % (b,))


def square(S, n, kind):
    wq = S.mod('wq')
    A = S.reals('a', n)
    q = wq.sqr(as_kind(S, A, kind) if kind != 'list' else list(A))
    shape(S, q, n)
    for b in bitsets(n):
        t = sum((a for a, x in zip(A, b) if x), 0)
        S.eq([(qenergy(q, b), t * t)], 'energy of %s' % (b,))


def product(S, n, kind):
    wq = S.mod('wq')
    A, B = S.reals('a', n), S.reals('b', n)
    f = (lambda v: as_kind(S, v, kind)) if kind != 'list' else list
    q = wq.mul(f(A), f(B))
    shape(S, q, n)
    for b in bitsets(n):
        t = sum((a for a, x in zip(A, b) if x), 0)
        u = sum((a for a, x in zip(B, b) if x), 0)
        S.eq([(qenergy(q, b), t * u)], 'energy of %s' % (b,))


def diagonal(S, n):
    wq = S.mod('wq')
    A = S.reals('a', n)
    q = wq.diag(list(A))
    shape(S, q, n)
    z = wq.zeros(n)
    shape(S, z, n)
    for b in bitsets(n):
        S.eq([(qenergy(q, b), sum((a for a, x in zip(A, b) if x), 0))], 'diagonal')
        S.eq([(qenergy(z, b), 0)], 'zeros')


def edges(S, n, k):
    wq = S.mod('wq')
    E = [[S.choose('u%d' % i, n), S.choose('v%d' % i, n)] for i in range(k)]
    q = wq.net([list(e) for e in E], n)
    shape(S, q, n)
    E = {tuple(sorted(e)) for e in E}
    for b in bitsets(n):
        S.eq([(qenergy(q, b), sum(b[i] * b[j] for i, j in E))], 'energy of %s' % (b,))


def randoms(S, n):
    wq = S.mod('wq')
    mark = len(S.draws)
    q = wq.rands(n)
    shape(S, q, n)
    used = S.draws[mark:]
    for i, j in itertools.product(range(n), repeat=2):
        if i > j:
            S.eq([(q[i][j], 0)], 'upper triangular')
        else:
            S.true(not S.cmp_lt(q[i][j], 0) and S.cmp_lt(q[i][j], 1), 'entries in [0, 1)')
            S.true(any(_same(S, q[i][j], d) for d in used), 'entries are draws')
    up = [q[i][j] for i in range(n) for j in range(i, n)]
    S.true(S.concrete or len({repr(x) for x in up}) == len(up), 'independent entries')


def _same(S, a, b):
    if S.concrete:
        return abs(a - b) < 1e-12
    return S.num(a).p == S.num(b).p


def added(S, n, kinds, weights):
    wq = S.mod('wq')
    o = wq.Opt()
    tot = []
    for i, (k, w) in enumerate(zip(kinds, weights)):
        Q, q = matrix(S, n, k, stem='Q%d_' % i)
        before = snapshot(q)
        M = S.real('M%d' % i) if w == 'sym' else 1 if w is None else w
        r = o.add(q) if w is None else o.add(q, M)
        S.true(r is o, 'returns the optimizer')
        S.eqv(snapshot(q), before, 'argument untouched')
        tot.append((M, Q))
    shape(S, o.qubo, n)
    for b in bitsets(n):
        e = 0
        for M, Q in tot:
            e = e + M * qenergy(Q, b)
        S.eq([(qenergy(o.qubo, b), e)], 'energy of %s' % (b,))


def constraint(S, n):
    """helper constructors summed in an optimizer: the annealer's energies are those of the sum"""
    wq = S.mod('wq')
    a, m = S.reals('a', n), S.real('M')
    o = wq.Opt()
    o.add(wq.sqr(list(a))).add(wq.sel(n, 1), m).add(wq.net([[n - 1, 0]], n), M=2)
    got = o.run(targetT=o.Ts)
    s = sum(got)
    t = sum((x for x, y in zip(a, got) if y), 0)
    S.eq([(o.E[0], t * t + m * (s * s - 2 * s) + 2 * got[0] * got[-1])], 'recorded energy')


def service(S, n, nodes, shuffle, kind='list', fixed=False):
    """the model submitted to the quantum annealer and the sample read back"""
    wq = S.mod('wq')
    Q, q = matrix(S, n, kind)
    o = wq.Opt()
    o.qubo = q
    sent = {}
    spins = [2 * (i * i % 3 == 1) - 1 if fixed and i > 1 else 2 * S.choose('s%d' % i, 2) - 1 for i in range(n)]

    class Solver:
        def __init__(self):
            self.nodes = list(nodes)
            es = [(a, b) for a in sorted(nodes) for b in sorted(nodes) if a < b]
            self.undirected_edges = es[::-1] if shuffle else es

        def sample_ising(self, linear, quad, **k):
            sent['linear'], sent['quad'] = dict(linear), dict(quad)
            r = types.SimpleNamespace()
            full = [3] * (max(nodes) + 1)
            full[:n] = spins
            r.samples = [full]
            return r
    CLIENT[:] = [Solver()]
    got = o.dw()
    S.true(list(got) == [(s + 1) // 2 for s in spins], 'bits of the sample', '%s for %s' % (got, spins))
    for b in bitsets(n):
        if sum(b) > 2 and fixed:
            continue        # the energy is quadratic
        s = [2 * x - 1 for x in b]
        t = o.ep
        for i, h in sent['linear'].items():
            t = t + h * s[i]
        for (i, j), w in sent['quad'].items():
            t = t + w * (s[i] * s[j])
        S.eq([(t, qenergy(Q, b))], 'energy of %s' % (b,))


CLIENT = []


def dwave(concrete):
    top, cloud = types.ModuleType('dwave'), types.ModuleType('dwave.cloud')
    top.__path__ = []
    top.cloud = cloud

    class Client:
        @staticmethod
        def from_config(**k):
            c = Client()
            c.conf = k
            return c

        def get_solver(self):
            return CLIENT[0]
    cloud.Client = Client
    return {'dwave': top, 'dwave.cloud': cloud}


service.fakes = dwave


def qaoa(S, n, step, sign=None):
    """the Hamiltonian optimised by QAOA"""
    wq, vqe = S.mod('wq'), S.mod('vqe')
    seen = []

    class Stop(Exception):
        pass

    class Vqe:
        def __init__(self, ansatz, *a, **k):
            seen.append(ansatz)

        def run(self, *a, **k):
            raise Stop
    Q, q = matrix(S, n, 'list', sign=sign)
    for i in range(n):
        S.assume_ne(Q[i][i], 0)
    vqe.Vqe = Vqe
    o = wq.Opt()
    o.qubo = q
    S.raises(lambda: o.qaoa(step=step), 'the driver is run', (Stop,))
    S.true(len(seen) == 1 and isinstance(seen[0], vqe.QaoaAnsatz) and seen[0].step == step, 'ansatz')
    H = seen[0].hamiltonian
    for b in bitsets(n):
        S.eq([(diag_energy(S, H.to_expr(), b), qenergy(Q, b))], 'energy of %s' % (b,))


def quad(q, n):
    """the coefficients of the energy as a polynomial in the bits (which determine it)"""
    return [q[i][i] for i in range(n)] + [q[i][j] + q[j][i] for i in range(n) for j in range(i)]


def wide_forms(S, n, kind):
    """a large matrix: the Pauli form and the Ising form have its energies"""
    wq = S.mod('wq')
    Q, q = matrix(S, n, kind, sign=1)
    want = quad(Q, n)
    H = S.mod('pauli').Expr.from_number(0) + wq.pauli(q)
    const, Z = S.num(0), {}
    for t in H.terms:
        S.true(all(o.op == 'Z' for o in t.ops), 'diagonal Hamiltonian')
        qs = frozenset(o.n for o in t.ops)
        S.true(len(qs) == len(t.ops), 'products of distinct operators')
        Z[qs] = Z.get(qs, S.num(0)) + t.coeff
    check_ising(S, n, Z.pop(frozenset(), S.num(0)), {k: v * (-1) ** len(k) for k, v in Z.items()}, want, 'Pauli form')
    o = wq.Opt()
    o.qubo = q
    o.qi()
    S.eqv([o.J[i][j] for i in range(n) for j in range(i)], [0] * (n * (n - 1) // 2), 'upper triangular')
    check_ising(S, n, o.ep, {frozenset((i, j)): o.J[i][j] for i in range(n) for j in range(i, n)}, want, 'Ising form')
    r = o.reJ()
    S.eqv([r[i][j] for i in range(n) for j in range(n)], [o.J[min(i, j)][max(i, j)] for i in range(n) for j in range(n)], 'symmetric form')


def check_ising(S, n, const, terms, want, lab):
    """terms: coefficients of the products of spins 2b - 1"""
    S.true(all(0 < len(k) <= 2 and max(k) < n for k in terms), lab + ': terms', str(list(terms)))
    lin = [S.num(0)] * n
    pair = {}
    for k, c in terms.items():
        if len(k) == 1:
            lin[min(k)] = lin[min(k)] + 2 * c
            const = const - c
        else:
            for i in k:
                lin[i] = lin[i] - 2 * c
            pair[tuple(sorted(k))] = 4 * c
            const = const + c
    S.eq([(const, 0)], lab + ': constant')
    S.eqv(lin + [pair.get((j, i), 0) for i in range(n) for j in range(i)], want, lab + ': coefficients')


def wide_makers(S, n, seed):
    """constructors for many variables"""
    wq = S.mod('wq')
    r = Rand(seed)
    A, B, K = S.reals('a', n), S.reals('b', n), S.real('K')
    pairs = [(i, j) for i in range(n) for j in range(i)]
    q = wq.sqr(list(A))
    shape(S, q, n)
    S.eqv(quad(q, n), [a * a for a in A] + [2 * A[i] * A[j] for i, j in pairs], 'square')
    q = wq.mul(list(A), list(B))
    S.eqv(quad(q, n), [a * b for a, b in zip(A, B)] + [A[i] * B[j] + A[j] * B[i] for i, j in pairs], 'product')
    q = wq.diag(list(A))
    S.eqv(quad(q, n), A + [0] * len(pairs), 'diagonal')
    arr = [r(n) for _ in range(5)]
    q = wq.sel(n, K, list(arr))
    shape(S, q, n)
    S.eqv(quad(q, n), [1 - 2 * K - 0.5 * arr.count(i) for i in range(n)] + [2] * len(pairs), 'choose k of n')
    for k in (0, 1, n // 2, n - 1, n):
        q = wq.sel(n, k)
        S.eqv(quad(q, n), [1 - 2 * k] * n + [2] * len(pairs), 'choose %d of n' % k)
    E = [[r(n), r(n)] for _ in range(2 * n)]
    q = wq.net([list(e) for e in E], n)
    shape(S, q, n)
    E = {tuple(sorted(e, reverse=True)) for e in E}
    S.eqv(quad(q, n), [int((i, i) in E) for i in range(n)] + [int(p in E) for p in pairs], 'edges')
    o = wq.Opt()
    M = S.reals('M', 3)
    o.add(wq.sqr(list(A)), M[0]).add(wq.sel(n, K), M[1]).add(wq.net([list(e) for e in E], n), M[2])
    S.eqv(quad(o.qubo, n), [M[0] * A[i] * A[i] + M[1] * (1 - 2 * K) + M[2] * int((i, i) in E) for i in range(n)]
          + [2 * M[0] * A[i] * A[j] + 2 * M[1] + M[2] * int((i, j) in E) for i, j in pairs], 'weighted sum')


def jobs(tier):
    J = []
    for n in (6, 8, 12) + ((16, 25) if tier == 'thorough' else ()):
        for kind in ('list', 'array'):
            J.append(('wide_forms', dict(n=n, kind=kind)))
        J.append(('wide_makers', dict(n=n, seed=n)))
        J.append(('service', dict(n=n if n < 9 else 7, nodes=tuple(range(n + 3)), shuffle=n == 8, fixed=True)))
    big = tier == 'thorough'
    top = 6 if big else 5
    for n in range(1, top):
        for kind in ('list', 'tuple', 'array'):
            for pat in ('full', 'upper', 'lower', 'offdiag', 'strict lower'):
                if n == 1 and pat in ('offdiag', 'strict lower'):
                    continue
                if n < 3 or n == 3 and pat in ('offdiag', 'strict lower') and kind != 'tuple':
                    J.append(('pauli', dict(n=n, kind=kind, pattern=pat)))
                if n > 2:
                    for sign in (1, -1):
                        J.append(('pauli', dict(n=n, kind=kind, pattern=pat, sign=sign)))
                if n < 4 or kind == 'array' or big:
                    J.append(('ising', dict(n=n, kind=kind, pattern=pat)))
        J.append(('square', dict(n=n, kind='list')))
        J.append(('square', dict(n=n, kind='array')))
        J.append(('product', dict(n=n, kind='list')))
        J.append(('product', dict(n=n, kind='array')))
        J.append(('diagonal', dict(n=n)))
        J.append(('randoms', dict(n=n)))
        for arr in [None, ()] + [c for k in (1, 2) for c in itertools.product(range(n), repeat=k)] + [(0, 0, n - 1)]:
            J.append(('sel', dict(n=n, k=None, arr=arr)))
        for k in range(n + 2):
            J.append(('sel', dict(n=n, k=k, arr=None)))
            J.append(('sel', dict(n=n, k=k, arr=(n - 1,))))
    for n in (1, 2, 3):
        J.append(('offset_kept', dict(n=n)))
        J.append(('constraint', dict(n=n)))
    for n, k in ((1, 0), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (4, 2), (3, 3)) + (((4, 3), (3, 4)) if big else ()):
        J.append(('edges', dict(n=n, k=k)))
    for n in (1, 2, 3):
        for kinds in (('list',), ('array',), ('list', 'list'), ('array', 'list'), ('list', 'array', 'tuple'), ('array',) * 4):
            for w in (None, 'sym', 2, -0.5):
                J.append(('added', dict(n=n, kinds=kinds, weights=(w,) * len(kinds))))
            J.append(('added', dict(n=n, kinds=kinds, weights=(None, 'sym', 0, 'sym')[:len(kinds)])))
    for n, nodes in ((1, (0, 1)), (2, (0, 1)), (2, (1, 0, 2)), (3, (0, 1, 2)), (3, (0, 1, 2, 5, 7)), (3, (7, 2, 0, 1)), (3, (2, 1, 0))):
        for sh in (False, True):
            J.append(('service', dict(n=n, nodes=nodes, shuffle=sh)))
    J.append(('service', dict(n=3, nodes=(0, 1, 2, 3), shuffle=False, kind='array')))
    for n in (1, 2, 3):
        for step in (1, 2):
            if n < 3:
                J.append(('qaoa', dict(n=n, step=step)))
            else:
                J.append(('qaoa', dict(n=n, step=step, sign=1)))
                J.append(('qaoa', dict(n=n, step=step, sign=-1)))
    return J
