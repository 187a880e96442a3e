"""C13: both energy evaluations equal the expectation value of the Hamiltonian."""
import itertools
from sym import ref
from .common import inject, vec, Rand
from .c10 import ops, op
from .c11 import lets
from .c12 import fold

BOUNDS = {
    'quick': 'Hamiltonians of up to 5 terms on up to 3 qubits (every Pauli string on 2 qubits, and 3-qubit strings, identity, '
             'duplicated and unsimplified terms, a single term) with symbolic real coefficients; arbitrary symbolic state; '
             'circuits narrower, as wide and wider; exact sampler written independently and the package\'s own; all sparse formats; generated Hamiltonians of 1-6 terms on 4-6 qubits (few symbolic coefficients and amplitudes)',
    'thorough': 'as quick with all 64 strings on 3 qubits, all pairs of 2-qubit strings',
}
OUTSIDE = 'non-Hermitian operators; sampling error of inexact samplers; the matrix evaluation of a circuit whose width is not ' \
          'that of the ansatz (refused); rounding'


def exact(S):
    """a sampler: exact marginal distribution, zero probabilities included"""
    def sampler(circuit, meas):
        meas = tuple(meas)
        v = circuit.run(returns='statevector')
        out = {}
        for k, a in enumerate(list(v)):
            key = tuple((k >> m) & 1 for m in meas)
            out[key] = out.get(key, S.num(0)) + S.abs2(a)
        return out
    return sampler


def ham(S, texts, stem='c', pos=False):
    """Hermitian: the coefficient makes the simplified coefficient real"""
    P = S.mod('pauli')
    terms, ref_ = [], []
    for i, t in enumerate(texts):
        os = ops(P, t)
        c = (S.posreal if pos else S.real)('%s%d' % (stem, i))
        k, L = fold(S, P, os, c)
        if not S.im(fold(S, P, os, 1)[0]) == 0:       # i times a real number: turn it back
            terms.append(P.Term(os, -S.IU * c))
            k = k * -S.IU
        else:
            terms.append(P.Term(os, c))
        ref_.append((S.re(k), L))
    return P.Expr(tuple(terms)), ref_


def expval(S, hterms, st):
    t = S.num(0)
    for c, L in hterms:
        p = ref.apply_pauli(S, L, st)
        for k, v in p.items():
            if k in st:
                t = t + c * (S.conj(st[k]) * v)
    return S.re(t)


def snapc(c):
    return c.n_qubits, list(c.ops)


def energy(S, texts, n, idx=None, kind='expr', own=True):
    """by measuring, with an exact sampler"""
    inject(S)
    V = S.mod('vqe')
    H, hr = ham(S, texts)
    st = S.state(n, idx=idx)
    c = S.Circuit(n).symstate(dict(st))[0]
    obj = H if kind == 'expr' else H.terms[0]
    a = V.AnsatzBase(obj, 0)
    before = snapc(c)
    e = a.get_energy(c, exact(S) if own else V.non_sampling_sampler)
    S.eq([(e, expval(S, hr, st))], 'measured energy')
    S.true(snapc(c) == before, 'circuit unchanged')


def sparse(S, texts, n, fmt, kind='expr'):
    inject(S)
    V = S.mod('vqe')
    H, hr = ham(S, texts)
    st = S.state(n)
    c = S.Circuit(n).symstate(dict(st))[0]
    a = V.AnsatzBase(H if kind == 'expr' else H.terms[0], 0)
    S.true(a.n_qubits == n, 'width of the ansatz')
    if fmt is None:
        a.make_sparse()
    elif fmt == 'method':
        a.make_sparse(make_method=lambda h: h.to_matrix(n, sparse='csr'))
    else:
        a.make_sparse(fmt)
    before = snapc(c)
    S.eq([(a.get_energy_sparse(c), expval(S, hr, st))], 'energy by the matrix')
    S.true(snapc(c) == before, 'circuit unchanged')
    S.eq([(a.get_energy_sparse(c), expval(S, hr, st))], 'energy by the matrix, again')


def wide(S, n, seed, k, width, fmt):
    """many terms on many qubits, both evaluations"""
    inject(S)
    V = S.mod('vqe')
    r = Rand(seed)
    texts = []
    for i in range(k):
        w = r.string(n if i == 0 else r(n) + 1, 1 + i % 3)
        texts.append(' '.join(r.perm('%s%d' % (l, q) for q, l in enumerate(w) if l != 'I')))
    H, hr = ham(S, texts + [''], pos=True)
    idx = sorted({r(1 << width) for _ in range(4)})
    if k == 1:
        st = S.state(width, idx=idx)
    else:
        st = {i: S.posreal('s') * [1, S.IU, -1, -S.IU][j % 4] + j for j, i in enumerate(idx)}
    c = S.Circuit(width).symstate(dict(st))[0]
    a = V.AnsatzBase(H, 0)
    want = expval(S, hr, st)
    S.eq([(a.get_energy(c, exact(S) if k == 1 or seed % 2 else V.non_sampling_sampler), want)], 'measured energy')
    if width == n:
        a.make_sparse(fmt)
        S.eq([(a.get_energy_sparse(c), want)], 'energy by the matrix')


def both(S, texts, spec, n):
    """a circuit with gates: both evaluations, and the circuit can be used and extended afterwards"""
    from .common import ops_of, add_ops
    V = S.mod('vqe')
    H, hr = ham(S, texts)
    g = ops_of(S, spec)
    c = add_ops(S.Circuit(n), g)
    st = ref.run(S, g, {0: S.num(1)}, n)
    a = V.AnsatzBase(H, 0)
    a.make_sparse()
    want = expval(S, hr, st)
    c.make_cache()
    S.eq([(a.get_energy(c, exact(S)), want)], 'measured energy')
    S.eq([(a.get_energy_sparse(c), want)], 'energy by the matrix')
    c.x[0]
    st = ref.run(S, [('x', (), 0)], st, n)
    want = expval(S, hr, st)
    S.eq([(a.get_energy_sparse(c), want)], 'energy by the matrix, longer circuit')
    S.eq([(a.get_energy(c, exact(S)), want)], 'measured energy, longer circuit')
    S.eqv(vec(S, c.run(), n), ref.dense(st, n), 'state of the circuit')


def qaoa(S, texts, n, wide):
    """the ansatz with a wider initial circuit still evaluates its Hamiltonian"""
    inject(S)
    V = S.mod('vqe')
    H, hr = ham(S, texts)
    for c, _ in hr if wide < 0 else ():
        S.assume_ne(c, 0)
    st = S.state(n + wide)
    init = S.Circuit(n + wide).symstate(dict(st))[0]
    a = V.QaoaAnsatz(H, 1, init)
    a.make_sparse()
    c = init.copy() if wide >= 0 else init.copy().i[n - 1]
    S.eq([(a.get_energy_sparse(c), expval(S, hr, st))], 'energy by the matrix')
    S.eq([(a.get_energy(c, exact(S)), expval(S, hr, st))], 'measured energy')


def expectation(S, n, fmt):
    """sparse_expectation(mat, vec) = Re <vec|mat|vec> for any matrix"""
    import types
    V = S.mod('vqe')
    N = 1 << n
    v = S.vec('v', N)
    M = [[S.complex('m%d_%d' % (i, j)) for j in range(N)] for i in range(N)]
    mod = V.np
    mat = mod.array(M)
    if fmt:
        mat = S.mod('pauli')._sparse_types[fmt](mat)
    t = S.num(0)
    for i in range(N):
        for j in range(N):
            t = t + S.conj(v[i]) * M[i][j] * v[j]
    S.eq([(V.sparse_expectation(mat, mod.array(v)), S.re(t))], 'expectation value')


def jobs(tier):
    J = []
    q = tier == 'quick'
    w2 = [' '.join('%s%d' % (l, i) for i, l in enumerate(w) if l != 'I') for w in itertools.product('IXYZ', repeat=2)]
    w3 = [' '.join('%s%d' % (l, i) for i, l in enumerate(w) if l != 'I') for w in itertools.product('IXYZ', repeat=3)]
    for w in w2:
        J.append(('energy', dict(texts=(w,), n=2)))
        J.append(('energy', dict(texts=(w, 'Z0'), n=2, idx=(0, 3), own=False)))
    for w in (w3 if not q else ['X0 Y1 Z2', 'Y0 Y2', 'Z0 X2', 'Y1 X2', 'Y2', 'X0 X1 X2', 'Z2 Y0 X1']):
        J.append(('energy', dict(texts=(w,), n=3)))
    multi = [(), ('', 'X0'), ('X0', 'X0'), ('Y0', 'Z1', 'X0 Y1'), ('X0 Y1', 'Y0 X1', 'Z0 Z1', ''), ('Z1 X0', 'X0 Z1'),
             ('X0 Y0 Z1', 'Z1'), ('Y1 X0 Y1',), ('X0 Z0',), ('Y0 Z1 X0', 'Z0')]
    for m in multi:
        J.append(('energy', dict(texts=m, n=2)))
        J.append(('energy', dict(texts=m, n=3, idx=(0, 5, 6))))
    for w in ('X0', 'Y0 Z1', 'X0 Y0', 'Z1'):
        J.append(('energy', dict(texts=(w,), n=2, kind='term')))
    for m in [('Z2', 'X0'), ('Y2 X0',), ('X1', 'Z2')]:
        J.append(('energy', dict(texts=m, n=1)))          # narrower circuit
        J.append(('energy', dict(texts=m, n=4, idx=(0, 3, 7, 12))))
    for w in ('X0', 'Y0', 'Z0', 'Y0 X1', 'Z0 Y1'):
        J.append(('energy', dict(texts=(w,), n=2, own=False)))
    for f in (None, 'method', 'bsr', 'coo', 'csc', 'csr', 'dia', 'dok', 'lil'):
        for m in [('Y0', 'Z1', 'X0 Y1'), ('X1',), ('X0 Y1', 'Y0 X1', 'Z0 Z1', '')] + ([] if q else [(w, 'Y1') for w in w2]):
            J.append(('sparse', dict(texts=m, n=2, fmt=f)))
    for m in multi[2:]:
        if any('1' in t for t in m):
            J.append(('sparse', dict(texts=m, n=2, fmt=None)))
    J.append(('sparse', dict(texts=('Y0 X1',), n=2, fmt=None, kind='term')))
    J.append(('sparse', dict(texts=('Z2', 'Y0 X2', 'X1'), n=3, fmt=None)))
    J.append(('sparse', dict(texts=('Y0', 'Z0', 'X0', ''), n=1, fmt=None)))
    for spec in ([('ry', 0), ('cx', (0, 1)), ('rx', 1)], [('h', slice(None)), ('crz', (0, 1))]):
        for m in multi[3:8]:
            J.append(('both', dict(texts=m, spec=spec, n=2)))
    for wide in (0, 1):
        J.append(('qaoa', dict(texts=('X0 X1', 'Y0 Y1', 'Z0 Z1'), n=2, wide=wide)))
        J.append(('qaoa', dict(texts=('Z0', 'Z1', 'Z0 Z1'), n=2, wide=wide)))
    J.append(('qaoa', dict(texts=('Z0', 'Z1', 'Z0 Z1'), n=2, wide=-1)))
    J.append(('qaoa', dict(texts=('X0 X2', 'Z0 Z2'), n=3, wide=-1)))
    for i, (n, width) in enumerate([(4, 4), (4, 6), (5, 5), (5, 5), (6, 6)] + ([] if q else [(4, 4)] * 6 + [(5, 7)] * 3 + [(6, 6)] * 2)):
        for k in (1, 6):
            J.append(('wide', dict(n=n, seed=12 * i + k // 2, k=k, width=width, fmt=('csc', 'csr')[i % 2])))
    for n in (1, 2):
        for f in (None, 'csc', 'csr', 'coo'):
            J.append(('expectation', dict(n=n, fmt=f)))
    if not q:
        for a, b in itertools.product(w2, repeat=2):
            J.append(('energy', dict(texts=(a, b), n=2)))
    return J
