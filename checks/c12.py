"""C12: time evolution of a Pauli term is the exponential of that term."""
import itertools
from sym import ref
from .common import inject, vec, Rand
from .c10 import ops, op
from .c11 import word_ops

BOUNDS = {
    'quick': 'all 64 Pauli strings on 3 qubits (each also shifted and in shuffled factor order), unsimplified terms, constants; '
             'symbolic coefficient and time, arbitrary state, circuits with and without previous gates; complex coefficients; generated strings on 4-8 and 12 qubits; times bounded to be tiny and huge',
    'thorough': 'as quick with all 256 strings on 4 qubits and two evolutions in a row for all pairs of 2-qubit strings',
}
OUTSIDE = 'strings on more qubits; rounding; the time passed as anything but a number'


def fold(S, P, os, c):
    """coefficient and letters of a product of operators, by the multiplication table of Pauli matrices"""
    tab = {'XY': (1, 'Z'), 'YZ': (1, 'X'), 'ZX': (1, 'Y'), 'YX': (-1, 'Z'), 'ZY': (-1, 'X'), 'XZ': (-1, 'Y')}
    cur = {}
    k = 0           # power of i
    for o in os:
        l, q = o.op, o.n
        m = cur.get(q, 'I')
        if m == 'I':
            cur[q] = l
        elif m == l:
            cur[q] = 'I'
        else:
            s, r = tab[m + l]
            k += s
            cur[q] = r
    c = c * [1, S.IU, -1, -S.IU][k % 4]
    return c, {q: l for q, l in cur.items() if l != 'I'}


def loaded(S, n, spec=()):
    st = S.state(n)
    c = S.Circuit(n).symstate(dict(st))[0]
    return c, st


def evolve(S, words, perm, pre):
    inject(S)
    P = S.mod('pauli')
    w = S.pick('word', words)
    os = word_ops(P, w)
    if perm:
        k = len(os)
        os = tuple(list(itertools.permutations(os))[perm % max(1, len(list(itertools.permutations(range(k)))))])
    c, t = S.real('c'), S.real('t')
    n = len(w)
    circ, st = loaded(S, n)
    if pre:
        th = S.real('th')
        circ.ry(th)[0].cx[0, n - 1] if n > 1 else circ.ry(th)[0]
        st = ref.run(S, [('ry', (th,), 0)] + ([('cx', (), (0, n - 1))] if n > 1 else []), st, n)
    before = list(circ.ops)
    term = P.Term(os, c)
    f = term.get_time_evolution()
    S.true(list(circ.ops) == before, 'nothing appended before the function is called')
    f(circ, t)
    S.true(list(circ.ops)[:len(before)] == before, 'previous gates kept')
    S.true(circ.n_qubits == n, 'width')
    L = {o.n: o.op for o in os}
    S.eq_phase(vec(S, circ.run(), n), ref.dense(ref.exp_pauli(S, L, c * t, st), n), 'exp(i c t P)')
    S.true(term.ops == os and term.coeff is c, 'term unchanged')


def messy(S, text, cs):
    """terms with repeated qubits; the coefficient of the simplified term decides"""
    inject(S)
    P = S.mod('pauli')
    os = ops(P, text)
    c = S.complex('c')
    t = S.real('t')
    n = max([o.n for o in os] or [0]) + 1
    k, L = fold(S, P, os, c)
    term = P.Term(os, c)
    if S.re(k) == k:
        k = S.re(k)
        circ, st = loaded(S, n)
        term.get_time_evolution()(circ, t)
        S.eq_phase(vec(S, circ.run(), n), ref.dense(ref.exp_pauli(S, L, k * t, st), n), 'exp(i c t P)')
    else:
        S.raises(lambda: term.get_time_evolution(), 'complex coefficient refused', (ValueError,))


def twice(S, a, b):
    """one function used for several times and circuits; two evolutions in a row"""
    inject(S)
    P = S.mod('pauli')
    oa, ob = word_ops(P, a), word_ops(P, b)
    ca, cb, t, u = S.reals('c', 4)
    fa, fb = P.Term(oa, ca).get_time_evolution(), P.Term(ob, cb).get_time_evolution()
    La, Lb = {o.n: o.op for o in oa}, {o.n: o.op for o in ob}
    n = len(a)
    circ, st = loaded(S, n)
    fa(circ, t)
    fb(circ, u)
    fa(circ, u)
    st = ref.exp_pauli(S, La, ca * t, st)
    st = ref.exp_pauli(S, Lb, cb * u, st)
    st = ref.exp_pauli(S, La, ca * u, st)
    S.eq_phase(vec(S, circ.run(), n), ref.dense(st, n), 'three evolutions')


def grow(S, text):
    """on an empty circuit the circuit grows to the width of the string"""
    P = S.mod('pauli')
    os = ops(P, text)
    c, t = S.real('c'), S.real('t')
    circ = S.Circuit()
    P.Term(os, c).get_time_evolution()(circ, t)
    n = max([o.n for o in os] or [-1]) + 1
    S.true(circ.n_qubits == n, 'width')
    if n:
        L = {o.n: o.op for o in os}
        S.eq_phase(vec(S, circ.run(), n), ref.dense(ref.exp_pauli(S, L, c * t, {0: S.num(1)}), n), 'exp(i c t P)')


def wide(S, n, seed):
    """strings on many qubits, in any order of factors"""
    inject(S)
    P = S.mod('pauli')
    r = Rand(seed)
    os = tuple(r.perm(word_ops(P, r.string(n, 1 + seed % 4))))
    c, t = S.real('c'), S.real('t')
    st = S.state(n, idx=sorted({r(1 << n) for _ in range(4)}))
    circ = S.Circuit(n).symstate(dict(st))[0]
    P.Term(os, c).get_time_evolution()(circ, t)
    S.eq_phase(vec(S, circ.run(), n), ref.dense(ref.exp_pauli(S, {o.n: o.op for o in os}, c * t, st), n), 'exp(i c t P)')
    circ = S.Circuit(n).symstate(dict(st))[0]
    P.Term(os, c).append_to_circuit(circ)
    S.eq_phase(vec(S, circ.run(), n), ref.dense(ref.apply_pauli(S, {o.n: o.op for o in os}, st), n), 'operator product')


def magnitude(S, text, lo, hi):
    """coefficients and times of any size, also very small ones"""
    inject(S)
    P = S.mod('pauli')
    os = ops(P, text)
    c, t = S.posreal('c'), S.posreal('t')
    n = max(o.n for o in os) + 1
    S.assume_lt(c, hi) if hi else None
    S.assume_lt(lo, c) if lo else None
    st = S.state(n)
    circ = S.Circuit(n).symstate(dict(st))[0]
    P.Term(os, c).get_time_evolution()(circ, t)
    S.eq_phase(vec(S, circ.run(), n), ref.dense(ref.exp_pauli(S, {o.n: o.op for o in os}, c * t, st), n), 'exp(i c t P)')


def constant(S, n):
    inject(S)
    P = S.mod('pauli')
    c, t = S.real('c'), S.real('t')
    for term in (P.Term((), c), c * P.I, (c * P.X(0) * P.X(0)), P.I.to_term()):
        circ, st = loaded(S, n)
        term.get_time_evolution()(circ, t)
        S.eq_phase(vec(S, circ.run(), n), ref.dense(st, n), 'constant term')
    z = S.complex('z')
    if S.re(z) != z:
        S.raises(lambda: (z * P.I).get_time_evolution(), 'complex constant refused', (ValueError,))
    for k in (1j, 1 + 1j, 2 - 0.5j):
        S.raises(lambda: (k * P.X(0)).get_time_evolution(), 'complex coefficient refused', (ValueError,))
        S.raises(lambda: (k * P.Z(0) * P.Y(1)).get_time_evolution(), 'complex coefficient refused', (ValueError,))


def append(S, words, simplify):
    inject(S)
    P = S.mod('pauli')
    w = S.pick('word', words)
    os = ops(P, w) if ' ' in w or w[-1:].isdigit() else word_ops(P, w)
    n = max([o.n for o in os] or [0]) + 1
    circ, st = loaded(S, n)
    term = P.Term(os, S.real('c'))
    before = list(circ.ops)
    if simplify is None:
        term.append_to_circuit(circ)
    else:
        term.append_to_circuit(circ, simplify)
    S.true(list(circ.ops)[:len(before)] == before, 'previous gates kept')
    for o in reversed(os):
        st = ref.apply_pauli(S, {o.n: o.op}, st)
    S.eq_phase(vec(S, circ.run(), n), ref.dense(st, n), 'operator product')


MESSY = ['X0 Y0', 'Y0 X0', 'Z1 X0 Y1', 'X0 X0', 'Y1 Z0 Z1 X0', 'X0 Y0 Z0', 'Z0 Y0 Z1 Y1', 'Y2 Z2 X2 Y0', '']


def jobs(tier):
    J = []
    q = tier == 'quick'
    words = [''.join(w) for w in itertools.product('IXYZ', repeat=3 if q else 4)]
    for k in range(16):
        ws = words[k::16]
        J.append(('evolve', dict(words=ws, perm=0, pre=False)))
        J.append(('evolve', dict(words=ws, perm=1 + k % 5, pre=k % 2 == 0)))
    w1 = [''.join(w) for w in itertools.product('IXYZ', repeat=1)]
    w2 = [''.join(w) for w in itertools.product('IXYZ', repeat=2)]
    J.append(('evolve', dict(words=w1, perm=0, pre=True)))
    J.append(('evolve', dict(words=w2, perm=1, pre=True)))
    for t in MESSY:
        J.append(('messy', dict(text=t, cs=0)))
    for a, b in [('XY', 'YX'), ('ZI', 'XZ'), ('YY', 'ZZ')] if q else itertools.product(w2[1:], repeat=2):
        J.append(('twice', dict(a=a, b=b)))
    for t in ['', 'X0', 'Y2', 'Z1 X0', 'Y0 Y1', 'Y3 Z1']:
        J.append(('grow', dict(text=t)))
    for n in (4, 5, 6, 7, 8):
        for k in range(4 if q else 12):
            J.append(('wide', dict(n=n, seed=100 * n + k)))
    J.append(('wide', dict(n=12, seed=7)))
    for lo, hi in ((None, 1e-6), (1e6, None)):
        J.append(('magnitude', dict(text='X0 Y1', lo=lo, hi=hi)))
    for n in (1, 2):
        J.append(('constant', dict(n=n)))
    for s in (None, True, False):
        for k in range(4):
            J.append(('append', dict(words=w2[k::4] + ['XYZ', 'ZYX', 'YIX'][k:k + 1], simplify=s)))
        J.append(('append', dict(words=['X0 Y0', 'Y0 Z1 X0', 'Z2 X0 Z2', 'X1 Y1 X1 Z0'], simplify=s)))
    return J
