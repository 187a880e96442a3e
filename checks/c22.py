"""C22: text and phase utilities round-trip."""
import copy
import itertools
import pickle
from collections import Counter
from sym import ref
from .c01 import long_spec
from .common import Rand, ops_of, add_ops, inject, vec
from . import c10

BOUNDS = {
    'quick': 'printed forms of circuits of up to 5 operations covering every gate, symbolic angles (as text tokens), every '
             'kind of target (indices in [-n, n) symbolic, slices, tuples, nested tuples, empty selections) and widths 0-4, '
             'effect compared on an arbitrary state; printed forms, copies and pickles (all protocols) of the Pauli operands of C10 with '
             'symbolic complex and real coefficients of either sign; copies and pickles of circuits that were run; bit strings of up to 6 characters, counters over up to 8 keys with '
             'symbolic counts; global phase of vectors of up to 8 symbolic amplitudes with leading zeros; printed forms of generated circuits of 40-90 gates and of gates on 12 qubits, of Pauli expressions of up to 30 terms and terms of up to 40 factors, bit strings of up to 100 characters, vectors of up to 1024 entries whose first amplitude comes late',
    'thorough': 'as quick with all pairs of gates',
}
OUTSIDE = 'gate classes that are not reachable by name; parameters whose own text does not evaluate to them'


def snap(c):
    return c.n_qubits, list(c.ops)


def printed(S, spec, n):
    inject(S)
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    _printed(S, c, ops, n)


def _printed(S, c, ops, n):
    before = snap(c)
    for text in (repr(c), str(c), '%s' % (c,)):
        d = eval(text, {'Circuit': S.Circuit, **S.tokens})
        S.true(type(d) is type(c), 'a circuit', text)
        S.true(d.n_qubits == c.n_qubits, 'width', '%d, expected %d: %s' % (d.n_qubits, c.n_qubits, text))
        S.true(len(d.ops) == len(c.ops), 'number of operations', text)
        S.true([type(x) for x in d.ops] == [type(x) for x in c.ops], 'kinds of operations', text)
    S.true(snap(c) == before, 'circuit unchanged')
    if any(g in ('m', 'measure', 'reset') for g, _, _ in ops):
        for x, y in zip(d.ops, c.ops):
            S.true(list(x.target_iter(n)) == list(y.target_iter(n)), 'measured qubits', text)
        return
    if n == 0 or d.n_qubits != n:
        return
    st = S.state(n, stem='s%d_' % n)
    load = S.Circuit(n).symstate(dict(st))[0]
    v = vec(S, S.Circuit(n, list(load.ops) + list(d.ops)).run(), n)
    S.eq_phase(v, ref.dense(ref.run(S, ops, st, n), n), 'effect of the printed form')


def index(S, gate, n):
    """symbolic indices"""
    inject(S)
    if gate in ref.ONE:
        q = S.pick('q', range(-n, n))
        ops = ops_of(S, [(gate, q)])
    else:
        p, q = S.pick('p', range(-n, n)), S.pick('q', range(-n, n))
        S.iassume(S.inot(S.ieq(p % n, q % n)))
        ops = ops_of(S, [(gate, (p, q))])
    _printed(S, add_ops(S.Circuit(n), ops), ops, n)


def late(S, t, n):
    """a slice printed and evaluated before the circuit gets wider means the same afterwards"""
    inject(S)
    ops = ops_of(S, [('ry', t), ('x', n)])
    c = add_ops(S.Circuit(1), ops)
    _printed(S, c, ops, c.n_qubits)


def same_pauli(S, d, o, lab, text=''):
    P = S.mod('pauli')
    n, qm = len(c10.QUBITS), c10.QUBITS
    S.true(isinstance(d, (P._PauliImpl, P.Term, P.Expr)), lab + ': a Pauli object', text)
    S.true(d.n_qubits <= max(qm) + 1 and all(q in qm for _, ls in c10.letters(S, d) for _, q in ls), lab + ': qubits', text)
    a, b = c10.mat(S, d), c10.mat(S, o)
    S.eq([(a[i][j], b[i][j]) for i in range(1 << n) for j in range(1 << n)], lab + ': operator')


def pauli_text(S, kind, sign=None):
    """the printed form denotes the operator, whatever the sign of the coefficients"""
    P = S.mod('pauli')
    S.signed_text()
    o = c10.make(S, kind, 'a')
    if sign == 'real':
        f = lambda t, i: P.Term(t.ops, S.real('r%d' % i))
        o = f(o, 0) if kind[0] == 't' else P.Expr(tuple(f(t, i) for i, t in enumerate(o.terms)))
    elif sign == 'unit':
        v = [1, -1, 1.0, -1.0, 1j, -1j, 0, 0.0, -2, 2.5, 2.0 ** -20, -2.0 ** 20, 1 + 2j, -1 - 2j, -0.5 + 0.25j]
        f = lambda t, i: P.Term(t.ops, v[S.choose('u%d' % i, len(v))])
        o = f(o, 0) if kind[0] == 't' else P.Expr(tuple(f(t, i) for i, t in enumerate(o.terms)))
    keep = c10.snap(S, o)
    for text in (repr(o), str(o), '{}'.format(o)):
        d = eval(text, {'X': P.X, 'Y': P.Y, 'Z': P.Z, 'I': P.I, **S.tokens})
        same_pauli(S, d, o, 'printed', text)
    S.true(c10.snap(S, o) == keep, 'unchanged')


def copies(o):
    yield 'copy', copy.copy(o)
    yield 'deepcopy', copy.deepcopy(o)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle %d' % p, pickle.loads(pickle.dumps(o, p))


def pauli_copies(S, kind):
    o = c10.make(S, kind, 'a')
    keep = c10.snap(S, o)
    for lab, d in copies(o):
        S.true(type(d) is type(o), lab + ': type')
        S.true(c10.letters(S, d) == c10.letters(S, o), lab + ': factors')
        same_pauli(S, d, o, lab)
        S.true(repr(d) == repr(o), lab + ': text')
    S.true(c10.snap(S, o) == keep, 'unchanged')


def circuit_copies(S, spec, n, ran):
    """also after the circuit was run on some backend"""
    inject(S)
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    if ran == 'numpy':
        c.run()
    elif ran == 'qasm':
        c.to_qasm()
    elif ran == 'generated':
        gen = S.mod('backends.qasm_parser_backend_generator')
        G = S.mod('circuit').BlueqatGlobalSetting
        G.register_backend('probe', gen.generate_backend(lambda qasm, **kw: qasm))
        try:
            c.run(backend='probe')
        finally:
            G.unregister_backend('probe')
    before = snap(c)
    for lab, d in copies(c):
        S.true(type(d) is type(c) and d.n_qubits == n and len(d.ops) == len(c.ops), lab + ': circuit')
        S.true(repr(d) == repr(c), lab + ': text')
        S.eqv(vec(S, d.run(), n), ref.dense(ref.run(S, ops, {0: S.num(1)}, n), n), lab + ': effect')
        d.x[0]
        if lab != 'copy':
            S.true(snap(c) == before, lab + ': independent')
        else:
            c.ops[:] = before[1]
    O = S.mod('experimental').Ops
    o = O(n)
    for g, a, t in ops:
        w = getattr(o, g)
        o = (w(*a) if a else w)[t]
    for lab, d in copies(o):
        S.true(type(d) is O and d.n_qubits == n and repr(d) == repr(o), lab + ': Ops')
        S.eqv(vec(S, d.to_circuit().run(), n), ref.dense(ref.run(S, ops, {0: S.num(1)}, n), n), lab + ': effect of Ops')


def constants(S):
    """numeric parameters keep their value exactly"""
    for x in (0.1, 1e-17, 1 / 3, -0.0, 3, -2, 1e22, 5e-324, 3.141592653589793, 123456789.123456789, True):
        c = S.Circuit(1).rx(x)[0].u3(x, 1, -x)[0].u2(0.5, x)[0]
        d = eval(repr(c), {'Circuit': S.Circuit})
        S.true([g.params for g in d.ops] == [g.params for g in c.ops], 'parameters', repr(c))
    P = S.mod('pauli')
    for x in (0.1, -0.1, 1e-17, 1 / 3, 3, -2, 1e22, -1e22, 5e-324, 3.141592653589793, 1j / 3, -0.1j, 0.1 - 0.7j, -1e-9 + 1j / 3):
        for o in (P.Term((P.X(0), P.Y(3)), x), P.Expr((P.Term((P.Z(1),), x), P.Term((P.Z(0),), -x), P.Term((), x)))):
            d = eval(repr(o), {'X': P.X, 'Y': P.Y, 'Z': P.Z, 'I': P.I})
            S.true(c10.letters(S, d) == c10.letters(S, o), 'coefficients', repr(o))


def bits(S, k):
    """all strings of length k"""
    U = S.mod('utils')
    bs = [S.choose('b%d' % i, 2) for i in range(k)]
    s = ''.join(str(b) for b in bs)
    r = U.to_inttuple(s)
    S.true(type(r) is tuple and len(r) == k, 'a tuple')
    S.true(all(type(x) is int for x in r) and list(r) == bs, 'bits', '%s -> %s' % (s, r))


def counters(S, k, kind):
    U = S.mod('utils')
    keys = [''.join(p) for p in itertools.product('01', repeat=k)]
    keys = [x for i, x in enumerate(keys) if S.choose('has%d' % i, 2)] if k < 3 else keys
    vals = {x: S.real('v' + x) for x in keys}
    arg = {'dict': dict, 'Counter': Counter}[kind](vals)
    r = U.to_inttuple(arg)
    S.true(type(r) is type(arg), 'kind of mapping')
    S.true(set(r) == {tuple(int(b) for b in x) for x in keys}, 'keys', str(list(r)))
    S.true(dict(arg) == vals, 'argument unchanged')
    S.eqv([r[tuple(int(b) for b in x)] for x in keys], [vals[x] for x in keys], 'counts')


def wide(S, n, spec, idx):
    """long circuits and large indices"""
    inject(S)
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    want = None
    st = S.state(n, idx=idx)
    load = S.Circuit(n).symstate(dict(st))[0]
    want = ref.dense(ref.run(S, ops, st, n), n)
    text, text2 = repr(c), str(c)
    made = [('printed', eval(text, {'Circuit': S.Circuit, **S.tokens})), ('printed by str', eval(text2, {'Circuit': S.Circuit, **S.tokens}))]
    made += list(copies(c))[::3]
    for lab, d in made:
        S.true(d.n_qubits == n and len(d.ops) == len(c.ops), lab + ': size')
        S.true([(type(x), x.targets) for x in d.ops] == [(type(x), x.targets) for x in c.ops], lab + ': gates')
        v = vec(S, S.Circuit(n, list(load.ops) + list(d.ops)).run(), n)
        S.eq_phase(v, want, lab + ': effect')


def wide_pauli(S, seed, k, length, qubits):
    """many terms, long terms, large indices"""
    P = S.mod('pauli')
    S.signed_text()
    r = Rand(seed)
    cs = [S.real('c%d' % i) if i in (0, k - 1) else [1.0, -1, 2.0 ** -20, 2.5, -3, 2.0 ** 20, 0.125 + 2j, -1j][i % 8] for i in range(k)]
    for c in cs[:1]:
        S.assume_ne(c, 0)
    ts = tuple(P.Term(c10.ops(P, r.word(1 + r(length), qubits)), c) for c in cs)
    for o in (P.Expr(ts), ts[0]):
        want = c10.basis(S, o)
        text = repr(o)
        env = {'X': P.X, 'Y': P.Y, 'Z': P.Z, 'I': P.I, **S.tokens}
        for lab, d in [('printed', eval(text, env))] + list(copies(o))[::2]:
            c10.bclose(S, d, want, lab)


def long_bits(S, k, seed):
    U = S.mod('utils')
    r = Rand(seed)
    keys = sorted({''.join(r.pick('01') for _ in range(k)) for _ in range(6)} | {'0' * k, '1' * k, '0' * (k - 1) + '1', '1' + '0' * (k - 1)})
    for s in keys:
        S.true(U.to_inttuple(s) == tuple(1 if ch == '1' else 0 for ch in s), 'bits of a long string')
    vals = {x: S.real('v%d' % i) for i, x in enumerate(keys)}
    for kind in (dict, Counter):
        got = U.to_inttuple(kind(vals))
        S.true(type(got) is kind and set(got) == {tuple(map(int, x)) for x in keys}, 'keys')
        S.eqv([got[tuple(map(int, x))] for x in keys], [vals[x] for x in keys], 'counts')


def late_phase(S, n, lead):
    """long vectors whose first amplitude comes late"""
    U = S.mod('utils')
    np = S.mod('backends.numpy_backend').np
    N = 1 << n
    x, y = S.complex('x'), S.complex('y')
    S.assume_lt(1e-12, S.abs2(x))
    v = np.zeros(N, dtype=complex)
    v[lead], v[N - 1] = x, y
    r = list(U.ignore_global_phase(v))
    S.true(len(r) == N, 'length')
    S.eqv([e for i, e in enumerate(r) if i not in (lead, N - 1)], [0] * (N - 2), 'zeros')
    S.eq([(r[N - 1] * x, r[lead] * y), (S.abs2(r[lead]), S.abs2(x)), (S.im(r[lead]), 0)], 'a multiple by a unit number')
    S.true(S.cmp_lt(0, S.re(r[lead])), 'positive leading amplitude')


def refused(S):
    U = S.mod('utils')
    for bad in ('2', '01a', '0 1', '012', '-1', '9', '0b1', '\n', '1.0', {'0x': 1}, {'02': 3}, Counter(['0_1'])):
        S.raises(lambda: U.to_inttuple(bad), '%r accepted' % (bad,), (ValueError,))
    for bad in (5, None, ['01'], ('0', '1'), 0.5):
        S.raises(lambda: U.to_inttuple(bad), '%r accepted' % (bad,), (ValueError,))


def phase(S, n, lead, tiny=0):
    """vector with lead leading zeros and a few negligible amplitudes"""
    U = S.mod('utils')
    np = S.mod('backends.numpy_backend').np
    N = 1 << n
    x = [S.complex('a%d' % i) for i in range(N)]
    for i in range(lead):
        x[i] = S.num(0)
    for i in range(tiny):
        x[i] = S.num(1e-12) * (S.IU if i % 2 else 1)
    if lead < N:
        S.assume_lt(1e-12, S.abs2(x[lead]))
    v = np.zeros(N, dtype=complex)
    for i in range(N):
        v[i] = x[i]
    r = list(U.ignore_global_phase(v))
    S.true(len(r) == N, 'length')
    if lead >= N:
        S.eqv(r, x, 'zero vector')
        return
    S.eq([(r[i] * x[lead], r[lead] * x[i]) for i in range(N)], 'a multiple of the vector')
    S.eq([(S.abs2(r[lead]), S.abs2(x[lead]))], 'by a unit number')
    S.eq([(S.im(r[lead]), 0)], 'real leading amplitude')
    S.true(S.cmp_lt(0, S.re(r[lead])), 'positive leading amplitude')


def runs(S, spec, n):
    """the simulator's own option"""
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    want = ref.dense(ref.run(S, ops, {0: S.num(1)}, n), n)
    v = vec(S, c.run(ignore_global=True), n)
    S.eq_phase(v, want, 'same up to a phase')
    if S.concrete:
        i = next(i for i, x in enumerate(want) if abs(x) > 1e-12)
    else:
        i = next(i for i, x in enumerate(want) if S.num(x).p)
    S.assume_lt(1e-12, S.abs2(want[i]))
    S.eq([(S.im(v[i]), 0)], 'real leading amplitude')
    S.true(S.cmp_lt(0, S.re(v[i])), 'positive leading amplitude')
    S.eqv(vec(S, c.run(ignore_global=False), n), want, 'kept')


TARGETS1 = [0, -1, slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(2, 0, -1), slice(-2, None, 2),
            (0,), (0, 2), (slice(1, 3), 0), (), slice(0, 0)]
TARGETS2 = [((0, 1), (1, 2)), (slice(None, -1), slice(1, None)), ((0,), -1), ((slice(0, 2), 2), (slice(1, 3), 0)),
            (slice(0, 1), (2,)), ((), ()), ((0, slice(1, 2)), (2, -1))]


def jobs(tier):
    out = []
    for g in ref.ONE:
        out.append(('index', dict(gate=g, n=3)))
    for g in ref.TWO:
        out.append(('index', dict(gate=g, n=2)))
    for g in ref.THREE:
        for t in ((2, 0, 1), (-1, 0, 1), (0, -2, 2)):
            out.append(('printed', dict(spec=[(g, t)], n=3)))
    for t in TARGETS1:
        for g in ('ry', 'h', 'u3'):
            out.append(('printed', dict(spec=[(g, t)], n=3)))
        out.append(('late', dict(t=t, n=3)))
        out.append(('printed', dict(spec=[('m', t), ('reset', t), ('measure', t)], n=3)))
    for t in TARGETS2:
        for g in ('cx', 'crz', 'swap', 'cu2'):
            out.append(('printed', dict(spec=[(g, t)], n=3)))
    for n in (0, 1, 2, 4):
        out.append(('printed', dict(spec=[], n=n)))
        if n:
            out.append(('printed', dict(spec=[('x', 0)], n=n)))
    out.append(('printed', dict(spec=[('h', 0), ('rx', 1), ('cx', (0, 1)), ('u3', slice(None)), ('cphase', (2, 0))], n=3)))
    out.append(('printed', dict(spec=[('tdg', 0), ('sdg', 1), ('u2', 0), ('rzz', (1, 0)), ('phase', -1)], n=2)))
    if tier == 'thorough':
        for a, b in itertools.product(ref.NARGS, ref.NARGS):
            t = [1 if g in ref.ONE else (1, 0) if g in ref.TWO else (1, 2, 0) for g in (a, b)]
            out.append(('printed', dict(spec=[(a, t[0]), (b, t[1])], n=3)))
    out.append(('constants', {}))
    for k in c10.KINDS:
        if k[0] == 'e' and len(k[1]) > 2 and tier == 'quick':
            k = ('e', k[1][:2])
        out.append(('pauli_text', dict(kind=k)))
        out.append(('pauli_copies', dict(kind=k)))
        if k[0] != 'p':
            out.append(('pauli_text', dict(kind=k, sign='real')))
            out.append(('pauli_text', dict(kind=k, sign='unit')))
    for spec, n in (([('h', 0), ('rx', slice(None)), ('cx', (0, 1))], 2), ([('u3', 0), ('crz', (1, 2)), ('h', (0, -1))], 3)):
        for ran in ('', 'numpy', 'qasm', 'generated'):
            out.append(('circuit_copies', dict(spec=spec, n=n, ran=ran)))
    for k in range(7):
        out.append(('bits', dict(k=k)))
    for k in range(4):
        for kind in ('dict', 'Counter'):
            out.append(('counters', dict(k=k, kind=kind)))
    for n, l, rot in ((3, 40, 0), (4, 90, 1)) + (((6, 300, 2),) if tier == 'thorough' else ()):
        out.append(('wide', dict(n=n, spec=long_spec(n, l, 2, rot), idx=(0, (1 << n) - 1))))
    out.append(('wide', dict(n=12, spec=[('rx', 10), ('cx', (11, 2)), ('u2', (9, -1)), ('ccx', (10, 0, 11)), ('crz', ((10, 11), (1, 0))),
                                         ('t', slice(9, None)), ('swap', (slice(0, 2), slice(10, 12)))], idx=(0, 1 << 10, 4095))))
    for i, (k, l, qs) in enumerate(((6, 3, (0, 1, 2)), (12, 5, c10.BIGQ), (30, 2, (0, 10, 11)), (2, 40, c10.BIGQ))):
        out.append(('wide_pauli', dict(seed=i, k=k, length=l, qubits=qs)))
    for k in (7, 10, 12, 31, 32, 33, 53, 64, 65, 100):
        out.append(('long_bits', dict(k=k, seed=k)))
    for n, lead in ((5, 9), (6, 40), (8, 200), (10, 700)):
        out.append(('late_phase', dict(n=n, lead=lead)))
    out.append(('refused', {}))
    for n in (1, 2, 3):
        for lead in range((1 << n) + 1):
            out.append(('phase', dict(n=n, lead=lead)))
            if 0 < lead < 1 << n:
                out.append(('phase', dict(n=n, lead=lead, tiny=lead)))
    for spec, n in (([('rx', 0)], 1), ([('rz', 0)], 1), ([('x', 0), ('rz', 0)], 1), ([('h', 0), ('phase', 0)], 1),
                    ([('y', 0), ('h', 1), ('crz', (1, 0))], 2), ([('x', 1), ('t', 1), ('h', 0)], 2)):
        out.append(('runs', dict(spec=spec, n=n)))
    return out
