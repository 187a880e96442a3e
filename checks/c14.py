"""C14: samplers report the distribution of exactly the requested qubits in order."""
import itertools
import types
from collections import Counter
from sym import ref
from .common import inject, ops_of, add_ops, Rand
from .c06 import per_shot

BOUNDS = {
    'quick': 'every selection and order of up to 3 of 1-3 qubits (as tuple, list, range and iterator; empty and repeated '
             'selections too), arbitrary symbolic states (n <= 2 all amplitudes, n = 3 four amplitudes), circuits with '
             'earlier measurements, up to 3 samples with symbolic draws, multinomial and Qiskit counts symbolic; probabilities on 5-9 qubits with up to seven symbolic amplitudes, 300 and 1100 samples with a fixed pattern of draws, Qiskit counts over 12-65 qubits',
    'thorough': 'as quick on up to 4 qubits',
}
OUTSIDE = 'wider circuits; more samples with symbolic draws; rounding; the quality of the random numbers'
ASSUMPTIONS = ['random.random() returns any real in [0, 1); numpy.random.multinomial returns any counts with the right total; '
               'Qiskit is replaced by a stand-in that answers with symbolic counts']


def given(S, meas, form):
    return {'tuple': tuple(meas), 'list': list(meas), 'iter': iter(meas), 'gen': (m for m in meas)}[form]


def marginal(S, st, meas):
    out = {}
    for k, a in st.items():
        key = tuple((k >> m) & 1 for m in meas)
        out[key] = out.get(key, S.num(0)) + S.abs2(a)
    return out


def compare(S, got, want, k, lab, total=True):
    """got may leave out outcomes of probability zero"""
    S.true(all(isinstance(b, tuple) and len(b) == k and all(x in (0, 1) for x in b) for b in got), lab + ': keys', str(list(got)))
    keys = sorted(set(got) | set(want))
    S.eqv([got.get(b, 0) for b in keys], [want.get(b, 0) for b in keys], lab)


def snapc(c):
    return c.n_qubits, list(c.ops)


def direct(S, n, meas, idx, form):
    V = S.mod('vqe')
    st = S.state(n, idx=idx)
    v = V.np.array(ref.dense(st, n), dtype=complex)
    compare(S, V.expect(v, given(S, meas, form)), marginal(S, st, meas), len(meas), 'expect')


def exact(S, n, meas, idx, form):
    inject(S)
    V = S.mod('vqe')
    st = S.state(n, idx=idx)
    c = S.Circuit(n).symstate(dict(st))[0]
    before = snapc(c)
    compare(S, V.non_sampling_sampler(c, given(S, meas, form)), marginal(S, st, meas), len(meas), 'non_sampling_sampler')
    S.true(snapc(c) == before, 'circuit unchanged')


def measured(S, n, spec, meas, shots, form, opts=None, draws=None):
    V = S.mod('vqe')
    g = ops_of(S, spec)
    c = add_ops(S.Circuit(n), g)
    before = snapc(c)
    if draws:
        S.fix_draws(draws)
    sampler = V.get_measurement_sampler(shots) if opts is None else V.get_measurement_sampler(shots, opts)
    for rep in range(1 if not draws else 2):
        mark = len(S.draws)
        got = sampler(c, given(S, meas, form))
        used = S.draws[mark:]
        all_ops = g + ([('m', (), tuple(meas))] if meas else [])
        k = per_shot(all_ops, n)
        S.true(len(used) == k * shots, 'draws', '%d for %d shots of %d measurements' % (len(used), shots, k))
        want = {}
        for i in range(shots):
            _, bits = ref.simulate(S, all_ops, {0: S.num(1)}, n, used[i * k:(i + 1) * k])
            key = tuple(bits[m] for m in meas)
            want[key] = want.get(key, 0) + 1
        compare(S, got, {b: S.num(x) / shots for b, x in want.items()}, len(meas), 'measurement sampler')
        S.eq([(sum(got.values()), 1)], 'adds up to one')
        S.true(snapc(c) == before, 'circuit unchanged')


def statevector(S, n, meas, idx, shots, form):
    inject(S)
    V = S.mod('vqe')
    st = S.state(n, norm=True, idx=idx)
    c = S.Circuit(n).symstate(dict(st))[0]
    before = snapc(c)
    mark = len(S.multinomials())
    got = V.get_state_vector_sampler(shots)(c, given(S, meas, form))
    ms = S.multinomials()[mark:]
    S.true(len(ms) == 1, 'one multinomial draw')
    cnt, pv = ms[0]
    S.true(cnt == shots, 'number of samples')
    want = marginal(S, st, meas)
    S.true(all(isinstance(b, tuple) and len(b) == len(meas) for b in got), 'keys')
    S.true(len(pv) == len(got), 'an outcome for each probability', '%d %d' % (len(pv), len(got)))
    # the outcomes are listed in the order in which the probabilities were handed over
    S.eqv([p for p in pv], [want.get(b, 0) for b in got], 'probabilities handed to the generator')
    S.eq([(sum(got.values(), S.num(0)), 1)], 'adds up to one')
    missing = [b for b in want if b not in got]
    S.eqv([want[b] for b in missing], [0] * len(missing), 'no outcome lost')
    S.true(snapc(c) == before, 'circuit unchanged')


def wide(S, n, seed, k):
    """selections of qubits of wide registers"""
    inject(S)
    V = S.mod('vqe')
    r = Rand(seed)
    meas = tuple(r.perm(range(n))[:k])
    idx = sorted({r(1 << n) for _ in range(5)} | {0, (1 << n) - 1})
    st = {i: S.posreal('s%d' % j) * [1, S.IU, -1, -S.IU][j % 4] for j, i in enumerate(idx)}
    want = marginal(S, st, meas)
    c = S.Circuit(n).symstate(dict(st))[0]
    compare(S, V.non_sampling_sampler(c, meas), want, k, 'non_sampling_sampler')
    compare(S, V.expect(V.np.array(ref.dense(st, n), dtype=complex), meas), want, k, 'expect')
    if k > 8:
        return
    st = S.state(n, norm=True, stem='u', idx=idx[:2] + idx[-1:])
    want = marginal(S, st, meas)
    c = S.Circuit(n).symstate(dict(st))[0]
    mark = len(S.multinomials())
    got = V.get_state_vector_sampler(2000)(c, meas)
    (cnt, pv), = S.multinomials()[mark:]
    S.true(cnt == 2000, 'number of samples')
    S.true(len(pv) == len(got), 'an outcome for each probability')
    S.eqv(list(pv), [want.get(b, 0) for b in got], 'probabilities handed to the generator')
    missing = [b for b in want if b not in got]
    S.eqv([want[b] for b in missing], [0] * len(missing), 'no outcome lost')


def many(S, n, meas, shots):
    """many samples of a circuit"""
    V = S.mod('vqe')
    c = S.Circuit(n).h[:].cx[0, n - 1]
    k = len(meas)
    dr = [0.1 + 0.8 * ((i * 37) % 100) / 100 for i in range(k)]
    S.fix_draws(dr)
    mark = len(S.draws)
    got = V.get_measurement_sampler(shots)(c, meas)
    used = S.draws[mark:]
    S.true(len(used) == k * shots, 'draws')
    want, memo = {}, {}
    for i in range(shots):
        d = tuple(used[i * k:(i + 1) * k])
        key = tuple(float(x) for x in d)
        if key not in memo:
            _, bits = ref.simulate(S, [('h', (), slice(None)), ('cx', (), (0, n - 1)), ('m', (), tuple(meas))], {0: S.num(1)}, n, d)
            memo[key] = tuple(bits[m] for m in meas)
        b = memo[key]
        want[b] = want.get(b, 0) + 1
    compare(S, got, {b: S.num(x) / shots for b, x in want.items()}, k, 'measurement sampler')


def qiskit_wide(S, n, seed, hexa):
    """results with many classical bits"""
    V = S.mod('vqe')
    r = Rand(seed)
    c = S.Circuit(n).h[0].cx[0, n - 1]
    meas = tuple(r.perm(range(n))[:4]) + (n - 1,)
    meas = tuple(dict.fromkeys(meas))
    ks = sorted({sum(r(2) << i for i in range(n)) for _ in range(5)} | {0, 1, 1 << (n - 1)})
    cnt, vals = {}, {}
    for k in ks:
        x = S.real('n%d' % ks.index(k))
        cnt[hex(k) if hexa else format(k, '0%db' % n)] = x
        key = tuple((k >> m) & 1 for m in meas)
        vals[key] = vals.get(key, S.num(0)) + x
    STATE.clear()
    STATE['counts'] = cnt
    got = V.get_qiskit_sampler(object(), shots=100)(c, meas)
    compare(S, got, {b: x / 100 for b, x in vals.items()}, len(meas), 'qiskit sampler')


STATE = {}


class FakeResult:
    def get_counts(self, *a):
        return dict(STATE['counts'])


class FakeJob:
    def result(self):
        return FakeResult()


class FakeCircuit:
    @staticmethod
    def from_qasm_str(text):
        STATE['text'] = text
        return FakeCircuit()


def module(concrete):
    m = types.ModuleType('qiskit')
    m.QuantumCircuit = FakeCircuit

    def execute(circ, backend, **kw):
        STATE['exec'] = backend, kw
        return FakeJob()
    m.execute = execute
    m.Aer = types.SimpleNamespace(get_backend=lambda n: n)
    return {'qiskit': m}


def qiskit(S, n, meas, form, hexa, shots):
    """counts as Qiskit writes them: classical bit 0 rightmost, or as a hexadecimal number"""
    V = S.mod('vqe')
    c = S.Circuit(n).h[:].cx[0, n - 1] if n > 1 else S.Circuit(n).h[:]
    before = snapc(c)
    cnt = {}
    vals = {}
    for k in range(1 << n):
        x = S.real('n%d' % k)
        bits = format(k, '0%db' % n)
        cnt[hex(k) if hexa else bits] = x
        key = tuple((k >> m) & 1 for m in meas)
        vals[key] = vals.get(key, S.num(0)) + x
    STATE.clear()
    STATE['counts'] = cnt
    be = object()
    kw = {} if shots is None else {'shots': shots}
    sampler = V.get_qiskit_sampler(be, seed=3, **kw)
    N = 1024 if shots is None else shots
    for _ in range(2):
        got = sampler(c, given(S, meas, form))
        if meas:
            compare(S, got, {b: x / N for b, x in vals.items()}, len(meas), 'qiskit sampler')
            S.true(STATE['exec'] == (be, dict(shots=N, seed=3)), 'arguments handed over', str(STATE['exec']))
            S.true(STATE['text'] == c.copy().measure[tuple(meas)].to_qasm(), 'the measured circuit is run')
        else:
            compare(S, got, {(): 1}, 0, 'empty selection')
        S.true(snapc(c) == before, 'circuit unchanged')


qiskit.fakes = module
qiskit_wide.fakes = module


def selections(n, most=3):
    out = [()]
    for k in range(1, min(n, most) + 1):
        out += list(itertools.permutations(range(n), k))
    return out


def jobs(tier):
    J = []
    q = tier == 'quick'
    forms = itertools.cycle(['tuple', 'list', 'iter', 'gen'])
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for meas in selections(n) + ([(0, 0), (n - 1, 0, n - 1)] if n > 1 else [(0, 0)]):
            for idx in [None] if n < 3 else [(0, 3, 5, 6), (1, 2, 4, 7)] if n == 3 else [(0, 3, 9, 14), (1, 6, 8, 15)]:
                J.append(('direct', dict(n=n, meas=meas, idx=idx, form=next(forms))))
                J.append(('exact', dict(n=n, meas=meas, idx=idx, form=next(forms))))
                if meas and len(set(meas)) == len(meas):
                    idx2 = idx if n > 1 else None
                    J.append(('statevector', dict(n=n, meas=meas, idx=(0, 1, 3) if n == 2 else idx2 and idx2[:3], shots=(1, 7, 1000)[len(J) % 3],
                                                  form=next(forms))))
            if meas:
                for hexa in (False, True):
                    J.append(('qiskit', dict(n=n, meas=meas, form=next(forms), hexa=hexa, shots=(None, 10)[len(J) % 2])))
    for n, k in ((5, 3), (6, 6), (7, 2), (8, 5), (9, 9)) + (() if q else ((10, 10), (12, 4), (10, 7))):
        J.append(('wide', dict(n=n, seed=n + k, k=k)))
    for n in (12, 33, 40, 65):
        for hexa in (False, True):
            J.append(('qiskit_wide', dict(n=n, seed=n, hexa=hexa)))
    for n, meas, shots in ((2, (1, 0), 1100), (3, (2, 0, 1), 300)):
        J.append(('many', dict(n=n, meas=meas, shots=shots)))
    J.append(('qiskit', dict(n=2, meas=(), form='tuple', hexa=False, shots=None)))
    specs = {1: [[('ry', 0)], [('h', 0), ('m', 0)]],
             2: [[('h', 0), ('cx', (0, 1))], [('ry', 0), ('cx', (0, 1)), ('x', 1)], [('h', 0), ('m', 0), ('cx', (0, 1))], [('x', 1)]],
             3: [[('h', 0), ('cx', (0, 2)), ('x', 1)], [('h', 0), ('m', 0), ('h', 2)], [('ry', 1), ('cx', (1, 2))]]}
    for n, sp in specs.items():
        for spec in sp:
            for meas in selections(n, 2)[1:] + ([(2, 0, 1)] if n == 3 else []) + ([(0, 0)] if n == 1 else []):
                for shots in (1, 2):
                    k = len(meas) + sum(g == 'm' for g, _ in spec)
                    dr = None if shots * k <= (2 if any(g == 'ry' for g, _ in spec) else 4) else (0.3, 0.9, 0.6, 0.1)
                    J.append(('measured', dict(n=n, spec=spec, meas=meas, shots=shots, form=next(forms), draws=dr)))
    J.append(('measured', dict(n=2, spec=[('h', 0), ('cx', (0, 1))], meas=(1, 0), shots=10, form='tuple', draws=(0.3, 0.9, 0.6, 0.1, 0.7))))
    J.append(('measured', dict(n=2, spec=[('h', 0)], meas=(0,), shots=3, form='tuple', opts={'backend': 'numpy'})))
    J.append(('measured', dict(n=2, spec=[('h', 0)], meas=(), shots=2, form='iter')))
    return J
