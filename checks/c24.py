"""C24: results from the Qiskit adaptor use the same bit order and arguments."""
import itertools
import types
from collections import Counter
from sym import ref
from .common import Rand, ops_of, add_ops

BOUNDS = {
    'quick': 'counts over every subset of the bit strings of 1-2 qubits and over all strings of 3-4 qubits, every count '
             'symbolic; circuits of up to 6 operations with symbolic angles; every kind of return value by keyword and by '
             'position; shots, backend and extra arguments given or omitted; sequences of up to 3 runs; imports that fail '
             'in 3 ways; counts over 10-64 classical bits',
    'thorough': 'as quick with all strings of up to 6 qubits',
}
OUTSIDE = 'what Qiskit itself does with the program; keys that are not plain bit strings'
ASSUMPTIONS = ['Qiskit is replaced by a stand-in that records the calls and answers with symbolic counts whose keys are '
               'written as Qiskit does (classical bit 0 rightmost)']

LOG = []
STATE = {}


class FakeResult:
    def __init__(self, job):
        self.job = job

    def get_counts(self, *a):
        return dict(STATE['counts'])


class FakeJob:
    def __init__(self, kind):
        self.kind = kind

    def result(self):
        LOG.append(('result', self))
        return FakeResult(self)


class FakeCircuit:
    @staticmethod
    def from_qasm_str(text):
        c = FakeCircuit()
        c.text = text
        LOG.append(('parse', text))
        return c

    def draw(self, *a, **kw):
        LOG.append(('draw', self, a, kw))
        return ('drawing', self)


def execute(circuit, backend='?', *a, **kw):
    LOG.append(('execute', circuit, backend, a, kw))
    return FakeJob('job')


def get_backend(name):
    LOG.append(('get_backend', name))
    return 'backend:' + name


def module(concrete):
    m = types.ModuleType('qiskit')
    m.QuantumCircuit = FakeCircuit
    m.execute = execute
    m.Aer = types.SimpleNamespace(get_backend=get_backend)
    return {'qiskit': m}


def no_names(concrete):
    return {'qiskit': types.ModuleType('qiskit')}


class Exploding(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise RuntimeError('broken installation')


def exploding(concrete):
    return {'qiskit': Exploding('qiskit')}


def kinds_of(log):
    return [x[0] for x in log]


def prepare(S, counts):
    LOG.clear()
    STATE['counts'] = counts


def expect(S, log, c, backend, shots, extra):
    """the program was parsed and executed once, with these arguments"""
    S.true([x for x in kinds_of(log) if x in ('parse', 'execute')] == ['parse', 'execute'], 'one execution', str(kinds_of(log)))
    ex = next(x for x in log if x[0] == 'execute')
    pa = next(x for x in log if x[0] == 'parse')
    S.true(pa[1] == c.to_qasm(), 'exported program')
    S.true(isinstance(ex[1], FakeCircuit) and ex[1].text == pa[1], 'the parsed program is executed')
    if backend is None:
        S.true(ex[2] == 'backend:qasm_simulator', 'default backend', str(ex[2]))
    else:
        S.true(ex[2] is backend, 'backend given by the caller')
    S.true(not ex[3], 'no other positional argument')
    S.true(ex[4] == dict(extra, shots=shots), 'arguments', str(ex[4]))


def counts(S, n, subset, route='name', shots=None, extra=None):
    keys = [''.join(p) for p in itertools.product('01', repeat=n)]
    if subset:
        keys = [k for i, k in enumerate(keys) if S.choose('has%d' % i, 2)]
    vals = {k: S.real('v' + k) for k in keys}
    prepare(S, vals)
    ops = ops_of(S, [('rx', 0), ('h', -1)])
    c = add_ops(S.Circuit(n), ops).m[:]
    before = c.n_qubits, list(c.ops)
    extra = extra or {}
    kw = dict(extra)
    if shots is not None:
        kw['shots'] = shots
    r = c.run(backend='ibmq', **kw) if route == 'name' else c.run_with_ibmq(**kw)
    expect(S, LOG, c, None, 1024 if shots is None else shots, extra)
    S.true(isinstance(r, Counter), 'a Counter')
    S.true(set(r) == {k[::-1] for k in keys}, 'keys', '%s for %s' % (sorted(r), keys))
    S.eqv([r[k[::-1]] for k in keys], [vals[k] for k in keys], 'counts')
    for k in keys:
        # character i describes classical bit i, which Qiskit writes at position n - 1 - i
        S.true(all(k[::-1][i] == k[n - 1 - i] for i in range(n)), 'bit order')
    S.true((c.n_qubits, list(c.ops)) == before, 'circuit unchanged')


def wide(S, n, seed):
    """many classical bits"""
    r = Rand(seed)
    keys = sorted({''.join(r.pick('01') for _ in range(n)) for _ in range(6)} | {'0' * n, '1' + '0' * (n - 1), '0' * (n - 1) + '1'})
    vals = {k: S.real('v%d' % i) for i, k in enumerate(keys)}
    prepare(S, vals)
    c = S.Circuit(n).h[0].cx[0, n - 1].x[n // 2].m[:]
    got = c.run(backend='ibmq', shots=5000)
    expect(S, LOG, c, None, 5000, {})
    S.true(set(got) == {k[::-1] for k in keys}, 'keys', '%s for %s' % (sorted(got), keys))
    S.eqv([got[k[::-1]] for k in keys], [vals[k] for k in keys], 'counts')


def returned(S, how, shots, own):
    prepare(S, {'01': S.real('v')})
    c = S.Circuit(2).h[0].cx[0, 1].m[:]
    be = object() if own else None
    extra = dict(optimization_level=1, seed_simulator=S.real('seed'))

    def go(returns):
        LOG.clear()
        if how == 'keyword':
            kw = dict(extra)
            if own:
                kw['qiskit_backend'] = be
            if shots is not None:
                kw['shots'] = shots
            if returns != 'omitted':
                kw['returns'] = returns
            return c.run(backend='ibmq', **kw)
        if returns == 'omitted':
            return c.run_with_ibmq(be, shots, **extra)
        return c.run_with_ibmq(be, shots, returns, **extra)
    n = 1024 if shots is None else shots
    for ret in ('omitted', None, 'shots'):
        r = go(ret)
        expect(S, LOG, c, be, n, extra)
        S.true(isinstance(r, Counter) and set(r) == {'10'}, 'counts returned')
    r = go('qiskit_result')
    expect(S, LOG, c, be, n, extra)
    S.true(isinstance(r, FakeResult), 'result returned')
    r = go('qiskit_job')
    expect(S, LOG, c, be, n, extra)
    S.true(isinstance(r, FakeJob) and 'result' not in kinds_of(LOG), 'job returned')
    r = go('qiskit_circuit')
    S.true(isinstance(r, FakeCircuit) and r.text == c.to_qasm(), 'circuit returned')
    S.true(kinds_of(LOG) == ['parse'], 'nothing executed', str(kinds_of(LOG)))
    r = go('draw')
    S.true(r[0] == 'drawing' and r[1].text == c.to_qasm(), 'drawing returned')
    S.true(kinds_of(LOG) == ['parse', 'draw'], 'nothing executed', str(kinds_of(LOG)))
    S.true(LOG[-1][2:] == ((), extra), 'arguments of the drawing', str(LOG[-1]))
    S.true(go('_exception') is None, 'no import error')
    S.true('execute' not in kinds_of(LOG), 'nothing executed')
    for bad in ('statevector', 'counts', 'shot', '', 'qiskit', 'SHOTS', 0):
        LOG.clear()
        S.raises(lambda: go(bad), 'returns=%r accepted' % (bad,), (ValueError,))
        S.true(not LOG, 'nothing executed')


def repeated(S):
    """each run is a new execution of the program as it is then"""
    prepare(S, {'0': S.real('v')})
    th = S.real('th')
    c = S.Circuit(1).m[0]
    c.run(backend='ibmq')
    expect(S, LOG, c, None, 1024, {})
    LOG.clear()
    STATE['counts'] = {'1': S.real('w')}
    r = c.run(backend='ibmq', shots=5)
    expect(S, LOG, c, None, 5, {})
    S.true(set(r) == {'1'}, 'new counts')
    c.rx(th)[1].m[1]
    LOG.clear()
    STATE['counts'] = {'01': S.real('w'), '10': S.real('v')}
    r = c.run(backend='ibmq', shots=7)
    expect(S, LOG, c, None, 7, {})
    S.eqv([r['10'], r['01']], [S.real('w'), S.real('v')], 'counts of the longer circuit')
    # operations replaced, reordered and removed in place
    for edit in (lambda: c.ops.__setitem__(0, S.Circuit(1).h[0].ops[0]), lambda: c.ops.reverse(), lambda: c.ops.pop(),
                 lambda: c.ops.insert(0, S.Circuit(1).y[0].ops[0]), lambda: c.ops.__setitem__(slice(0, 2), c.ops[1::-1])):
        edit()
        LOG.clear()
        c.run(backend='ibmq', shots=3)
        expect(S, LOG, c, None, 3, {})
    # another circuit through the same backend object
    be = S.mod('circuit').BACKENDS['ibmq']()
    for d in (c, S.Circuit(2).h[0], S.Circuit(2).x[1].m[0], S.Circuit(2).h[0], S.Circuit(3).h[0]):
        LOG.clear()
        d.run(backend=be, shots=3)
        expect(S, LOG, d, None, 3, {})
    S.Circuit(1).set_default_backend('ibmq')
    c.set_default_backend('ibmq')
    LOG.clear()
    c.run(shots=9)
    expect(S, LOG, c, None, 9, {})


def missing(S):
    c = S.Circuit(1).h[0].m[0]
    S.raises(lambda: c.run(backend='ibmq'), 'missing qiskit', (ImportError,))
    r = c.run(backend='ibmq', returns='_exception')
    S.true(isinstance(r, ImportError), 'the exception is returned', repr(r))
    S.raises(lambda: c.run(backend='ibmq', returns='nope'), 'unknown kind', (ValueError,))


def broken(S):
    c = S.Circuit(1).h[0].m[0]
    S.raises(lambda: c.run(backend='ibmq', returns='shots'), 'broken qiskit', (ValueError,))
    r = c.run(backend='ibmq', returns='_exception')
    S.true(isinstance(r, RuntimeError) and str(r) == 'broken installation', 'the exception is returned', repr(r))


for f in (wide, counts, returned, repeated):
    f.fakes = module
missing.fakes = no_names
broken.fakes = exploding


def jobs(tier):
    out = []
    for n in range(1, 7 if tier == 'thorough' else 5):
        for route in ('name', 'attribute'):
            out.append(('counts', dict(n=n, subset=n < 3, route=route)))
            out.append(('counts', dict(n=n, subset=False, route=route, shots=10, extra=dict(noise_model=3))))
    for how in ('keyword', 'position'):
        for shots in (None, 1, 100):
            for own in (False, True):
                out.append(('returned', dict(how=how, shots=shots, own=own)))
    for n in (10, 12, 33, 64):
        out.append(('wide', dict(n=n, seed=n)))
    out += [('repeated', {}), ('missing', {}), ('broken', {})]
    return out
