"""C05: measurement and reset follow the Born rule and collapse correctly."""
import itertools
from sym import ref
from .common import ops_of, add_ops, inject, vec

BOUNDS = {
    'quick': 'arbitrary normalised states of 1-3 qubits (all amplitudes symbolic) and of 4 qubits (6 symbolic amplitudes); '
             'measure and reset by index, negative index, slice and tuple, singly and in sequences of up to 4 with symbolic '
             'gates before, between and after; every random draw symbolic in [0, 1); measurement and reset on 7-12 qubits with three symbolic amplitudes; circuits of tens of operations with measurements throughout',
    'thorough': 'as quick with all pairs of measure/reset over 3 qubits and more gates in between',
}
OUTSIDE = 'wider registers with arbitrary states; states that are not normalised; rounding of probabilities; draws made by a different rule ' \
          'than draw < p0'
ASSUMPTIONS = ['random.random() returns any real in [0, 1), draws independent']


def born(S, spec, n, idx=None, backend='numpy'):
    inject(S, backend)
    st = S.state(n, norm=True, idx=idx)
    ops = ops_of(S, spec)
    c = S.Circuit(n).symstate(dict(st))[0]
    add_ops(c, ops)
    mark = len(S.draws)
    v, shots = c.run(backend=backend, shots=1, returns='statevector_and_shots')
    used = S.draws[mark:]
    S.true(len(used) == sum(len(ref.expand(t, n)) for g, _, t in ops if g in ('m', 'measure', 'reset')),
           'one draw per measured or reset qubit')
    want, cregs = ref.simulate(S, ops, st, n, used)
    S.true(dict(shots) == {''.join(map(str, cregs)): 1}, 'recorded bits', '%s, expected %s' % (dict(shots), cregs))
    check = S.eq_phase if any(g in ref.PHASE_ONLY for g, _, _ in ops) else S.eqv
    check(vec(S, v, n), ref.dense(want, n), 'collapsed state')


def again(S, n, q):
    """measuring twice gives the same value, and the state is untouched the second time"""
    inject(S)
    st = S.state(n, norm=True)
    c = S.Circuit(n).symstate(dict(st))[0].m[q]
    v1, s1 = c.run(shots=1, returns='statevector_and_shots')
    bit = list(s1)[0][q]
    c2 = S.Circuit(n).symstate({k: a for k, a in enumerate(vec(S, v1, n))})[0].m[q]
    v2, s2 = c2.run(shots=1, returns='statevector_and_shots')
    S.true(list(s2)[0][q] == bit, 'second measurement agrees')
    S.eqv(vec(S, v2, n), vec(S, v1, n), 'state after the second measurement')


def reset_zero(S, n, q, idx=None):
    """after a reset the qubit is |0>"""
    inject(S)
    st = S.state(n, norm=True, idx=idx)
    v, s = S.Circuit(n).symstate(dict(st))[0].reset[q].m[q].run(shots=1, returns='statevector_and_shots')
    v = vec(S, v, n)
    S.true(list(s)[0] == '0' * n, 'measured after reset')
    S.eq([(v[k], 0) for k in range(1 << n) if (k >> q) & 1], 'no amplitude on |1>')
    S.eq([(S.norm2(v), 1)], 'normalised')


def jobs(tier, fn='born', fn_params=None):
    out = []
    extra = dict(fn_params or {})

    def add(spec, n, idx=None):
        out.append((fn, dict(spec=spec, n=n, idx=idx, **extra)))
    for k in ('m', 'measure', 'reset'):
        for n in (1, 2, 3):
            for q in range(n):
                add([(k, q)], n)
        add([(k, -1)], 2)
        add([(k, slice(None))], 2)
        add([(k, (1, 0))], 2)
        add([(k, slice(None, None, -1))], 2)
        add([(k, (0, 0))], 2)
    for n, idx in [(4, (0, 3, 6, 9, 12, 15)), (4, (1, 2, 5, 10, 11, 14))]:
        for q in range(n):
            add([('m', q)], n, idx)
            add([('reset', q)], n, idx)
    for n in (7, 9, 11, 12):
        top = (1 << n) - 1
        for q in {0, n // 2, n - 1}:
            for k in ('m', 'reset'):
                add([(k, q)], n, (0, 1 << q, top))
        add([('m', (n - 1, 0)), ('reset', n // 2)], n, (1, 1 << (n - 1), top ^ 2))
    two = [0, 1] if tier == 'quick' else [0, 1, 2]
    kinds = ('m', 'reset')
    for a, b in itertools.product(kinds, kinds):
        for q, r in itertools.product(two, two):
            add([(a, q), (b, r)], len(two))
    add([('h', 0), ('m', 0), ('h', 0), ('m', 0)], 1)
    add([('ry', 0), ('m', 0), ('rx', 0), ('m', 0)], 1)
    add([('u3' if tier == 'thorough' else 'ry', 0), ('m', 0), ('x', 0), ('cx', (0, 1)), ('reset', 0)], 2, (0, 1))
    add([('m', 0), ('x', 0), ('m', 1)], 2)
    add([('cx', (0, 1)), ('m', 1), ('reset', 0), ('ry', 1)], 2)
    add([('m', 0), ('cx', (0, 1)), ('reset', 1), ('x', 1)], 2)
    add([('cu1', (0, 1)), ('m', 0), ('u1', 1)], 2)
    add([('m', 2), ('cx', (2, 0)), ('m', (0, 1))], 3, (0, 3, 5, 6))
    add([('m', 0), ('m', 1), ('m', 2)], 3, (0, 3, 5, 6))
    add([('reset', slice(None)), ('h', slice(None))], 2)
    add([('h', 0), ('cx', (0, 1)), ('cx', (1, 2)), ('m', slice(None))], 3, (0,))
    if fn == 'born':
        for n in (1, 2):
            for q in range(n):
                out.append(('again', dict(n=n, q=q)))
        for n in (1, 2):
            for q in range(n):
                out.append(('reset_zero', dict(n=n, q=q)))
        for idx in ((0, 3, 5, 6), (1, 2, 4, 7)) if tier == 'quick' else (None, (0, 3, 5, 6), (1, 2, 4, 7)):
            for q in range(3):
                out.append(('reset_zero', dict(n=3, q=q, idx=idx)))
    if tier == 'thorough' and fn == 'born':
        for g in ('h', 'rx', 'ry', 'u2', 'u3', 't'):
            for a, b in itertools.product(kinds, kinds):
                add([(a, 0), (g, 0), (b, 0)], 1)
                add([(g, 0), (a, 0), ('cx', (0, 1)), (b, 1)], 2)
    return out
