"""C06: shot counting is complete, independent per shot and consistently ordered."""
from sym import ref
from .common import ops_of, add_ops, vec

BOUNDS = {
    'quick': 'circuits of up to 7 operations on 1-4 qubits with measurements in any place (re-measurement, mid-circuit, '
             'resets, unmeasured qubits), symbolic angles, 0-3 shots with every draw symbolic, 1024 default, 1100 and 2100 shots with a '
             'fixed pattern of draws, all kinds of returns given by keyword or position, repeated runs of one circuit; wider registers, chains of 24-60 operations with measurements throughout',
    'thorough': 'as quick with up to 4 shots and more circuits',
}
OUTSIDE = 'more shots with symbolic draws; draws made by a different rule than draw < p0'
ASSUMPTIONS = ['random.random() returns any real in [0, 1), draws independent']


def per_shot(ops, n):
    return sum(len(ref.expand(t, n)) for g, _, t in ops if g in ('m', 'measure', 'reset'))


def expected(S, ops, n, draws, shots):
    k = per_shot(ops, n)
    S.true(len(draws) == k * shots, 'draws', '%d draws for %d shots of %d measurements' % (len(draws), shots, k))
    want = {}
    st = None
    for i in range(shots):
        st, cregs = ref.simulate(S, ops, {0: S.num(1)}, n, draws[i * k:(i + 1) * k])
        key = ''.join(str(b) for b in cregs)
        want[key] = want.get(key, 0) + 1
    return want, st


def setup(S, spec, n):
    ops = ops_of(S, spec)
    return add_ops(S.Circuit(n), ops), ops


def counts(S, spec, n, shots, backend='numpy', repeat=1, draws=None):
    c, ops = setup(S, spec, n)
    if draws:
        S.fix_draws(draws)
    check = S.eqv
    for _ in range(repeat):
        mark = len(S.draws)
        r = c.run(backend=backend, shots=shots)
        want, _ = expected(S, ops, n, S.draws[mark:], shots)
        S.true(sum(r.values()) == shots, 'total', '%s for %d shots' % (dict(r), shots))
        S.true(all(isinstance(k, str) and len(k) == n for k in r), 'key length')
        S.true({k: v for k, v in r.items() if v} == want, 'counts', '%s, expected %s' % (dict(r), want))
        if shots:
            mark = len(S.draws)
            v, r = c.run(backend=backend, shots=shots, returns='statevector_and_shots')
            want, st = expected(S, ops, n, S.draws[mark:], shots)
            S.true(dict(r) == want, 'counts with state', '%s, expected %s' % (dict(r), want))
            check(vec(S, v, n), ref.dense(st, n), 'state of the last shot')


def kinds(S, spec, n, backend='numpy', draws=(0.3, 0.9, 0.6)):
    """what is returned for each request"""
    S.fix_draws(draws)
    c, ops = setup(S, spec, n)

    def result(k, shots, /, *a, **kw):
        mark = len(S.draws)
        r = c.run(*a, backend=backend, **kw)
        want, st = expected(S, ops, n, S.draws[mark:], shots)
        if k == 'both':
            S.true(isinstance(r, tuple) and len(r) == 2, 'a pair is returned')
        v, s = r if k == 'both' else (r if k == 'vec' else None, r if k == 'shots' else None)
        lab = '%s%r%r' % (k, a, sorted(kw.items()))
        if v is not None:
            S.eqv(vec(S, v, n), ref.dense(st, n), lab)
        if s is not None:
            S.true(dict(s) == want, lab, '%s, expected %s' % (dict(s), want))
    result('vec', 1)
    result('vec', 1, returns='statevector')
    result('vec', 1, None, 'statevector')
    result('vec', 2, shots=2, returns='statevector')
    result('shots', 3, shots=3)
    result('shots', 3, 3)
    result('shots', 2, 2, 'shots')
    result('shots', 2, shots=2, returns='shots')
    result('both', 2, shots=2, returns='statevector_and_shots')
    for bad in ('statevectors', 'shot', '', 'counts'):
        mark = len(S.draws)
        S.raises(lambda: c.run(backend=backend, returns=bad), 'returns=%r accepted' % bad, (ValueError,))
        S.raises(lambda: c.run(backend=backend, shots=1, returns=bad), 'returns=%r accepted' % bad, (ValueError,))


def default_shots(S, returns, backend='numpy'):
    S.fix_draws((0.3, 0.9, 0.6))
    c, ops = setup(S, [('h', 0), ('m', 0)], 1)
    mark = len(S.draws)
    r = c.run(backend=backend, returns=returns)
    draws = S.draws[mark:]
    if returns == 'statevector_and_shots':
        r = r[1]
    S.true(len(draws) == 1024, 'default number of shots', '%d draws' % len(draws))
    one = sum(d >= 0.5 for d in draws)
    S.true(dict(r) == {'0': 1024 - one, '1': one}, 'counts', str(dict(r)))


def many(S, spec, n, shots, draws, backend='numpy'):
    """many shots; the draws follow a fixed pattern, so few different outcomes have to be worked out"""
    S.fix_draws(draws)
    c, ops = setup(S, spec, n)
    k = per_shot(ops, n)
    known = {}
    for _ in range(2):
        mark = len(S.draws)
        v, r = c.run(backend=backend, shots=shots, returns='statevector_and_shots')
        d = S.draws[mark:]
        S.true(len(d) == k * shots, 'draws', '%d draws for %d shots of %d measurements' % (len(d), shots, k))
        want = {}
        for i in range(shots):
            key = tuple(d[i * k:(i + 1) * k])
            if key not in known:
                known[key] = ref.simulate(S, ops, {0: S.num(1)}, n, key)
            st, cregs = known[key]
            b = ''.join(str(x) for x in cregs)
            want[b] = want.get(b, 0) + 1
        S.true(dict(r) == want, 'counts of %d shots' % shots, '%s, expected %s' % (dict(r), want))
        S.eqv(vec(S, v, n), ref.dense(st, n), 'state of the last shot')


CIRCUITS = [
    ([('h', 0), ('m', 0)], 1),
    ([('h', 0), ('m', 0)], 2),
    ([('h', 1), ('m', 1)], 3),
    ([('ry', 0), ('m', 0), ('x', 0)], 1),
    ([('h', 0), ('cx', (0, 1)), ('m', slice(None))], 2),
    ([('h', 0), ('cx', (0, 2)), ('x', 1), ('m', (1, 2))], 3),
    ([('x', 0), ('m', 0), ('x', 0), ('m', 0)], 1),
    ([('h', 0), ('m', 0), ('x', 0), ('m', 0)], 1),
    ([('h', 0), ('m', 0), ('cx', (0, 1)), ('m', 1)], 2),
    ([('h', 0), ('m', 0), ('reset', 0), ('x', 0)], 2),
    ([('h', 0), ('reset', 0), ('m', 0)], 1),
    ([('h', 0), ('m', 0), ('reset', 1)], 2),
    ([('h', 0), ('m', 0), ('reset', 1), ('x', 0), ('x', 1)], 2),
    ([('h', 0), ('reset', 1), ('m', 0), ('x', 0), ('m', 1)], 2),
    ([('reset', 0), ('h', 0), ('m', 0), ('x', 0), ('reset', 1), ('m', 1)], 2),
    ([('h', 0), ('m', 0), ('m', 1), ('x', 0)], 2),
    ([('x', 3), ('m', (3, 0))], 4),
    ([('x', 0), ('x', 2), ('m', slice(None))], 3),
    ([('x', 1), ('m', -1)], 2),
    ([('rx', 0), ('cx', (0, 1)), ('m', 1)], 2),
    ([('ry', 1), ('t', 1), ('ch', (1, 0)), ('m', 0)], 2),
    ([('x', 0), ('h', 1)], 2),
    ([], 2),
]


WIDE = [
    ([('x', 10), ('h', 2), ('m', (2, 10))], 12),
    ([('h', 8), ('cx', (8, 0)), ('cx', (0, 10)), ('m', slice(None))], 11),
    ([('x', 9), ('reset', 9), ('x', 1), ('m', (9, 1))], 10),
    ([('h', slice(None)), ('m', (6, 3)), ('reset', (6, 0)), ('m', 6)], 7),
]
# many measurements in one shot
CHAIN = [([(('h', 'm', 'cx', 'm', 't', 'h', 'ry', 'm', 'reset', 'x', 's', 'm')[i % 12],
            (i % 3, (i + 1) % 3) if i % 12 == 2 else (i * 2 + i // 12) % 3) for i in range(k)], 3) for k in (24, 60)]
CHAIN = [([(g if g != 'ry' else 'y', t) for g, t in s], n) for s, n in CHAIN]


def jobs(tier, backend='numpy'):
    out = []
    big = tier == 'thorough'
    for spec, n in WIDE:
        for shots in (1, 3):
            out.append(('counts', dict(spec=spec, n=n, shots=shots, backend=backend, draws=(0.3, 0.9, 0.6, 0.1))))
    for spec, n in CHAIN:
        for shots in (1, 4):
            out.append(('counts', dict(spec=spec, n=n, shots=shots, backend=backend, draws=(0.3, 0.9, 0.6, 0.1, 0.7))))
            out.append(('counts', dict(spec=spec, n=n, shots=shots, backend=backend, draws=(0.8, 0.2, 0.45))))
    for spec, n in CIRCUITS:
        for shots in range(0, 5 if big else 4):
            k = per_shot(spec and [(g, (), t) for g, t in spec], n)
            angles = any(ref.NARGS.get(g) for g, _ in spec)
            if shots * k > (6 if big else 4) or (shots * k > 2 and angles):
                draws = (0.3, 0.9, 0.6, 0.1)
            else:
                draws = None
            out.append(('counts', dict(spec=spec, n=n, shots=shots, backend=backend, draws=draws)))
        out.append(('counts', dict(spec=spec, n=n, shots=2, backend=backend, repeat=2, draws=(0.7, 0.2, 0.4))))
    for spec, n in CIRCUITS[:-2]:
        if not any(ref.NARGS.get(g) for g, _ in spec):
            out.append(('kinds', dict(spec=spec, n=n, backend=backend)))
    for spec, n in CIRCUITS[:-2]:
        if not any(ref.NARGS.get(g) for g, _ in spec):
            for shots, draws in ((1100, (0.3, 0.9, 0.6, 0.1, 0.7)), (2100, (0.7, 0.2, 0.8))) if backend == 'numpy' or big else \
                    ((1100, (0.7, 0.2, 0.8, 0.4)),):
                out.append(('many', dict(spec=spec, n=n, shots=shots, draws=draws, backend=backend)))
    for r in ('shots', 'statevector_and_shots'):
        out.append(('default_shots', dict(returns=r, backend=backend)))
    return out
