"""C03: dagger() yields the exact inverse circuit."""
import itertools
from sym import ref
from .common import ops_of, add_ops, inject, vec
from .c01 import long_spec

BOUNDS = {
    'quick': 'every gate at every angle on 2-4 qubits with an arbitrary state; every ordered pair of gates on 2 qubits '
             '(representative placements), selected sequences of up to 6 gates, slices and late widening; measurement or '
             'reset at every position of sequences of up to 4 operations; generated sequences of 30-80 gates on 2-5 qubits and gates on 12 qubits (a few symbolic angles, sparse symbolic state)',
    'thorough': 'as quick with all placements, more pairs and triples of gates',
}
OUTSIDE = 'user-defined gates'


def build(S, spec, n, ops=None):
    ops = ops_of(S, spec) if ops is None else ops
    return add_ops(S.Circuit(n), ops), ops


def snapshot(c):
    return c.n_qubits, list(c.ops), [(type(g), g.targets, tuple(g.params)) for g in c.ops], c._default_backend


def inverse(S, spec, n, idx=None):
    inject(S)
    _inverse(S, spec, n, idx)


def many(S, specs, n):
    inject(S)
    for s in specs:
        _inverse(S, s, n)


def _inverse(S, spec, n, idx=None):
    lab = '+'.join(g for g, _ in spec)
    c, ops = build(S, spec, n)
    before = snapshot(c)
    st = S.state(n, idx=idx)
    d = c.dagger()
    S.true(snapshot(c) == before, lab + ': original changed')
    S.true(d is not c and d.ops is not c.ops, lab + ': dagger shares its gate list')
    S.true(d.n_qubits == c.n_qubits, lab + ': width')
    m = c.n_qubits
    S.true(m == n, 'width')
    load = S.Circuit(n).symstate(dict(st))[0]
    v = vec(S, (load + c + d).run(), n)
    S.eq_phase(v, ref.dense(st, n), lab + ': c then dagger')
    v = vec(S, (load + d + c).run(), n)
    S.eq_phase(v, ref.dense(st, n), lab + ': dagger then c')
    dd = d.dagger()
    v = vec(S, (load + dd).run(), n)
    want = ref.dense(ref.run(S, ops, st, n), n)
    S.eq_phase(v, want, lab + ': dagger twice')
    S.true(snapshot(c) == before, lab + ': original changed')


def widened(S, spec, n):
    """slices are taken at the final width"""
    inject(S)
    c, ops = build(S, spec, 0)
    S.true(c.n_qubits == n, 'width')
    d = c.dagger()
    S.true(d.n_qubits == n, 'width of dagger')
    st = S.state(n)
    v = vec(S, (S.Circuit(n).symstate(dict(st))[0] + c + d).run(), n)
    S.eq_phase(v, ref.dense(st, n), 'c then dagger')


def measured(S, spec, n, at):
    """measurement/reset refused, or only they are dropped"""
    inject(S)
    ops = ops_of(S, spec)
    c = S.Circuit(n)
    for k, (g, args, t) in enumerate(ops):
        for a, kind, q in at:
            if a == k:
                getattr(c, kind)[q]
        add_ops(c, [(g, args, t)])
    for a, kind, q in at:
        if a >= len(ops):
            getattr(c, kind)[q]
    before = snapshot(c)
    S.raises(lambda: c.dagger(), 'a measured circuit was conjugated', (ValueError,))
    S.raises(lambda: c.dagger(ignore_measurement=False), 'a measured circuit was conjugated', (ValueError,))
    d = c.dagger(ignore_measurement=True)
    S.true(snapshot(c) == before, 'original changed')
    S.true(d.n_qubits == c.n_qubits, 'width')
    st = S.state(n)
    load = S.Circuit(n).symstate(dict(st))[0]
    plain, _ = build(S, spec, n, ops)
    v = vec(S, (load + plain + d).run(), n)
    S.eq_phase(v, ref.dense(st, n), 'dagger of the unitary part')


def backends(S):
    """default backend handling"""
    c = S.Circuit(2).h[0].cx[0, 1]
    c.set_default_backend('qasm_output')
    S.true(c.dagger().get_default_backend_name() == 'qasm_output', 'default backend kept')
    S.true(c.dagger(copy_default_backend=False).get_default_backend_name() == 'numpy', 'default backend dropped on request')
    S.true(c.get_default_backend_name() == 'qasm_output', 'original keeps its default')


def jobs(tier):
    big = tier == 'thorough'
    out = []
    for g in ref.ONE:
        for t, n in [(0, 1), (0, 2), (1, 2), (slice(None), 2), ((2, 0), 3), ((0, 0), 2), (-1, 2)]:
            out.append(('inverse', dict(spec=[(g, t)], n=n)))
    for g in ref.TWO:
        for t, n in [((0, 1), 2), ((1, 0), 2), ((2, 0), 3), ((slice(None, -1), slice(1, None)), 3),
                     (((0, 1), (1, 2)), 3), (((2, 0), (1, 1)), 3)]:
            out.append(('inverse', dict(spec=[(g, t)], n=n)))
    for g in ref.THREE_ALL:
        for t in itertools.permutations(range(3)):
            out.append(('inverse', dict(spec=[(g, t)], n=3)))
        for t in ((3, 0, 1), (-1, 0, -2), (1, -4, 2)):
            out.append(('inverse', dict(spec=[(g, t)], n=4)))
        out.append(('widened', dict(spec=[('h', -1), (g, (-1, 0, -2)), ('ry', 2)], n=3)))
    firsts = [(g, 0) for g in ref.ONE if g != 'i'] + [(g, (0, 1)) for g in ref.TWO]
    seconds = [('h', 0), ('t', 0), ('u3', 0), ('rx', 1), ('s', 1), ('cx', (1, 0)), ('crz', (0, 1)), ('swap', (0, 1)),
               ('cu3', (1, 0)), ('ryy', (0, 1))]
    if big:
        seconds += [(g, 1) for g in ref.ONE] + [(g, (1, 0)) for g in ref.TWO]
    for f in firsts:
        for i in range(0, len(seconds), 5):
            out.append(('many', dict(specs=[[f, s] for s in seconds[i:i + 5]], n=2)))
    seqs = [[('h', slice(None)), ('u2', 0), ('cx', (0, 1)), ('tdg', 1), ('sdg', 0), ('cu2', (1, 0))],
            [('u2', 0), ('h', 0), ('u2', 1), ('cu2', (0, 1)), ('u2', 0)],
            [('t', 0), ('s', 0), ('h', 0), ('tdg', 0), ('x', 0), ('sdg', 0)],
            [('rx', 0), ('ry', 1), ('rz', 0), ('phase', 1), ('u1', 0), ('crx', (0, 1))],
            [('ch', (0, 1)), ('cy', (1, 0)), ('cz', (0, 1)), ('cphase', (0, 1)), ('swap', (0, 1))]]
    for s in seqs:
        out.append(('inverse', dict(spec=s, n=2)))
    out.append(('inverse', dict(spec=[('ccx', (0, 1, 2)), ('h', 2), ('cswap', (2, 0, 1)), ('t', 1), ('rzz', (0, 2))], n=3)))
    out.append(('widened', dict(spec=[('h', slice(None)), ('u2', slice(None)), ('cx', (0, 2)), ('t', slice(1, None))], n=3)))
    out.append(('widened', dict(spec=[('rx', slice(None, None, 2)), ('crz', (slice(None, -1), slice(1, None))), ('s', 2), ('ry', -1)], n=3)))
    spec = [('h', 0), ('cx', (0, 1)), ('u2', 1), ('t', 0)]
    for kind in ('m', 'measure', 'reset'):
        for k in range(5):
            out.append(('measured', dict(spec=spec, n=2, at=[(k, kind, 0)])))
        out.append(('measured', dict(spec=spec, n=2, at=[(0, kind, 1), (2, 'm', slice(None)), (4, 'reset', 0)])))
    for n, l, rot in ((2, 30, 0), (3, 40, 1), (4, 60, 2), (5, 80, 3)) + (((6, 200, 4), (8, 100, 5)) if big else ()):
        out.append(('inverse', dict(spec=long_spec(n, l, 2, rot), n=n, idx=(0, (1 << n) - 1))))
    out.append(('inverse', dict(spec=[('cx', (4, 11)), ('u2', 10), ('swap', (0, 11)), ('t', (3, 10))], n=12, idx=(0, 1 << 10, 1 << 4))))
    out.append(('backends', dict()))
    return out
