"""C21: immutable operation sequences behave like circuits and never change."""
import itertools
from sym import ref
from .common import ops_of, add_ops, inject, vec
from .c01 import long_spec

BOUNDS = {
    'quick': 'sequences of up to 6 operations over every gate of the immutable interface with symbolic angles, on an '
             'arbitrary state of 1-4 qubits; concatenations of sequences of widths 0-3; all 3-step histories of extending, '
             'adding, conjugating and converting with every earlier sequence re-read afterwards; unitaries extracted from '
             'circuits of up to 3 qubits with symbolic angles; generated sequences of 40-80 gates on 3-5 qubits',
    'thorough': 'as quick with all ordered pairs of gates and 4-step histories',
}
OUTSIDE = 'longer sequences; gates the immutable interface does not offer (rxx, ryy, rzz, cswap, reset)'

NOT_OFFERED = ('rxx', 'ryy', 'rzz', 'cswap')


def Ops(S):
    import importlib
    return importlib.import_module('blueqat.experimental').Ops


def freeze(o):
    return o.n_qubits, o.ops, [(type(g), g.targets, tuple(g.params)) for g in o.ops]


def effect(S, c, ops, n, lab):
    """circuit c applies ops to any state of n qubits"""
    S.true(c.n_qubits == n, lab + ': width', '%d, expected %d' % (c.n_qubits, n))
    if not n:
        return
    st = S.state(n, stem='s%d_' % n)
    load = S.Circuit(n).symstate(dict(st))[0]
    full = S.Circuit(n, list(load.ops) + list(c.ops))
    S.eq_phase(vec(S, full.run(), n), ref.dense(ref.run(S, ops, st, n), n), lab)


def sequence(S, spec, n):
    """built step by step, every prefix kept"""
    inject(S)
    ops = ops_of(S, spec)
    o = Ops(S)(n)
    chain = [(o, 0, n)]
    w = n
    for k, (g, a, t) in enumerate(ops):
        x = getattr(o, g)
        if a:
            x = x(*a)
        new = x[t]
        S.true(type(new) is type(o) and new is not o, 'a new sequence')
        o = new
        w = max(w, ref_width(t))
        chain.append((o, k + 1, w))
    froz = [freeze(o) for o, _, _ in chain]
    for o, k, w in chain[::-1]:
        S.true(len(o.ops) == k, 'number of operations')
        S.true(isinstance(o.ops, tuple), 'immutable')
        c = o.to_circuit()
        S.true(type(c) is S.bq.Circuit, 'a circuit')
        effect(S, c, ops[:k], w, 'sequence of %d' % k)
        c.x[w]
        c.ops.pop()
        c.ops.pop() if c.ops else None
        c2 = o.to_circuit()
        S.true(len(c2.ops) == k and c2.n_qubits == w, 'conversion is fresh')
    S.true([freeze(o) for o, _, _ in chain] == froz, 'sequences unchanged')


def ref_width(t):
    """width a target asks for"""
    if isinstance(t, tuple):
        return max([ref_width(x) for x in t], default=0)
    if isinstance(t, slice):
        return max(0, (t.start + 1) if t.start is not None else 0, t.stop if t.stop is not None else 0)
    return max(0, t + 1)


def from_circuit(S, spec, n):
    """the same gates applied directly"""
    inject(S)
    ops = ops_of(S, spec)
    o = add_seq(Ops(S)(n), ops)
    c = add_ops(S.Circuit(n), ops)
    d = o.to_circuit()
    S.true([(type(g), g.targets, tuple(g.params)) for g in d.ops] == [(type(g), g.targets, tuple(g.params)) for g in c.ops]
           and d.n_qubits == c.n_qubits, 'same operations as in a circuit')


def add_seq(o, ops):
    for g, a, t in ops:
        x = getattr(o, g)
        if a:
            x = x(*a)
        o = x[t]
    return o


PARTS = {
    'empty': ([], 0),
    'wide': ([], 3),
    'one': ([('ry', 0)], 1),
    'two': ([('h', 0), ('rx', 1), ('cx', (0, 1))], 2),
    'three': ([('crz', (2, 0)), ('u3', 1)], 3),
    'slices': ([('ry', slice(None)), ('cx', (slice(None, -1), slice(1, None)))], 2),
    'last': ([('rz', -1), ('h', -1)], 1),
}


def concat(S, x, y):
    inject(S)
    (sa, na), (sb, nb) = PARTS[x], PARTS[y]
    oa, ob = ops_of(S, sa, 'a'), ops_of(S, sb, 'b')
    a, b = add_seq(Ops(S)(na), oa), add_seq(Ops(S)(nb), ob)
    fa, fb = freeze(a), freeze(b)
    c = a + b
    n = max(na, nb)
    S.true(type(c) is type(a), 'a sequence')
    effect(S, c.to_circuit(), oa + ob, n, 'a + b')
    a2 = a
    a2 += b
    effect(S, a2.to_circuit(), oa + ob, n, 'a += b')
    S.true(freeze(a) == fa and freeze(b) == fb, 'operands unchanged')
    S.true(freeze(c) == freeze(a2), 'both forms agree')
    S.raises(lambda: a + 1, 'adding a number', (TypeError,))


def inverse(S, spec, n):
    inject(S)
    ops = ops_of(S, spec)
    o = add_seq(Ops(S)(n), ops)
    f = freeze(o)
    d = o.dagger()
    S.true(type(d) is type(o) and d.n_qubits == n, 'a sequence of the same width')
    effect(S, (o + d).to_circuit(), [], n, 'o then its conjugate')
    effect(S, (d + o).to_circuit(), [], n, 'the conjugate then o')
    effect(S, d.dagger().to_circuit(), ops, n, 'conjugate twice')
    S.true(freeze(o) == f, 'unchanged')


ACTS = ['x', 'cx', 'add', 'addself', 'dagger', 'run', 'wide']


def history(S, prefix, depth):
    """any sequence made so far can be taken up again"""
    inject(S)
    th = S.real('th')
    made = [(Ops(S)(1).h[0], [('h', (), 0)], 1)]
    froz = [freeze(made[0][0])]
    for k in range(depth):
        act = prefix[k] if k < len(prefix) else S.pick('step%d' % k, ACTS)
        i = S.choose('of%d' % k, len(made))
        o, ops, n = made[i]
        if act == 'x':
            new = (o.rx(th)[0], ops + [('rx', (th,), 0)], n)
        elif act == 'cx':
            new = (o.cx[1, 0], ops + [('cx', (), (1, 0))], max(n, 2))
        elif act == 'add':
            p, pops, pn = made[-1]
            new = (o + p, ops + pops, max(n, pn))
        elif act == 'addself':
            new = (o + o, ops + ops, n)
        elif act == 'dagger':
            inv = [(g, tuple(-x for x in a), t) for g, a, t in ops[::-1]]
            new = (o.dagger(), inv, n)
        elif act == 'run':
            c = o.to_circuit()
            c.run()
            c.z[0].s[2]
            c += o.to_circuit()
            continue
        else:
            new = (o.t[2].tdg[2], ops, max(n, 3))
        made.append(new)
        froz.append(freeze(new[0]))
        S.true([freeze(o) for o, _, _ in made] == froz, 'earlier sequences unchanged')
    for o, ops, n in made:
        effect(S, o.to_circuit(), ops, n, 'sequence after the history')


def long(S, n, length, rot):
    """long sequences: every tenth prefix, concatenations, the inverse"""
    inject(S)
    spec = [(g, t) for g, t in long_spec(n, length, 2, rot) if g not in NOT_OFFERED]
    ops = ops_of(S, spec)
    st = S.state(n, idx=(0, (1 << n) - 2))
    load = S.Circuit(n).symstate(dict(st))[0]

    def check(o, ops, lab):
        c = o.to_circuit()
        S.true(c.n_qubits == n and len(c.ops) == len(ops), lab + ': size')
        full = S.Circuit(n, list(load.ops) + list(c.ops))
        S.eq_phase(vec(S, full.run(), n), ref.dense(ref.run(S, ops, st, n), n), lab)
    o = Ops(S)(n)
    kept = []
    for k, (g, a, t) in enumerate(ops):
        x = getattr(o, g)
        o = (x(*a) if a else x)[t]
        if k % 10 == 9:
            kept.append((o, k + 1))
    froz = [freeze(p) for p, _ in kept]
    check(o, ops, 'long sequence')
    inv = o.dagger()
    S.true(len(inv.ops) == len(ops), 'length of the inverse')
    full = S.Circuit(n, list(load.ops) + list((o + inv).to_circuit().ops))
    S.eq_phase(vec(S, full.run(), n), ref.dense(st, n), 'the sequence and its inverse')
    acc = Ops(S)(n)
    for g, a, t in ops[:40]:
        x = getattr(Ops(S)(n), g)
        acc = acc + (x(*a) if a else x)[t]
    check(acc, ops[:40], 'many concatenations')
    S.true([freeze(p) for p, _ in kept] == froz, 'earlier sequences unchanged')
    for p, k in kept[::2]:
        check(p, ops[:k], 'prefix of %d' % k)


def no_attribute(S):
    o = Ops(S)(2).h[0]
    for nm in ('n_qubits', 'ops', 'z9'):
        S.raises(lambda: setattr(o, nm, 5), 'attribute %s can be set' % nm, (AttributeError,))
    S.raises(lambda: o.nosuchgate, 'unknown gate', (AttributeError,))
    S.raises(lambda: o.m[0].dagger(), 'measurement has no conjugate', (ValueError,))
    c = o.x[1].m[:].to_circuit()
    S.true([g.lowername for g in c.ops] == ['h', 'x', 'measure'], 'measurement kept')
    d = {o: 1}
    S.true(d[Ops(S)(2, o.ops)] == 1, 'equal sequences are equal')


def measured(S, shots):
    S.fix_draws((0.3, 0.8, 0.6))
    o = Ops(S)().h[0].cx[0, 1].m[:]
    mark = len(S.draws)
    r = o.to_circuit().run(shots=shots)
    want = {}
    for i in range(shots):
        b = '0' if S.draws[mark + 2 * i] < 0.5 else '1'
        want[b * 2] = want.get(b * 2, 0) + 1
    S.true(dict(r) == want, 'counts', '%s, expected %s' % (dict(r), want))


def unitary(S, spec, n, kw=None):
    import importlib
    U = importlib.import_module('blueqat.experimental.utils')
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    before = c.n_qubits, list(c.ops)
    M = U.circuit_to_unitary(c, **(kw or {}))
    S.true((c.n_qubits, list(c.ops)) == before, 'circuit unchanged')
    N = 1 << n
    S.true(tuple(M.shape) == (N, N), 'shape', str(M.shape))
    got, want = [], []
    for k in range(N):
        col = ref.dense(ref.run(S, ops, {k: S.num(1)}, n), n)
        got += [M[r][k] for r in range(N)]
        want += col
    if any(g in ref.PHASE_ONLY for g, _ in spec):
        S.eq_phase(got, want, 'unitary')
    else:
        S.eqv(got, want, 'unitary')


def jobs(tier):
    out = []
    big = tier == 'thorough'
    gates = [g for g in ref.NARGS if g not in NOT_OFFERED]

    def t_of(g, k=0):
        return (1, 0)[k] if g in ref.ONE else ((1, 0), (0, 2))[k] if g in ref.TWO else ((1, 2, 0), (0, 1, 2))[k]
    for g in gates:
        for k in (0, 1):
            n = 3 if g in ref.THREE or (g in ref.TWO and k) else 2
            spec = [('h', 0), (g, t_of(g, k)), ('ry', 0)]
            out.append(('sequence', dict(spec=spec, n=0)))
            out.append(('inverse', dict(spec=spec, n=n)))
            out.append(('from_circuit', dict(spec=spec, n=0)))
            out.append(('unitary', dict(spec=[(g, t_of(g, k))], n=n)))
    for t in (slice(None), slice(1, None), -1, (0, 2), slice(2, None, -1), ()):
        out.append(('sequence', dict(spec=[('ry', t), ('h', t)], n=3)))
        out.append(('inverse', dict(spec=[('ry', t), ('h', t)], n=3)))
        out.append(('from_circuit', dict(spec=[('ry', t), ('m', t)], n=3)))
        out.append(('unitary', dict(spec=[('ry', t)], n=3)))
    for t in (((0, 1), (1, 2)), (slice(None, -1), slice(1, None)), ((2, 1), (1, 0)), ((0, 1), (2, 3))):
        for g in ('cx', 'swap', 'crx'):
            out.append(('inverse', dict(spec=[(g, t), ('ry', 0)], n=4)))
            out.append(('sequence', dict(spec=[('h', 0), (g, t)], n=4)))
    if big:
        for a, b in itertools.product(gates, gates):
            out.append(('inverse', dict(spec=[(a, t_of(a)), (b, t_of(b, 1))], n=3)))
            out.append(('sequence', dict(spec=[(a, t_of(a)), (b, t_of(b, 1))], n=0)))
    for x, y in itertools.product(PARTS, PARTS):
        out.append(('concat', dict(x=x, y=y)))
    for a in ACTS:
        for b in ACTS if big else [None]:
            p = [a, b] if b else [a]
            out.append(('history', dict(prefix=p, depth=4 if big else 3)))
    for n, l, rot in ((3, 40, 0), (4, 60, 1), (5, 80, 2)) + (((6, 150, 3), (3, 300, 4)) if big else ()):
        out.append(('long', dict(n=n, length=l, rot=rot)))
    for s in (((0, 4), (1, 3)), (4, 0)):
        out.append(('unitary', dict(spec=[('h', slice(None)), ('cx', s), ('rz', -1)], n=5)))
    out.append(('no_attribute', {}))
    for s in (1, 3):
        out.append(('measured', dict(shots=s)))
    for spec, n in (([], 0), ([], 2), ([('h', 0), ('cx', (0, 1))], 2), ([('rx', 1), ('cry', (1, 0)), ('t', 0)], 2),
                    ([('u3', 0)], 1), ([('y', 2), ('ccx', (0, 1, 2))], 3), ([('cx', (0, 2)), ('h', slice(None))], 3),
                    ([('rzz', (0, 1)), ('phase', -1)], 2), ([('cswap', (0, 1, 2)), ('s', 0)], 3),
                    ([('ccx', (-1, 0, -2)), ('cswap', (0, -2, 2)), ('h', -1)], 3)):
        out.append(('unitary', dict(spec=spec, n=n)))
        out.append(('unitary', dict(spec=spec, n=n, kw=dict(backend='numpy'))))
    return out
