"""C07: composition concatenates, copies are independent, macros and registered gates behave as registered."""
import itertools
from sym import ref
from .common import ops_of, add_ops, inject, vec
from .c01 import long_spec

BOUNDS = {
    'quick': 'concatenation (+, +=, self-concatenation, chains) of circuits of up to 4 gates and widths 0-3 with symbolic '
             'angles on an arbitrary state, slices re-read at the final width; all 3-step histories over 12 operations on a '
             'circuit and its copy; macros with positional and keyword arguments; registered gates with and without '
             'decomposition; overwriting; circuits of 48-80 operations concatenated from 4-16 pieces',
    'thorough': 'as quick with all 4-step copy histories and more operand pairs',
}
OUTSIDE = 'longer circuits and histories; mutating gate objects in place'

A = [('h', 0), ('rx', 1), ('cx', (0, 1))]
PARTS = {
    'empty': ([], 0),
    'wide': ([], 3),
    'one': ([('ry', 0)], 1),
    'two': (A, 2),
    'three': ([('crz', (2, 0)), ('u3', 1)], 3),
    'slices': ([('ry', slice(None)), ('cx', (slice(None, -1), slice(1, None)))], 2),
    'last': ([('rz', -1), ('h', -1)], 1),
}


def make(S, part, stem):
    spec, n = PARTS[part]
    ops = ops_of(S, spec, stem)
    return add_ops(S.Circuit(n), ops), ops, n


def snap(c):
    return (c.n_qubits, list(c.ops), c.get_default_backend_name())


def same(S, c, ops, n, lab):
    """c applies ops on n qubits to any state"""
    S.true(c.n_qubits == n, lab + ': width', '%d, expected %d' % (c.n_qubits, n))
    if n == 0:
        return
    st = S.state(n, stem='s%d_' % n)
    load = S.Circuit(n).symstate(dict(st))[0]
    full = S.Circuit(n, list(load.ops) + list(c.ops))
    v = vec(S, full.run(), n)
    S.eq_phase(v, ref.dense(ref.run(S, ops, st, n), n), lab)


def concat(S, x, y):
    inject(S)
    a, oa, na = make(S, x, 'a')
    b, ob, nb = make(S, y, 'b')
    n = max(na, nb)
    sa, sb = snap(a), snap(b)
    c = a + b
    S.true(snap(a) == sa and snap(b) == sb, 'operands unchanged by +')
    S.true(c is not a and c is not b and c.ops is not a.ops and c.ops is not b.ops, 'a new circuit')
    same(S, c, oa + ob, n, 'a + b')
    c.x[0]
    S.true(snap(a) == sa and snap(b) == sb, 'operands independent of the sum')
    d = a
    d += b
    S.true(d is a, '+= works in place')
    S.true(snap(b) == sb, 'right operand unchanged by +=')
    same(S, a, oa + ob, n, 'a += b')
    a.x[0]
    S.true(snap(b) == sb, 'right operand independent after +=')
    S.raises(lambda: b + 1, 'adding a number', (TypeError,))


def self_concat(S, x):
    inject(S)
    a, oa, na = make(S, x, 'a')
    same(S, a + a, oa + oa, na, 'a + a')
    same(S, a, oa, na, 'a afterwards')
    same(S, a + a + a, oa * 3, na, 'a + a + a')
    a += a
    same(S, a, oa + oa, na, 'a += a')


def long(S, n, length, rot, pieces):
    """a long circuit put together from pieces in several ways"""
    inject(S)
    ops = ops_of(S, long_spec(n, length, 2, rot))
    st = S.state(n, idx=(0, (1 << n) - 1))
    load = S.Circuit(n).symstate(dict(st))[0]
    want = ref.dense(ref.run(S, ops, st, n), n)
    cut = [length * i // pieces for i in range(pieces + 1)]
    ps = [add_ops(S.Circuit(), ops[a:b]) for a, b in zip(cut, cut[1:])]
    before = [snap(p) for p in ps]
    x = load.copy()
    for p in ps:
        x = x + p
    S.eq_phase(vec(S, x.run(), n), want, 'sum of the pieces')
    y = load.copy()
    for i, p in enumerate(ps):
        y += p
        if i % 3 == 1:
            y.run()
    S.eq_phase(vec(S, y.run(), n), want, 'pieces added in place')
    z = load.copy()
    for i, p in enumerate(ps):
        z.make_cache()
        z = z.copy()
        z += p.copy()
    S.eq_phase(vec(S, z.run(), n), want, 'copies added in place')
    r = ps[-1]
    for p in ps[-2::-1]:
        r = p + r
    S.eq_phase(vec(S, (load + r).run(), n), want, 'added from the right')
    S.true([snap(p) for p in ps] == before, 'pieces unchanged')
    S.true(len(x.ops) == len(y.ops) == len(z.ops) == length + 1, 'number of operations')


def fluent(S):
    """the gate syntax returns the circuit itself, list building included"""
    inject(S)
    t = S.reals('t', 3)
    c = S.Circuit()
    r = c.rx(t[0])[0].cx[0, 1].u2(t[1], t[2])[1]
    S.true(r is c, 'gates are appended to the circuit')
    same(S, c, [('rx', (t[0],), 0), ('cx', (), (0, 1)), ('u2', (t[1], t[2]), 1)], 2, 'fluent')
    g = S.mod('gate')
    c = S.Circuit(2, [g.HGate(0), g.CXGate((0, 1))])
    same(S, c, [('h', (), 0), ('cx', (), (0, 1))], 2, 'built from a gate list')
    S.raises(lambda: S.Circuit().nosuchgate, 'unknown gate', (AttributeError,))


STEPS = ['x', 'w', 'y', 'pop', 'default', 'run', 'X', 'W', 'Y', 'Pop', 'Default', 'Run']


def copies(S, prefix, depth, **kw):
    """whatever happens to a circuit or its copy afterwards, the other one does not notice"""
    inject(S)
    a, oa, na = make(S, 'two', 'a')
    a.set_default_backend('numpy')
    c = a.copy(**kw)
    S.true(c is not a and c.ops is not a.ops, 'copy is another circuit')
    S.true(c.n_qubits == a.n_qubits and len(c.ops) == len(a.ops), 'copy has the same content')
    S.true((c._default_backend is not None) == kw.get('copy_default_backend', True), 'default backend carried')
    it = [[a, list(oa), na, 'numpy'], [c, list(oa), na, c.get_default_backend_name()]]
    th = S.real('th')
    for k in range(depth):
        act = prefix[k] if k < len(prefix) else S.pick('step%d' % k, STEPS)
        me = it[1] if act[0].isupper() else it[0]
        act = act.lower()
        if act == 'x':
            me[0].rx(th)[0]
            me[1].append(('rx', (th,), 0))
        elif act == 'w':
            me[0].cx[0, me[2]]
            me[1].append(('cx', (), (0, me[2])))
            me[2] += 1
        elif act == 'y':
            me[0] += S.Circuit().h[1].t[0]
            me[1] += [('h', (), 1), ('t', (), 0)]
        elif act == 'pop' and me[1]:
            me[0].ops.pop()
            me[1].pop()
        elif act == 'default':
            me[0].set_default_backend('qasm_output')
            me[3] = 'qasm_output'
        elif act == 'run':
            v = me[0].run(backend='numpy')
            v[...] = 3.0
    for c, ops, n, d in it:
        S.true(c.get_default_backend_name() == d, 'default backend')
        S.true(c.n_qubits == n, 'width')
        c.set_default_backend('numpy')
        S.eqv(vec(S, c.run(), n), ref.dense(ref.run(S, ops, {0: S.num(1)}, n), n), 'circuit after the history')


def macro(S):
    inject(S)
    G = S.bq.BlueqatGlobalSetting
    seen = []

    def ent(c, a, *more, ang, base=0):
        seen.append((c, a, more, ang, base))
        return c.rx(ang)[base].cx[base, a]
    G.register_macro('ent', ent)
    th = S.real('th')
    c = S.Circuit().h[0]
    r = c.ent(2, 5, ang=th, base=1)
    S.true(r is c and len(seen) == 1, 'macro called once, its result returned')
    S.true(seen[0][0] is c and seen[0][1] == 2 and seen[0][2] == (5,) and seen[0][4] == 1, 'arguments handed over')
    ops = [('h', (), 0), ('rx', (th,), 1), ('cx', (), (1, 2))]
    same(S, c, ops, 3, 'macro')
    S.raises(lambda: G.register_macro('ent', lambda c: c), 'duplicate macro', (ValueError,))
    G.register_macro('ent', lambda c: 'other', allow_overwrite=True)
    S.true(S.Circuit().ent() == 'other', 'overwritten macro')
    G.register_macro('noret', lambda c: None)
    S.true(S.Circuit().noret() is None, 'result of the macro')
    G.unregister_macro('ent')
    S.raises(lambda: S.Circuit().ent, 'unregistered macro', (AttributeError,))
    S.true(S.Circuit().noret() is None, 'the other macro is kept')
    S.raises(lambda: G.unregister_macro('ent'), 'unregistering twice', (ValueError,))


def new_gate(S, native):
    """a registered gate class: constructor arguments, decomposition, dagger"""
    inject(S)
    G = S.bq.BlueqatGlobalSetting
    g = S.mod('gate')

    class Zip(g.TwoQubitGate):
        lowername = 'zip'

        def __init__(self, targets, a, b, tag=None, **kw):
            super().__init__(targets, (a, b), **kw)
            self.a, self.b, self.tag = a, b, tag

        def fallback(self, n):
            return self._make_fallback_for_control_target_iter(
                n, lambda c, t: [g.RXGate(c, self.a), g.CXGate((c, t)), g.RZGate(t, self.b)])

        def dagger(self):
            raise NotImplementedError
    G.register_gate('zip', Zip)
    a, b = S.real('a'), S.real('b')
    if native:
        def gate_zip(self, gate, ctx):
            for c, t in gate.control_target_iter(ctx.n_qubits):
                ctx = self.gate_rz(g.RZGate(t, gate.a), ctx)
            return ctx
        type(S.mod('circuit').BACKENDS['numpy']()).gate_zip = gate_zip
    c = S.Circuit().h[0].zip(a, b, tag='q')[(0, 1), (2, 0)]
    S.true(isinstance(c.ops[1], Zip) and c.ops[1].tag == 'q', 'class and keyword arguments')
    ops = [('h', (), 0)]
    for p, q in ((0, 2), (1, 0)):
        if native:
            ops += [('rz', (a,), q)]
        else:
            ops += [('rx', (a,), p), ('cx', (), (p, q)), ('rz', (b,), q)]
    same(S, c, ops, 3, 'registered gate')
    S.raises(lambda: G.register_gate('zip', Zip), 'duplicate gate', (ValueError,))
    G.register_gate('zip', g.CXGate, allow_overwrite=True)
    same(S, S.Circuit().zip[0, 1], [('cx', (), (0, 1))], 2, 'overwritten gate')
    G.unregister_gate('zip')
    S.raises(lambda: S.Circuit().zip, 'unregistered gate', (AttributeError,))
    same(S, c, ops, 3, 'existing circuit')


def jobs(tier):
    out = []
    names = list(PARTS)
    for x, y in itertools.product(names, names):
        out.append(('concat', dict(x=x, y=y)))
    for x in names:
        out.append(('self_concat', dict(x=x)))
    for n, l, k in ((3, 48, 12), (4, 60, 4), (5, 80, 16)) + (((6, 200, 40),) if tier == 'thorough' else ()):
        out.append(('long', dict(n=n, length=l, rot=n, pieces=k)))
    out.append(('fluent', {}))
    for p in STEPS:
        out.append(('copies', dict(prefix=[p], depth=3 if tier == 'quick' else 4)))
        for kw in (dict(copy_backends=False), dict(copy_default_backend=False),
                   dict(copy_backends=False, copy_default_backend=False)):
            out.append(('copies', dict(prefix=[p], depth=2, **kw)))
        out.append(('copies', dict(prefix=['run', p], depth=3)))
    out.append(('macro', {}))
    for native in (False, True):
        out.append(('new_gate', dict(native=native)))
    return out
