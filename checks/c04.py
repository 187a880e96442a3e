"""C04: result caching never changes the result of a run."""
import numpy as np
from sym import ref, fakenumba
from .common import vec, Rand

BOUNDS = {
    'quick': 'all histories of 3 steps over 18 operations (run, run with shots, run ignoring the global phase, make_cache, '
             'append, widen, reset of a fresh qubit, copy, copy without backends, concatenate, concatenate in place, dagger, measure, switch between '
             'circuits, shared backend object on two circuits, replacing or removing a gate of the gate list, failing run), '
             'and (numpy) all 4-step histories of 8 of them; symbolic angles; fixed pattern of random draws, with symbolic draws in the two-step histories with a measurement; up to 6 qubits; numpy and numba simulators. After '
             'each history every circuit is run and compared with the reference, and again through the shared backend; 40 generated histories of 15-45 steps over all the operations (the operations fixed by a seed, a few angles symbolic)',
    'thorough': 'as quick with all 4-step histories of all operations and 5-step histories of 8 of them',
}
OUTSIDE = 'longer histories; mutating a gate object in place; concurrent use from several threads'
ASSUMPTIONS = ['numba is absent: compiled functions run as the Python they are written in']

ACTIONS = ['append', 'run', 'make_cache', 'copy', 'shared', 'measure', 'switch', 'add',          # the core
           'iadd', 'widen', 'dagger', 'shots', 'ignore_global', 'drop_last', 'replace_first', 'copy_plain', 'fail', 'reset']
CORE = 8


class Item:
    """a circuit with the operations it should have"""

    def __init__(self, c, ops, n):
        self.c, self.ops, self.n = c, ops, n


class World:
    def __init__(self, S, backend, symbolic=1000):
        self.symbolic = symbolic        # number of symbolic angles
        self.S, self.backend = S, backend
        mod = S.mod('circuit')
        self.shared = mod.BACKENDS[backend]()
        self.k = 0
        a = Item(S.Circuit(2), [], 2)
        self.put(a, 'h', 0)
        self.put(a, 'ry', 1)
        b = Item(S.Circuit(2), [], 2)
        self.put(b, 'phase', 0)
        self.put(b, 'h', 1)
        self.items = [a, b]
        self.cur = a
        self.check(b)

    def boom(self):
        class Boom(self.S.mod('gate').OneQubitGate):
            lowername = 'boom'

            def fallback(self, n_qubits):
                raise ValueError("cannot be run")
        return Boom(0, ())

    def put(self, it, g, t):
        args = ()
        if ref.NARGS.get(g):
            args = (self.S.angle('a%d' % self.k) if self.k < self.symbolic else self.S.pi * (self.k % 7) / 4,)
            self.k += 1
        w = getattr(it.c, g)
        (w(*args) if args else w)[t]
        it.ops.append((g, args, t))

    def run(self, it, shared=False, **k):
        return it.c.run(backend=self.shared if shared else self.backend, **k)

    def check(self, it, shared=False, label='run', **k):
        S = self.S
        mark = len(S.draws)
        v = self.run(it, shared, **k)
        st, _ = ref.simulate(S, it.ops, {0: S.num(1)}, it.n, S.draws[mark:])
        got = vec(S, v, it.n)
        want = ref.dense(st, it.n)
        S.eqv(got, want, label)
        v[...] = 7.0        # the array is the caller's

    def measured(self, it):
        return any(g in ('m', 'reset') for g, _, _ in it.ops)

    def step(self, act):
        S, it = self.S, self.cur
        if act == 'append':
            self.put(it, 'phase', 0)
            self.put(it, 'cx', (0, 1))
        elif act == 'widen':
            self.put(it, 'cx', (0, it.n))
            it.n += 1
        elif act == 'run':
            self.check(it)
        elif act == 'make_cache':
            it.c.make_cache(backend=self.backend)
        elif act in ('copy', 'copy_plain'):
            c = it.c.copy() if act == 'copy' else it.c.copy(copy_backends=False)
            self.cur = Item(c, list(it.ops), it.n)
            self.items.append(self.cur)
        elif act == 'add':
            o = self.items[1]
            self.cur = Item(it.c + o.c, it.ops + o.ops, max(it.n, o.n))
            self.items.append(self.cur)
        elif act == 'iadd':
            o = self.items[1]
            it.c += o.c
            it.ops = it.ops + o.ops
            it.n = max(it.n, o.n)
        elif act == 'dagger':
            c = it.c.dagger(ignore_measurement=self.measured(it), copy_backends=True)
            ops = [(g, tuple(-a for a in args), t) for g, args, t in reversed(it.ops) if g not in ('m', 'reset')]
            self.cur = Item(c, ops, it.n)
            self.items.append(self.cur)
        elif act == 'measure':
            self.put(it, 'm', 0)
        elif act == 'reset':
            # a qubit in |0>, whose reset is certain to find 0
            self.put(it, 'reset', it.n)
            it.n += 1
        elif act == 'shots':
            self.shots(it)
        elif act == 'ignore_global':
            self.run(it, ignore_global=True)        # must not leak into later runs
        elif act == 'switch':
            self.cur = self.items[(self.items.index(it) + 1) % len(self.items)]
        elif act == 'shared':
            self.check(it, True, 'run on a shared backend')
        elif act == 'drop_last':
            if it.ops:
                it.c.ops.pop()
                it.ops.pop()
        elif act == 'replace_first':
            g = S.mod('gate').XGate(1)
            if it.c.ops:
                it.c.ops[0] = g
                it.ops[0] = ('x', (), 1)
        elif act == 'fail':
            # a gate that cannot be run, after everything else; then it is taken away
            it.c.x[0].m[0]
            it.c.ops.append(self.boom())
            try:
                self.run(it)
            except Exception:
                pass
            else:
                S.true(False, 'a malformed gate was run')
            del it.c.ops[-3:]

    def shots(self, it):
        S = self.S
        mark = len(S.draws)
        r = self.run(it, shots=2)
        S.true(sum(r.values()) == 2, 'shots')
        draws = S.draws[mark:]
        per = len(draws) // 2
        S.true(per == sum(g in ('m', 'reset') for g, _, _ in it.ops), 'draws of a shot', '%d draws' % len(draws))
        want = {}
        for i in range(2):
            _, cregs = ref.simulate(S, it.ops, {0: S.num(1)}, it.n, draws[i * per:(i + 1) * per])
            key = ''.join(str(b) for b in cregs)
            want[key] = want.get(key, 0) + 1
        S.true(dict(r) == want, 'shots after a history', '%s, expected %s' % (dict(r), want))

    def finish(self):
        for it in self.items:
            self.check(it, label='run after the history')
        for it in self.items:
            self.check(it, True, 'run on a shared backend after the history')


def history(S, backend, prefix, depth, n_act, draws=(0.25, 0.75, 0.75)):
    S.fix_draws(draws)
    w = World(S, backend)
    acts = list(prefix)
    for a in acts:
        w.step(a)
    for k in range(len(acts), depth):
        w.step(S.pick('step%d' % k, ACTIONS[:n_act]))
    w.finish()


def long(S, backend, seed, length):
    """one long history, with many gates between the runs"""
    S.fix_draws((0.25, 0.75, 0.75, 0.5))
    r = Rand(seed)
    w = World(S, backend, 4)
    for k in range(length):
        act = r.pick(ACTIONS + ['append', 'run', 'make_cache', 'append', 'switch'])
        if act in ('widen', 'reset') and w.cur.n > 4:
            act = 'append'
        if act in ('copy', 'copy_plain', 'add', 'dagger') and (len(w.items) > 4 or len(w.cur.ops) > 60):
            act = 'switch'
        if act == 'iadd' and len(w.cur.ops) > 60:
            act = 'run'
        w.step(act)
        if act == 'append' and k % 5 == 0:
            for i in range(r(25)):
                w.put(w.cur, ('t', 'x', 'rz', 's', 'phase', 'y')[r(6)], r(w.cur.n))
            w.put(w.cur, 'cz', (0, 1))
    w.finish()


history.fakes = fakenumba.fakes
long.fakes = fakenumba.fakes


def jobs(tier):
    out = []
    big = tier == 'thorough'
    for b in ('numpy', 'numba'):
        for i in range(40 if not big else 160):
            out.append(('long', dict(backend=b, seed=i, length=15 + 10 * (i % 4))))
        for x in ACTIONS:
            for y in ACTIONS:
                out.append(('history', dict(backend=b, prefix=[x, y], depth=4 if big else 3, n_act=len(ACTIONS))))
        for x in ACTIONS[:CORE] if big or b == 'numpy' else ():
            for y in ACTIONS[:CORE]:
                out.append(('history', dict(backend=b, prefix=[x, y], depth=5 if big else 4, n_act=CORE)))
        for x in ACTIONS:
            out.append(('history', dict(backend=b, prefix=['measure', x], depth=2, n_act=0, draws=())))
            out.append(('history', dict(backend=b, prefix=[x, 'measure', 'run'], depth=3, n_act=0, draws=())))
            out.append(('history', dict(backend=b, prefix=['measure', 'reset', x, 'shots'], depth=4, n_act=0)))
            out.append(('history', dict(backend=b, prefix=['reset', x, 'measure', 'shots', 'shots'], depth=5, n_act=0)))
    return out
