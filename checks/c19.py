"""C19: the just-in-time compiled simulator obeys the same rules as the default one.

numba is not installed here, so the compiled functions are executed as the Python they are written in, with
fixed-width integer arrays wrapping on store and the element accesses of every parallel loop recorded per
iteration (two iterations of one loop that touch the same amplitude, one of them writing, are reported).
"""
import itertools
import numpy as np
from sym import ref, fakenumba
from . import c01, c04, c05, c06
from .common import ops_of, add_ops, inject, vec

BOUNDS = {
    'quick': 'every gate of the gate set at every placement on dense symbolic registers of 1-3 qubits, slices, tuples, '
             'negative indices and repeated targets, all ordered pairs of gates on 2 qubits, registers of 9 and 12 qubits '
             'with 8 symbolic amplitudes, loops run forwards and backwards; measurement, reset, shot counting and kinds of '
             'returns as in C05 and C06; ignore_global; two-step histories of C04',
    'thorough': 'as quick with dense registers up to 5 qubits and a register of 17 qubits',
}
OUTSIDE = 'compilation by numba itself (typing, fastmath reassociation, threading); wider registers; rounding'
ASSUMPTIONS = ['numba is absent: compiled functions run as the Python they are written in',
               'random.random() returns any real in [0, 1), draws independent']
B = 'numba'


def clean(S):
    S.true(not fakenumba.RACES, 'parallel iterations are independent', '; '.join(fakenumba.RACES[:2]))
    fakenumba.RACES.clear()


class order:
    def __init__(self, o):
        self.o = o

    def __enter__(self):
        fakenumba.ORDER = self.o

    def __exit__(self, *a):
        fakenumba.ORDER = 'forward'


def gates(S, specs, n, loop='forward', idx=None):
    """each spec is run on an arbitrary state"""
    inject(S, B)
    for spec in specs:
        st = S.state(n, idx=idx)
        ops = ops_of(S, spec)
        c = S.Circuit(n).symstate(dict(st))[0]
        add_ops(c, ops)
        with order(loop):
            v = c.run(backend=B)
        clean(S)
        lab = '+'.join(g for g, _ in spec)
        S.true(len(v) == 1 << n, 'length', '%d' % len(v))
        want = ref.run(S, ops, st, n)
        a = np.asarray(v)
        nz = [k for k in range(1 << n) if not (isinstance(a[k], (float, complex)) and a[k] == 0)] if idx else range(1 << n)
        ks = sorted(set(nz) | set(want))
        S.eq_phase([a[k] for k in ks], [want.get(k, 0) for k in ks], lab)


def from_zero(S, spec, n):
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    v = vec(S, c.run(backend=B), max(n, c.n_qubits))
    n = c.n_qubits
    S.eqv(v, ref.dense(ref.run(S, ops, {0: S.num(1)}, n), n), 'from zero')
    clean(S)


def phase_free(S, spec, n, idx):
    """ignore_global: the same state up to a phase, first non-zero amplitude real and positive"""
    inject(S, B)
    st = S.state(n, idx=idx, norm=True)
    for k in idx:
        S.assume_ne(S.abs2(st[k]), 0)
    ops = ops_of(S, spec)
    c = S.Circuit(n).symstate(dict(st))[0]
    add_ops(c, ops)
    v = vec(S, c.run(backend=B, ignore_global=True), n)
    want = ref.dense(ref.run(S, ops, st, n), n)
    S.eq_phase(v, want, 'same state')
    w2 = vec(S, c.run(backend=B), n)
    S.eq_phase(w2, want, 'a later run')
    clean(S)


def born(S, **k):
    c05.born(S, backend=B, **k)
    clean(S)


def counts(S, **k):
    c06.counts(S, **k)
    clean(S)


def kinds(S, **k):
    c06.kinds(S, **k)
    clean(S)


def long(S, **k):
    c01.long(S, backend=B, **k)
    clean(S)


def many(S, **k):
    c06.many(S, **k)
    clean(S)


def default_shots(S, **k):
    c06.default_shots(S, **k)
    clean(S)


def history(S, **k):
    c04.history(S, backend=B, **k)
    clean(S)


for f in (gates, from_zero, phase_free, born, counts, kinds, long, many, default_shots, history):
    f.fakes = fakenumba.fakes


def jobs(tier):
    out = []
    big = tier == 'thorough'
    every = [(g, 1) for g in ref.ONE] + [(g, 2) for g in ref.TWO] + [(g, 3) for g in ref.THREE_ALL]
    for g, k in every:
        for n in range(k, 4 if not big else 6):
            specs = [[(g, p if k > 1 else p[0])] for p in itertools.permutations(range(n), k)]
            for i in range(0, len(specs), 12):
                out.append(('gates', dict(specs=specs[i:i + 12], n=n)))
            if n == 3:
                out.append(('gates', dict(specs=specs, n=n, loop='backward')))
        if k == 1:
            out.append(('gates', dict(specs=[[(g, slice(None))], [(g, (2, 0))], [(g, (-1, 0))], [(g, (0, 0))],
                                             [(g, slice(None, None, -2))]], n=3)))
        if k == 3:
            out.append(('gates', dict(specs=[[(g, (-1, 0, -2))], [(g, (0, -2, 2))], [(g, (-2, -1, -3))]], n=3)))
        if k == 2:
            out.append(('gates', dict(specs=[[(g, (slice(None, -1), slice(1, None)))], [(g, (-1, 0))]], n=3)))
            out.append(('gates', dict(specs=[[(g, (slice(0, 2), slice(2, 4)))], [(g, (3, 1))]], n=4,
                                      idx=(0, 3, 5, 10, 12, 15))))
    firsts = [(g, 0) for g in ref.ONE] + [(g, (0, 1)) for g in ref.TWO]
    seconds = [(g, 1) for g in ('h', 'y', 't', 'rx', 'u3')] + [(g, (1, 0)) for g in ref.TWO]
    for f in firsts:
        out.append(('gates', dict(specs=[[f, s] for s in seconds], n=2)))
    for w, idx in [(9, (0, 1, 255, 256, 257, 300, 511)), (12, (0, 1, 2048, 2049, 4095, 1024, 3000, 77))] + \
            ([(17, (0, 1, 65535, 65536, 65537, 131071, 100000, 32768))] if big else []):
        for g in ref.ONE:
            out.append(('gates', dict(specs=[[(g, w - 1), (g, 0), (g, w // 2)]], n=w, idx=idx)))
        for g in ref.TWO:
            out.append(('gates', dict(specs=[[(g, (w - 1, 0)), (g, (0, w - 1))], [(g, (w // 2, w - 2))]], n=w, idx=idx)))
        for g in ref.THREE_ALL:
            out.append(('gates', dict(specs=[[(g, (w - 1, 0, 4)), (g, (0, w - 2, w - 1))]], n=w, idx=idx)))
    for n, length, angles, rot, idx in [(2, 60, 3, 1, (0, 3)), (3, 300, 3, 2, (5,)), (4, 130, 2, 4, (9,))]:
        out.append(('long', dict(n=n, length=length, angles=angles, rot=rot, idx=idx)))
    for n in (0, 1, 2, 3):
        out.append(('from_zero', dict(spec=[('h', 0), ('rx', n), ('u3', 1), ('cx', (0, 2)), ('ryy', (1, 0))], n=n)))
    out.append(('from_zero', dict(spec=[], n=2)))
    for spec, n, idx in [([('h', 0)], 1, (0,)), ([('t', 0)], 1, (0, 1)), ([('z', 0)], 1, (1,)), ([('x', 1)], 2, (0, 3)),
                         ([('rz', 0), ('cx', (0, 1))], 2, (1, 2)), ([('s', 2)], 3, (4,))]:
        out.append(('phase_free', dict(spec=spec, n=n, idx=idx)))
    out += [(f, p) for f, p in c05.jobs('quick' if not big else tier, 'born') if f == 'born']
    out += c06.jobs(tier, B)
    for x in c04.ACTIONS:
        for y in c04.ACTIONS:
            out.append(('history', dict(prefix=[x, y], depth=2, n_act=0)))
    return out
