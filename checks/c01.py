"""C01: state-vector simulation applies exactly each gate's documented unitary."""
import itertools
from sym import ref
from .common import ops_of, add_ops, inject, vec, place

BOUNDS = {
    'quick': 'every gate of the gate set; registers of 1-4 qubits with all 2^n amplitudes symbolic, every placement of '
             'controls/targets; multi-target selections; 2-gate products over all gate pairs on 2 qubits; products of up to 1200 gates with 2-4 symbolic angles; '
             'registers of 9 and 12 qubits with 8 and of 17 qubits with 4 symbolic amplitudes; angles symbolic (unbounded reals)',
    'thorough': 'as quick with dense registers up to 5 qubits, 3-gate products, wide registers of 9, 12 and 17 qubits',
}
OUTSIDE = 'wider registers; floating-point rounding; angles given as complex numbers'


def single(S, name, target, n):
    inject(S)
    st = S.state(n)
    ops = ops_of(S, [(name, target)])
    c = S.Circuit(n).symstate(dict(st))[0]
    add_ops(c, ops)
    S.true(c.n_qubits == n, 'width')
    v = vec(S, c.run(), n)
    want = ref.dense(ref.run(S, ops, st, n), n)
    if name in ref.PHASE_ONLY:
        S.eq_phase(v, want, name)
    else:
        S.eqv(v, want, name)


def seq(S, spec, n):
    inject(S)
    st = S.state(n)
    ops = ops_of(S, spec)
    c = S.Circuit(n).symstate(dict(st))[0]
    add_ops(c, ops)
    v = vec(S, c.run(returns='statevector'), n)
    want = ref.dense(ref.run(S, ops, st, n), n)
    if any(g in ref.PHASE_ONLY for g, _ in spec):
        S.eq_phase(v, want, 'product')
    else:
        S.eqv(v, want, 'product')


def pairs(S, first, seconds, n):
    for second in seconds:
        seq_inline(S, [first, second], n)


def seq_inline(S, spec, n):
    try:
        inject(S)
    except ValueError:
        pass
    st = S.state(n)
    ops = ops_of(S, spec)
    c = S.Circuit(n).symstate(dict(st))[0]
    add_ops(c, ops)
    v = vec(S, c.run(), n)
    want = ref.dense(ref.run(S, ops, st, n), n)
    lab = '+'.join(g for g, _ in spec)
    if any(g in ref.PHASE_ONLY for g, _ in spec):
        S.eq_phase(v, want, lab)
    else:
        S.eqv(v, want, lab)


def wide(S, spec, n, idx):
    """sparse symbolic state on a wide register (index arithmetic)"""
    inject(S)
    st = S.state(n, idx=idx)
    ops = ops_of(S, spec)
    c = S.Circuit(n).symstate(dict(st))[0]
    add_ops(c, ops)
    v = c.run()
    S.true(len(v) == 1 << n, 'length')
    want = ref.run(S, ops, st, n)
    import numpy as np
    a = np.asarray(v)
    nz = [k for k in range(1 << n) if not (isinstance(a[k], (float, complex)) and a[k] == 0)]
    ks = sorted(set(nz) | set(want))
    S.eq_phase([a[k] for k in ks], [want.get(k, 0) for k in ks], 'wide') if any(g in ref.PHASE_ONLY for g, _ in spec) \
        else S.eq([(a[k], want.get(k, 0)) for k in ks], 'wide')


def from_zero(S, spec, n):
    """without any loaded state: the initial state is |0...0>"""
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    v = vec(S, c.run(), max(n, c.n_qubits))
    n = c.n_qubits
    S.eqv(v, ref.dense(ref.run(S, ops, {0: S.num(1)}, n), n), 'from zero')


def long_spec(n, length, angles, rot=0):
    """a long sequence that visits all kinds of gates and placements; only some of the angles are symbolic"""
    plain1 = [g for g, k in ref.ONE.items() if not k]
    plain2 = [g for g, k in ref.TWO.items() if not k]
    par = [g for g, k in {**ref.ONE, **ref.TWO}.items() if k == 1 and g not in ref.PHASE_ONLY]
    out = []
    for i in range(length):
        if i % (length // angles) == length // angles - 1:
            g = par[(i // (length // angles) + rot) % len(par)]
        elif i % 3 == 2:
            g = plain2[(i // 3 + rot) % len(plain2)]
        elif i % 11 == 4 and n > 2:
            g = 'ccx'
        else:
            g = [x for x in plain1 if x != 'h' or i % 7 == 0][(i + rot) % (len(plain1) - (i % 7 != 0))]
        k = 1 if g in ref.ONE else 2 if g in ref.TWO else 3
        t = place(k, n, 5 * i + rot)
        out.append((g, t[0] if k == 1 else t))
    return out


def long(S, n, length, angles, rot, idx, backend='numpy'):
    inject(S, backend)
    st = S.state(n, idx=idx)
    spec = long_spec(n, length, angles, rot)
    ops = ops_of(S, spec)
    c = S.Circuit(n).symstate(dict(st))[0]
    done = 0
    for upto in (length // 3, length - 1, length):
        # run again after each part has been appended
        add_ops(c, ops[done:upto])
        done = upto
        S.eqv(vec(S, c.run(backend=backend), n), ref.dense(ref.run(S, ops[:upto], st, n), n), '%d gates' % upto)


def jobs(tier):
    out = []
    big = tier == 'thorough'
    for g in ref.ONE:
        for n in (1, 2, 3) + ((4, 5) if big else ()):
            for q in range(n):
                out.append(('single', dict(name=g, target=q, n=n)))
        for t, n in [(slice(None), 3), ((2, 0), 3), ((slice(0, 2), 3), 4), (slice(None, None, -1), 2), ((-1, 0), 3),
                     ((0, 0), 2), (slice(1, None, 2), 4)]:
            out.append(('single', dict(name=g, target=t, n=n)))
    for g in ref.TWO:
        for n in (2, 3) + ((4,) if big else ()):
            for p in itertools.permutations(range(n), 2):
                out.append(('single', dict(name=g, target=p, n=n)))
        for t, n in [((0, 3), 4), ((2, 1), 4), (((0, 1), (2, 3)), 4), ((slice(0, 2), slice(2, 4)), 4), ((-1, 0), 3),
                     ((slice(None, -1), slice(1, None)), 3), (((0, 1), (1, 0)), 2)]:
            if isinstance(t[0], tuple):
                continue
            out.append(('single', dict(name=g, target=t, n=n)))
    for g in ref.THREE_ALL:
        for n in (3, 4) + ((5,) if big else ()):
            for p in list(itertools.permutations(range(n), 3)) + [(-1, 0, -2), (0, -2, 2), (1, 0, -1), (-1, -2, -3)]:
                if len({q % n for q in p}) == 3:
                    out.append(('single', dict(name=g, target=p, n=n)))
    firsts = [(g, 0) for g in ref.ONE] + [(g, (0, 1)) for g in ref.TWO] + [(g, (1, 0)) for g in ref.TWO]
    seconds = [(g, 1) for g in ref.ONE] + [(g, 0) for g in ('h', 'rx', 't', 'u3')] + \
              [(g, (1, 0)) for g in ref.TWO] + [(g, (0, 1)) for g in ('cx', 'crz', 'cphase')]
    for f in firsts:
        out.append(('pairs', dict(first=f, seconds=seconds, n=2)))
    for w, idx in [(9, (0, 1, 255, 256, 257, 300, 511, 511 - 256)), (12, (0, 1, 2048, 2049, 4095, 1024, 3000, 77))]:
        idx = tuple(sorted(set(idx)))
        for g in ref.ONE:
            out.append(('wide', dict(spec=[(g, w - 1), (g, 0), (g, w // 2)], n=w, idx=idx)))
        for g in ref.TWO:
            out.append(('wide', dict(spec=[(g, (w - 1, 0)), (g, (0, w - 1)), (g, (w // 2, w - 2))], n=w, idx=idx)))
        for g in ref.THREE_ALL:
            out.append(('wide', dict(spec=[(g, (w - 1, 0, 4)), (g, (0, w - 2, w - 1))], n=w, idx=idx)))
    if big:
        w, idx = 17, (0, 1, 65535, 65536, 65537, 131071, 100000, 32768)
        for g in ref.ONE:
            out.append(('wide', dict(spec=[(g, w - 1), (g, 0)], n=w, idx=idx)))
        for g in ref.TWO:
            out.append(('wide', dict(spec=[(g, (w - 1, 0)), (g, (0, w - 1))], n=w, idx=idx)))
        for g in ref.THREE_ALL:
            out.append(('wide', dict(spec=[(g, (w - 1, 0, 15)), (g, (0, w - 2, w - 1))], n=w, idx=idx)))
        for f in firsts:
            for s in firsts[::3]:
                out.append(('pairs', dict(first=f, seconds=[s, ('u3', 1), ('cu3', (1, 0)), ('ryy', (0, 1))], n=2)))
    else:
        w, idx = 17, (1, 65535, 65536, 131070)
        for g in ref.ONE:
            out.append(('wide', dict(spec=[(g, w - 1)], n=w, idx=idx)))
        for g in ref.TWO:
            out.append(('wide', dict(spec=[(g, (w - 1, 0) if len(g) % 2 else (0, w - 1))], n=w, idx=idx)))
        for g in ref.THREE_ALL:
            out.append(('wide', dict(spec=[(g, (w - 1, 0, 15))], n=w, idx=idx)))
    for n, length, angles, rot, idx in [(2, 60, 3, 1, (0, 3)), (3, 100, 3, 2, (5,)), (3, 400, 4, 3, (0,)), (2, 1200, 3, 5, (1,)),
                                        (4, 130, 2, 4, (9,))]:
        out.append(('long', dict(n=n, length=length, angles=angles, rot=rot, idx=idx)))
    for n in (0, 1, 2, 3):
        out.append(('from_zero', dict(spec=[('h', 0), ('rx', n), ('u3', 1), ('cx', (0, 2)), ('ryy', (1, 0))], n=n)))
    out.append(('from_zero', dict(spec=[], n=2)))
    return out
