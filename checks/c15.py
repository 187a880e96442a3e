"""C15: the QAOA ansatz applies the prescribed alternation of evolutions."""
from sym import ref
from .common import inject, vec, ops_of, add_ops
from .c10 import ops, mat, madd, mmul
from .c12 import fold
from .c13 import ham, snapc
import itertools

BOUNDS = {
    'quick': 'commuting Hamiltonians of up to 4 terms on 1-3 qubits (ZZ, XX+YY+ZZ, single terms, constants, unsimplified) with '
             'symbolic coefficients, 1-3 steps, symbolic parameters as list, tuple and array, default and arbitrary initial '
             'states, default and custom mixers; refusal decided for pairs of terms with symbolic coefficients; chains and rings of 3-5 qubits and up to 10 steps with two symbolic parameters',
    'thorough': 'as quick with more Hamiltonians, 3 qubits and up to 4 steps',
}
OUTSIDE = 'larger systems and more steps; rounding'


def prescribed(S, hr, mix, params, step, st, n):
    """hr, mix: [(coefficient, letters)] of commuting terms / of the mixer terms in order"""
    for i in range(step):
        beta, gamma = params[i], params[step + i]
        for c, L in hr:
            st = ref.exp_pauli(S, L, c * gamma * S.pi * 2, st)
        if mix is None:
            for q in range(n):
                st = ref.app1(ref.mats(S)['rx'](beta * S.pi), q, st)
        else:
            for c, L in mix:
                st = ref.exp_pauli(S, L, c * beta * S.pi, st)
    return st


def pars(S, k, form):
    p = S.reals('p', k)
    if form == 'array':
        return p, S.mod('vqe').np.array(p)
    return p, {'list': list, 'tuple': tuple}[form](p)


def ansatz(S, texts, step, form, wide=0, init='state', mixer=None, idx=None, nz=False):
    inject(S)
    V, P = S.mod('vqe'), S.mod('pauli')
    H, hr = ham(S, texts)
    d = {}
    for c, L in hr:
        k = tuple(sorted(L.items()))
        d[k] = d.get(k, S.num(0)) + c
    if nz:
        for c in d.values():
            S.assume_ne(c, 0)
    need = max([q for k, c in d.items() if not c == 0 for q, _ in k] or [-1]) + 1
    if init != 'default':
        need = max([q for _, L in hr for q in L] or [-1]) + 1
    hr = [(c, dict(k)) for k, c in d.items() if not c == 0]
    m = need + wide             # width of the initial circuit
    n = max(m, need)
    if n == 0:
        S.true(V.QaoaAnsatz(H, step).get_circuit([0.5] * (2 * step)).n_qubits == 0, 'constant Hamiltonian')
        return
    kw = {}
    mr = None
    if init == 'state':
        st = S.state(m, idx=idx)
        kw['init_circuit'] = S.Circuit(m).symstate(dict(st))[0]
    elif init == 'gates':
        th = S.real('th')
        at = slice(None) if m == n else tuple(range(m))      # [:] means the final width
        kw['init_circuit'] = S.Circuit(m).ry(th)[at]
        st = ref.run(S, [('ry', (th,), at)], {0: S.num(1)}, n)
    else:
        st = ref.run(S, [('h', (), slice(None))], {0: S.num(1)}, n)
    if mixer is not None:
        M, mr = ham(S, mixer, 'm')
        kw['mixer'] = list(M.terms)
    hb = H.terms
    a = V.QaoaAnsatz(H, step, **kw) if step != 1 or form == 'tuple' else V.QaoaAnsatz(H, **kw)
    S.true(a.n_params == 2 * step, 'number of parameters', '%r' % a.n_params)
    S.true(a.n_qubits == n, 'width of the ansatz', '%d, expected %d' % (a.n_qubits, n))
    S.true(H.terms == hb, 'Hamiltonian unchanged')
    ic = kw.get('init_circuit')
    before = snapc(ic) if ic is not None else None
    p, given = pars(S, 2 * step, form)
    keep = list(given)
    c = a.get_circuit(given)
    S.true(all(x is y or x == y for x, y in zip(list(given), keep)) and len(given) == 2 * step, 'parameters unchanged')
    S.true(ic is None or (c is not ic and snapc(ic) == before), 'initial circuit unchanged')
    S.true(c.n_qubits == n, 'width', '%d, expected %d' % (c.n_qubits, n))
    want = prescribed(S, hr, mr, p, step, st, n)
    S.eq_phase(vec(S, c.run(), n), ref.dense(want, n), 'QAOA circuit')
    # a second circuit from the same ansatz, for the parameters in reverse
    r = list(reversed(p))
    c2 = a.get_circuit(list(r))
    S.true(c2 is not c, 'a new circuit')
    S.eq_phase(vec(S, c2.run(), n), ref.dense(prescribed(S, hr, mr, r, step, st, n), n), 'second QAOA circuit')
    S.true(ic is None or snapc(ic) == before, 'initial circuit unchanged')
    if ic is not None:
        S.eqv(vec(S, ic.run(), m), ref.dense(st, m), 'state of the initial circuit')


def wide(S, texts, step, m, sym, init='default', mixer=None):
    """larger systems, some of the parameters symbolic"""
    inject(S)
    V = S.mod('vqe')
    H, hr = ham(S, texts, pos=True)
    need = max(q for _, L in hr for q in L) + 1
    n = max(m, need)
    mr = None
    kw = {}
    if init == 'default':
        st = ref.run(S, [('h', (), slice(None))], {0: S.num(1)}, n)
    else:
        st = S.state(n, idx=init)
        kw['init_circuit'] = S.Circuit(m).symstate(dict(st))[0]
    if mixer is not None:
        M, mr = ham(S, mixer, 'm', pos=True)
        kw['mixer'] = list(M.terms)
    a = V.QaoaAnsatz(H, step, **kw)
    S.true(a.n_params == 2 * step and a.n_qubits == n, 'size of the ansatz')
    p = [S.real('p%d' % i) if i in sym else [0.5, 1.0, 0.25, -0.5][i % 4] for i in range(2 * step)]
    c = a.get_circuit(p)
    S.true(c.n_qubits == n, 'width')
    p = [S.num(x) for x in p]
    S.eq_phase(vec(S, c.run(), n), ref.dense(prescribed(S, hr, mr, p, step, st, n), n), 'QAOA circuit')


def refused(S, texts):
    V, P = S.mod('vqe'), S.mod('pauli')
    H, hr = ham(S, texts)
    terms = [t for t in H.simplify().terms]
    bad = False
    qs = {q: q for q in range(3)}
    for x, y in itertools.combinations(terms, 2):
        a, b = mat(S, x, qmap=qs), mat(S, y, qmap=qs)
        C = madd(mmul(S, a, b), mmul(S, b, a), -1)
        if not S.cmp_lt(S.norm2(C) / len(C), 1e-8):
            bad = True
            break
    if bad:
        S.raises(lambda: V.QaoaAnsatz(H, 1), 'non-commuting Hamiltonian refused', (ValueError,))
    else:
        a = V.QaoaAnsatz(H, 1)
        S.true(a.n_params == 2, 'commuting Hamiltonian accepted')
    S.true(V.AnsatzBase(H, 0).n_qubits == H.max_n() + 1, 'width')


def need_init(S):
    V, P = S.mod('vqe'), S.mod('pauli')
    c = S.real('c')
    H = c * P.Z(0) * P.Z(1)
    S.raises(lambda: V.QaoaAnsatz(H, 1, mixer=[1.0 * P.X(0)]), 'custom mixer without initial circuit', (ValueError,))
    S.raises(lambda: V.QaoaAnsatz(H, 1, None, [1.0 * P.X(0)]), 'custom mixer without initial circuit', (ValueError,))
    z = S.complex('z')
    if S.re(z) != z:
        S.raises(lambda: V.QaoaAnsatz(z * P.Z(0) * P.Z(1) + 1, 1), 'complex coefficient refused', (ValueError,))
        S.raises(lambda: V.QaoaAnsatz(H, 1, S.Circuit(2), [z * P.X(0)]), 'complex mixer coefficient refused', (ValueError,))


def jobs(tier):
    J = []
    q = tier == 'quick'
    hs = [('Z0',), ('Z0 Z1',), ('Z0', 'Z1', 'Z0 Z1'), ('X0 X1', 'Y0 Y1', 'Z0 Z1'), ('Z0', ''), ('X0 Y1',), ('Y0',),
          ('Z0 Z1', 'Z0 Z1', 'Z1'), ('X0 Y0 Z1', 'Z0'), ('Z1',)]
    three = [h for h in hs if len(h) > 2]
    for h in hs:
        J.append(('ansatz', dict(texts=h, step=1, form='list', init='default')))
        for form in ('array', 'tuple'):
            J.append(('ansatz', dict(texts=h, step=1, form=form, idx=(0, 3) if h in three else None)))
        if h not in three:
            for form in ('list', 'array', 'tuple'):
                J.append(('ansatz', dict(texts=h, step=2, form=form, init='default', nz=True)))
    for h in hs[:4]:
        J.append(('ansatz', dict(texts=h, step=1, form='list', init='gates')))
        for m in [('X0',), ('X0 X1', 'Y0 Y1'), ('Y1', 'X0', 'Z0 X1')]:
            J.append(('ansatz', dict(texts=h, step=1, form='list', wide=1 if h == ('Z0',) else 0, mixer=m, idx=(0, 3), nz=h in three)))
    for h, w, m in [(('Z0',), 1, ('X0 X1',)), (('Z0',), 1, ('X0', 'Z1')), (('Z0 Z1',), 0, ('Y1', 'X0')), (('Z0 Z1',), 1, ('X2',))]:
        J.append(('ansatz', dict(texts=h, step=2, form='array', wide=w, mixer=m, init='gates', nz=True)))
    for h in [('Z0',), ('Z0 Z1',), ('X0', '')]:
        J.append(('ansatz', dict(texts=h, step=3, form='list', init='default', nz=True)))
    J.append(('ansatz', dict(texts=('Z0',), step=1, form='list', wide=1)))
    J.append(('ansatz', dict(texts=('Z0 Z1',), step=1, form='list', wide=1, idx=(0, 3, 6))))
    J.append(('ansatz', dict(texts=('Z0 Z1', 'Z1'), step=1, form='array', wide=1, idx=(0, 5), nz=True)))
    for h, init, mx in [(('Z0 Z1',), 'state', None), (('Z0 Z1', 'Z1'), 'gates', None), (('Z1',), 'gates', ('X0 X1',)),
                        (('Z0 Z2', 'Z1'), 'gates', None)]:
        J.append(('ansatz', dict(texts=h, step=1, form='list', wide=-1, init=init, mixer=mx, nz=True)))
    J.append(('ansatz', dict(texts=('Z0 Z1 Z2', 'Z2'), step=1, form='list', idx=(0, 5), nz=True)))
    J.append(('ansatz', dict(texts=('Z0 Z2',), step=2, form='array', init='default', nz=True)))
    ring = lambda n: tuple('Z%d Z%d' % tuple(sorted((i, (i + 1) % n))) for i in range(n))
    for t, st, m, sym, kw in [
            (ring(4), 1, 4, (0, 1), {}), (ring(4) + ('Z3',), 1, 5, (0,), dict(init=(0, 5, 14))),
            (ring(5), 1, 5, (1,), dict(init=(0, 9))), (('Z0 Z1', 'Z1'), 1, 4, (0,), dict(init=(0, 11))),
            (('X0 X1 X2 X3', 'Z0 Z1 Z2 Z3', 'Y0 Y1'), 1, 4, (0, 1), dict(init=(0, 6))), (('Z5 Z0', 'Z3'), 1, 6, (0, 1), dict(init=(0, 41))),
            (('Z0 Z1',), 4, 2, (1, 6), dict(init=(0, 3))), (('Z0',), 6, 1, (2, 9), dict(init=(0, 1))), (('Z0 Z2', 'Z1'), 3, 3, (0, 3), dict(init=(0, 5))),
            (ring(4), 2, 4, (0, 3), dict(init=(0, 5), mixer=('X0 X1', 'Y2', 'X3 Z0'))), (('Z0',), 10, 1, (4, 13), dict(init=(0, 1)))]:
        J.append(('wide', dict(texts=t, step=st, m=m, sym=sym, **kw)))
    if not q:
        for h in [('Z0 Z1', 'Z1 Z2', 'Z0 Z2'), ('Z0 Z1 Z2', 'Z2', 'Z0 Z1'), ('X0 X1 X2', 'Z0 Z1'), ('Y0 Y2', 'X1')]:
            J.append(('ansatz', dict(texts=h, step=1, form='list', init='default', nz=True)))
            J.append(('ansatz', dict(texts=h, step=1, form='array', idx=(0, 5), nz=True)))
        for h in hs:
            J.append(('ansatz', dict(texts=h, step=2, form='array', init='default')))
            J.append(('ansatz', dict(texts=h, step=2, form='array', idx=(0, 1) if h in (('Z0',), ('Y0',), ('Z0', '')) else (0, 3), nz=True)))
            for m in [('X0',), ('X0 X1', 'Y0 Y1'), ('Y1', 'X0', 'Z0 X1')]:
                J.append(('ansatz', dict(texts=h, step=1, form='list', wide=1 if h in (('Z0',), ('Y0',), ('Z0', '')) else 0, mixer=m)))
        J.append(('ansatz', dict(texts=('Z0 Z1',), step=4, form='array', init='default', nz=True)))
    for h in [('X0', 'Z0'), ('X0 X1', 'Z0 Z1'), ('X0', 'Z0 Z1'), ('X0 Y1', 'Y0 X1', 'Z0'), ('Z0', 'Z1', 'X1'), ('X0', 'X0', 'Y1'),
              ('Y0 Z0', 'Z0'), ('Y0', 'Y1', 'Y2'), (), ('', 'X0'), ('X0 Z1', 'Z0 X2')]:
        J.append(('refused', dict(texts=h)))
    J.append(('need_init', {}))
    return J
