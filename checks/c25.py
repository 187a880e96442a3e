"""C25: the variational driver optimises and reports the energy it states."""
import contextlib
import io
import types
import warnings
from sym import ref
from .common import vec
from .c13 import ham, expval, exact, snapc
from .c14 import marginal

BOUNDS = {
    'quick': 'user-written ansatz on 1-3 qubits with up to 4 parameters and QAOA, Hamiltonians of up to 4 terms with symbolic '
             'coefficients, objective evaluated at symbolic parameter vectors (twice, and after other vectors), exact and '
             'inexact samplers, default and own minimisers; all sequences of up to 3 requests for result probabilities; optimisations of tens of evaluations and result probabilities of up to 100 requests, 4-5 qubits, with few symbolic amplitudes',
    'thorough': 'as quick with all sequences of 4 requests',
}
OUTSIDE = 'how well the minimiser minimises; larger systems; rounding'
CALLS = []


def fakes(concrete):
    m = types.ModuleType('scipy.optimize')

    def minimize(f, x0, *a, **kw):
        CALLS.append((f, list(x0), a, kw))
        return types.SimpleNamespace(x=ANSWER['x'](f, list(x0)), fun=None)
    m.minimize = minimize
    return {'scipy.optimize': m}


ANSWER = {}


def ansatz(S, H, n, k):
    """parameters are rotation angles of a fixed circuit"""
    V = S.mod('vqe')

    class A(V.AnsatzBase):
        def get_circuit(self, params):
            c = S.Circuit(n)
            for i in range(k):
                (c.ry if i < n else c.rx)(params[i])[i % n]
                if n > 1 and i == n - 1:
                    c.cx[0, n - 1]
            return c
    return A(H, k)


def state(S, p, n, k):
    g = []
    for i in range(k):
        g.append(('ry' if i < n else 'rx', (p[i],), i % n))
        if n > 1 and i == n - 1:
            g.append(('cx', (), (0, n - 1)))
    return ref.run(S, g, {0: S.num(1)}, n)


def own(S):
    log = []
    inner = exact(S)

    def sampler(c, meas):
        meas = tuple(meas)
        log.append(meas)
        return inner(c, meas)
    return sampler, log


def objective(S, texts, n, k, how, verbose=False):
    """what the minimiser is given, and what the result holds"""
    V = S.mod('vqe')
    H, hr = ham(S, texts)
    a = ansatz(S, H, n, k)
    if how == 'sparse':
        a.make_sparse('csr')
    sampler, log = own(S) if how == 'own' else (V.non_sampling_sampler if how == 'package' else None, None)
    p, q = S.reals('p', k), S.reals('q', k)
    seen = []

    def minimizer(f, n_params):
        seen.append(n_params)
        for x in (p, q, p):
            val = f(list(x))
            S.eq([(val, expval(S, hr, state(S, x, n, k)))], 'objective is the energy')
        return q
    v = V.Vqe(a, minimizer, sampler)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = v.run(verbose) if verbose else v.run()
    S.true(seen == [k], 'the minimiser is called once with the number of parameters', str(seen))
    S.true(r.params is q or list(r.params) == q, 'parameters of the result')
    S.true(r.vqe is v, 'result knows its driver')
    S.eqv(vec(S, r.circuit.run(), n), ref.dense(state(S, q, n, k), n), 'circuit of the result')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        S.true(v.result is r, 'deprecated access to the last result')
    e = a.get_energy(r.circuit, exact(S))
    S.eq([(e, expval(S, hr, state(S, q, n, k)))], 'energy of the result')


def qaoa(S, texts, step, n, sampled):
    from .c15 import prescribed
    V = S.mod('vqe')
    H, hr = ham(S, texts)
    for c, _ in hr:
        S.assume_ne(c, 0)
    a = V.QaoaAnsatz(H, step)
    p = S.reals('p', 2 * step)
    st = ref.run(S, [('h', (), slice(None))], {0: S.num(1)}, n)
    st = prescribed(S, hr, None, p, step, st, n)

    def minimizer(f, k):
        S.true(k == 2 * step, 'number of parameters')
        S.eq([(f(list(p)), expval(S, hr, st))], 'objective is the energy')
        return p
    r = V.Vqe(a, minimizer, exact(S) if sampled else None).run()
    S.eq_phase(vec(S, r.circuit.run(), n), ref.dense(st, n), 'circuit of the result')


def default_minimizer(S, own_opts, k):
    """the default minimiser starts from random parameters and returns what the optimiser found"""
    CALLS.clear()
    V = S.mod('vqe')
    H, hr = ham(S, ('Z0', 'X0'))
    a = ansatz(S, H, 1, k)
    x = S.reals('x', k)

    def answer(f, x0):
        S.eq([(f(list(x)), expval(S, hr, state(S, x, 1, k)))], 'objective is the energy')
        return x
    ANSWER['x'] = answer
    opts = dict(method='COBYLA', tol=0.5)
    r = (V.Vqe(a, V.get_scipy_minimizer(**opts)) if own_opts else V.Vqe(a)).run()
    S.true(len(CALLS) == 1, 'the optimiser is called once')
    _, x0, pos, kw = CALLS[0]
    S.true(len(x0) == k, 'number of start parameters')
    S.eqv(x0, list(S.draws)[:k], 'start parameters are drawn at random')
    if own_opts:
        S.true(not pos and kw == opts, 'options handed over', str(kw))
    S.true(list(r.params) == x, 'parameters of the result')
    S.eqv(vec(S, r.circuit.run(), 1), ref.dense(state(S, x, 1, k), 1), 'circuit of the result')


default_minimizer.fakes = fakes

REQ = ['plain', 'rerun', 'sampler', 'kept-sampler', 'sampler-norerun', 'nostore', 'sampler-nostore', 'probs', 'most_common']


def requests(S, vs, prefix, depth):
    """result probabilities are computed when needed and otherwise reused"""
    V = S.mod('vqe')
    n, k = 2, 2
    H, hr = ham(S, ('Z0',))
    a = ansatz(S, H, n, k)
    p = [S.pi / 3, S.pi / 2]
    log = []
    st = state(S, p, n, k)
    count = [0]

    def sampler(tag):
        def f(c, meas):
            meas = tuple(meas)
            count[0] += 1
            S.true(meas == tuple(range(n)), 'all qubits are sampled', str(meas))
            S.true(c is circ, 'the circuit of the result is sampled')
            r = {(0, 0): 0.25, (1, 0): 0.5, (0, 1): 0.25 - count[0] / 1024, (1, 1): count[0] / 1024}
            log.append((tag, r))
            return r
        return f
    v = V.Vqe(a, lambda f, m: p, sampler('vqe') if vs else None)
    r = v.run()
    circ = r.circuit
    before = snapc(circ)
    kept = sampler('kept')
    log.clear()
    stored = None
    for i in range(depth):
        q = prefix[i] if i < len(prefix) else S.pick('req%d' % i, REQ)
        mark = len(log)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if q in ('plain', 'probs', 'most_common'):
                got = r.get_probs() if q == 'plain' else r.probs if q == 'probs' else dict(r.most_common(10))
                use, store, rerun = None, True, False
            elif q == 'rerun':
                got = r.get_probs(rerun=True)
                use, store, rerun = None, True, True
            elif q == 'sampler':
                got = r.get_probs(sampler('mine'))
                use, store, rerun = 'mine', True, True
            elif q == 'kept-sampler':
                # the same object every time: the one of the driver, if it has one
                got = r.get_probs(v.sampler or kept)
                use, store, rerun = 'vqe' if vs else 'kept', True, True
            elif q == 'sampler-norerun':
                got = r.get_probs(sampler('mine'), rerun=False)
                use, store, rerun = 'mine', True, False
            elif q == 'nostore':
                got = r.get_probs(rerun=True, store=False)
                use, store, rerun = None, False, True
            else:
                got = r.get_probs(sampler('mine'), store=False)
                use, store, rerun = 'mine', False, True
        calls = log[mark:]
        if stored is not None and not rerun:
            S.true(not calls, 'reused', q)
            want = stored
        else:
            tag = use or ('vqe' if vs else None)
            S.true([t for t, _ in calls] == ([tag] if tag else []), 'computed once by the right sampler', '%s: %s' % (q, calls))
            want = calls[0][1] if tag else marginal(S, st, range(n))
            if store:
                stored = want
        keys = sorted(set(want) | set(got))
        S.eqv([got.get(x, 0) for x in keys], [want.get(x, 0) for x in keys], 'probabilities')
        S.true(snapc(circ) == before, 'circuit unchanged')


def common(S, n, m, idx):
    """most likely outcomes first"""
    V = S.mod('vqe')
    pr = {tuple((k >> i) & 1 for i in range(n)): S.real('w%d' % k) for k in range(1 << n) if k in idx}
    r = V.VqeResult(None, [], None)
    class D:
        sampler = staticmethod(lambda c, meas: dict(pr))
    r = V.VqeResult(D, [], S.Circuit(n))
    t = r.most_common() if m is None else r.most_common(m)
    S.true(isinstance(t, tuple) and len(t) == min(len(pr), 1 if m is None else m), 'length', '%d' % len(t))
    keys = [b for b, _ in t]
    S.true(len(set(keys)) == len(keys) and set(keys) <= set(pr), 'distinct outcomes')
    S.eqv([w for _, w in t], [pr[b] for b in keys], 'values')
    for (_, x), (_, y) in zip(t, t[1:]):
        S.true(not S.cmp_lt(x, y), 'most likely first')
    for b in pr:
        if b not in keys and t:
            S.true(not S.cmp_lt(t[-1][1], pr[b]), 'nothing likelier is left out')


def many(S, texts, n, k, steps, how):
    """a long optimisation: the energy of every evaluation"""
    V = S.mod('vqe')
    H, hr = ham(S, texts, pos=True)
    a = ansatz(S, H, n, k)
    sampler = None
    if how == 'own':
        sampler, _ = own(S)
    elif how == 'sparse':
        a.make_sparse('csr')
    p = S.reals('p', k)

    def minimizer(f, m):
        for i in range(steps):
            x = list(p)
            x[i % k] = x[i % k] + S.pi / 2 * (i + 1)
            S.eq([(f(list(x)), expval(S, hr, state(S, x, n, k)))], 'objective at vector %d' % i)
        S.eq([(f(list(p)), expval(S, hr, state(S, p, n, k)))], 'objective at the answer')
        return p
    r = V.Vqe(a, minimizer, sampler).run()
    S.true(list(r.params) == p, 'parameters of the result')
    S.eqv(vec(S, r.circuit.run(), n), ref.dense(state(S, p, n, k), n), 'circuit of the result')


def common_wide(S, n, m):
    """many outcomes, one of unknown weight"""
    V = S.mod('vqe')
    N = 1 << n
    pr = {tuple((k >> i) & 1 for i in range(n)): (S.real('w') if k == 5 else S.num((k * 7) % N // 2) / N) for k in range(N)}

    class D:
        sampler = staticmethod(lambda c, meas: dict(pr))
    t = V.VqeResult(D, [], S.Circuit(n)).most_common(m)
    keys = [b for b, _ in t]
    S.true(len(t) == min(m, N) and len(set(keys)) == len(keys) and set(keys) <= set(pr), 'distinct outcomes')
    S.eqv([w for _, w in t], [pr[b] for b in keys], 'values')
    for (_, x), (_, y) in zip(t, t[1:]):
        S.true(not S.cmp_lt(x, y), 'most likely first')
    for b in pr:
        if b not in keys and t:
            S.true(not S.cmp_lt(t[-1][1], pr[b]), 'nothing likelier is left out')


def abstract(S):
    V = S.mod('vqe')
    P = S.mod('pauli')
    a = V.AnsatzBase(P.Z(0) + 1, 3)
    S.true(a.n_params == 3 and a.n_qubits == 1, 'recorded')
    S.raises(lambda: a.get_circuit([1, 2, 3]), 'no circuit by default', (NotImplementedError,))
    v = V.Vqe(a)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = v.result
    S.true(isinstance(r, V.VqeResult) and r.circuit is None and r.params is None, 'no result before a run')


abstract.fakes = fakes


def jobs(tier):
    J = []
    q = tier == 'quick'
    hs = [(('Z0',), 1), (('X0', 'Y0', ''), 1), (('Z0 Z1', 'X0', 'Y1'), 2), (('Y0 X1', 'Z0'), 2), (('X1', 'X1'), 2), (('X0 Y0 Z1', 'Z1'), 2),
          (('Z0 Z2', 'X1'), 3)]
    for h, n in hs:
        for k in (n, n + 1) if n < 3 else (2,):
            for how in ('default', 'sparse', 'own', 'package'):
                if how == 'package' and (n > 1 or k > 1):
                    continue
                J.append(('objective', dict(texts=h, n=n, k=k, how=how)))
    J.append(('objective', dict(texts=('Z0 Z1', 'X0'), n=2, k=2, how='default', verbose=True)))
    J.append(('objective', dict(texts=('Z0 Z1', 'X0'), n=2, k=2, how='own', verbose=True)))
    for s in (False, True):
        J.append(('qaoa', dict(texts=('Z0', 'Z0 Z1'), step=1, n=2, sampled=s)))
        J.append(('qaoa', dict(texts=('Z0 Z1',), step=1 if q else 2, n=2, sampled=s)))
    for o in (False, True):
        for k in (1, 2):
            J.append(('default_minimizer', dict(own_opts=o, k=k)))
    d = 3 if q else 4
    for vs in (False, True):
        for a in REQ:
            for b in REQ:
                J.append(('requests', dict(vs=vs, prefix=(a, b), depth=d)))
    for n, idx in ((1, (0, 1)), (2, (0, 1, 2, 3)), (2, (1, 2))):
        for m in (None, 0, 1, 2, 3, 10):
            J.append(('common', dict(n=n, m=m, idx=idx)))
    for h, n, k in ((('Z0', 'X0'), 1, 2), (('Z0 Z1', 'X0', 'Y1 X0'), 2, 2)):
        for how in ('default', 'own', 'sparse'):
            J.append(('many', dict(texts=h, n=n, k=k, steps=40 if q else 200, how=how)))
    for n, k in ((4, 4), (4, 5), (5, 1)):
        J.append(('objective', dict(texts=('Z0 Z3', 'X1', 'Y3 X0'), n=n, k=k, how='sparse') if n == 4 and k == 4 else
                  dict(texts=('Z3', 'Z0'), n=n, k=k, how='own')))
    for n in (3, 4, 5):
        for m in (1, 5, 12, 100):
            J.append(('common_wide', dict(n=n, m=m)))
    J.append(('abstract', {}))
    return J
