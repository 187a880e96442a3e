"""C26: Boltzmann-machine training uses exact activations and sample averages."""
import itertools
import numpy as np

BOUNDS = {
    'quick': 'layer lists of 1-4 layers of 0-3 units with random and given initial weights; activations and data matrices of '
             'machines with up to 3 visible and 3 hidden units, every weight and visible value symbolic; averages over 1-4 '
             'samples, all samples; training of 1-2 epochs with symbolic rates, all data of up to 2 rows of bits, every '
             'choice of row and every sample; machines of up to 6 visible and 5 hidden units, up to 110 samples and 4 epochs with the choices of rows and samples fixed',
    'thorough': 'as quick with up to 5 samples and 3 epochs',
}
OUTSIDE = 'samples drawn after long annealing (the annealer is C17); larger machines; rounding'
ASSUMPTIONS = ['exp is an uninterpreted positive function', 'np.random draws: integers uniform over the stated range, reals in [0, 1)',
               'every draw of a training step is made once: the row of data and the initial spins, in either order']


def rows(m):
    return [list(r) for r in m]


def layers(S, arr, w, call):
    wq = S.mod('wq')
    d0 = len(S.draws)
    if w == 'sym':
        w = S.real('w')
        S.assume_ne(w, 0)
    if call == 'setRBM':
        o = wq.Opt()
        o.setRBM(list(arr))
        Q = o.qubo
        S.true(o.RBMvisible == arr[0] and o.RBMhidden == arr[1], 'numbers of units')
    else:
        Q = wq.dbms(list(arr)) if w is None else wq.dbms(list(arr), w)
    n = sum(arr)
    S.true(len(Q) == n and all(len(r) == n for r in Q), 'shape')
    layer = [k for k, m in enumerate(arr) for _ in range(m)]
    Q = rows(Q)
    used = []
    for i, j in itertools.product(range(n), repeat=2):
        if i == j or layer[j] == layer[i] + 1:
            if w is None:
                used.append(Q[i][j])
            elif i == j:
                S.eq([(Q[i][j], 0.5)], 'bias %d' % i)
            else:
                S.eq([(Q[i][j], w)], 'weight %d-%d' % (i, j))
        else:
            S.eq([(Q[i][j], 0)], 'no link %d-%d' % (i, j))
    if w is None:
        ds = list(S.draws[d0:])
        S.true(len(ds) == len(used), 'one random draw per bias and weight', '%d for %d' % (len(ds), len(used)))
        # every entry is a draw of its own
        if S.concrete:
            S.true(sorted(map(float, ds)) == sorted(map(float, used)), 'entries are the draws')
        else:
            left = [str(S.num(d)) for d in ds]
            for u in used:
                S.true(str(S.num(u)) in left, 'every entry is a draw of its own', str(u))
                left.remove(str(S.num(u)))


def logistic(S, x):
    return 1 / (1 + S.exp(-x))


def machine(S, v, h, full=False):
    n = v + h
    return [[S.real('W%d%d' % (i, j)) if i == j or full and j > i or i < v <= j else 0.0 for j in range(n)] for i in range(n)]


def given(S, Q, kind):
    if kind == 'list':
        return [list(r) for r in Q]
    if S.concrete:
        return np.array(Q, dtype=float)
    return S.mod('wq').np.array(Q)


def hidden(S, Q, x):
    v, n = len(x), len(Q)
    out = []
    for i in range(v, n):
        t = Q[i][i]
        for j in range(v):
            t = t + Q[j][i] * x[j]
        out.append(logistic(S, t))
    return out


def sigmoid(S):
    wq = S.mod('wq')
    x = S.real('x')
    S.eq([(wq.sigm(x), logistic(S, x))], 'logistic function')


def activation(S, v, h, kind, bits, full=False):
    wq = S.mod('wq')
    Q = machine(S, v, h, full)
    x = [S.choose('x%d' % i, 2) if bits else S.real('x%d' % i) for i in range(v)]
    arg = list(x)
    got = wq.rbm_hmodel(arg, given(S, Q, kind))
    S.true(len(got) == h, 'one activation per hidden unit')
    S.eq(list(zip(got, hidden(S, Q, x))), 'activations')
    S.true(len(arg) == v, 'the visible values are unchanged')


def data_matrix(S, x, hid):
    v, n = len(x), len(x) + len(hid)
    u = list(x) + list(hid)
    return [[u[i] if i == j else u[i] * u[j] if i < v <= j else 0 for j in range(n)] for i in range(n)]


def data(S, v, h, kind, bits):
    wq = S.mod('wq')
    Q = machine(S, v, h)
    x = [S.choose('x%d' % i, 2) if bits else S.real('x%d' % i) for i in range(v)]
    got = wq.rbm_data_qubo(list(x), given(S, Q, kind))
    want = data_matrix(S, x, hidden(S, Q, x))
    S.true(len(got) == v + h and all(len(r) == v + h for r in got), 'shape')
    for i, j in itertools.product(range(v + h), repeat=2):
        S.eq([(got[i][j], want[i][j])], 'entry %d,%d' % (i, j))


def model_matrix(S, v, h, samples):
    n, k = v + h, len(samples)
    return [[S.num(sum(s[i] for s in samples)) / k if i == j else S.num(sum(s[i] * s[j] for s in samples)) / k if i < v <= j else 0
             for j in range(n)] for i in range(n)]


def bits_of(picks, n):
    return [list(picks[k:k + n]) for k in range(0, len(picks), n)]


def model(S, v, h, shots, kind, deep=0, picks=None):
    """the temperature starts at the target: samples are the random initial states"""
    wq = S.mod('wq')
    if picks:
        S.fix_picks(picks)
    o = wq.Opt()
    Q = machine(S, v, h + deep)
    o.qubo = given(S, Q, kind)
    o.RBMvisible, o.RBMhidden = v, h
    p0 = len(S.picks)
    got = o.rbm_model_qubo(targetT=o.Ts) if shots is None else o.rbm_model_qubo(shots=shots, targetT=o.Ts)
    pk = S.picks[p0:]
    shots = shots or 100
    n = v + h + deep
    S.true(len(pk) == n * shots, 'samples', '%d draws' % len(pk))
    want = model_matrix(S, v, h + deep, bits_of(pk, n))
    S.true(len(got) == n and all(len(r) == n for r in got), 'shape')
    for i, j in itertools.product(range(n), repeat=2):
        # units beyond the first hidden layer are not linked with the visible ones
        if i != j and j >= v + h:
            want[i][j] = 0
        S.eq([(got[i][j], want[i][j])], 'entry %d,%d' % (i, j))
    S.eqv(rows(o.qubo), Q, 'the machine is unchanged')


def train(S, v, h, n_data, shots, epochs, kind, rates=True, picks=None):
    wq = S.mod('wq')
    if picks:
        S.fix_picks(picks)
    o = wq.Opt()
    Q = machine(S, v, h)
    o.qubo = given(S, Q, kind)
    o.RBMvisible, o.RBMhidden = v, h
    D = [[(r * 3 + i * i) % 2 if picks and (r or i) else S.choose('d%d%d' % (r, i), 2) for i in range(v)] for r in range(n_data)]
    given_d = [list(r) for r in D]
    kw = {}
    a, e = 0.9, 0.1
    if rates:
        a, e = S.real('alpha'), S.real('epsilon')
        kw = dict(alpha=a, epsilon=e)
    p0 = len(S.picks)
    r = o.fit(given_d, shots=shots, targetT=o.Ts, epoch=epochs, verbose=False, **kw)
    pk = S.picks[p0:]
    per = 1 + shots * (v + h)
    S.true(len(pk) == epochs * per, 'draws: a row of data and the samples', '%d' % len(pk))
    S.true(given_d == D, 'the data are unchanged')
    for k in range(epochs):
        p = pk[k * per:(k + 1) * per]
        x = [1 - b for b in D[p[0]]]
        dm = data_matrix(S, x, hidden(S, Q, x))
        mm = model_matrix(S, v, h, bits_of(p[1:], v + h))
        Q = [[Q[i][j] * a + (dm[i][j] - mm[i][j]) * e for j in range(v + h)] for i in range(v + h)]
    got = o.qubo
    S.true(len(got) == v + h and all(len(r) == v + h for r in got), 'shape')
    for i, j in itertools.product(range(v + h), repeat=2):
        S.eq([(got[i][j], Q[i][j])], 'entry %d,%d' % (i, j))


def whole(S, arr, shots):
    """set up, anneal, average"""
    wq = S.mod('wq')
    S.fix_draws([0.25, 0.5, 0.75, 0.1, 0.9])
    S.fix_picks([0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0])
    o = wq.Opt()
    o.setRBM(list(arr))
    n = sum(arr)
    got = o.rbm_model_qubo(shots=shots, targetT=4)
    S.true(len(got) == n, 'shape')
    for i, j in itertools.product(range(n), repeat=2):
        if not (i == j or i < arr[0] <= j < arr[0] + arr[1]):
            S.eq([(got[i][j], 0)], 'no link %d-%d' % (i, j))
    S.true(len(o.E) == shots, 'one annealing run per sample')


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for arr in [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (2, 2, 1), (1, 2, 3), (1, 1, 1, 2), (2, 0, 1), (4, 4), (3,), (2, 1, 3, 1), (1, 3, 2, 2), (3, 1, 2, 1, 3), (0, 2, 1, 2)]:
        for w in (None, 'sym', 0.5, 1):
            J.append(('layers', dict(arr=arr, w=w, call='dbms')))
        if len(arr) > 1:
            J.append(('layers', dict(arr=arr, w=None, call='setRBM')))
    J.append(('sigmoid', {}))
    for v in (1, 2, 3):
        for h in (1, 2, 3):
            for kind in ('list', 'array'):
                for bits in (False, True):
                    J.append(('activation', dict(v=v, h=h, kind=kind, bits=bits)))
                    J.append(('data', dict(v=v, h=h, kind=kind, bits=bits)))
            J.append(('activation', dict(v=v, h=h, kind='array', bits=False, full=True)))
    for v, h in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for shots in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
            if (v + h) * shots <= (10 if big else 8):
                J.append(('model', dict(v=v, h=h, shots=shots, kind='array' if shots % 2 else 'list')))
    J.append(('model', dict(v=1, h=1, deep=1, shots=1, kind='array')))
    J.append(('model', dict(v=1, h=1, deep=1, shots=2, kind='list')))
    J.append(('model', dict(v=2, h=1, deep=1, shots=2, kind='array')))
    for v, h in ((1, 1), (2, 1), (1, 2)):
        for nd in (1, 2):
            for shots in (1, 2) if v + h < 3 else (1,) if nd > 1 else (1, 2):
                J.append(('train', dict(v=v, h=h, n_data=nd, shots=shots, epochs=1, kind='list' if nd > 1 else 'array')))
    J.append(('train', dict(v=1, h=1, n_data=2, shots=1, epochs=2, kind='array')))
    J.append(('train', dict(v=1, h=1, n_data=1, shots=2, epochs=2, kind='array')))
    J.append(('train', dict(v=1, h=2, n_data=1, shots=2, epochs=1, kind='array', rates=False)))
    if big:
        J.append(('train', dict(v=1, h=1, n_data=1, shots=1, epochs=3, kind='array')))
    for arr in ((2, 1), (2, 2), (1, 1, 1), (2, 1, 2), (1, 2, 1)):
        for shots in (2, 3):
            J.append(('whole', dict(arr=arr, shots=shots)))
    pk = (0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0)
    for v, h, sh in ((5, 4, 7), (3, 3, 120), (8, 1, 30), (1, 1, None), (2, 3, None)):
        J.append(('model', dict(v=v, h=h, shots=sh, kind='array', picks=pk)))
    for v, h, nd, sh, ep in ((3, 3, 2, 20, 1), (4, 2, 2, 5, 2), (2, 2, 2, 3, 4), (6, 5, 2, 110, 1)):
        J.append(('train', dict(v=v, h=h, n_data=nd, shots=sh, epochs=ep, kind='array', picks=pk)))
    return J
