"""C17: annealing accepts moves by the true energy change and reports true energies."""
import itertools
import numpy as np

BOUNDS = {
    'quick': 'simulated annealing: Ising and QUBO models of 1-3 spins with every coefficient symbolic, all initial states, '
             'all choices of the spin to flip and every acceptance draw symbolic, up to 3 proposals in 1-2 sweeps, 1-2 shots, '
             'exact model energies as oracle; sampler="fast" and the default schedule with a fixed pattern of draws '
             '(100 and 1000 proposals per sweep). Simulated quantum annealing: 1-2 spins, 1-3 trotter slices, symbolic model '
             'and transverse field, up to 2 proposals in 1-2 sweeps; 4-slice and 3-spin runs with a fixed pattern of draws; 7 and 12 spins, 5 spins in 3 slices, 2 spins in 8 slices with a fixed pattern of draws',
    'thorough': 'as quick with up to 4 proposals, 3 spins in the quantum annealer and 4 slices',
}
OUTSIDE = 'longer runs with symbolic draws; draws that equal exp(-dE/T) exactly; rounding'
ASSUMPTIONS = ['each proposal takes the drawn integers in the order they are drawn (initial spins, then flipped positions)',
               'exp, log and tanh are uninterpreted beyond positivity and log of products',
               'np.random draws: integers uniform over the stated range, reals in [0, 1)']


def energy(q, J):
    """Ising energy: fields on the diagonal, couplings above it"""
    n = len(q)
    t = 0
    for i in range(n):
        t = t + J[i][i] * q[i]
        for j in range(i + 1, n):
            t = t + J[i][j] * (q[i] * q[j])
    return t


def sqa_energy(S, q, J, T, G):
    P = len(q)
    t = 0
    for p in range(P):
        t = t + energy(q[p], J) / P
    L = -S.log(S.tanh(G / T / P))
    w = sum(q[p][i] * q[(p + 1) % P][i] for p in range(P) for i in range(len(q[0])))
    return t - L * w * (T / 2)


class Draws:
    """the acceptance draws of a run, under one convention of when a draw is made"""

    def __init__(self, S, draws, mode):
        self.S, self.d, self.mode, self.k = S, draws, mode, 0

    def next(self):
        if self.k >= len(self.d):
            raise IndexError
        self.k += 1
        return self.d[self.k - 1]

    def accept(self, dE, T):
        S = self.S
        if self.mode == 'always':
            u = self.next()
            return S.cmp_lt(dE, 0) or S.cmp_lt(u, S.exp(-dE / T))
        if S.cmp_lt(dE, 0) or (self.mode == 'unless improving or equal' and not S.cmp_lt(0, dE)):
            return True
        return S.cmp_lt(self.next(), S.exp(-dE / T))


MODES = ('unless improving', 'unless improving or equal', 'always')


def follow(S, draws, sim):
    """simulate with the convention that uses up exactly the draws made"""
    for mode in MODES:
        d = Draws(S, draws, mode)
        try:
            r = sim(d)
        except IndexError:
            continue
        if d.k == len(draws):
            return r
    S.true(False, 'acceptance draws', 'the proposals of the run use another number of draws than the %d made' % len(draws))


def ising(S, n):
    """upper triangular fields and couplings"""
    return [[S.real('J%d%d' % (i, j)) if j >= i else 0.0 for j in range(n)] for i in range(n)]


def qubo(S, n):
    return [[S.real('Q%d%d' % (i, j)) for j in range(n)] for i in range(n)]


def qubo_energy(Q, q):
    b = [(x + 1) // 2 for x in q]
    t = 0
    for i, j in itertools.product(range(len(q)), repeat=2):
        if b[i] and b[j]:
            t = t + Q[i][j]
    return t


def schedule(T, stop, R):
    out = []
    while T > stop:
        out.append(T)
        T *= R
    return out


def sa(S, n, model, ite, Ts, stop, R, shots=1, sampler='normal', draws=None, picks=None, call='run'):
    wq = S.mod('wq')
    if draws:
        S.fix_draws(draws)
    if picks:
        S.fix_picks(picks)
    o = wq.Opt()
    if model == 'ising':
        J = ising(S, n)
        o.J = [list(r) for r in J]
        E = lambda q: energy(q, J)
    elif model == 'offset':
        J = ising(S, n)
        o.J = [list(r) for r in J]
        o.ep = ep = S.real('ep')
        E = lambda q: energy(q, J) + ep
    else:
        Q = qubo(S, n)
        o.qubo = [list(r) for r in Q]
        E = lambda q: qubo_energy(Q, q)
    if ite is not None:
        o.ite = ite
    if Ts is not None:
        o.Ts = Ts
    if R is not None:
        o.R = R
    o.E = ['old']
    kw = {} if stop is None else dict(targetT=stop)
    p0, d0 = len(S.picks), len(S.draws)
    per = 100 if sampler == 'fast' else o.ite
    temps = schedule(o.Ts, 0.02 if stop is None else stop, 0.75 if sampler == 'fast' else o.R)
    need = shots * (n + per * len(temps))
    S.limit_picks(need)
    got = o.sa(shots=shots, sampler=sampler) if call == 'sa' else o.run(shots=shots, sampler=sampler, **kw)
    pk = S.picks[p0:]
    S.true(len(pk) == need, 'one random spin per site and one position per proposal', '%d for %d' % (len(pk), need))

    def sim(d):
        it = iter(pk)
        Es, states = [], []
        for _ in range(shots):
            q = [2 * next(it) - 1 for _ in range(n)]
            e = [E(q)]
            for T in temps:
                for _ in range(per):
                    x = next(it)
                    new = list(q)
                    new[x] = -q[x]
                    if d.accept(E(new) - E(q), T):
                        q = new
                e.append(E(q))
            Es.append(e)
            states.append([(x + 1) // 2 for x in q])
        return Es, states
    Es, states = follow(S, S.draws[d0:], sim)
    if shots == 1:
        Es, states = Es[0], states[0]
    S.true(got == states, 'final bits', '%s, expected %s' % (got, states))
    S.eqv(o.E, Es, 'recorded energies')


def sqa(S, n, P, model, ite, T, Gf, R, draws=None, picks=None):
    wq = S.mod('wq')
    if draws:
        S.fix_draws(draws)
    if picks:
        S.fix_picks(picks)
    o = wq.Opt()
    if model == 'ising':
        J = ising(S, n)
        o.J = [list(r) for r in J]
        off = 0
    else:
        # the energies of the Ising model of a QUBO are those of the QUBO
        Q = qubo(S, n)
        o.qubo = [list(r) for r in Q]
    g = S.posreal('G', 0.2, 3.0)
    o.Gs, o.Gf, o.R, o.Tf, o.tro, o.ite = g, g * Gf, R, T, P, ite
    p0, d0 = len(S.picks), len(S.draws)
    fields = []
    G, f = g, 1.0
    while f > Gf:
        fields.append(G)
        G, f = G * R, f * R
    need = P * n + 2 * ite * len(fields)
    S.limit_picks(need)
    got = o.sqa()
    pk = S.picks[p0:]
    S.true(len(pk) == need, 'one random spin per site and slice, one position and slice per proposal', '%d for %d' % (len(pk), need))

    def total(q, G):
        if model == 'ising':
            return sqa_energy(S, q, J, T, G)
        z = [[0.0] * n for _ in range(n)]
        t = sqa_energy(S, q, z, T, G)
        for row in q:
            t = t + qubo_energy(Q, row) / P
        return t

    def sim(d):
        it = iter(pk)
        q = [[2 * next(it) - 1 for _ in range(n)] for _ in range(P)]
        e = [total(q, g)]
        for G in fields:
            for _ in range(ite):
                x, y = next(it), next(it)
                new = [list(r) for r in q]
                new[y][x] = -new[y][x]
                if d.accept(total(new, G) - total(q, G), T):
                    q = new
            e.append(total(q, G))
        return e, q
    e, q = follow(S, S.draws[d0:], sim)
    S.true(np.asarray(got).tolist() == q, 'final spins', '%s, expected %s' % (np.asarray(got).tolist(), q))
    S.eqv(o.E, e, 'recorded energies')


def tally(S, n, k):
    """counter of bit lists"""
    wq = S.mod('wq')
    rows = [[S.choose('b%d_%d' % (i, j), 2) for j in range(n)] for i in range(k)]
    got = dict(wq.counter(rows))
    want = {}
    for r in rows:
        s = ''.join(map(str, r))
        want[s] = want.get(s, 0) + 1
    S.true(got == want, 'tally', '%s, expected %s' % (got, want))


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for m in ('ising', 'offset', 'qubo'):
        for n in (1, 2, 3):
            for ite, sweeps in ((1, 1), (2, 1), (1, 2)) + (((3, 1),) if big or n < 3 else ()) + (((4, 1), (2, 2)) if big and n < 3 else ()):
                J.append(('sa', dict(n=n, model=m, ite=ite, Ts=4.0, stop=2.0 if sweeps == 1 else 1.0, R=0.5)))
        J.append(('sa', dict(n=2, model=m, ite=1, Ts=1.0, stop=0.5, R=0.5, shots=2)))
        J.append(('sa', dict(n=1, model=m, ite=1, Ts=1.0, stop=1.0, R=0.5, shots=2)))
        J.append(('sa', dict(n=2, model=m, ite=2, Ts=0.5, stop=0.25, R=0.5, shots=3, draws=(0.5,), picks=(0, 1, 1, 0, 1))))
        J.append(('sa', dict(n=1, model=m, ite=None, Ts=0.03, stop=None, R=None, sampler='fast', draws=(0.5,), picks=(1,))))
        J.append(('sa', dict(n=1, model=m, ite=40, Ts=0.025, stop=None, R=0.5, sampler='fast', draws=(0.5,), picks=(0,), shots=2)))
    J.append(('sa', dict(n=1, model='qubo', ite=None, Ts=0.021, stop=None, R=None, draws=(0.5,), picks=(0,))))
    J.append(('sa', dict(n=2, model='qubo', ite=2, Ts=0.03125, stop=None, R=0.5, call='sa')))
    J.append(('sa', dict(n=2, model='qubo', ite=2, Ts=0.03125, stop=None, R=0.5, call='sa', shots=2, draws=(0.5,), picks=(0, 1, 1))))
    for m in ('ising', 'qubo'):
        J.append(('sa', dict(n=7, model=m, ite=2, Ts=1.0, stop=0.5, R=0.5, draws=(0.5, 0.1), picks=(0, 1, 1, 0, 1, 0, 1, 5, 6))))
        J.append(('sa', dict(n=12, model=m, ite=1, Ts=1.0, stop=0.4, R=0.5, draws=(0.5,), picks=(0, 1, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 11, 10))))
        J.append(('sqa', dict(n=5, P=3, model=m, ite=1, T=0.25, Gf=0.4, R=0.5, draws=(0.5, 0.25), picks=(0, 1, 1) * 5 + (4, 2, 3, 0))))
        J.append(('sqa', dict(n=2, P=8, model=m, ite=1, T=0.25, Gf=0.4, R=0.5, draws=(0.5, 0.25), picks=(0, 1, 1, 0) * 4 + (1, 7, 0, 3))))
        for n in (1, 2) + ((3,) if big else ()):
            for P in (1, 2, 3) + ((4,) if big else ()):
                if n * P > 6:
                    continue
                J.append(('sqa', dict(n=n, P=P, model=m, ite=1, T=0.5, Gf=0.9, R=0.5)))
                if n * P < (5 if big else 4):
                    J.append(('sqa', dict(n=n, P=P, model=m, ite=1, T=0.5, Gf=0.4, R=0.5)))
                    J.append(('sqa', dict(n=n, P=P, model=m, ite=2, T=0.5, Gf=0.9, R=0.5)))
        J.append(('sqa', dict(n=2, P=4, model=m, ite=2, T=0.25, Gf=0.4, R=0.5, draws=(0.5, 0.25), picks=(0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 3))))
        J.append(('sqa', dict(n=3, P=2, model=m, ite=2, T=0.25, Gf=0.4, R=0.5, draws=(0.5, 0.25), picks=(0, 1, 2, 0, 1, 0, 0, 1, 1, 1, 3))))
    for n, k in ((1, 3), (2, 3), (3, 2), (2, 0)):
        J.append(('tally', dict(n=n, k=k)))
    return J
