"""Reference semantics (written from the documentation / standard definitions, not from the package).

S supplies the arithmetic (symbolic or concrete).  States are sparse dicts {index: amplitude},
qubit 0 = least significant bit.
"""


def mats(S):
    c, s, E, I = S.cos, S.sin, S.E, S.IU
    r = S.num(1) / S.sqrt2
    w = E(S.pi / 4)
    M = {
        'i': lambda: [[1, 0], [0, 1]],
        'x': lambda: [[0, 1], [1, 0]],
        'y': lambda: [[0, -I], [I, 0]],
        'z': lambda: [[1, 0], [0, -1]],
        'h': lambda: [[r, r], [r, -r]],
        't': lambda: [[1, 0], [0, w]],
        'tdg': lambda: [[1, 0], [0, S.conj(w)]],
        's': lambda: [[1, 0], [0, I]],
        'sdg': lambda: [[1, 0], [0, -I]],
        'rx': lambda t: [[c(t / 2), -I * s(t / 2)], [-I * s(t / 2), c(t / 2)]],
        'ry': lambda t: [[c(t / 2), -s(t / 2)], [s(t / 2), c(t / 2)]],
        'rz': lambda t: [[E(-t / 2), 0], [0, E(t / 2)]],
        'phase': lambda t: [[1, 0], [0, E(t)]],
        'u1': lambda l: [[E(-l / 2), 0], [0, E(l / 2)]],
        'u2': lambda p, l: M['u3'](S.pi / 2, p, l),
        'u3': lambda t, p, l: [[E(-(p + l) / 2) * c(t / 2), -E(-(p - l) / 2) * s(t / 2)],
                               [E((p - l) / 2) * s(t / 2), E((p + l) / 2) * c(t / 2)]],
    }
    M['r'] = M['phase']
    return M


PAULI = {'x': 'X', 'y': 'Y', 'z': 'Z'}
# name -> (number of qubits, number of angles)
ONE = {'i': 0, 'x': 0, 'y': 0, 'z': 0, 'h': 0, 't': 0, 'tdg': 0, 's': 0, 'sdg': 0, 'rx': 1, 'ry': 1, 'rz': 1,
       'phase': 1, 'r': 1, 'u1': 1, 'u2': 2, 'u3': 3}
TWO = {'cx': 0, 'cnot': 0, 'cy': 0, 'cz': 0, 'ch': 0, 'crx': 1, 'cry': 1, 'crz': 1, 'cphase': 1, 'cr': 1, 'cu1': 1,
       'cu2': 2, 'cu3': 3, 'swap': 0, 'rxx': 1, 'ryy': 1, 'rzz': 1}
THREE = {'ccx': 0, 'toffoli': 0, 'cswap': 0}
THREE_ALL = {**THREE, 'ccz': 0}       # ccz: only the class exists, circuits have no such name
NARGS = {**ONE, **TWO, **THREE}
# gates whose documented unitary is only claimed up to a global phase (defined by a decomposition)
PHASE_ONLY = {'cu1'}
CTRL = {'cx': 'x', 'cnot': 'x', 'cy': 'y', 'cz': 'z', 'ch': 'h', 'crx': 'rx', 'cry': 'ry', 'crz': 'rz',
        'cphase': 'phase', 'cr': 'phase', 'cu1': 'phase', 'cu2': 'u2', 'cu3': 'u3'}


def add(d, k, v):
    d[k] = d[k] + v if k in d else v


def app1(U, q, st, ctrl=()):
    """apply a 2x2 matrix on qubit q where all control qubits are 1"""
    out = {}
    for k, a in st.items():
        if any(not (k >> b) & 1 for b in ctrl):
            add(out, k, a)
            continue
        b = (k >> q) & 1
        k0 = k & ~(1 << q)
        for r in (0, 1):
            u = U[r][b]
            if isinstance(u, int) and u == 0:
                continue
            add(out, k0 | (r << q), u * a)
    return out


def apply_pauli(S, letters, st):
    """letters: {qubit: 'X'|'Y'|'Z'}"""
    out = st
    M = mats(S)
    for q, l in letters.items():
        if l != 'I':
            out = app1(M[l.lower()](), q, out)
    return out


def exp_pauli(S, letters, ang, st):
    """exp(i*ang*P) st"""
    p = apply_pauli(S, letters, st)
    c, s = S.cos(ang), S.IU * S.sin(ang)
    out = {}
    for k in set(st) | set(p):
        out[k] = (st[k] * c if k in st else 0) + (p[k] * s if k in p else 0)
    return out


def gate(S, name, args, qs, st):
    """apply the documented gate on explicit qubits"""
    M = mats(S)
    if name in ONE:
        return app1(M[name](*args), qs[0], st)
    if name in CTRL:
        return app1(M[CTRL[name]](*args), qs[1], st, (qs[0],))
    if name == 'swap':
        a, b = qs
        return {_sw(k, a, b): v for k, v in st.items()}
    if name in ('rxx', 'ryy', 'rzz'):
        l = name[1].upper()
        return exp_pauli(S, {qs[0]: l, qs[1]: l}, -args[0] / 2, st)
    if name in ('ccx', 'toffoli'):
        return app1(M['x'](), qs[2], st, (qs[0], qs[1]))
    if name == 'ccz':
        return app1(M['z'](), qs[2], st, (qs[0], qs[1]))
    if name == 'cswap':
        return {(_sw(k, qs[1], qs[2]) if (k >> qs[0]) & 1 else k): v for k, v in st.items()}
    raise KeyError(name)


def _sw(k, a, b):
    x, y = (k >> a) & 1, (k >> b) & 1
    k &= ~((1 << a) | (1 << b))
    return k | (x << b) | (y << a)


def dense(st, n):
    return [st.get(k, 0) for k in range(1 << n)]


def expand(t, n):
    """qubits selected from range(n) by an index / slice / (nested) tuple"""
    if isinstance(t, tuple):
        return [q for x in t for q in expand(x, n)]
    if isinstance(t, slice):
        return list(range(n))[t]
    return [list(range(n))[t]]


def run(S, ops, st, n):
    """ops: list of (name, args, target)"""
    for name, args, t in ops:
        if name in ONE:
            for q in expand(t, n):
                st = gate(S, name, args, (q,), st)
        elif name in TWO:
            for a, b in zip(expand(t[0], n), expand(t[1], n)):
                st = gate(S, name, args, (a, b), st)
        else:
            st = gate(S, name, args, [expand(q, n)[0] for q in t], st)
    return st


def kron_pauli(S, letters, n):
    """dense 2^n x 2^n matrix of a Pauli string"""
    N = 1 << n
    m = [[0] * N for _ in range(N)]
    for k in range(N):
        for r, v in apply_pauli(S, letters, {k: 1}).items():
            m[r][k] = v
    return m


def project(st, q, b):
    return {k: v for k, v in st.items() if ((k >> q) & 1) == b}


def p_zero(S, st, q):
    t = S.num(0)
    for k, v in st.items():
        if not (k >> q) & 1:
            t = t + S.abs2(v)
    return t


def simulate(S, ops, st, n, draws, cregs=None):
    """gates, measurements ('m', 'measure') and resets on a normalised state; one uniform draw per measured
    qubit decides the outcome: 0 if draw < p0.  Returns (state, classical bits)."""
    draws = iter(draws)
    cregs = [0] * n if cregs is None else cregs
    for op in ops:
        name, args, t = op
        if name not in ('m', 'measure', 'reset'):
            st = run(S, [op], st, n)
            continue
        for q in expand(t, n):
            p0 = p_zero(S, st, q)
            if S.cmp_lt(next(draws), p0):
                b, p = 0, p0
            else:
                b, p = 1, 1 - p0
            st = {k: v / S.sqrt(p) for k, v in project(st, q, b).items()}
            if name == 'reset':
                st = {k & ~(1 << q): v for k, v in st.items()}
            else:
                cregs[q] = b
    return st, cregs
