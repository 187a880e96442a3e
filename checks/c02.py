"""C02: qubit selection by index, slice or tuple follows Python sequence rules."""
import itertools

N = {'quick': 5, 'thorough': 8}
BOUNDS = {
    'quick': 'initial width 0..5 symbolic; integer indices and slice bounds symbolic in [-8, 8], steps symbolic in '
             '-3..3; tuples of up to three selections; widening by a later gate; every gate class; three-qubit gates with '
             'symbolic indices in [-3, 3] on up to 4 qubits, compared by their action; indices in [-80, 80] at widths up to 70, slices with bounds in [-14, 14], steps in -6..6 and widths up to 12',
    'thorough': 'as quick with widths up to 8, bounds in [-12, 12], steps in -4..4 and longer tuples',
}
OUTSIDE = 'integers beyond the bounds; boolean masks; selections nested deeper than two levels; negative indices below -n'
ASSUMPTIONS = ['slice.indices is modelled after CPython PySlice_AdjustIndices for symbolic bounds']


def collector(S):
    """a backend that records which qubits each gate selects at run time"""
    Backend = S.mod('backends.backendbase').Backend
    log = []

    class Collect(Backend):
        def run(self, gates, n_qubits, *args, **kwargs):
            res = []
            for g in gates:
                it = g.control_target_iter if hasattr(g, 'control_target_iter') else g.target_iter
                res.append(list(it(n_qubits)))
            return n_qubits, res
    S.bq.BlueqatGlobalSetting.register_backend('collect', Collect)
    return log


def comp(S, name, kind, R):
    """component of a selection: None, or symbolic"""
    if kind is None:
        return None
    if kind == 'i':
        return S.int(name, -R, R)
    return kind


def make(S, form, stem, R, step):
    if form == 'i':
        return S.int(stem, -R, R)
    if isinstance(form, str) and form[0] == 's':
        # s??? : which of start, stop, step are given
        a = S.int(stem + 'a', -R, R) if form[1] == 'x' else None
        b = S.int(stem + 'b', -R, R) if form[2] == 'x' else None
        c = None
        if form[3] == 'x':
            c = S.int(stem + 'c', -step, step)
            S.iassume(S.inot(S.ieq(c, 0)))
        return S.slice(a, b, c)
    return tuple(make(S, f, '%s_%d' % (stem, k), R, step) for k, f in enumerate(form))


def leaves(form, val):
    if isinstance(form, tuple):
        return [x for f, v in zip(form, val) for x in leaves(f, v)]
    return [(form, val)]


def want_n(S, n0, form, val):
    """width after adding a gate with that selection"""
    n = n0
    for f, v in leaves(form, val):
        if f == 'i':
            n = S.ite(S.ilt(n, v + 1), v + 1, n)
        else:
            if v.start is not None:
                n = S.ite(S.ilt(n, v.start + 1), v.start + 1, n)
            if v.stop is not None:
                n = S.ite(S.ilt(n, v.stop), v.stop, n)
    return n


def clamp(S, v, lo, hi):
    return S.ite(S.ilt(v, lo), lo, S.ite(S.ilt(hi, v), hi, v))


def check_part(S, got, f, v, n, label):
    """consumes from `got` what selection v of range(n) yields; returns the rest"""
    if f == 'i':
        S.true(len(got) >= 1, label, 'too few qubits')
        S.ihold(S.ieq(got[0], S.ite(S.ilt(v, 0), v + n, v)), label + '/index')
        return got[1:]
    # explicit members of the slice, counted from its first element
    step = 1 if v.step is None else v.step
    neg = step < 0
    norm = lambda x: S.ite(S.ilt(x, 0), x + n, x)
    if neg:
        first = n - 1 if v.start is None else clamp(S, norm(v.start), -1, n - 1)
        last = -1 if v.stop is None else clamp(S, norm(v.stop), -1, n - 1)
        inside = lambda q: S.ilt(last, q)
    else:
        first = 0 if v.start is None else clamp(S, norm(v.start), 0, n)
        last = n if v.stop is None else clamp(S, norm(v.stop), 0, n)
        inside = lambda q: S.ilt(q, last)
    q = first
    k = 0
    while True:
        # how many belong to this part is decided by the reference
        if S.decide(inside(q)):
            S.true(len(got) > k, label, 'qubit missing')
            S.ihold(S.ieq(got[k], q), label + '/slice')
            q = q + step
            k += 1
        else:
            return got[k:]


def one(S, form, R, step, nmax, gate):
    collector(S)
    n0 = S.int('n0', 0, nmax)
    c = S.Circuit(n0)
    t = make(S, form, 't', R, step)
    g = getattr(c, gate)
    from sym import ref
    na = ref.NARGS.get(gate, 0)
    if na:
        g = g(*([0.5] * na))
    g[t]
    n = c.n_qubits
    S.ihold(S.ieq(n, want_n(S, n0, form, t)), 'width')
    for f, v in leaves(form, t):
        if f == 'i':
            S.iassume(S.inot(S.ilt(v + n, 0)))
    nn, res = c.run(backend='collect')
    S.ihold(S.ieq(nn, n), 'width at run time')
    got = list(res[0])
    for f, v in leaves(form, t):
        got = check_part(S, got, f, v, n, 'selection')
    S.true(not got, 'selection', 'extra qubits selected')


def late(S, form, R, step, nmax):
    """the selection is taken at run time, after the circuit was widened by a later gate"""
    collector(S)
    n0 = S.int('n0', 0, nmax)
    c = S.Circuit(n0)
    t = make(S, form, 't', R, step)
    c.x[t]
    w = S.int('w', 0, R)
    n1 = c.n_qubits
    c.y[w]
    n = c.n_qubits
    S.ihold(S.inot(S.ilt(n, n1)), 'never shrinks')
    S.ihold(S.ieq(n, S.ite(S.ilt(n1, w + 1), w + 1, n1)), 'width')
    for f, v in leaves(form, t):
        if f == 'i':
            S.iassume(S.inot(S.ilt(v + n, 0)))
    nn, res = c.run(backend='collect')
    got = list(res[0])
    for f, v in leaves(form, t):
        got = check_part(S, got, f, v, n, 'selection')
    S.true(not got, 'selection', 'extra qubits selected')


def expand_ref(S, form, val, n):
    """reference selection as a list of integer terms (branching on lengths)"""
    out = []
    for f, v in leaves(form, val):
        if f == 'i':
            out.append(S.ite(S.ilt(v, 0), v + n, v))
            continue
        step = 1 if v.step is None else v.step
        norm = lambda x: S.ite(S.ilt(x, 0), x + n, x)
        if step < 0:
            q = n - 1 if v.start is None else clamp(S, norm(v.start), -1, n - 1)
            last = -1 if v.stop is None else clamp(S, norm(v.stop), -1, n - 1)
            while S.decide(S.ilt(last, q)):
                out.append(q)
                q = q + step
        else:
            q = 0 if v.start is None else clamp(S, norm(v.start), 0, n)
            last = n if v.stop is None else clamp(S, norm(v.stop), 0, n)
            while S.decide(S.ilt(q, last)):
                out.append(q)
                q = q + step
    return out


def two(S, fa, fb, R, step, nmax, gate):
    collector(S)
    n0 = S.int('n0', 1, nmax)
    c = S.Circuit(n0)
    a = make(S, fa, 'a', R, step)
    b = make(S, fb, 'b', R, step)
    from sym import ref
    g = getattr(c, gate)
    na = ref.NARGS.get(gate, 0)
    if na:
        g = g(*([0.5] * na))
    g[a, b]
    n = c.n_qubits
    S.ihold(S.ieq(n, want_n(S, want_n(S, n0, fa, a), fb, b)), 'width')
    for f, v in leaves(fa, a) + leaves(fb, b):
        if f == 'i':
            S.iassume(S.inot(S.ilt(v + n, 0)))
    try:
        nn, res = c.run(backend='collect')
    except ValueError:
        res = None
    ra, rb = expand_ref(S, fa, a, n), expand_ref(S, fb, b, n)
    if res is None:
        if len(ra) == len(rb):
            S.ihold(S.ior(*[S.ieq(x, y) for x, y in zip(ra, rb)]) if ra else S.ieq(0, 1),
                    'a valid selection was refused')
        return
    S.true(len(ra) == len(rb), 'selections of different lengths accepted')
    got = res[0]
    S.true(len(got) == len(ra), 'pairs', 'wrong number of pairs')
    for (x, y), p, q in zip(got, ra, rb):
        S.ihold(S.iand(S.ieq(x, p), S.ieq(y, q)), 'pairs')
        S.ihold(S.inot(S.ieq(p, q)), 'a qubit was paired with itself')


def three(S, gate, n0, R, backend, late):
    """three-qubit gates: every index is counted from the end when negative, at the width of the run"""
    from sym import ref
    c = S.Circuit(n0)
    t = tuple(S.int('t%d' % k, -R, R) for k in range(3))
    getattr(c, gate)[t]
    S.ihold(S.ieq(c.n_qubits, want_n(S, n0, ('i', 'i', 'i'), t)), 'width')
    if late:
        c.h[late]
    n = int(c.n_qubits)
    t = tuple(int(x) for x in t)
    if any(x < -n for x in t):
        return
    qs = tuple(x % n for x in t)
    if len(set(qs)) < 3:
        S.raises(lambda: c.run(backend=backend), 'repeated qubit %r accepted' % (t,))
        return
    ops = [('ry', (S.angle('a%d' % q),), q) for q in range(n)]
    d = S.Circuit(n)
    for g, a, q in ops:
        d.ry(*a)[q]
    d = d + c
    ops = ops + [(gate, (), t)] + ([('h', (), late)] if late else [])
    S.eq_phase(list(d.run(backend=backend)), ref.dense(ref.run(S, ops, {0: S.num(1)}, n), n), 'state')


def bad(S, t, n):
    """two-qubit gates need exactly a pair of selections"""
    c = S.Circuit(n)
    S.raises(lambda: c.cx[t].run(), 'accepted %r' % (t,))


def grow(S, spec):
    """width after a sequence of gates, explicit instances"""
    c = S.Circuit(spec[0])
    for g, t, w in spec[1]:
        getattr(c, g)[t]
        S.true(c.n_qubits == w, 'width', '%s%r gives %r' % (g, t, c.n_qubits))


def listed(S, forms, R):
    """find_n_qubits: the width a list of gates needs"""
    g = S.mod('gate')
    n = 0
    gates = []
    for k, f in enumerate(forms):
        t = make(S, f, 't%d' % k, R, 2)
        gates.append(g.XGate(t))
        n = want_n(S, n, f, t)
    got = g.find_n_qubits(gates)
    S.ihold(S.ior(S.ieq(got, n), S.iand(S.ieq(n, 0), S.ilt(got, 1))), 'width of the list')


def matches(S, form, R, step, nmax):
    """the state after X on the selection is the basis state with those bits flipped"""
    n0 = S.int('n0', 1, nmax)
    n0 = int(n0)
    c = S.Circuit(n0)
    t = make(S, form, 't', R, step)
    c.x[t]
    n = int(c.n_qubits)
    for f, v in leaves(form, t):
        if f == 'i':
            S.iassume(S.inot(S.ilt(v + n, 0)))
    v = c.run()
    seq = list(range(n))
    k = 0
    for f, x in leaves(form, t):
        x = int(x) if f == 'i' else (x.concrete() if hasattr(x, 'concrete') else x)
        for q in ([seq[x]] if f == 'i' else seq[x]):
            k ^= 1 << q
    S.eqv(v, [1 if i == k else 0 for i in range(1 << n)], 'state')


def jobs(tier):
    big = tier == 'thorough'
    R, step, nmax = (12, 4, 8) if big else (8, 3, 5)
    out = []
    slices = ['s' + ''.join(p) for p in itertools.product('-x', repeat=3)]
    forms = ['i'] + slices + [('i',), ('i', 'i'), ('i', 'i', 'i'), ('sxx-',), ('i', 's--x'), ('s-x-', 'i'), ('sx--', 's-x-'),
                              ()]
    for f in forms:
        out.append(('one', dict(form=f, R=R, step=step, nmax=nmax, gate='x')))
    for f in ['i'] + slices + [('i', 'sx--'), ('s--x', 'i'), ('i', 'i')]:
        out.append(('late', dict(form=f, R=6, step=2, nmax=3)))
    for f in ['i', ('i', 'i'), ('i', 'i', 'i')]:
        out.append(('one', dict(form=f, R=80, step=1, nmax=70, gate='x')))
        out.append(('late', dict(form=f, R=80, step=1, nmax=70)))
    for f in ['sx--', 's-x-', 's--x', ('sx--', 'i')]:
        out.append(('one', dict(form=f, R=14, step=6, nmax=12, gate='h')))
    out.append(('two', dict(fa='i', fb='i', R=80, step=1, nmax=70, gate='cz')))
    out.append(('two', dict(fa=('i', 'i'), fb=('i', 'i'), R=80, step=1, nmax=70, gate='swap')))
    from sym import ref
    for g in list(ref.ONE) + ['measure', 'm', 'reset']:
        out.append(('one', dict(form=('i', 'sx--'), R=4, step=2, nmax=3, gate=g)))
    pairs = [('i', 'i'), ('i', 's-x-'), ('sx--', 's-x-'), ('s--x', 's---'), (('i', 'i'), ('i', 'i')), ('sx--', ('i', 'i')),
             (('i', 'i'), 'i'), ('s---', 'i'), ((), ()), (('i', 'sx--'), 's---'), ('sxx-', 'sxx-')]
    for fa, fb in pairs:
        r = R if 's' not in str(fa) + str(fb) else 5
        if fa == 'sxx-':
            r = 3
        out.append(('two', dict(fa=fa, fb=fb, R=min(r, 6), step=2, nmax=4, gate='cx')))
    for g in ref.TWO:
        out.append(('two', dict(fa='i', fb='i', R=4, step=2, nmax=3, gate=g)))
        out.append(('two', dict(fa='s-x-', fb='sx--', R=3, step=2, nmax=3, gate=g)))
    for g in ref.THREE:
        for n0, r, w in [(3, 3, 0), (2, 2, 0), (3, 3, 3)] + ([(4, 4, 0), (3, 4, 5)] if big else []):
            out.append(('three', dict(gate=g, n0=n0, R=r, backend='numpy', late=w)))
    for t in [0, (0,), (0, 1, 2), slice(0, 2)]:
        out.append(('bad', dict(t=t, n=3)))
    out.append(('grow', dict(spec=(0, [('x', 0, 1), ('x', slice(None), 1), ('cx', (0, 4), 5), ('x', -1, 5),
                                       ('x', slice(2, 7), 7), ('ccx', (0, 1, 8), 9), ('measure', slice(None, 3), 9),
                                       ('cx', ((0, 1), (10, 2)), 11), ('x', (), 11), ('x', slice(12, None), 13)]))))
    for fs in [(), ('i',), ('i', 'i', 'i'), ('i', 'sxx-'), (('i', 'i'), 's-x-', 'i')]:
        out.append(('listed', dict(forms=fs, R=R)))
    for f in ['i', 'sxx-', 'sx-x', 's-xx', ('i', 'i')]:
        out.append(('matches', dict(form=f, R=5, step=2, nmax=4)))
    return out
