"""C09: the symbolic unitary equals the documented unitary for all angles.

The package runs on the real sympy with symbolic parameters; the resulting expressions are translated to
solver terms and compared with the documented matrices for all real values of the symbols.
"""
import itertools
import math
from fractions import Fraction
from sym import ref
from .common import add_ops

BOUNDS = {
    'quick': 'every gate at every placement on 1-3 qubits (and one on 4) with sympy symbols (plain, real, named like the package\'s own '
             'theta/phi/lambd in every order, shared between gates, in linear expressions), slices and repeated targets, '
             'circuits of up to 5 gates; ignore_global on all of these; numeric angles over a list; interleaved runs of '
             'several circuits',
    'thorough': 'as quick with all ordered pairs of gates on 2-3 qubits',
}
OUTSIDE = 'the isolated angles at which the element made real by ignore_global vanishes; non-linear parameter expressions'
ASSUMPTIONS = ['sympy evaluates and simplifies expressions correctly']

NATIVE = {'i', 'x', 'y', 'z', 'h', 'rx', 'ry', 'rz', 'phase', 'r', 'u1', 'u2', 'u3', 'cx', 'cnot', 'cz'}


def conv(S, e, val):
    """sympy expression -> number (solver term)"""
    import sympy
    if S.concrete:
        return complex(sympy.sympify(e).subs({k: v for k, v in val.items()}, simultaneous=True).evalf(30))
    memo = {}

    def go(e):
        if e in memo:
            return memo[e]
        memo[e] = r = step(e)
        return r

    def step(e):
        if e in val:
            return val[e]
        if e.is_Rational:
            return S.num(Fraction(int(e.p), int(e.q)))
        if e.is_Float:
            return S.num(float(e))
        if e == sympy.I:
            return S.IU
        if e == sympy.pi:
            return S.pi
        if e.is_Add:
            t = S.num(0)
            for a in e.args:
                t = t + go(a)
            return t
        if e.is_Mul:
            t = S.num(1)
            for a in e.args:
                t = t * go(a)
            return t
        if e.is_Pow and e.base == sympy.E:
            x = go(e.exp)
            im = S.im(x)
            S.eq([(S.re(x), 0)], 'imaginary exponent')
            return S.E(im)
        if e.is_Pow and e.exp.is_Integer:
            b, k = go(e.base), int(e.exp)
            t = S.num(1)
            for _ in range(abs(k)):
                t = t * b
            return t if k >= 0 else S.num(1) / t
        if e.is_Pow and e.exp.is_Rational and int(e.exp.q) == 2:
            b, k = S.sqrt(go(e.base)), int(e.exp.p)
            t = S.num(1)
            for _ in range(abs(k)):
                t = t * b
            return t if k >= 0 else S.num(1) / t
        if isinstance(e, sympy.exp):
            x = go(e.args[0])
            S.eq([(S.re(x), 0)], 'imaginary exponent')
            return S.E(S.im(x))
        if isinstance(e, sympy.cos):
            return S.cos(go(e.args[0]))
        if isinstance(e, sympy.sin):
            return S.sin(go(e.args[0]))
        if isinstance(e, sympy.Abs):
            return S.sqrt(S.abs2(go(e.args[0])))
        if isinstance(e, sympy.conjugate):
            return S.conj(go(e.args[0]))
        if isinstance(e, sympy.re):
            return S.re(go(e.args[0]))
        if isinstance(e, sympy.im):
            return S.im(go(e.args[0]))
        S.true(False, 'a finite expression', '%s' % (e,))
    return go(sympy.sympify(e))


def params(S, kind, count):
    """symbols for the parameters and their values"""
    import sympy
    if kind == 'plain':
        sy = sympy.symbols('p0:%d' % count)
    elif kind == 'real':
        sy = sympy.symbols('p0:%d' % count, real=True)
    elif kind == 'dummy':
        sy = [sympy.Dummy('theta') for _ in range(count)]
    elif kind == 'same':
        sy = [sympy.Symbol('theta')] * count
    elif kind == 'linear':
        a, b = sympy.symbols('theta phi')
        sy = [a, b]
        ex = [a + b, -2 * a, b / 2 - a, a - sympy.pi / 2, 3 * b + 1][:count] + [a] * max(0, count - 5)
        val = {a: S.real('va'), b: S.real('vb')}
        nums = [val[a] + val[b], -2 * val[a], val[b] / 2 - val[a], val[a] - S.pi / 2, 3 * val[b] + 1][:count] \
            + [val[a]] * max(0, count - 5)
        return ex, nums, val
    else:
        names = {'order0': ['theta', 'phi', 'lambd'], 'order1': ['phi', 'lambd', 'theta'], 'order2': ['lambd', 'theta', 'phi'],
                 'order3': ['lambd', 'phi', 'theta'], 'order4': ['phi', 'theta', 'lambd']}[kind]
        sy = [sympy.Symbol((names * 9)[i]) for i in range(count)]
    val = {}
    for x in sy:
        if x not in val:
            val[x] = S.real('v%d' % len(val))
    return list(sy), [val[x] for x in sy], val


def build(S, spec, n, kind):
    count = sum(ref.NARGS.get(g, 0) for g, _ in spec)
    ex, nums, val = params(S, kind, count)
    c = S.Circuit(n)
    ops, k = [], 0
    for g, t in spec:
        m = ref.NARGS.get(g, 0)
        ops.append((g, tuple(nums[k:k + m]), t))
        w = getattr(c, g)
        if m:
            w = w(*ex[k:k + m])
        w[t]
        k += m
    return c, ops, val


def matrix(S, m, n, val):
    N = 1 << n
    S.true(tuple(m.shape) == (N, N), 'shape', str(m.shape))
    return [[conv(S, m[r, k], val) for k in range(N)] for r in range(N)]


def wanted(S, ops, n):
    N = 1 << n
    cols = [ref.dense(ref.run(S, ops, {k: S.num(1)}, n), n) for k in range(N)]
    return [[cols[k][r] for k in range(N)] for r in range(N)]


def flat(m):
    return [x for r in m for x in r]


def same(S, m, ops, n, val, lab):
    M, W = matrix(S, m, n, val), wanted(S, ops, n)
    if all(g in NATIVE for g, _, _ in ops):
        S.eqv(flat(M), flat(W), lab)
    else:
        S.eq_phase(flat(M), flat(W), lab)
    return M


def unitary(S, spec, n, kind='plain', ig=True):
    c, ops, val = build(S, spec, n, kind)
    before = c.n_qubits, list(c.ops)
    m = c.to_unitary()
    M = same(S, m, ops, n, val, 'unitary')
    S.true(c.run_with_sympy_unitary() == m and c.run(backend='sympy_unitary') == m, 'by name')
    S.true(c.to_unitary(ignore_global=False) == m, 'global phase kept by default')
    S.true((c.n_qubits, list(c.ops)) == before, 'circuit unchanged')
    if ig:
        phase(S, c, M, n, val)


def phase(S, c, M, n, val):
    g = c.to_unitary(ignore_global=True)
    N = 1 << n
    # element that decides the phase: the first diagonal one that is not identically zero
    if S.concrete:
        i = next((i for i in range(N) if abs(M[i][i]) > 1e-7), None)
    else:
        i = next((i for i in range(N) if S.num(M[i][i]).p), None)
    if i is not None:
        S.assume_lt(0.01, S.abs2(M[i][i]))
    G = matrix(S, g, n, val)
    fm, fg = flat(M), flat(G)
    S.eq([(S.abs2(a), S.abs2(b)) for a, b in zip(fg, fm)], 'moduli kept')
    # every element multiplied by the same number
    k = i * N + i if i is not None else next(j for j, x in enumerate(fm) if (abs(x) > 1e-7 if S.concrete else S.num(x).p))
    S.eq([(fg[j] * fm[k], fg[k] * fm[j]) for j in range(len(fm))], 'only the phase changes')


def repeated(S, spec, other, n, kind):
    """runs do not influence one another"""
    c, ops, val = build(S, spec, n, kind)
    d, ops2, val2 = build(S, other, n, kind)
    same(S, c.to_unitary(), ops, n, val, 'first circuit')
    same(S, d.to_unitary(), ops2, n, val2, 'second circuit')
    same(S, c.to_unitary(), ops, n, val, 'first circuit again')
    e = c + d
    same(S, e.to_unitary(), ops + ops2, n, {**val, **val2}, 'both')
    c.h[0]
    same(S, c.to_unitary(), ops + [('h', (), 0)], n, val, 'extended')


def numeric(S, gate, times=1):
    """numeric angles, floats and integers"""
    import sympy
    k = ref.NARGS[gate]
    xs = [math.pi / 4, -math.pi / 3, math.pi, 0.1, 1, -2, 2.5, 1e-3, 7 * math.pi / 5, 0, 0.0, 123.456, 1e-6, 1 / 3, math.sqrt(2)]
    n, t = (1, 0) if gate in ref.ONE else (2, (1, 0))
    if times > 1:
        t = (0,) * times if gate in ref.ONE else ((1,) * times, (0,) * times)
    C = _Plain()
    for i in range(len(xs)):
        a = tuple(xs[(i + 4 * j) % len(xs)] for j in range(k))
        m = getattr(S.Circuit(n), gate)(*a)[t].to_unitary()
        N = 1 << n
        got = [[complex(m[r, c].evalf(30)) for c in range(N)] for r in range(N)]
        cols = [ref.dense(ref.run(C, [(gate, a, t)], {c: 1}, n), n) for c in range(N)]
        want = [[complex(cols[c][r]) for c in range(N)] for r in range(N)]
        ph = 1
        if gate not in NATIVE:
            z = max(((abs(want[r][c]), r, c) for r in range(N) for c in range(N)))
            ph = got[z[1]][z[2]] / want[z[1]][z[2]]
            ph /= abs(ph) or 1
        err = max(abs(got[r][c] - ph * want[r][c]) for r in range(N) for c in range(N))
        S.true(err < 1e-9, 'numeric angles', '%s%r off by %g' % (gate, a, err))


class _Plain:
    """plain arithmetic for the reference matrices"""
    import cmath
    IU, pi, sqrt2 = 1j, math.pi, math.sqrt(2)
    E = staticmethod(lambda x: _Plain.cmath.exp(1j * x))
    cos, sin = staticmethod(math.cos), staticmethod(math.sin)
    conj = staticmethod(lambda x: complex(x).conjugate())
    num = staticmethod(lambda x: x)


def ignored(S):
    """measurements and resets are left out"""
    import sympy
    t = sympy.Symbol('t')
    v = {t: S.real('v')}
    c = S.Circuit(2).rx(t)[0].m[0].cx[0, 1].reset[1].m[:].ry(t)[1]
    ops = [('rx', (v[t],), 0), ('cx', (), (0, 1)), ('ry', (v[t],), 1)]
    same(S, c.to_unitary(), ops, 2, v, 'unitary of the gates')


def place(g, n):
    if g in ref.ONE:
        return list(range(n)) + [-1]
    if g in ref.TWO:
        return list(itertools.permutations(range(n), 2)) + ([(-1, 0)] if n > 1 else [])
    return list(itertools.permutations(range(n), 3))


KINDS = ['real', 'dummy', 'same', 'linear', 'order0', 'order1', 'order2', 'order3', 'order4']
CIRCUITS = [
    ([('h', 0), ('cx', (0, 1)), ('rz', 1)], 2),
    ([('rx', 0), ('ry', 1), ('crz', (0, 1)), ('t', 0)], 2),
    ([('u3', 0), ('cphase', (0, 1)), ('u2', 1)], 2),
    ([('h', slice(None)), ('rzz', (0, 2)), ('swap', (1, 2))], 3),
    ([('x', 0), ('y', 0), ('rx', 0)], 1),
    ([('z', 0), ('u1', 0), ('phase', 0), ('s', 0), ('sdg', 0)], 1),
    ([('cu3', (0, 1)), ('tdg', 1)], 2),
    ([], 1), ([], 2),
    ([('h', 0), ('x', 1)], 2),
    ([('y', slice(None))], 2),
]


def jobs(tier):
    out = []
    for g in ref.NARGS:
        for n in (1, 2, 3):
            if (g in ref.TWO and n < 2) or (g in ref.THREE and n < 3):
                continue
            for t in place(g, n):
                out.append(('unitary', dict(spec=[(g, t)], n=n, ig=n < 3 or t == place(g, n)[0])))
        if ref.NARGS[g]:
            n = 1 if g in ref.ONE else 2
            for k in KINDS:
                out.append(('unitary', dict(spec=[(g, place(g, n)[0])], n=n, kind=k, ig=k == 'real')))
            for times in (1, 2, 4, 5) if g in ref.ONE else (1,):
                out.append(('numeric', dict(gate=g, times=times)))
    for g in ('h', 'ry', 'u2', 'phase', 'x', 'rz'):
        for t in (slice(None), slice(1, None), (0, 0), (1, 1, 1), (0, 2, 0), slice(None, None, -1), ()):
            out.append(('unitary', dict(spec=[(g, t)], n=3, ig=False)))
    for g in ref.THREE:
        for t in ((-1, 0, -2), (0, -2, 2)):
            out.append(('unitary', dict(spec=[(g, t)], n=3, ig=False)))
    for g in ref.ONE:
        for k in (4, 5) if ref.NARGS[g] < 2 else (4,):
            out.append(('unitary', dict(spec=[(g, (0,) * k)], n=1, ig=False)))
    for g in ('cx', 'crx', 'cz', 'swap'):
        for t in (((0, 1), (1, 2)), (slice(None, -1), slice(1, None)), ((0, 0), (1, 1)), ((2, 1), (1, 0))):
            out.append(('unitary', dict(spec=[(g, t)], n=3, ig=False)))
    for spec, n in CIRCUITS:
        for k in ['plain'] + KINDS[3:7]:
            out.append(('unitary', dict(spec=spec, n=n, kind=k, ig=n < 3 and k == 'plain')))
    out.append(('unitary', dict(spec=[('h', 0), ('ry', 0), ('z', 0)], n=1)))
    for g in ref.NARGS:
        t = 3 if g in ref.ONE else (3, 0) if g in ref.TWO else (3, 1, 0)
        out.append(('unitary', dict(spec=[(g, t)], n=4, ig=False)))
    out.append(('unitary', dict(spec=[('h', 4), ('cx', (4, 0)), ('rz', 2), ('cx', (1, 3))], n=5, ig=False)))
    # a diagonal that vanishes identically without being written as 0
    out.append(('hidden', {}))
    for i, (spec, n) in enumerate(CIRCUITS[:7]):
        other = [('rx', 0), ('x', 0), ('u3', 0)]
        out.append(('repeated', dict(spec=spec, other=other, n=n, kind='order%d' % (i % 5))))
    out.append(('ignored', {}))
    if tier == 'thorough':
        for a, b in itertools.product(ref.NARGS, ref.NARGS):
            n = 3 if a in ref.THREE or b in ref.THREE else 2
            t = [0 if g in ref.ONE else (1, 0) if g in ref.TWO else (1, 2, 0) for g in (a, b)]
            out.append(('unitary', dict(spec=[(a, t[0]), (b, t[1])], n=n, kind='order1', ig=False)))
    return out


def hidden(S):
    import sympy
    t = sympy.Symbol('t')
    v = {t: S.real('v')}
    c = S.Circuit().h[0].cry(t)[0, 1].cry(-t)[0, 1].h[0].x[0]
    M = matrix(S, c.to_unitary(), 2, v)
    phase(S, c, M, 2, v)
