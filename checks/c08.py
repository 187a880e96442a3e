"""C08: OpenQASM export denotes the same computation as the circuit.

The text is read back by a small OpenQASM 2.0 reader written here; gate definitions are the macros of
qelib1.inc as printed in the OpenQASM 2.0 paper, over U and CX only.
"""
import itertools
import math
import re
from sym import ref
from . import c01
from .common import ops_of, add_ops

BOUNDS = {
    'quick': 'every gate at every angle and at every placement on 1-3 qubits, slices and tuples, selected circuits of up to '
             '8 operations with measurements and resets, the program read with own definitions and compared on an '
             'arbitrary state; numeric parameters over a list of constants; with and without the prologue',
    'thorough': 'as quick with every ordered pair of gates on 3 qubits',
}
OUTSIDE = 'circuits without qubits; parameters that are not numbers; longer circuits ' \
          '(the export is gate by gate)'
ASSUMPTIONS = ['symbolic parameters appear in the text as their own tokens']

# qelib1.inc, gate bodies of the paper (later additions at the end)
QELIB = {
    'u3': ('theta,phi,lambda', 'a', 'U(theta,phi,lambda) a'),
    'u2': ('phi,lambda', 'a', 'U(pi/2,phi,lambda) a'),
    'u1': ('lambda', 'a', 'U(0,0,lambda) a'),
    'cx': ('', 'a,b', 'CX a,b'),
    'id': ('', 'a', 'U(0,0,0) a'),
    'x': ('', 'a', 'u3(pi,0,pi) a'),
    'y': ('', 'a', 'u3(pi,pi/2,pi/2) a'),
    'z': ('', 'a', 'u1(pi) a'),
    'h': ('', 'a', 'u2(0,pi) a'),
    's': ('', 'a', 'u1(pi/2) a'),
    'sdg': ('', 'a', 'u1(-pi/2) a'),
    't': ('', 'a', 'u1(pi/4) a'),
    'tdg': ('', 'a', 'u1(-pi/4) a'),
    'rx': ('theta', 'a', 'u3(theta,-pi/2,pi/2) a'),
    'ry': ('theta', 'a', 'u3(theta,0,0) a'),
    'rz': ('phi', 'a', 'u1(phi) a'),
    'cz': ('', 'a,b', 'h b; cx a,b; h b'),
    'cy': ('', 'a,b', 'sdg b; cx a,b; s b'),
    'ch': ('', 'a,b', 'h b; sdg b; cx a,b; h b; t b; cx a,b; t b; h b; s b; x b; s a'),
    'ccx': ('', 'a,b,c', 'h c; cx b,c; tdg c; cx a,c; t c; cx b,c; tdg c; cx a,c; t b; t c; h c; cx a,b; t a; tdg b; cx a,b'),
    'crz': ('lambda', 'a,b', 'u1(lambda/2) b; cx a,b; u1(-lambda/2) b; cx a,b'),
    'cu1': ('lambda', 'a,b', 'u1(lambda/2) a; cx a,b; u1(-lambda/2) b; cx a,b; u1(lambda/2) b'),
    'cu3': ('theta,phi,lambda', 'c,t',
            'u1((lambda-phi)/2) t; cx c,t; u3(-theta/2,0,-(phi+lambda)/2) t; cx c,t; u3(theta/2,phi,0) t'),
    'swap': ('', 'a,b', 'cx a,b; cx b,a; cx a,b'),
    'cswap': ('', 'a,b,c', 'cx c,b; ccx a,b,c; cx c,b'),
    'crx': ('lambda', 'a,b', 'u1(pi/2) b; cx a,b; u3(-lambda/2,0,0) b; cx a,b; u3(lambda/2,-pi/2,0) b'),
    'cry': ('lambda', 'a,b', 'u3(lambda/2,0,0) b; cx a,b; u3(-lambda/2,0,0) b; cx a,b'),
    'rxx': ('theta', 'a,b', 'u3(pi/2,theta,0) a; h b; cx a,b; u1(-theta) b; cx a,b; h b; u2(-pi,pi-theta) a'),
    'rzz': ('theta', 'a,b', 'cx a,b; u1(theta) b; cx a,b'),
    'u': ('theta,phi,lambda', 'a', 'U(theta,phi,lambda) a'),
    'p': ('lambda', 'a', 'U(0,0,lambda) a'),
}
STANDARD = set(QELIB)
# not in qelib1.inc; read as what the package documents wherever its absence is not the question
QELIB['cu2'] = ('phi,lambda', 'c,t', 'cu3(pi/2,phi,lambda) c,t')


class Bad(Exception):
    pass


TOK = re.compile(r'\s*(symtok\d+|[A-Za-z_]\w*|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|[-+*/()])')


def expr(S, text, env):
    toks, i = [], 0
    text = text.strip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Bad('expression %r' % text)
        toks.append(m.group(1))
        i = m.end()
    toks.append(None)
    pos = [0]

    def peek():
        return toks[pos[0]]

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def atom():
        t = take()
        if t == '-':
            return -atom()
        if t == '+':
            return atom()
        if t == '(':
            v = total()
            if take() != ')':
                raise Bad('expression %r' % text)
            return v
        if t is None or t in '*/)':
            raise Bad('expression %r' % text)
        if t == 'pi':
            return S.pi
        if t in env:
            return env[t]
        if t in S.tokens:
            return S.tokens[t]
        if not (t[0].isdigit() or t[0] == '.'):
            raise Bad('name %r' % t)
        return S.num(float(t))

    def product():
        v = atom()
        while peek() in ('*', '/'):
            v = v * atom() if take() == '*' else v / atom()
        return v

    def total():
        v = product()
        while peek() in ('+', '-'):
            v = v + product() if take() == '+' else v - product()
        return v
    v = total()
    if peek() is not None:
        raise Bad('expression %r' % text)
    return v


STMT = re.compile(r'([A-Za-z_]\w*)\s*(?:\((.*)\))?\s*(.*)$', re.S)


def split_args(t):
    out, d, cur = [], 0, ''
    for ch in t:
        d += (ch == '(') - (ch == ')')
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur] if cur.strip() or out else []


def apply(S, name, args, qs, st, depth=0):
    if name == 'U':
        th, ph, la = args
        return ref.app1(ref.mats(S)['u3'](th, ph, la), qs[0], st)
    if name == 'CX':
        return ref.app1(ref.mats(S)['x'](), qs[1], st, (qs[0],))
    if name not in QELIB:
        raise Bad('gate %r is not defined' % name)
    ps, fs, body = QELIB[name]
    ps = [p for p in ps.split(',') if p]
    fs = fs.split(',')
    if len(ps) != len(args) or len(fs) != len(qs):
        raise Bad('gate %r used with %d parameters and %d qubits' % (name, len(args), len(qs)))
    if len(set(qs)) != len(qs):
        raise Bad('repeated qubit in %r' % name)
    env, q = dict(zip(ps, args)), dict(zip(fs, qs))
    for s in body.split(';'):
        m = STMT.match(s.strip())
        a = [expr(S, x, env) for x in split_args(m.group(2) or '')]
        st = apply(S, m.group(1), a, [q[x.strip()] for x in m.group(3).split(',')], st, depth + 1)
    return st


def read(S, text, n=None):
    """[(name, args, qubits)], number of qubits, number of bits; n given = text without prologue"""
    text = re.sub(r'//[^\n]*', '', text)
    parts = text.split(';')
    if parts[-1].strip():
        raise Bad('missing semicolon')
    stmts = [p.strip() for p in parts[:-1]]
    bits = n
    if n is None:
        if [re.sub(r'\s+', ' ', s) for s in stmts[:2]] != ['OPENQASM 2.0', 'include "qelib1.inc"']:
            raise Bad('header %r' % stmts[:2])
        regs = {}
        for s in stmts[2:4]:
            m = re.fullmatch(r'(qreg|creg)\s+(\w+)\s*\[(\d+)\]', s)
            if not m:
                raise Bad('register %r' % s)
            regs[m.group(1)] = (m.group(2), int(m.group(3)))
        if set(regs) != {'qreg', 'creg'} or regs['qreg'][0] != 'q' or regs['creg'][0] != 'c':
            raise Bad('registers %r' % regs)
        n, bits = regs['qreg'][1], regs['creg'][1]
        stmts = stmts[4:]

    def ref_(t, reg, size):
        m = re.fullmatch(r'\s*(\w+)\s*\[\s*(\d+)\s*\]\s*', t)
        if not m or m.group(1) != reg or int(m.group(2)) >= size:
            raise Bad('operand %r' % t)
        return int(m.group(2))
    ops = []
    for s in stmts:
        m = re.fullmatch(r'measure\s+(.*?)\s*->\s*(.*)', s)
        if m:
            ops.append(('measure', (), (ref_(m.group(1), 'q', n), ref_(m.group(2), 'c', bits))))
            continue
        m = STMT.match(s)
        if not m:
            raise Bad('statement %r' % s)
        a = [expr(S, x, {}) for x in split_args(m.group(2) or '')]
        ops.append((m.group(1), tuple(a), tuple(ref_(x, 'q', n) for x in m.group(3).split(','))))
    return ops, n, bits


def segments(ops, n, fixed):
    """unitary stretches and the measurements and resets between them"""
    seg, ev = [[]], []
    for op in ops:
        g, _, t = op
        if g in ('m', 'measure', 'reset'):
            for q in ([t] if fixed else ref.expand(t, n)):
                if fixed:
                    ev.append(('reset', t[0]) if g == 'reset' else ('measure',) + t)
                else:
                    ev.append(('reset', q) if g == 'reset' else ('measure', q, q))
                seg.append([])
        else:
            seg[-1].append(op)
    return seg, ev


def compare(S, c, ops, n, idx=None, **kw):
    before = c.n_qubits, list(c.ops)
    text = c.to_qasm(**kw)
    S.true(isinstance(text, str), 'text')
    try:
        got, nq, nb = read(S, text, n if kw.get('output_prologue') is False else None)
        for g, a, q in got:
            if g not in ('measure', 'reset'):
                apply(S, g, a, q, {0: S.num(1)})
    except Bad as e:
        S.true(False, 'valid program', '%s in %r' % (e, text))
    S.true(nq == n and nb == n, 'registers', '%d, %d, expected %d' % (nq, nb, n))
    S.true((c.n_qubits, list(c.ops)) == before, 'circuit unchanged')
    sg, eg = segments(got, n, True)
    sw, ew = segments(ops, n, False)
    S.true(eg == ew, 'measurements and resets', '%s, expected %s' % (eg, ew))
    for a, b in zip(sg, sw):
        st = S.state(n, idx=idx)
        x = st
        for g, ar, q in a:
            x = apply(S, g, ar, q, x)
        y = ref.run(S, b, st, n)
        ks = range(1 << n) if idx is None else sorted(set(x) | set(y))
        S.eq_phase([x.get(k, 0) for k in ks], [y.get(k, 0) for k in ks], 'program and circuit')
    return text


def one(S, gate, n):
    """every placement of a gate"""
    k = 1 if gate in ref.ONE else 2 if gate in ref.TWO else 3
    if k == 1:
        t = S.pick('t', list(range(-n, n)))
    elif k == 2:
        t = S.pick('t', [(a, b) for a in range(-n, n) for b in range(-n, n) if (a - b) % n])
    else:
        t = S.pick('t', [t for t in itertools.product(range(-n, n), repeat=3) if len({q % n for q in t}) == 3])
    ops = ops_of(S, [(gate, t)])
    compare(S, add_ops(S.Circuit(n), ops), ops, n)


def standard(S, gate):
    """the program only uses gates of the standard library"""
    k = 1 if gate in ref.ONE else 2 if gate in ref.TWO else 3
    ops = ops_of(S, [(gate, (0, 1, 2)[:k] if k > 1 else 0)])
    got = read(S, add_ops(S.Circuit(k), ops).to_qasm())[0]
    for g, _, _ in got:
        S.true(g in STANDARD, 'standard gates', '%s is not defined in qelib1.inc' % g)
    S.true(True, 'read')


def program(S, spec, n, kw=None):
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    n = c.n_qubits
    kw = kw or {}
    text = compare(S, c, ops, n, **kw)
    S.true(c.to_qasm(**kw) == text, 'exporting twice gives the same')
    S.true(c.run(backend='qasm_output', **kw) == text and c.run_with_qasm_output(**kw) == text, 'same text by name')


def wide(S, spec, n, idx):
    """many qubits or many operations: an arbitrary sparse state"""
    ops = ops_of(S, spec)
    compare(S, add_ops(S.Circuit(n), ops), ops, n, idx)


def constants(S, gate):
    """numeric parameters keep their value"""
    k = ref.NARGS[gate]
    xs = [0.1, -0.25, 1, -3, 1e-07, 123456.789, math.pi / 2, -math.pi, 1 / 3, 2e-3, 1.5e10, 0, -0.0]
    for i in range(len(xs)):
        args = tuple(xs[(i + j) % len(xs)] for j in range(k))
        t = 0 if gate in ref.ONE else (1, 0)
        text = getattr(S.Circuit(2), gate)(*args)[t].to_qasm()
        got = read(S, text)[0]
        S.true(bool(got), 'exported')
        if len(got) == 1 and len(got[0][1]) == k:
            S.true(all(abs(float_of(a) - b) <= 1e-15 * max(1, abs(b)) for a, b in zip(got[0][1], args)),
                   'parameter value', '%s for %s' % (text, args))


def float_of(a):
    return float(a) if not hasattr(a, 'p') else __import__('sym.num').num.eval_poly(a, {}).real


def refused(S):
    """a gate class without counterpart and decomposition is not exported as something else"""
    g = S.mod('gate')

    class Odd(g.OneQubitGate):
        lowername = 'odd'
    for gate in (Odd(0), g.CCZGate((0, 1, 2))):
        S.raises(lambda: S.Circuit(3, [gate]).to_qasm(), '%s exported' % gate.lowername, (NotImplementedError,))


TARGETS1 = [slice(None), slice(1, None), slice(None, None, -1), (0, 2), (2, -2), slice(None, -1), ()]
TARGETS2 = [((0, 1), (1, 2)), (slice(None, -1), slice(1, None)), ((2, 0), (1, 1)), ((-1, 0), (0, 1))]

PROGRAMS = [
    ([('h', 0), ('cx', (0, 1)), ('m', slice(None))], 2),
    ([('rx', 0), ('m', 0), ('x', 0), ('m', 0)], 2),
    ([('h', 2), ('m', 2), ('reset', 2), ('ry', 2), ('cx', (2, 0)), ('m', (1, 0))], 3),
    ([('m', -1), ('reset', slice(None)), ('h', 0)], 3),
    ([('u2', 0), ('crz', (0, 1)), ('t', 1), ('sdg', slice(None)), ('swap', (1, 0))], 2),
    ([('i', 0), ('ccx', (2, 0, 1)), ('cphase', (1, 2)), ('rzz', (0, 2))], 3),
    ([('m', slice(None, None, -1))], 3),
    ([('x', 0), ('measure', (2, 0, 1)), ('tdg', 0)], 3),
    ([('reset', 1), ('cswap', (0, 1, 2)), ('ch', (2, 1)), ('u3', 0)], 3),
    ([('ccx', (-1, 0, -2)), ('h', slice(None)), ('cswap', (0, -1, 1)), ('x', 4)], 3),
    ([('h', slice(None)), ('x', 3)], 1),
    ([('m', slice(None)), ('h', 2)], 1),
    ([], 1), ([], 3),
]


def jobs(tier):
    out = []
    for g in ref.NARGS:
        for n in (1, 2, 3) if g in ref.ONE else (2, 3) if g in ref.TWO else (3, 4):
            out.append(('one', dict(gate=g, n=n)))
        out.append(('standard', dict(gate=g)))
        if ref.NARGS[g] and g not in ('crx', 'cry', 'crz', 'rxx', 'ryy', 'rzz'):
            out.append(('constants', dict(gate=g)))
    for t in TARGETS1:
        for g in ('ry', 'h', 'phase', 'tdg', 'u1', 'u2', 'u3', 'i', 'm', 'reset'):
            out.append(('program', dict(spec=[(g, t)], n=3)))
    for t in TARGETS2:
        for g in ref.TWO:
            out.append(('program', dict(spec=[(g, t)], n=3)))
    for spec, n in PROGRAMS:
        out.append(('program', dict(spec=spec, n=n)))
        if not any(t in (2, 3) for _, t in spec if n == 1):
            out.append(('program', dict(spec=spec, n=n, kw=dict(output_prologue=False))))
            out.append(('program', dict(spec=spec, n=n, kw=dict(output_prologue=True))))
    for n, idx in ((12, (0, 1, 1 << 10, 2047, 4095 - 4)), (101, (3, 1 << 100, (1 << 99) + (1 << 10) + 5))):
        a, b, d = n - 1, n - 2, 10 if n > 12 else 2
        for g in ref.NARGS:
            ts = [a, d] if g in ref.ONE else [(a, d), (d, b)] if g in ref.TWO else [(a, 1, d), (0, b, a)]
            out.append(('wide', dict(spec=[(g, t) for t in ts], n=n, idx=idx)))
        out.append(('wide', dict(spec=[('x', (a, d, 1)), ('m', (d, a)), ('reset', slice(n - 4, None)), ('m', slice(8, 12))], n=n, idx=idx)))
    for n, length, rot in ((3, 90, 0), (4, 120, 3)):
        out.append(('wide', dict(spec=c01.long_spec(n, length, 3, rot), n=n, idx=(1, 6))))
        out.append(('wide', dict(spec=c01.long_spec(n, length, 3, rot + 5) + [('m', 1)] + c01.long_spec(n, 30, 2, rot), n=n, idx=(2,))))
    if tier == 'thorough':
        gs = list(ref.NARGS)
        for a, b in itertools.product(gs, gs):
            t = [(1, 0) if g in ref.TWO else (1, 2, 0) if g in ref.THREE else 1 for g in (a, b)]
            out.append(('program', dict(spec=[(a, t[0]), (b, t[1])], n=3)))
    out.append(('refused', {}))
    return out
