"""C10: Pauli algebra agrees with matrix algebra."""
import itertools
import numpy as np
from sym import ref
from .common import Rand

BOUNDS = {
    'quick': 'operands: identity, operators on one to three distinct qubits (indices 0, 1, 2, 3, 10), terms of up to 4 factors in any '
             'order incl. repeated qubits, expressions of up to 3 terms incl. duplicated, cancelling and unsimplified ones, all '
             'coefficients symbolic complex, and sums and products with coefficients of magnitude 2**-40 to 2**40, alone and mixed; == on all 25x25 operand pairs, + - * and commutator on half of them, powers up to 3, strings of up to 3 characters; all words of 5 factors on one qubit, of 4 letters on two qubits (half of them); generated terms of 8-40 factors on up to 6 qubits with large indices, expressions of up to 12 terms and powers up to 8 (two or three coefficients symbolic), compared as combinations of Pauli strings',
    'thorough': 'as quick on all pairs, with 3-operand combinations ((A+B)*C, A*B*C), powers up to 4 and strings of up to 4 characters',
}
OUTSIDE = 'that 0*X and 0*I compare equal (they do not, although both denote 0); longer terms and expressions with every coefficient symbolic; coefficients that are not numbers; rounding of floating point coefficients'

PAULIS = ['I', 'X0', 'Y0', 'Z0', 'X3', 'Y10']
TERMS = ['', 'X0', 'Z3', 'X0 Y3', 'Y3 X0', 'Z0 Z0', 'X0 Y0', 'Y0 Z0 X0', 'Z3 X0 Y3 Y0', 'X3 Z0 Z0', 'Z10 X3']
EXPRS = [(), ('',), ('X0',), ('X0', 'X0'), ('X0 Y0', 'Z0'), ('Z0', 'X3 Z0'), ('Y3 X0', 'X0 Y3', ''), ('Z10', 'Z3', 'X0 X3')]
KINDS = [('p', p) for p in PAULIS] + [('t', t) for t in TERMS] + [('e', e) for e in EXPRS]
QUBITS = {0: 0, 3: 1, 10: 2}


def op(P, s):
    return P.I if s == 'I' else {'X': P.X, 'Y': P.Y, 'Z': P.Z}[s[0]](int(s[1:]))


def ops(P, s):
    return tuple(op(P, x) for x in s.split())


def make(S, kind, stem, other=None):
    """complex coefficients, except that of several expressions combined only the first has a complex one"""
    P = S.mod('pauli')
    k, d = kind
    real = other is not None and other[0] == 'e' and k == 'e'
    if k == 'p':
        return op(P, d)
    if k == 't':
        return P.Term(ops(P, d), S.complex(stem))
    return P.Expr(tuple(P.Term(ops(P, t), (S.real if real or i > 1 else S.complex)('%s%d' % (stem, i))) for i, t in enumerate(d)))


def letters(S, o):
    """an object -> list of (coefficient, [(letter, qubit), ..])"""
    P = S.mod('pauli')
    if isinstance(o, P.Expr):
        return [x for t in o.terms for x in letters(S, t)]
    if isinstance(o, P.Term):
        return [(o.coeff, [(x.op, x.n) for x in o.ops if x.op != 'I'])]
    return [(1, [] if o.op == 'I' else [(o.op, o.n)])]


def mat(S, o, n=None, qmap=QUBITS):
    """the matrix denoted: sum of coefficients times products of Pauli matrices"""
    n = len(qmap) if n is None else n
    N = 1 << n
    m = [[S.num(0)] * N for _ in range(N)]
    for c, ls in letters(S, o):
        for k in range(N):
            st = {k: S.num(1)}
            for l, q in reversed(ls):
                st = ref.apply_pauli(S, {qmap[q]: l}, st)
            for r, v in st.items():
                m[r][k] = m[r][k] + c * v
    return m


def used(S, *os):
    qs = sorted({q for o in os for _, ls in letters(S, o) for _, q in ls} & set(QUBITS)) or [0]
    return {q: i for i, q in enumerate(qs)}


def madd(a, b, s=1):
    return [[x + y * s for x, y in zip(p, q)] for p, q in zip(a, b)]


def mmul(S, a, b):
    N = len(a)
    out = []
    for i in range(N):
        row = []
        for j in range(N):
            t = S.num(0)
            for k in range(N):
                t = t + a[i][k] * b[k][j]
            row.append(t)
        out.append(row)
    return out


def scal(m, k):
    return [[x * k for x in r] for r in m]


def eye(S, N):
    return [[S.num(int(i == j)) for j in range(N)] for i in range(N)]


def snap(S, o):
    return [(id(c), tuple(l)) for c, l in letters(S, o)]


def ok_type(S, o, lab):
    P = S.mod('pauli')
    S.true(isinstance(o, (P.Expr, P.Term, P._PauliImpl)), lab + ': kind', type(o).__name__)


def close(S, o, m, qm, lab):
    ok_type(S, o, lab)
    S.eqv(mat(S, o, qmap=qm), m, lab)


def simplified(S, e, m, qm, lab):
    """one entry per operator string, each string sorted with distinct qubits and no vanishing entry"""
    close(S, e, m, qm, lab)
    P = S.mod('pauli')
    ts = e.terms if isinstance(e, P.Expr) else [e]
    keys = [tuple((x.op, x.n) for x in t.ops) for t in ts]
    S.true(len(set(keys)) == len(keys), lab + ': one entry per string', repr(keys))
    for k in keys:
        qs = [q for _, q in k]
        S.true(qs == sorted(set(qs)) and all(l in 'XYZ' for l, _ in k), lab + ': string in normal form', repr(k))
    if isinstance(e, P.Expr):
        S.true(keys == sorted(keys, key=lambda k: keys.index(k)), lab + ': order')
        for t in ts:
            S.true(not t.coeff == 0, lab + ': no zero entry')


def binary(S, a, group, op):
    P = S.mod('pauli')
    b = S.pick('b', [KINDS[i] for i in group])
    A, B = make(S, a, 'a'), make(S, b, 'b', a)
    sa, sb = snap(S, A), snap(S, B)
    qm = used(S, A, B)
    MA, MB = mat(S, A, qmap=qm), mat(S, B, qmap=qm)
    if op == 'sum':
        close(S, A + B, madd(MA, MB), qm, 'A + B')
    elif op == 'difference':
        close(S, A - B, madd(MA, MB, -1), qm, 'A - B')
    elif op == 'product':
        close(S, A * B, mmul(S, MA, MB), qm, 'A * B')
    else:
        C = madd(mmul(S, MA, MB), mmul(S, MB, MA), -1)
        simplified(S, P.commutator(A, B), C, qm, 'commutator')
        if hasattr(A, 'commutator'):
            close(S, A.commutator(B), C, qm, 'A.commutator(B)')
    S.true(snap(S, A) == sa and snap(S, B) == sb, 'operands unchanged')


def equality(S, a, group):
    P = S.mod('pauli')
    b = S.pick('b', [KINDS[i] for i in group])
    A, B = make(S, a, 'a'), make(S, b, 'b', a)
    qm = used(S, A, B)
    e, f = A == B, B == A
    S.true(e in (True, False) and f in (True, False), 'equality answers yes or no')
    S.true(e == f, 'equality is symmetric')
    S.true((A != B) == (not e) and (B != A) == (not e), '!= is the negation of ==')
    MA, MB = mat(S, A, qmap=qm), mat(S, B, qmap=qm)
    if e:
        S.eqv(MA, MB, 'equal objects denote the same matrix')
    else:
        for o in (A, B):
            if isinstance(o, P.Term):
                S.assume_ne(o.coeff, 0)
        same = all(x == y for r, s in zip(MA, MB) for x, y in zip(r, s))
        S.true(not same, 'objects denoting the same matrix are equal')
    if e and all(type(o).__hash__ is not None for o in (A, B)) and a[0] == b[0] == 'p':
        S.true(hash(A) == hash(B), 'equal objects have equal hashes')


def commutable(S, a, group, eps):
    P = S.mod('pauli')
    b = S.pick('b', [KINDS[i] for i in group])
    A, B = make(S, a, 'a'), make(S, b, 'b', a)
    qm = used(S, A, B)
    MA, MB = mat(S, A, qmap=qm), mat(S, B, qmap=qm)
    C = madd(mmul(S, MA, MB), mmul(S, MB, MA), -1)
    N = len(C)
    nrm = S.norm2(C) / N
    r = P.is_commutable(A, B, eps) if eps is not None else P.is_commutable(A, B)
    S.true(r in (True, False), 'answers yes or no')
    S.true(S.cmp_lt(nrm, eps if eps is not None else 1e-8) == bool(r), 'is_commutable')
    if eps is None and hasattr(A, 'is_commutable_with'):
        S.true(A.is_commutable_with(B) == r, 'is_commutable_with')


def all_commutable(S, e):
    P = S.mod('pauli')
    x = P.Expr(tuple(P.Term(ops(P, t), S.complex('c%d' % i)) for i, t in enumerate(e)))
    exp = True
    ms = [mat(S, t) for t in x.terms]
    for p, q in itertools.combinations(ms, 2):
        C = madd(mmul(S, p, q), mmul(S, q, p), -1)
        if not S.cmp_lt(S.norm2(C) / len(C), 1e-8):
            exp = False
            break
    S.true(x.is_all_terms_commutable() == exp, 'is_all_terms_commutable')


SCALARS = (('complex', None), ('real', None), ('int', 2), ('float', -0.5), ('zero', 0), ('fzero', 0.0), ('1j', 1j),
           ('float64', np.float64(1.5)), ('complex128', np.complex128(1 - 2j)), ('int64', np.int64(-3)))


def scalars(S, a, op):
    A = make(S, a, 'a')
    sa = snap(S, A)
    qm = used(S, A)
    M = mat(S, A, qmap=qm)
    one = eye(S, len(M))
    lab, k = S.pick('k', SCALARS)
    if lab == 'complex':
        k = S.complex('k')
    elif lab == 'real':
        k = S.real('k')
    if op == '*':
        close(S, A * k, scal(M, k), qm, 'A * k ' + lab)
        close(S, k * A, scal(M, k), qm, 'k * A ' + lab)
    elif op == '+':
        close(S, A + k, madd(M, one, k), qm, 'A + k ' + lab)
        close(S, k + A, madd(M, one, k), qm, 'k + A ' + lab)
    elif op == '-':
        close(S, A - k, madd(M, one, -k), qm, 'A - k ' + lab)
        close(S, k - A, madd(scal(M, -1), one, k), qm, 'k - A ' + lab)
    elif 'zero' in lab:
        for k in (0, 0.0, 0j):
            S.raises(lambda: A / k, 'division by zero', (ZeroDivisionError,))
    else:
        S.assume_ne(k, 0)
        close(S, A / k, scal(M, S.num(1) / k), qm, 'A / k ' + lab)
    S.true(snap(S, A) == sa, 'operand unchanged')


def unary(S, a, pw):
    P = S.mod('pauli')
    A = make(S, a, 'a')
    sa = snap(S, A)
    qm = used(S, A)
    M = mat(S, A, qmap=qm)
    one = eye(S, len(M))
    op = S.pick('op', ['neg', 'convert', 'simplify', 'size'] + (['pow%d' % i for i in range(-1, pw + 1)] if a[0] != 'p' else []))
    if op == 'neg':
        close(S, -A, scal(M, -1), qm, '-A')
    elif op == 'pow-1':
        S.raises(lambda: A ** -1, 'negative power', (ValueError,))
    elif op[:3] == 'pow':
        R = one
        for n in range(int(op[3:])):
            R = mmul(S, R, M)
        close(S, A ** int(op[3:]), R, qm, 'A ** ' + op[3:])
    elif op == 'convert':
        for lab, o in (('to_expr', A.to_expr()), ('pauli.to_expr', P.to_expr(A))):
            S.true(isinstance(o, P.Expr), lab + ': kind')
            close(S, o, M, qm, lab)
        if a[0] != 'e':
            for lab, o in (('to_term', A.to_term()), ('pauli.to_term', P.to_term(A))):
                S.true(isinstance(o, P.Term), lab + ': kind')
                close(S, o, M, qm, lab)
    elif op == 'simplify':
        if a[0] != 'p':
            simplified(S, A.simplify(), M, qm, 'simplify')
            simplified(S, A.simplify().simplify(), M, qm, 'simplify twice')
    else:
        mx = max([q for _, ls in letters(S, A) for _, q in ls] or [-1])
        S.true(A.n_qubits == mx + 1, 'n_qubits', '%r' % A.n_qubits)
        if a[0] != 'p':
            S.true(A.max_n() == mx, 'max_n')
        if a[0] == 'e' and A.is_identity:
            S.eqv(M, one, 'is_identity')
        if a[0] == 'p':
            S.true(A.is_identity == (a[1] == 'I'), 'is_identity')
            S.eqv(A.matrix, ref.kron_pauli(S, {0: a[1][0]}, 1), 'matrix')
    S.true(snap(S, A) == sa, 'operand unchanged')


def ternary(S, a, b, group):
    c = S.pick('c', [KINDS[i] for i in group])
    A, B, C = make(S, a, 'a'), make(S, b, 'b', a), make(S, c, 'c', ('e',))
    qm = used(S, A, B, C)
    MA, MB, MC = (mat(S, x, qmap=qm) for x in (A, B, C))
    close(S, (A + B) * C, mmul(S, madd(MA, MB), MC), qm, '(A + B) * C')
    close(S, C * (A - B), mmul(S, MC, madd(MA, MB, -1)), qm, 'C * (A - B)')
    close(S, A * B * C, mmul(S, mmul(S, MA, MB), MC), qm, 'A * B * C')
    simplified(S, (A * B + C).to_expr().simplify(), madd(mmul(S, MA, MB), MC), qm, 'A * B + C')


def products(S, length):
    """products of single operators with symbolic choice, multiplied from either side"""
    P = S.mod('pauli')
    s = [S.pick('p%d' % i, ['I', 'X0', 'Y0', 'Z0', 'X3', 'Z3']) for i in range(length)]
    os = [op(P, x) for x in s]
    qm = {0: 0, 3: 1}
    M = eye(S, 4)
    for o in os:
        M = mmul(S, M, mat(S, o, qmap=qm))
    l = os[0]
    for o in os[1:]:
        l = l * o
    r = os[-1]
    for o in reversed(os[:-1]):
        r = o * r
    close(S, l, M, qm, 'left product')
    close(S, r, M, qm, 'right product')
    simplified(S, l.to_term().simplify(), M, qm, 'simplified product')
    S.true(l == r, 'both orders of evaluation are equal')


def words(S, first, length, alphabet):
    """terms with many factors on the same qubits"""
    P = S.mod('pauli')
    s = list(first) + [S.pick('p%d' % i, alphabet) for i in range(len(first), length)]
    os = tuple(op(P, x) for x in s)
    c = S.real('c')
    qm = {q: i for i, q in enumerate(sorted({o.n for o in os}))}
    M = scal(eye(S, 1 << len(qm)), c)
    for o in os:
        M = mmul(S, M, mat(S, o, qmap=qm))
    t = P.Term(os, c)
    simplified(S, t.simplify(), M, qm, 'simplified word')
    simplified(S, P.Expr((t,)).simplify(), M, qm, 'simplified one-word expression')


def chars(S, length):
    """from strings: the k-th character from the right (left) belongs to qubit k"""
    P = S.mod('pauli')
    s = ''.join(S.pick('ch%d' % i, 'IXYZ') for i in range(length))
    qm = {i: i for i in range(max(length, 1))}
    for lab, t, word in (('term_from_chars', P.term_from_chars(s), s[::-1]), ('from_chars', P.Term.from_chars(s), s)):
        S.true(isinstance(t, P.Term), lab + ': kind')
        close(S, t, ref.kron_pauli(S, {i: c for i, c in enumerate(word)}, len(qm)), qm, lab)
    if length:
        for bad in ('A', '1', ' '):
            S.raises(lambda: P.term_from_chars(s + bad), 'bad character', (ValueError,))
    for c in 'IXYZ':
        for n in (0, 2):
            o = P.pauli_from_char(c, n)
            S.true(o.op == c and (c == 'I' or o.n == n), 'pauli_from_char')
            o = P.pauli_from_char(c.lower(), n)
            S.true(o.op == c and (c == 'I' or o.n == n), 'pauli_from_char, lower case')
    S.raises(lambda: P.pauli_from_char('W', 0), 'bad operator', (ValueError,))


def misc(S):
    P = S.mod('pauli')
    c = S.complex('c')
    z = P.Expr.zero()
    S.true(not z.terms and z == P.Expr.zero() and not z.is_identity, 'zero')
    close(S, z, scal(eye(S, 2), 0), {0: 0}, 'zero expression')
    close(S, P.Expr.from_number(c), scal(eye(S, 2), c), {0: 0}, 'from_number')
    t = P.Term((P.X(0), P.Y(0)), c)
    close(S, P.Expr.from_term(t), mat(S, t, qmap={0: 0}), {0: 0}, 'from_term')
    S.true(list(P.Expr.from_term(t).coeffs()) == [x.coeff for x in P.Expr.from_term(t)], 'coeffs and iteration')
    S.true(list(t.n_iter()) == [0, 0], 'n_iter')
    close(S, P.qubo_bit(3), [[S.num(0), S.num(0)], [S.num(0), S.num(1)]], {3: 0}, 'qubo_bit')
    for G, l in ((P.X, 'X'), (P.Y, 'Y'), (P.Z, 'Z')):
        for n in (0, 4):
            S.true(G(n) == G[n] and G(n).op == l and G(n).n == n, 'constructors')
            S.true(hash(G(n)) == hash(G[n]), 'hash')
        S.eqv(G.matrix, ref.kron_pauli(S, {0: l}, 1), 'matrix of ' + l)
    all_ = [P.I] + [G(n) for G in (P.X, P.Y, P.Z) for n in (0, 1)]
    S.true(len(set(all_)) == 7 and len(set(all_ + all_)) == 7, 'distinct operators')
    S.true(P.I() is P.I or P.I() == P.I, 'I()')


TAB = {'XY': (1, 'Z'), 'YZ': (1, 'X'), 'ZX': (1, 'Y'), 'YX': (3, 'Z'), 'ZY': (3, 'X'), 'XZ': (3, 'Y')}


def string(ls):
    """a product of letters -> (power of i, the sorted string)"""
    cur, k = {}, 0
    for l, q in ls:
        m = cur.pop(q, None)
        if m is None:
            cur[q] = l
        elif m != l:
            s, cur[q] = TAB[m + l]
            k += s
    return k % 4, tuple(sorted(cur.items()))


def basis(S, o, M=None):
    """an object -> its coefficients in the basis of Pauli strings (which determine the matrix)"""
    out = {}
    for c, ls in letters(S, o):
        k, s = string(ls)
        out[s] = out.get(s, S.num(0)) + c * [1, S.IU, -1, -S.IU][k]
    return out


def bmul(S, a, b):
    out = {}
    for s, c in a.items():
        for t, d in b.items():
            k, u = string([(l, q) for q, l in s + t])
            out[u] = out.get(u, S.num(0)) + c * d * [1, S.IU, -1, -S.IU][k]
    return out


def badd(S, a, b, k=1):
    out = dict(a)
    for s, c in b.items():
        out[s] = out.get(s, S.num(0)) + c * k
    return out


def bclose(S, o, want, lab):
    ok_type(S, o, lab)
    got = basis(S, o)
    S.eq([(got.get(s, S.num(0)), want.get(s, S.num(0))) for s in sorted(set(got) | set(want))], lab)


BIGQ = (0, 1, 2, 9, 10, 11, 63, 64, 100, 1000)


def big_terms(S, seed, length, qubits):
    """long products on many qubits"""
    P = S.mod('pauli')
    r = Rand(seed)
    c, d = S.complex('c'), S.complex('d')
    A, B = P.Term(ops(P, r.word(length, qubits)), c), P.Term(ops(P, r.word(length, qubits)), d)
    a, b = basis(S, A), basis(S, B)
    bclose(S, A * B, bmul(S, a, b), 'A * B')
    bclose(S, (A * B).simplify(), bmul(S, a, b), 'A * B simplified')
    bclose(S, A + B, badd(S, a, b), 'A + B')
    bclose(S, A - B, badd(S, a, b, -1), 'A - B')
    C = badd(S, bmul(S, a, b), bmul(S, b, a), -1)
    bclose(S, P.commutator(A, B), C, 'commutator')
    A1, B1 = P.Term(A.ops, 1.0), P.Term(B.ops, 1.0)
    S.true(P.is_commutable(A1, B1) == all(v == 0 for v in badd(S, bmul(S, basis(S, A1), basis(S, B1)), bmul(S, basis(S, B1), basis(S, A1)), -1).values()), 'is_commutable')
    mixed = P.Term(tuple(sorted(A.ops, key=lambda o: o.n)), c)      # factors on different qubits commute
    S.true(A == mixed and mixed == A and not A != mixed, 'equality up to the order of qubits')
    inv = P.Term(A.ops + tuple(reversed(A.ops)), c)
    bclose(S, inv, {(): c}, 'A times its reverse')
    S.true(inv == c * P.I, 'A times its reverse is the identity')
    wrong = P.Term(A.ops + (P.X(qubits[-1]),), c)
    S.assume_ne(c, 0)
    S.true(A != wrong and not A == wrong, 'different terms differ')
    S.true(A.max_n() == max(o.n for o in A.ops) and A.n_qubits == A.max_n() + 1, 'n_qubits')
    S.true(A.simplify() == A and A.simplify().simplify().ops == A.simplify().ops, 'simplify')
    one = P.Term(A.ops, 1.0)
    for n in (2, 3, 5, 8):
        w = {(): S.num(1)}
        for _ in range(n):
            w = bmul(S, w, basis(S, one))
        bclose(S, one ** n, w, 'A ** %d' % n)


def big_exprs(S, seed, k, length, qubits):
    """sums of many terms"""
    P = S.mod('pauli')
    r = Rand(seed)
    ws = [r.word(1 + r(length), qubits) for _ in range(k)]
    ws[k // 2] = ws[0]
    cs = [S.posreal('c%d' % i) if i in (1, k - 1) else float((i * 7) % 5 + 1) for i in range(k)]
    A = P.Expr(tuple(P.Term(ops(P, w), c) for w, c in zip(ws, cs)))
    B = P.Expr(tuple(P.Term(ops(P, w), float(i + 1)) for i, w in enumerate(r.perm(ws)[:3])))
    a, b = basis(S, A), basis(S, B)
    acc = P.Expr.zero()
    for w, c in zip(ws, cs):
        acc = acc + P.Term(ops(P, w), c)
    bclose(S, acc, a, 'terms added one after the other')
    acc = P.Expr.zero()
    for w, c in zip(ws, cs):
        acc = P.Term(ops(P, w), c) + acc
    bclose(S, acc, a, 'terms added in front')
    bclose(S, A.simplify(), a, 'simplify')
    keys = [tuple(t.ops) for t in A.simplify().terms]
    S.true(len(set(keys)) == len(keys), 'one entry per string')
    bclose(S, A + B, badd(S, a, b), 'A + B')
    bclose(S, A - B, badd(S, a, b, -1), 'A - B')
    bclose(S, A * B, bmul(S, a, b), 'A * B')
    bclose(S, B * A, bmul(S, b, a), 'B * A')
    S.true(A == P.Expr(tuple(reversed(A.terms))) and A == A.simplify(), 'equality up to the order of terms')
    S.true((A - A).simplify() == P.Expr.zero(), 'A - A vanishes')
    S.true(A.max_n() == max(o.n for t in A.terms for o in t.ops) and A.n_qubits == A.max_n() + 1, 'n_qubits')
    S.true(not A == A + P.X(qubits[-1]), 'different expressions differ')


def scaled(S, e, texts, other):
    """coefficients of any magnitude: nothing is dropped for being small or lost for being large"""
    P = S.mod('pauli')
    f = 2.0 ** e
    A = P.Expr(tuple(P.Term(ops(P, t), c * f) for t, c in zip(texts, [S.real('a')] + [S.num(x) for x in (0.75, 2.0)])))
    B = P.Expr(tuple(P.Term(ops(P, t), c * f) for t, c in zip(other, [S.complex('b'), S.num(0.5)])))
    T = P.Term(ops(P, texts[0]), S.complex('t') * f)
    a, b, t = basis(S, A), basis(S, B), basis(S, T)

    def close(o, want, k, lab):
        ok_type(S, o, lab)
        got = basis(S, o)
        S.eq([(got.get(s, S.num(0)) * 2.0 ** (-e * k), want.get(s, S.num(0)) * 2.0 ** (-e * k)) for s in sorted(set(got) | set(want))], lab)
    close(A + B, badd(S, a, b), 1, 'A + B')
    close(A - B, badd(S, a, b, -1), 1, 'A - B')
    close(A + T, badd(S, a, t), 1, 'A + term')
    close(T - A, badd(S, t, a, -1), 1, 'term - A')
    close(A.simplify(), a, 1, 'simplify')
    close(T.simplify(), t, 1, 'simplified term')
    close(-A, badd(S, {}, a, -1), 1, '-A')
    close(A * B, bmul(S, a, b), 2, 'A * B')
    close(T * A, bmul(S, t, a), 2, 'term * A')
    close(T * T, bmul(S, t, t), 2, 'term * term')
    close(A * f, {k: v * f for k, v in a.items()}, 2, 'A * number')
    close(f * A, {k: v * f for k, v in a.items()}, 2, 'number * A')
    close(A / f, {k: v / f for k, v in a.items()}, 0, 'A / number')
    close(P.I + A, badd(S, {(): S.num(1)}, a), 0 if e < 0 else 1, 'I + A')
    close(P.commutator(A, B), badd(S, bmul(S, a, b), bmul(S, b, a), -1), 2, 'commutator')
    x = S.posreal('x')
    S.true(not P.Expr((P.Term(ops(P, texts[0]), x * f),)) == P.Expr((P.Term(ops(P, texts[0]), 2 * x * f),)), 'different coefficients differ')
    S.true(not P.Term(ops(P, texts[0]), x * f) == P.Term(ops(P, texts[0]), 2 * x * f), 'different coefficients of a term differ')


def mixed(S, e, strings):
    """small coefficients next to large ones"""
    P = S.mod('pauli')
    fs = [2.0 ** (e * (i % 2)) for i in range(len(strings))]
    cs = [S.posreal('c%d' % i) for i in range(len(strings))]
    ts = [P.Term(ops(P, w), c * f) for w, c, f in zip(strings, cs, fs)]
    A = P.Expr(tuple(ts))

    def close(o, want, lab):
        ok_type(S, o, lab)
        got = basis(S, o)
        keys = [string([(l[0], int(l[1:])) for l in w.split()]) for w in strings]
        keys = [u for _, u in keys]
        S.true(set(got) <= set(keys), lab + ': strings', str(sorted(set(got) - set(keys))))
        S.eq([(got.get(s, S.num(0)) / f, x) for s, f, x in zip(keys, fs, want)], lab)
    acc = P.Expr.zero()
    for t in ts:
        acc = acc + t
    close(acc, cs, 'sum of terms')
    acc = P.Expr.zero()
    for t in ts[::-1]:
        acc = t + acc
    close(acc, cs, 'sum of terms in front')
    close(A.simplify(), cs, 'simplify')
    close(A + A, [2 * c for c in cs], 'A + A')
    close(A - P.Expr(tuple(ts[::2])), [c * (i % 2) for i, c in enumerate(cs)], 'A - large terms')
    close(A - P.Expr(tuple(ts[1::2])), [c * (1 - i % 2) for i, c in enumerate(cs)], 'A - small terms')
    close(A * P.I, cs, 'A * I')
    close(P.I * A, cs, 'I * A')
    close(A * 1.0, cs, 'A * 1')
    close(A * P.Expr.from_number(1.0), cs, 'A * constant')
    close(A ** 1, cs, 'A ** 1')
    S.true(not A == P.Expr(tuple(ts[::2])), 'small terms count in comparisons')


def big_powers(S, n, texts):
    P = S.mod('pauli')
    A = P.Expr(tuple(P.Term(ops(P, t), c) for t, c in zip(texts, S.reals('c', len(texts)))))
    w = {(): S.num(1)}
    for _ in range(n):
        w = bmul(S, w, basis(S, A))
    bclose(S, A ** n, w, 'A ** %d' % n)


def jobs(tier):
    J = []
    n = len(KINDS)
    groups = [tuple(range(n))[i::3] for i in range(3)]
    for a in KINDS:
        J.append(('unary', dict(a=a, pw=2 if len(a[1]) > 2 and a[0] == 'e' else 3 if tier == 'quick' else 4)))
        for o in '*+-/':
            J.append(('scalars', dict(a=a, op=o)))
        ia = KINDS.index(a)
        for i, g in enumerate(groups):
            if tier == 'quick' and a[0] == 'e' and len(a[1]) > 2:
                g = tuple(k for k in g if KINDS[k][0] != 'e' or len(KINDS[k][1]) < 2)
            for off, o in enumerate(('sum', 'difference', 'product', 'commutator')):
                if tier == 'quick' and o == 'commutator' and a[0] != 'p' and i != ia % 3:
                    continue
                gg = g if tier == 'thorough' else tuple(k for k in g if (k + ia + off) % 2 == 0 or k == ia)
                J.append(('binary', dict(a=a, group=gg, op=o)))
            g = tuple(k for k in g if k >= ia)
            if g:
                J.append(('equality', dict(a=a, group=g)))
    com = [('p', 'X0'), ('t', 'X0 Y3'), ('t', 'Y0 Z0 X0'), ('e', ('X0 Y0', 'Z0')), ('e', ('Z0', 'X3 Z0'))]
    cg = [i for i, k in enumerate(KINDS) if k in (('p', 'I'), ('p', 'Z0'), ('p', 'X3'), ('t', 'X0'), ('t', 'Y3 X0'), ('t', 'Z0 Z0'),
                                                 ('e', ('X0', 'X0')), ('e', ('Z0', 'X3 Z0')))]
    for a in com if tier == 'quick' else KINDS:
        for i in cg:
            for eps in (None, 0.25):
                J.append(('commutable', dict(a=a, group=(i,), eps=eps)))
    for e in [(), ('X0',), ('X0', 'Z0'), ('X0 X3', 'Z0 Z3'), ('X0 X3', 'Z0', ''), ('Z0', 'Z3', 'Z0 Z3'), ('X0 X3', 'Y0 Y3', 'Z0 Z3'),
              ('Z0', 'Z3', 'X3')]:
        J.append(('all_commutable', dict(e=e)))
    for l in range(1, 4 if tier == 'quick' else 5):
        J.append(('products', dict(length=l)))
    for l in range(0, 4 if tier == 'quick' else 5):
        J.append(('chars', dict(length=l)))
    one, two = ('X0', 'Y0', 'Z0'), ('X0', 'Z0', 'Y3', 'Z3')
    for l in (4, 5) if tier == 'quick' else (4, 5, 6):
        for f in one:
            J.append(('words', dict(first=(f,), length=l, alphabet=one)))
    for f in itertools.product(two, two[:2] if tier == 'quick' else two):
        J.append(('words', dict(first=f, length=5 if tier == 'quick' else 6, alphabet=two)))
    for i in range(6 if tier == 'quick' else 24):
        for length, qs in ((8, (0, 3)), (12, (0, 1, 10)), (12, BIGQ), (40, BIGQ)):
            J.append(('big_terms', dict(seed=4 * i + len(qs) % 4, length=length, qubits=qs)))
        for k, qs in ((6, (0, 1)), (8, (2, 10, 11)), (12, BIGQ)):
            J.append(('big_exprs', dict(seed=3 * i + len(qs) % 3, k=k, length=4, qubits=qs)))
    for e in (-40, -20, 40) if tier == 'quick' else (-60, -40, -30, -20, 20, 40, 60):
        for t, o in ((('X0',), ('X0',)), (('X0', 'Z1'), ('Z1 X0', 'X0')), (('Y2', ''), ('',)), (('X10 Y2', 'X10 Y2'), ('Z0',))):
            J.append(('scaled', dict(e=e, texts=t, other=o)))
    for e in (-40, -20, 40):
        J.append(('mixed', dict(e=e, strings=('X0', 'Z1', 'X0 Y2', ''))))
        J.append(('mixed', dict(e=e, strings=('', 'Z10', 'Y0 X1 Z2'))))
    for m in (4, 5, 6, 8):
        J.append(('big_powers', dict(n=m, texts=('X0', 'Z0', '')[:2 if m > 5 else 3])))
        J.append(('big_powers', dict(n=m, texts=('X10 Z9', 'Z10', 'Y2')[:1 if m > 6 else 2])))
    J.append(('misc', {}))
    tri = [('p', 'Y0'), ('t', 'X0 Y3'), ('e', ('X0 Y0', 'Z0')), ('e', ('Z0', 'X3 Z0')), ('t', 'Z0 Z0')]
    if tier == 'thorough':
        for a in tri:
            for b in tri:
                for g in groups:
                    J.append(('ternary', dict(a=a, b=b, group=g)))
    else:
        J.append(('ternary', dict(a=tri[2], b=tri[1], group=(1, 9, 19))))
    return J
