"""C11: matrix forms of Pauli expressions are exact in every storage format."""
from sym import ref
from .c10 import ops, op
from .common import Rand

BOUNDS = {
    'quick': 'every Pauli string on up to 3 qubits (all 64) and unsimplified terms, at widths -1, as needed and up to 2 more '
             '(at most 4 qubits), dense and all 7 sparse formats, symbolic complex coefficients; expressions of up to 4 terms with '
             'equal, overlapping and distinct flip patterns (all pairs of patterns on 3 qubits), duplicates, cancellation, constants and zero; generated expressions of 1 and 3 terms on 5-7 qubits and at width 8, every format',
    'thorough': 'as quick on up to 4 qubits (all 256 strings), width up to 5, all pairs of strings on 2 qubits',
}
OUTSIDE = 'more qubits than the bounds (in particular the 64-bit index type used from 31 qubits on); widths smaller than needed; ' \
          'rounding; scipy.sparse itself, which is modelled by its documented meaning'
FORMATS = [None, 'bsr', 'coo', 'csc', 'csr', 'dia', 'dok', 'lil']


def word_ops(P, w):
    """w[k] is the letter of qubit k"""
    return tuple(op(P, '%s%d' % (l, q)) for q, l in enumerate(w) if l != 'I')


def expected(S, terms, n):
    """terms: [(coefficient, [(letter, qubit)..])]"""
    N = 1 << n
    m = [[S.num(0)] * N for _ in range(N)]
    for c, ls in terms:
        for k in range(N):
            st = {k: S.num(1)}
            for l, q in reversed(ls):
                st = ref.apply_pauli(S, {q: l}, st)
            for r, v in st.items():
                m[r][k] = m[r][k] + c * v
    return m


def lets(os):
    return [(o.op, o.n) for o in os if o.op != 'I']


def examine(S, obj, terms, n, width, fmt, lab):
    m = obj.to_matrix(width, sparse=fmt) if (width, fmt) != (-1, None) else obj.to_matrix()
    S.true(tuple(m.shape) == (1 << n, 1 << n), lab + ': shape', '%r for %d qubits' % (m.shape, n))
    if fmt is not None:
        S.true(getattr(m, 'format', None) == fmt, lab + ': format', '%r instead of %r' % (getattr(m, 'format', None), fmt))
        d = m.toarray()
    else:
        d = m
        S.true(not hasattr(m, 'toarray'), lab + ': dense')
    S.eqv([d[i, j] for i in range(1 << n) for j in range(1 << n)], expected(S, terms, n), lab)


def widths(need, extra):
    return [-1] + [n for n in range(need, need + extra + 1)]


def term(S, words, fmt, extra):
    P = S.mod('pauli')
    w = S.pick('word', words)
    os = word_ops(P, w)
    c = S.complex('c')
    t = P.Term(os, c)
    need = max([o.n for o in os] or [-1]) + 1
    width = S.pick('width', widths(need, extra))
    examine(S, t, [(c, lets(os))], need if width == -1 else width, width, fmt, 'term')
    S.true(t.ops == os and t.coeff is c, 'term unchanged')


def messy(S, text, fmt):
    """terms whose factors are neither sorted nor distinct"""
    P = S.mod('pauli')
    os = ops(P, text)
    c = S.complex('c')
    need = max(o.n for o in os) + 1
    width = S.pick('width', widths(need, 1))
    examine(S, P.Term(os, c), [(c, lets(os))], need if width == -1 else width, width, fmt, 'unsimplified term')


def pauli(S, fmt):
    P = S.mod('pauli')
    s = S.pick('op', ['I', 'X0', 'Y0', 'Z0', 'X1', 'Y2', 'Z1'])
    o = op(P, s)
    need = 0 if s == 'I' else o.n + 1
    width = S.pick('width', widths(need, 2))
    examine(S, o, [(1, lets([o]))], need if width == -1 else width, width, fmt, 'operator')


def expr(S, texts, fmt, extra):
    P = S.mod('pauli')
    terms, ts = [], []
    for i, x in enumerate(texts):
        c = S.complex('c%d' % i) if i < 2 else S.real('c%d' % i)
        os = ops(P, x)
        terms.append((c, lets(os)))
        ts.append(P.Term(os, c))
    e = P.Expr(tuple(ts))
    need = max([q for _, ls in terms for _, q in ls] or [-1]) + 1
    width = S.pick('width', widths(need, extra))
    examine(S, e, terms, need if width == -1 else width, width, fmt, 'expression')
    S.true(e.terms == tuple(ts), 'expression unchanged')


def pairs(S, words, fmt):
    P = S.mod('pauli')
    a, b = S.pick('a', words), S.pick('b', words)
    ca, cb = S.complex('ca'), S.real('cb')
    oa, ob = word_ops(P, a), word_ops(P, b)
    examine(S, P.Expr((P.Term(oa, ca), P.Term(ob, cb))), [(ca, lets(oa)), (cb, lets(ob))], len(a), len(a), fmt, 'sum of two terms')


def flips(S, k, fmt):
    """terms of two different flip patterns are kept apart"""
    P = S.mod('pauli')
    a, b = FLIPS[k], S.pick('b', FLIPS[:k] + ['ZIZ', 'III'])
    ca, cb = S.complex('ca'), S.real('cb')
    oa, ob = word_ops(P, a), word_ops(P, b)
    examine(S, P.Expr((P.Term(oa, ca), P.Term(ob, cb))), [(ca, lets(oa)), (cb, lets(ob))], 3, 3, fmt, 'two flip patterns')


def vector(S, fmt):
    """the stored matrix acts on vectors like the operator"""
    P = S.mod('pauli')
    c, d = S.complex('c'), S.complex('d')
    e = c * P.X(0) * P.Y(1) + d * P.Z(1)
    v = S.vec('v', 4)
    m = e.to_matrix(2, sparse=fmt)
    M = expected(S, [(c, [('X', 0), ('Y', 1)]), (d, [('Z', 1)])], 2)
    w = [sum((M[i][j] * v[j] for j in range(4)), S.num(0)) for i in range(4)]
    d = m.toarray() if fmt else m
    S.eqv([sum((d[i, j] * v[j] for j in range(4)), S.num(0)) for i in range(4)], w, 'action on a vector')


def wide(S, n, width, seed, k, fmt):
    """strings on many qubits"""
    P = S.mod('pauli')
    r = Rand(seed)
    terms, ts = [], []
    for i in range(k):
        w = r.string(r(n) + 1 if i else n)
        os = tuple(r.perm(word_ops(P, w)))
        if i == 2:
            os = os + word_ops(P, r.string(2))
        c = S.complex('c%d' % i) if i < 1 else S.posreal('c%d' % i)
        ts.append(P.Term(os, c))
        terms.append((c, lets(os)))
    e = P.Expr(tuple(ts)) if k > 1 else ts[0]
    examine(S, e, terms, n if width == -1 else width, width, fmt, 'many qubits')


def refused(S):
    P = S.mod('pauli')
    for o in (P.X(0), P.I, 2.0 * P.X(0) * P.Z(1), P.X(0) + 1, P.Expr.zero()):
        for f in ('foo', 'CSR', '', 0, True):
            S.raises(lambda: o.to_matrix(sparse=f), 'unknown format', (ValueError,))
            S.raises(lambda: o.to_matrix(2, sparse=f), 'unknown format', (ValueError,))


EXPRS = [(), ('',), ('', ''), ('X0', 'X0'), ('X0 Y0', 'Z0'), ('Z0', 'Z1'), ('Z0 Z1', 'Z1', ''), ('X0 X1', 'Y0 Y1', 'X1 Y0'),
         ('X0', 'Y0', 'X1 Z0', 'Z1'), ('Y1', 'X1 Z0', 'Y0'), ('Z2', 'X2 Y0', 'Y2 X0'), ('X1 X1', 'Z1 Z1 X0'), ('Y2', 'X0')]
# every pair of flip patterns on three qubits (patterns met once, with differing phase letters)
FLIPS = [''.join(p) for p in ('XII', 'IYI', 'IIX', 'YXI', 'XZY', 'IXX', 'YYX')]



def jobs(tier):
    import itertools
    J = []
    quick = tier == 'quick'
    words = [''.join(w) for w in itertools.product('IXYZ', repeat=3 if quick else 4)]
    for f in FORMATS:
        for k in range(8):
            J.append(('term', dict(words=words[k::8], fmt=f, extra=1)))
        J.append(('pauli', dict(fmt=f)))
        for t in ('Y0 Z0 X0', 'X1 Y0 X1', 'Z1 X0 Y1 Y0', 'X2 X2', 'Y1 Y1 Y1 Z0'):
            J.append(('messy', dict(text=t, fmt=f)))
        for e in EXPRS:
            J.append(('expr', dict(texts=e, fmt=f, extra=1)))
        J.append(('vector', dict(fmt=f)))
        for a in range(len(FLIPS)):
            J.append(('flips', dict(k=a, fmt=f)))
        if not quick or f in (None, 'csr'):
            w2 = [''.join(w) for w in itertools.product('IXYZ', repeat=2)]
            for k in range(4):
                J.append(('pairs', dict(words=w2[k::4] if quick else w2, fmt=f)))
                if not quick:
                    break
    i = 0
    for f in FORMATS:
        for n, width in ((5, -1), (5, 6), (6, -1)) + (() if quick else ((7, 7), (5, 8))):
            for k in (1, 3):
                J.append(('wide', dict(n=n, width=width, seed=i, k=k, fmt=f)))
                i += 1
    J.append(('wide', dict(n=7, width=7, seed=90, k=1, fmt='csr')))
    J.append(('wide', dict(n=4, width=8, seed=91, k=1, fmt=None)))
    J.append(('refused', {}))
    return J
