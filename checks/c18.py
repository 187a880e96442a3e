"""C18: symbolic expressions and QUBO matrices agree on every assignment.

The package runs on the real sympy.  The coefficients of a polynomial are sympy constants without a known
value (NumberSymbol, as pi is) that stand for solver reals; results are converted back to solver terms.
"""
import itertools
import sys
import types
from unittest import mock
import numpy as np
import sympy
from sympy.core.sympify import converter
from sym import num

BOUNDS = {
    'quick': 'qn_to_qubo, Opt.add(text), optx, optm: polynomials of up to 8 monomials in up to 4 variables (gaps in the '
             'numbering, powers, constants, repeated products, products of sums) with every coefficient symbolic, plain, '
             'rational or irrational; all assignments.  nbody_separation: up to 4 monomials of degree up to 5 in up to 5 '
             'variables, the iteration order of symbol sets fixed to several permutations, all assignments including the '
             'auxiliary variables; chains and stars of 12-13 variables, decided on the assignments with at most two ones, which determine a quadratic polynomial',
    'thorough': 'as quick with all pairs of monomials of degree up to 4 over 4 variables and more orders',
}
OUTSIDE = 'single monomials (refused); expressions that are not polynomials; larger polynomials; ' \
          'numeric coefficients that cancel or collect inside sympy'
ASSUMPTIONS = ['sympy expands, substitutes and extracts coefficients correctly',
               'a sympy constant of unknown value is treated by sympy like a number (sympy.poly: as a coefficient; where sympy orders '
               'coefficients internally a nominal positive value is used)']

PRIMES = [p for p in range(10007, 12000) if all(p % d for d in range(2, 110))]
TABLE = {}


class Coef(sympy.NumberSymbol):
    is_real = True
    is_irrational = None
    is_zero = False
    is_negative = None
    is_positive = None
    __slots__ = ('key',)

    def __new__(cls, key):
        o = sympy.NumberSymbol.__new__(cls)
        o.key = key
        return o

    def _hashable_content(self):
        return (self.key,)

    def __eq__(self, o):
        return isinstance(o, Coef) and o.key == self.key

    def __hash__(self):
        return hash(('Coef', self.key))

    def _as_mpf_val(self, prec):
        # a nominal value: sympy's printers order terms by it
        from mpmath.libmp import from_float
        return from_float(0.5 + (self.key * 0.6180339887) % 1.0)

    def _cmp(name):
        def f(self, o):
            # sympy compares coefficients of products while it substitutes; the package itself must not
            if 'blueqat' in (sys._getframe(1).f_globals.get('__name__') or ''):
                raise num.Unsupported("comparison of a symbolic coefficient")
            return getattr(sympy.NumberSymbol, name)(self, o)
        return f
    __lt__, __le__, __gt__, __ge__ = map(_cmp, ('__lt__', '__le__', '__gt__', '__ge__'))

    def _sympystr(self, p):
        return 'coef%d' % self.key
    _sympyrepr = _sympystr

    def _eval_is_finite(self):
        return True


Coef.__name__ = 'Float'         # sorts among the factors of a product as a number does


def convert(e, S=None, val=None):
    """sympy polynomial expression -> solver term; None if it is something else"""
    if not isinstance(e, sympy.Basic):
        return None
    if isinstance(e, Coef):
        return TABLE[e.key]
    if val is not None and e in val:
        return num.tosnum(val[e])
    if e.is_Rational:
        return num.SNum.const(num.Fraction(int(e.p), int(e.q)))
    if e.is_Float:
        return num.lift_float(float(e))
    if e == sympy.pi:
        return num.SNum.var(num.PI)
    if e.is_Add or e.is_Mul:
        t = None
        for a in e.args:
            x = convert(a, S, val)
            if x is None:
                return None
            t = x if t is None else t + x if e.is_Add else t * x
        return t
    if e.is_Pow and e.exp.is_Rational:
        b = convert(e.base, S, val)
        if b is None:
            return None
        if e.exp.is_Integer:
            return b ** int(e.exp)
        if int(e.exp.q) == 2:
            return b.sqrt() ** int(e.exp.p)
    return None


num.FOREIGN.append(convert)


def value(S, e, val):
    """value of an expression at an assignment"""
    if S.concrete:
        if not isinstance(e, sympy.Basic):
            return e
        return float(e.subs(val, simultaneous=True).evalf(30))
    if not isinstance(e, sympy.Basic):
        return S.num(e)
    r = convert(e, S, val)
    S.true(r is not None, 'a polynomial', str(e))
    return r


class Text(str):
    """text of an expression with symbolic coefficients"""
    expr = None


converter[Text] = lambda s: s.expr


class PolyModel(types.ModuleType):
    """sympy, with poly() treating constants of unknown value as the numbers they stand for"""

    _package_only_ = True       # sympy itself keeps its own functions

    def __init__(self):
        super().__init__('sympy')
        self.__path__ = sympy.__path__

    def __getattr__(self, n):
        return getattr(sympy, n)

    @staticmethod
    def poly(e, *gens, **k):
        e = sympy.sympify(e)
        cs = sorted(e.atoms(Coef), key=lambda c: c.key) if isinstance(e, sympy.Basic) else []
        if cs and not gens:
            gens = sympy.poly(e.xreplace({c: sympy.Integer(PRIMES[i]) for i, c in enumerate(cs)}), **k).gens
        return sympy.poly(e, *gens, **k)

    @staticmethod
    def Poly(e, *gens, **k):
        return PolyModel.poly(e, *gens, **k) if isinstance(e, sympy.Basic) else sympy.Poly(e, *gens, **k)


def fakes(concrete):
    TABLE.clear()
    return {} if concrete else {'sympy': PolyModel()}


def coefficient(S, k, kind):
    """(as sympy sees it, its value)"""
    if kind == 'sym':
        x = S.real('c%d' % k)
        S.assume_ne(x, 0)
        if S.concrete:
            return sympy.Float(x), x
        TABLE[k] = x
        return Coef(k), x
    e = sympy.sympify(kind)
    return e, complex(e.evalf(30)) if S.concrete else convert(e)


def sym(i, stem='q'):
    return sympy.Symbol('%s%d' % (stem, i))


def poly(S, monos, coefs):
    """(expression, [(value of the coefficient, monomial)])"""
    e, parts = sympy.Integer(0), []
    for k, m in enumerate(monos):
        c, v = coefficient(S, k, coefs[k % len(coefs)])
        t = c
        for i in m:
            t = t * sym(i)
        e = e + t
        parts.append((v, m))
    return e, parts


def at(S, parts, b):
    """value of the polynomial at the assignment b (dict)"""
    t = S.num(0)
    for v, m in parts:
        if all(b[i] for i in m):
            t = t + v
    return t


def assignments(idx, quadratic=False):
    """all of them; those with at most two ones determine a quadratic polynomial"""
    idx = list(idx)
    for bits in itertools.product((0, 1), repeat=len(idx)) if not quadratic or len(idx) <= 6 else \
            ([int(i in c) for i in range(len(idx))] for k in range(3) for c in itertools.combinations(range(len(idx)), k)):
        yield dict(zip(idx, bits))


def qubo_value(Q, b):
    t = 0
    n = len(Q)
    for i, j in itertools.product(range(n), repeat=2):
        if b.get(i, 0) and b.get(j, 0):
            t = t + Q[i][j]
    return t


def check_qubo(S, Q, parts, weight=1):
    idx = sorted({i for _, m in parts for i in m})
    for b in assignments(idx, True):
        e = at(S, parts, b) - at(S, parts, {i: 0 for i in idx})
        S.eq([(qubo_value(Q, b), e * weight)], 'value at %s' % (b,))


def plain(Q, S):
    """numbers, whatever library they come from"""
    return [[S.num(x) if not S.concrete else float(x) for x in r] for r in Q]


def quadratic(S, monos, coefs):
    wq = S.mod('wq')
    e, parts = poly(S, monos, coefs)
    Q = wq.qn_to_qubo(e)
    n = max(i for m in monos for i in m) + 1
    S.true(len(Q) == n and all(len(r) == n for r in Q), 'shape')
    check_qubo(S, plain(Q, S), parts)


quadratic.fakes = fakes


def text(S, monos, coefs):
    """(text, parts)"""
    out, parts, back = [], [], {}
    for k, m in enumerate(monos):
        kind = coefs[k % len(coefs)]
        c, v = coefficient(S, k, kind)
        parts.append((v, m))
        if kind != 'sym':
            out.append('*'.join(['(%s)' % kind] + ['q%d' % i for i in m]))
        else:
            if S.concrete:
                out.append('*'.join(['(%r)' % v] + ['q%d' % i for i in m]))
            else:
                back[sympy.Symbol('placeholder%d' % k)] = c
                out.append('*'.join(['placeholder%d' % k] + ['q%d' % i for i in m]))
    s = Text('+'.join(out))
    if S.concrete:
        return str(s), parts
    s.expr = sympy.sympify(str(s)).xreplace(back)
    return s, parts


def adding(S, monos, coefs, weight=None, twice=False):
    wq = S.mod('wq')
    o = wq.Opt()
    s, parts = text(S, monos, coefs)
    M = 1 if weight is None else S.real('M') if weight == 'sym' else weight
    r = o.add(s) if weight is None else o.add(s, M)
    S.true(r is o, 'returns the optimizer')
    if twice:
        o.add(s)
        M = M + 1
    check_qubo(S, plain(o.qubo, S), parts, M)


adding.fakes = fakes


def square_text(S, coefs, power=2):
    """a power of a sum, given as text"""
    wq = S.mod('wq')
    n = len(coefs) - 1
    cs, back, out = [], {}, []
    for k in range(n + 1):
        c, v = coefficient(S, k, coefs[k])
        cs.append(v)
        name = 'placeholder%d' % k
        back[sympy.Symbol(name)] = c
        out.append(('(%r)' % v if S.concrete and coefs[k] == 'sym' else name if coefs[k] == 'sym' else '(%s)' % coefs[k])
                   + ('*q%d' % k if k < n else ''))
    s = '(%s)**%d' % ('+'.join(out), power)
    if not S.concrete:
        t = Text(s)
        t.expr = sympy.sympify(s).xreplace(back)
        s = t
    o = wq.Opt().add(s)
    Q = plain(o.qubo, S)
    S.true(len(Q) == n, 'shape')

    def p(b):
        t = cs[n]
        for i in range(n):
            if b[i]:
                t = t + cs[i]
        r = t
        for _ in range(power - 1):
            r = r * t
        return r
    for b in assignments(range(n)):
        S.eq([(qubo_value(Q, b), p(b) - p({i: 0 for i in range(n)}))], 'value at %s' % (b,))


square_text.fakes = fakes


def reduce_powers(S, monos, coefs):
    wq = S.mod('wq')
    e, parts = poly(S, monos, coefs)
    r = wq.optx(e)
    for b in assignments(sorted({i for m in monos for i in m})):
        S.eq([(value(S, sympy.sympify(r), {sym(i): v for i, v in b.items()}), at(S, parts, b))], 'value at %s' % (b,))
    if max((m.count(i) for m in monos for i in m), default=0) <= 2:
        S.true(not any(p.is_Pow and p.free_symbols for p in sympy.preorder_traversal(sympy.sympify(r))), 'no powers left', str(r))


reduce_powers.fakes = fakes


def matrix(S, monos, coefs, n):
    wq = S.mod('wq')
    e, parts = poly(S, monos, coefs)
    Q = wq.optm(e, n)
    S.true(np.shape(Q) == (n, n), 'shape', str(np.shape(Q)))
    check_qubo(S, plain(Q, S), parts)


matrix.fakes = fakes


class Ordered(set):
    """set of symbols with a chosen iteration order (the order of a set is unspecified)"""
    rank = None

    def __iter__(self):
        return iter(sorted(set.__iter__(self), key=self.rank))

    def copy(self):
        return ordered(self, self.rank)

    def pop(self):
        x = next(iter(self))
        self.discard(x)
        return x


def ordered(s, rank):
    r = Ordered(set.__iter__(s) if isinstance(s, Ordered) else s)
    r.rank = rank
    return r


def separation(S, monos, coefs, order=0, aux='s'):
    wq = S.mod('wq')
    e, parts = poly(S, monos, coefs)
    qs = [sym(i, aux) for i in range(40)]

    def rank(s):
        nm = str(s)
        k = int(nm[1:])
        a = nm[0] == aux if aux != 'q' else k >= 20
        return [(a, k), (a, -k), (not a, k), (not a, -k), (0, k * 7 % 5, a), (0, k * 3 % 4, nm)][order]
    plainfs = sympy.Basic.free_symbols
    with mock.patch.object(sympy.Basic, 'free_symbols', property(lambda s: ordered(plainfs.fget(s), rank))):
        if aux == 'q':
            new, cons, mapping = wq.nbody_separation(e, qs[20:])
        else:
            new, cons, mapping = wq.nbody_separation(e, qs)
    stands = {}
    for k, v in mapping.items():
        S.true(isinstance(k, tuple) and len(k) == 2, 'mapping from pairs of names', repr(k))
        S.true(str(v) not in stands, 'every auxiliary variable stands for one product', str(v))
        stands[str(v)] = k
    var = [str(sym(i)) for i in sorted({i for m in monos for i in m})]
    S.true(not set(var) & set(stands), 'auxiliary variables are new')
    used = {str(s) for s in sympy.sympify(new).free_symbols | sympy.sympify(cons).free_symbols}
    S.true(used <= set(var) | set(stands), 'variables', str(used))
    for t in sympy.Add.make_args(sympy.expand(new)):
        S.true(len(t.free_symbols) <= 2, 'at most two variables per term', str(t))
    for t in sympy.Add.make_args(sympy.expand(cons)):
        S.true(sum(p.as_base_exp()[1] for p in sympy.Mul.make_args(t) if p.free_symbols) <= 2, 'quadratic constraints', str(t))

    def product(nm, b, depth=0):
        if nm in b and nm not in stands:
            return b[nm]
        S.true(depth < 20, 'no circular mapping')
        x, y = stands[nm]
        return product(x, b, depth + 1) * product(y, b, depth + 1)
    good = []
    for bits in assignments(var):
        x = {nm: product(nm, bits) for nm in stands}
        want = at(S, parts, {int(nm[1:]): v for nm, v in bits.items()})
        for xs in assignments(sorted(stands)):
            full = {**bits, **xs}
            val = {sympy.Symbol(k): v for k, v in full.items()}
            c = value(S, sympy.sympify(cons), val)
            ok = all(full[nm] == full[stands[nm][0]] * full[stands[nm][1]] for nm in stands)
            if ok:
                S.true(all(full[nm] == x[nm] for nm in stands), 'products of the variables')
                S.eq([(c, 0)], 'constraints vanish on the products')
                S.eq([(value(S, sympy.sympify(new), val), want)], 'value at %s' % (full,))
            else:
                S.true(S.cmp_lt(0, c), 'constraints are positive off the products', '%s at %s' % (cons, full))


separation.fakes = fakes


def symbols(S, n, m):
    wq = S.mod('wq')
    got = wq.make_qs(n) if m is None else wq.make_qs(n, m)
    S.true(isinstance(got, tuple) and list(map(str, got)) == ['q%d' % i for i in (range(n) if m is None else range(n, m))], 'names', str(got))


symbols.fakes = fakes


def jobs(tier):
    J = []
    big = tier == 'thorough'
    S = ('sym',)
    kinds = [S, ('1', 'sym'), ('sym', '-1'), ('2', '1/2'), ('sqrt(2)', '3'), ('2*sqrt(2)', '-sqrt(3)/2'), ('1/3', 'pi', '-2*pi')]
    quad = [
        ((0,), (1,)), ((0,), (0, 1)), ((0, 1), (1, 2)), ((), (0,)), ((), (0, 1)), ((), (0,), (1,), (0, 1)), ((2,), (0, 3)), ((3,), (1,)),
        ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)), ((), (0,), (2,), (0, 2), (1, 3), (3,)), ((1, 0), (2, 0), (2, 1)), ((10, 2), (11,)),
        ((0, 0), (1,)), ((0, 0), (0,)), ((0, 0), (0, 1), (1, 1)), ((0, 0, 1), (1,)), ((0, 1, 1), (0, 1)), ((0, 0, 1), (0, 1, 1), (0, 1), (0,)),
        ((0, 1), (2, 2, 2), (0,)),
    ]
    for m in quad:
        for c in kinds:
            J.append(('quadratic', dict(monos=m, coefs=c)))
    one = [m for m in quad if {i for t in m for i in t} == set(range(1 + max(i for t in m for i in t)))] + [
        ((0,),), ((0, 1),), ((1, 1, 1), (0, 1)), ((0,), (1, 1)), ((1, 1), (0, 0)), ((0, 0, 0), (1, 1, 0, 1), (1, 2, 2)), ((0,), (1, 1, 1, 1), (2, 2, 0)),
        ((0, 1), (1, 1, 1), (2,)), ((2, 2), (1,), (0,)), ((2, 2, 1), (0, 0))]
    line = tuple((i,) for i in range(12)) + tuple((i, i + 1) for i in range(11)) + ((0, 11), (10, 2), (2, 2), ())
    star = tuple((0, i) for i in range(1, 13)) + ((9, 10), (10,), (3, 3, 11))
    for f, m in (('quadratic', line), ('quadratic', star), ('adding', line), ('adding', star), ('matrix', line), ('quadratic', ((20, 3), (100,), (11, 1)))):
        for c in (('sym', '1', '-2'), ('1', '2', '-1/2')):
            J.append((f, dict(monos=m, coefs=c, **({'n': 13} if f == 'matrix' else {}))))
    for m in one:
        for c in kinds:
            J.append(('adding', dict(monos=m, coefs=c)))
        J.append(('adding', dict(monos=m, coefs=S, weight='sym')))
        J.append(('adding', dict(monos=m, coefs=S, weight=2, twice=True)))
    for c in [('sym', 'sym'), ('sym', 'sym', 'sym'), ('1', '1', '-1'), ('1', '2', '-1'), ('sym', '1', '-2'), ('1', '1', '1', 'sym')]:
        J.append(('square_text', dict(coefs=c)))
    J.append(('square_text', dict(coefs=('sym', '1', '0'), power=2)))
    for m in quad:
        for c in kinds:
            J.append(('reduce_powers', dict(monos=m, coefs=c)))
    for m in [((0, 0, 0), (1,)), ((0, 0, 0, 0), (1, 1)), ((0, 0, 1, 1), (1,)), ((0, 1, 2), (0, 0, 1, 2))]:
        J.append(('reduce_powers', dict(monos=m, coefs=S)))
    for m in quad:
        if max(i for t in m for i in t) > 4 or any(len(t) > 2 for t in m):
            continue
        n = 1 + max(i for t in m for i in t)
        for c in kinds:
            J.append(('matrix', dict(monos=m, coefs=c, n=n)))
        J.append(('matrix', dict(monos=m, coefs=S, n=n + 1)))
    nb = [((0, 1, 2), (3,)), ((0, 1, 2), (0, 1)), ((0, 1, 2), (1, 2, 3)), ((0, 1, 2, 3), ()), ((0, 1, 2, 3), (0, 1, 2)), ((0, 1, 2, 3), (0, 2, 3), (1,)),
          ((0, 1), (2,)), ((0,), ()), ((0, 1, 2, 3, 4), (0,)), ((0, 0, 1, 2), (1,)), ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)),
          ((0, 1, 2), (2, 1, 0, 3), (0, 1), ()), ((0, 1, 1, 2), (3, 1, 2)), ((0, 2, 4), (1, 3))]
    for m in nb:
        for o in range(6):
            J.append(('separation', dict(monos=m, coefs=S, order=o)))
            if o < 2 or big:
                J.append(('separation', dict(monos=m, coefs=('1', '-1', 'sym'), order=o)))
                J.append(('separation', dict(monos=m, coefs=('2', 'sqrt(2)'), order=o)))
        J.append(('separation', dict(monos=m, coefs=S, order=0, aux='q')))
    for m in (((9, 10, 11), (2,), (2, 11)), ((0, 1, 2, 3, 4, 5), (2,)), ((2, 10, 11), (9, 10, 11), (1, 2, 10))):
        J.append(('separation', dict(monos=m, coefs=('sym', '1'), order=0)))
        J.append(('separation', dict(monos=m, coefs=('1', 'sym'), order=5)))
    if big:
        sets = [c for k in (3, 4) for c in itertools.combinations(range(4), k)]
        low = [c for k in (0, 1, 2, 3) for c in itertools.combinations(range(4), k)]
        for a in sets:
            for b in low:
                if a != b:
                    for o in range(6):
                        J.append(('separation', dict(monos=(a, b), coefs=S, order=o)))
        for a, b, c in itertools.combinations([(0,), (1,), (2,), (0, 0), (0, 1), (0, 2), (1, 2), (0, 0, 1), (1, 1, 1), ()], 3):
            if any(x for x in (a, b, c)):
                J.append(('quadratic', dict(monos=(a, b, c), coefs=S)))
                J.append(('reduce_powers', dict(monos=(a, b, c), coefs=S)))
    for n, m in ((1, None), (2, None), (5, None), (12, None), (0, 3), (2, 3), (3, 9)):
        J.append(('symbols', dict(n=n, m=m)))
    return J
