"""Exact symbolic complex numbers: Laurent polynomials over real variables, unit complex numbers
e^{i*angle} and roots of unity, with rational coefficients.

A term is  coeff * prod(var^k) * prod(e^{i*q*angle}) * e^{i*pi*phase}   (phase in [0,1), q rational).
Because the representation is canonical, constants built from 1/sqrt(2), e^{i*pi/4}, ... are exact.
Square roots and reciprocals of general polynomials introduce defined variables (see core.Engine).
"""
import math
import numbers
from fractions import Fraction

F0, F1, F2 = Fraction(0), Fraction(1), Fraction(2)
HALF = Fraction(1, 2)
ONEKEY = ((), (), F0)
PI = 'PI'
PIMONO = ((PI, 1),)


class Unsupported(BaseException):
    """The engine cannot represent this operation (never a verdict)."""


_engine = None


def set_engine(e):
    global _engine
    _engine = e


def engine():
    return _engine


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0:
            del d[k]
        else:
            d[k] = n
    return tuple(sorted(d.items()))


def _mulang(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, F0) + e
        if n == 0:
            del d[k]
        else:
            d[k] = n
    return tuple(sorted(d.items()))


_phase_memo = {}


def _addphase(p, q):
    r = _phase_memo.get((p, q))
    if r is None:
        s = p + q
        sign = 1
        s = s % 2
        if s >= 1:
            s -= 1
            sign = -1
        r = _phase_memo[(p, q)] = (s, sign)
    return r


def _addterm(d, key, c):
    n = d.get(key)
    if n is None:
        d[key] = c
    else:
        n = n + c
        if n == 0:
            del d[key]
        else:
            d[key] = n


_PICKLED = []


def _unpickle(k):
    return _PICKLED[k]


class SNum(numbers.Number):
    __slots__ = ('p', 'cplx', '_h')
    __array_priority__ = -1.0

    def __init__(self, p, cplx):
        self.p = p
        self.cplx = cplx
        self._h = None

    # -- construction ------------------------------------------------------------------------
    @staticmethod
    def const(v, cplx=False):
        v = Fraction(v)
        return SNum({ONEKEY: v} if v else {}, cplx)

    @staticmethod
    def var(name, cplx=False):
        return SNum({(((name, 1),), (), F0): F1}, cplx)

    @staticmethod
    def phase(q, angs=()):
        """e^{i*pi*q} * prod e^{i*e*ang}"""
        s, sign = _addphase(Fraction(q), F0)
        return SNum({((), angs, s): Fraction(sign)}, True)

    # -- inspection --------------------------------------------------------------------------
    def is_zero(self):
        return not self.p

    def is_const(self):
        return all(not m and not a for m, a, _ in self.p)

    def rational(self):
        """Fraction value if a rational constant, else None"""
        if not self.p:
            return F0
        if len(self.p) == 1 and ONEKEY in self.p:
            return self.p[ONEKEY]
        return None

    def is_real(self):
        return not self.cplx or self.p == self.conjugate().p

    def key(self):
        return frozenset(self.p.items())

    def vars(self):
        s = set()
        for m, a, _ in self.p:
            for v, _e in m:
                s.add(v)
            for am, _e in a:
                for v, _k in am:
                    s.add(v)
        return s

    # -- arithmetic --------------------------------------------------------------------------
    def __add__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        d = dict(self.p)
        for k, c in o.p.items():
            _addterm(d, k, c)
        return SNum(d, self.cplx or o.cplx)
    __radd__ = __add__

    def __neg__(self):
        return SNum({k: -c for k, c in self.p.items()}, self.cplx)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        d = dict(self.p)
        for k, c in o.p.items():
            _addterm(d, k, -c)
        return SNum(d, self.cplx or o.cplx)

    def __rsub__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        return o - self

    def __mul__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        cplx = self.cplx or o.cplx
        if not self.p or not o.p:
            return SNum({}, cplx)
        d = {}
        needrule = False
        rules = _engine.rules if _engine is not None else {}
        for (m1, a1, q1), c1 in self.p.items():
            for (m2, a2, q2), c2 in o.p.items():
                q, s = _addphase(q1, q2)
                m = _mulmono(m1, m2)
                c = c1 * c2
                if s < 0:
                    c = -c
                if rules and m1 and m2:
                    for v, e in m:
                        if (e >= 2 or e < 0) and v in rules:
                            needrule = True
                _addterm(d, (m, _mulang(a1, a2), q), c)
        r = SNum(d, cplx)
        if needrule:
            r = _apply_rules(r, rules)
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        r = o.rational()
        if r is not None:
            if r == 0:
                raise ZeroDivisionError("division by zero")
            return SNum({k: c / r for k, c in self.p.items()}, self.cplx or o.cplx)
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        return o * self.inverse()

    def __pow__(self, n):
        if isinstance(n, SNum):
            n = n.rational()
            if n is None:
                raise Unsupported("symbolic exponent")
        if isinstance(n, (float, Fraction)):
            if n == int(n):
                n = int(n)
            elif n == 0.5:
                return self.sqrt()
            elif n == -0.5:
                return self.sqrt().inverse()
            else:
                raise Unsupported("power %r" % (n,))
        n = n.__index__()
        if n < 0:
            return self.inverse() ** (-n)
        r = SNum.const(1, self.cplx)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __divmod__(self, o):
        """the quotient is searched among -4..4, for multiples of pi -1..1 (the path condition says which);
        beyond is out of bounds"""
        m = tosnum(o)
        if m is NotImplemented or not self.is_real() or not m.is_real() or not (
                m.is_const() or set(m.p) == {(PIMONO, (), F0)}):
            raise Unsupported("modulo of a symbolic number by %r" % (o,))
        v = m.numeric().real if m.is_const() else float(m.p[PIMONO, (), F0]) * math.pi
        if v < 0:
            raise Unsupported("modulo by a negative number")
        if v == 0:
            raise ZeroDivisionError("float modulo")
        for k in (0, -1, 1, -2, 2, -3, 3, -4, 4) if m.is_const() else (0, 1, -1):
            r = self - m * k
            if r >= 0 and r < m:
                return SNum.const(k), r
        from .core import PathAbort
        raise PathAbort()       # a stated bound

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __rfloordiv__(self, o):
        raise Unsupported("division by a symbolic number with remainder")
    __rmod__ = __rdivmod__ = __rfloordiv__

    def inverse(self):
        if not self.p:
            raise ZeroDivisionError("division by zero")
        heads = {(m, a) for m, a, _ in self.p}
        if len(heads) == 1:
            (m, a), = heads
            if not m or not any(v in _engine.rules for v, _ in m):
                if m:
                    # variables in a divisor must be non-zero on this path
                    for v, _e in m:
                        if not _engine.assume_nonzero_var(v):
                            raise ZeroDivisionError("division by zero")
                ci = _inv_cyclotomic({q: c for (_, _, q), c in self.p.items()})
                mm = tuple((v, -e) for v, e in m)
                aa = tuple((k, -e) for k, e in a)
                return SNum({(mm, aa, q): c for q, c in ci.items()}, self.cplx)
        return _engine.inverse(self)

    def conjugate(self):
        if not self.cplx:
            return self
        d = {}
        for (m, a, q), c in self.p.items():
            if q:
                q, c = 1 - q, -c
            if a:
                a = tuple((k, -e) for k, e in a)
            _addterm(d, (m, a, q), c)
        return SNum(d, True)
    conj = conjugate

    @property
    def real(self):
        if not self.cplx:
            return self
        r = (self + self.conjugate())
        return SNum({k: c * HALF for k, c in r.p.items()}, False)

    @property
    def imag(self):
        if not self.cplx:
            return SNum({}, False)
        r = (self - self.conjugate()) * SNum({((), (), HALF): -HALF}, True)
        return SNum(r.p, False)

    def __abs__(self):
        if not self.cplx or self.is_real():
            r = SNum(self.p, False)
            q = r.rational()
            if q is not None:
                return SNum.const(abs(q))
            if len(r.p) == 1:
                ((m, a, ph), c), = r.p.items()
                if not a and not ph and len(m) == 1 and m[0][0] in _engine.nonneg:
                    return SNum({(m, a, ph): abs(c)}, False)
            d = r * r
        else:
            d = self.abs2()
        _engine.known_nonneg(d)
        return d.sqrt()

    def abs2(self):
        r = self * self.conjugate()
        return SNum(r.p, False)

    def sqrt(self):
        q = self.rational()
        if q is not None and q >= 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return SNum.const(Fraction(n, d))
            n2, d2 = q.numerator, q.denominator
            # sqrt(n/d) = sqrt(n*d)/d
            k = n2 * d2
            m = math.isqrt(k // 2)
            if k % 2 == 0 and m * m * 2 == k:
                return SQRT2 * Fraction(m, d2)
        return _engine.sqrt(self)

    # -- transcendental ----------------------------------------------------------------------
    def _expi(self):
        """e^{i*self} for real self"""
        if not self.is_real():
            raise Unsupported("expi of complex")
        angs = {}
        ph = F0
        fac = None
        for (m, a, q), c in self.p.items():
            if a or q:
                raise Unsupported("angle with algebraic coefficient")
            if m == PIMONO:
                ph += c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in _engine.args and c.denominator == 1:
                u = _engine.args[m[0][0]]
                u = (u if c > 0 else u.conjugate()) ** abs(int(c))
                fac = u if fac is None else fac * u
            else:
                angs[m] = c
        r = SNum.phase(ph, tuple(sorted(angs.items())))
        return r if fac is None else r * fac

    def arg(self):
        if self.is_const():
            v = self.numeric()
            import cmath
            return SNum.const(Fraction(cmath.phase(v) / cmath.pi).limit_denominator(720)) * SNum.var(PI) if abs(
                cmath.phase(v) / cmath.pi * 720 - round(cmath.phase(v) / cmath.pi * 720)) < 1e-9 else SNum.const(cmath.phase(v))
        if self == 0:
            return SNum.const(0)
        return _engine.arg(self)

    def cos(self):
        e = self._expi()
        return e.real

    def sin(self):
        e = self._expi()
        return e.imag

    def exp(self):
        if self.cplx:
            re, im = self.real, self.imag
            if re.is_zero():
                return im._expi()
            return _engine.opaque('exp', re) * im._expi()
        if self.is_zero():
            return SNum.const(1)
        return _engine.opaque('exp', self)

    def log(self):
        return _engine.opaque('log', self)

    def tanh(self):
        return _engine.opaque('tanh', self)

    def tan(self):
        return self.sin() / self.cos()

    # -- comparisons: fork -------------------------------------------------------------------
    def _cmp(self, o, op):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        return _engine.compare(self - o, op)

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')

    def __gt__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        return _engine.compare(o - self, 'lt')

    def __ge__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return o
        return _engine.compare(o - self, 'le')

    def __eq__(self, o):
        o = tosnum(o)
        if o is NotImplemented:
            return False
        return _engine.compare(self - o, 'eq')

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    def __bool__(self):
        return not _engine.compare(self, 'eq')

    def __hash__(self):
        if self._h is None:
            q = self.rational()
            self._h = hash(q) if q is not None else hash(self.key())
        return self._h

    # -- conversions -------------------------------------------------------------------------
    def numeric(self):
        if self.is_const():
            return eval_poly(self, {})
        raise TypeError("symbolic value used where a concrete number is required")

    def __float__(self):
        v = self.numeric()
        if abs(v.imag) > 1e-12:
            raise TypeError("can't convert complex to float")
        return v.real

    def __complex__(self):
        return complex(self.numeric())

    def __int__(self):
        return int(float(self))

    def __round__(self, n=None):
        if not self.is_const() and n is not None and self.is_real():
            return _engine.opaque('fmt.%df' % n, self)
        if not self.is_const():
            raise Unsupported("round of a symbolic number")
        return round(float(self), n) if n is not None else round(float(self))

    def is_integer(self):
        q = self.rational()
        if q is None:
            raise Unsupported("is_integer of a symbolic real")
        return q.denominator == 1

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, protocol):
        _PICKLED.append(self)
        return _unpickle, (len(_PICKLED) - 1,)

    def __str__(self):
        q = self.rational()
        if q is not None and not self.cplx:
            return repr(float(q))
        if _engine is not None:
            return _engine.text(self)
        return self.debug()
    __repr__ = __str__

    def __format__(self, spec):
        if not spec:
            return str(self)
        q = self.rational()
        if q is not None:
            return format(float(q), spec)
        return _engine.token_fmt(self, spec)

    def debug(self):
        out = []
        for (m, a, q), c in self.p.items():
            s = str(c)
            for v, e in m:
                s += '*%s^%s' % (v, e)
            for k, e in a:
                s += '*E(%s*%s)' % (e, '.'.join('%s^%s' % x for x in k) or '1')
            if q:
                s += '*w(%s)' % q
            out.append(s)
        return ' + '.join(out) or '0'


def _apply_rules(x, rules):
    """Rewrite v^2 -> poly and v^-1 -> v * inv(poly) for rule variables."""
    cur = x
    while True:
        bad = None
        for (m, a, q), c in cur.p.items():
            for v, e in m:
                if v in rules and (e >= 2 or e < 0):
                    bad = (m, a, q), c, v, e
                    break
            if bad:
                break
        if not bad:
            return cur
        d = {}
        add = []
        for key, c in cur.p.items():
            m = key[0]
            hit = None
            for v, e in m:
                if v in rules and (e >= 2 or e < 0):
                    hit = (v, e)
                    break
            if hit is None:
                _addterm(d, key, c)
                continue
            v, e = hit
            rest = tuple((w, k) for w, k in m if w != v)
            k, r = divmod(e, 2)
            if r:
                rest = _mulmono(rest, ((v, 1),))
            base = SNum({(rest, key[1], key[2]): c}, cur.cplx)
            pw = rules[v]
            if k < 0:
                pw, k = pw.inverse(), -k
            f = pw
            for _ in range(k - 1):
                f = f * pw
            add.append(base * f)
        cur2 = SNum(d, cur.cplx)
        for t in add:
            cur2 = cur2 + t
        cur = cur2


def _inv_cyclotomic(d):
    """Inverse of sum c*e^{i*pi*q} as the same kind of dict."""
    if len(d) == 1:
        (q, c), = d.items()
        if q == 0:
            return {F0: 1 / c}
        return {1 - q: -1 / c}
    L = 1
    for q in d:
        L = L * q.denominator // math.gcd(L, q.denominator)
    if L & (L - 1):
        raise Unsupported("inverse of non 2-power cyclotomic constant")
    n = L  # basis e^{i*pi*k/L}, k = 0..L-1
    # matrix of multiplication
    M = [[F0] * n for _ in range(n)]
    for q, c in d.items():
        k = int(q * L)
        for j in range(n):
            s = k + j
            if s >= n:
                M[s - n][j] -= c
            else:
                M[s][j] += c
    b = [F1] + [F0] * (n - 1)
    for col in range(n):
        piv = next((r for r in range(col, n) if M[r][col] != 0), None)
        if piv is None:
            raise ZeroDivisionError
        M[col], M[piv] = M[piv], M[col]
        b[col], b[piv] = b[piv], b[col]
        iv = 1 / M[col][col]
        M[col] = [x * iv for x in M[col]]
        b[col] *= iv
        for r in range(n):
            if r != col and M[r][col] != 0:
                f = M[r][col]
                M[r] = [x - f * y for x, y in zip(M[r], M[col])]
                b[r] -= f * b[col]
    return {Fraction(k, L): b[k] for k in range(n) if b[k] != 0}


SQRT2 = SNum({((), (), Fraction(1, 4)): F1, ((), (), Fraction(3, 4)): -F1}, False)
IUNIT = SNum({((), (), HALF): F1}, True)


# -- lifting of concrete numbers -----------------------------------------------------------------
def _cosconst(k):
    """cos(k*pi/16) exactly"""
    e = SNum.phase(Fraction(k, 16))
    return e.real


_COSTAB = [(math.cos(k * math.pi / 16), k) for k in range(1, 8)]
_lift_memo = {}


def lift_float(v):
    r = _lift_memo.get(v)
    if r is None:
        r = _lift_memo[v] = _lift_float(v)
    return r


def _lift_float(v):
    if v != v or v in (math.inf, -math.inf):
        raise Unsupported("nan/inf meets a symbolic number")
    if v == int(v):
        return SNum.const(int(v))
    if abs(v) < 1e-15:
        return SNum({}, False)      # rounding residue such as cos(pi/2)
    f = Fraction(v)
    if f.denominator <= 1 << 20:
        return SNum.const(f)
    t = v / math.pi
    g = Fraction(t).limit_denominator(64)
    if g and abs(float(g) - t) <= 4e-15 * abs(t) and abs(g.numerator) <= 4096:
        return SNum({(PIMONO, (), F0): g}, False)
    for scale in (1, 2, HALF, Fraction(1, 4), 4):
        for cv, k in _COSTAB:
            if abs(abs(v) - float(scale) * cv) <= 4e-16 * 4 * float(scale):
                c = _cosconst(k) * scale
                return c if v > 0 else -c
    g = f.limit_denominator(1000)
    if abs(float(g) - v) <= 4e-15 * abs(v):
        return SNum.const(g)
    return SNum.const(f)


def tosnum(x):
    if isinstance(x, SNum):
        return x
    t = type(x)
    if t is int or t is bool:
        return SNum.const(x)
    if t is float:
        return lift_float(x)
    if t is complex:
        return SNum((lift_float(x.real) + IUNIT * lift_float(x.imag)).p, True)
    if t is Fraction:
        return SNum.const(x)
    if hasattr(x, '_snum_'):
        return x._snum_()
    import numpy as np
    if isinstance(x, (np.bool_, np.integer)):
        return SNum.const(int(x))
    if isinstance(x, np.floating):
        return lift_float(float(x))
    if isinstance(x, np.complexfloating):
        return tosnum(complex(x))
    if isinstance(x, (int, float, complex)):
        if isinstance(x, int):
            return SNum.const(int(x))
        if isinstance(x, float):
            return lift_float(float(x))
        return tosnum(complex(x))
    for f in FOREIGN:
        r = f(x)
        if r is not None:
            return r
    return NotImplemented


FOREIGN = []        # conversions of numbers of other libraries


def substitute(x, vals):
    """x with variables replaced by rational values (a variable stays where that is not representable)"""
    if not any(v in vals for v in x.vars()):
        return x
    out = {}
    for (m, a, q), c in x.p.items():
        mm, ph, angs = [], F0, {}
        for n, e in m:
            v = vals.get(n)
            if v is None or (v == 0 and e < 0):
                mm.append((n, e))
            else:
                c = c * v ** e
        for k, e in a:
            kk, f = [], e
            for n, ex in k:
                v = vals.get(n)
                if v is None:
                    kk.append((n, ex))
                else:
                    f = f * v ** ex
            kk = tuple(kk)
            if not kk and f:
                kk, f = k, e
            if kk == PIMONO:
                ph += f
            elif f:
                angs[kk] = angs.get(kk, F0) + f
        if c:
            s, sign = _addphase(q, ph)
            _addterm(out, (tuple(mm), tuple(sorted((k, e) for k, e in angs.items() if e)), s), c * sign)
    return SNum(out, x.cplx)


# -- numeric evaluation --------------------------------------------------------------------------
def eval_poly(x, env):
    import cmath
    tot = 0j
    for (m, a, q), c in x.p.items():
        v = complex(c.numerator / c.denominator if abs(c.numerator) < 1 << 900 else float(c))
        for n, e in m:
            v *= (math.pi if n == PI else env[n]) ** e
        ang = float(q) * math.pi
        for k, e in a:
            t = float(e)
            for n, kk in k:
                t *= (math.pi if n == PI else env[n]) ** kk
            ang += t
        if ang:
            v *= cmath.exp(1j * ang)
        tot += v
    return tot
