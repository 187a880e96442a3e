"""Symbolic execution by re-execution: path forking, definitions, z3 queries, models."""
import cmath
import math
import re
import random as _random
import time
import hashlib
from fractions import Fraction
import z3
from . import num
from .num import SNum, PI, PIMONO, eval_poly, Unsupported

EPS = 1e-7


class Inconclusive(Exception):
    """The solver could not decide, or a model did not concretise."""


class PathAbort(BaseException):
    """Path is infeasible / cut (never caught by code under test)."""


class Violation(BaseException):
    def __init__(self, label, env, detail=''):
        self.label, self.env, self.detail = label, env, detail


def _rng(*key):
    return _random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], 'big'))


def _bound(d, name):
    """k when the polynomial d is proportional to name - k"""
    one = (((name, 1),), (), num.F0)
    if len(d.p) != 2 or one not in d.p:
        return None
    for k, c in d.p.items():
        if k != one and not k[0] and not k[1] and not k[2]:
            return -c / d.p[one]
    return None


class Engine:
    NWIT = 10

    def __init__(self, seed=1, max_paths=20000, timeout_ms=60000):
        self.seed = seed
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.stats = dict(paths=0, queries=0, unsat=0, sat=0, solver_s=0.0, forks=0, obligations=0,
                          lanes=0, assume_cut=0, reused=0)
        self.answered = set()
        self.pending = []
        self.reset([])

    # -- per-path state ----------------------------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.atoms = []          # (kind, SNum, truth)
        self.iatoms = []         # z3 bools on integers
        self.memo = {}
        self.imemo = {}
        self.rules = {}
        self.nonneg = set()
        self.positive = set()
        self.base = {}           # base var -> sampler(rng) or None when set by a group
        self.defs = []           # (kind, name, poly, extra)
        self.defmemo = {}
        self.ints = {}           # int var name -> (z3 var, lo, hi)
        self.counters = {}
        self.tokens = {}
        self.signed_text = False
        self.args = {}
        self.wit = [dict() for _ in range(self.NWIT)]
        self.wit_alive = [True] * self.NWIT
        self.isolver = None
        self.icache = None
        self.notes = []
        num.set_engine(self)

    def fresh(self, stem):
        k = self.counters.get(stem, 0)
        self.counters[stem] = k + 1
        return '%s#%d' % (stem, k)

    # -- inputs ------------------------------------------------------------------------------
    def real(self, name, sampler=None):
        if name not in self.base:
            self.base[name] = sampler or (lambda r: r.uniform(-2.0, 2.0))
            for i, w in enumerate(self.wit):
                w[name] = self.base[name](_rng(self.seed, i, name))
        return SNum.var(name)

    def group(self, names, sampler):
        """several base variables sampled jointly: sampler(rng)->list"""
        if names[0] in self.base:
            return
        for n in names:
            self.base[n] = None
        self.groups = getattr(self, 'groups', {})
        self.base[names[0]] = ('group', names, sampler)
        for i, w in enumerate(self.wit):
            for n, v in zip(names, sampler(_rng(self.seed, i, names[0]))):
                w[n] = v

    def rule_var(self, name, poly, group=True):
        """declare that var `name` satisfies name^2 == poly (value chosen by sampler/model)"""
        if name not in self.rules:
            self.rules[name] = poly
            self.defs.append(('rule', name, poly, None))

    def sqrt(self, p):
        if not p.is_real():
            raise Unsupported("sqrt of complex")
        p = SNum(p.p, False)
        k = ('sqrt', p.key())
        if k in self.defmemo:
            return self.defmemo[k]
        if not self.assume_nonneg(p):
            raise ValueError("math domain error")
        # perfect square of a non-negative variable
        if len(p.p) == 1:
            ((m, a, q), c), = p.p.items()
            if m and not a and not q and c > 0 and all(e % 2 == 0 for _, e in m):
                rc = SNum.const(c).sqrt()
                base = SNum({(tuple((v, e // 2) for v, e in m), (), num.F0): num.F1}, False)
                if all(v in self.nonneg for v, _ in m):
                    r = rc * base
                    self.defmemo[k] = r
                    return r
                if len(m) == 1 and m[0][1] == 2:
                    # |v|
                    name = self.fresh('abs')
                    self._define('sqrt', name, SNum({(m, (), num.F0): num.F1}, False))
                    self.rules[name] = SNum({(m, (), num.F0): num.F1}, False)
                    self.nonneg.add(name)
                    r = rc * SNum.var(name)
                    self.defmemo[k] = r
                    return r
        name = self.fresh('sqrt')
        self._define('sqrt', name, p)
        self.rules[name] = p
        self.nonneg.add(name)
        r = SNum.var(name)
        self.defmemo[k] = r
        return r

    def _define(self, kind, name, poly, extra=None):
        self.defs.append((kind, name, poly, extra))
        for i, w in enumerate(self.wit):
            if not self.wit_alive[i]:
                continue
            try:
                w[name] = self._eval_def(kind, poly, extra, w)
            except (ZeroDivisionError, ValueError, KeyError, OverflowError):
                self.wit_alive[i] = False

    @staticmethod
    def _eval_def(kind, poly, extra, w):
        v = eval_poly(poly, w)
        if kind == 'sqrt':
            if v.real < -1e-9:
                raise ValueError
            return math.sqrt(max(v.real, 0.0))
        if kind == 'inv':
            if abs(v) < 1e-9:
                raise ZeroDivisionError
            return 1.0 / v.real
        if kind == 'opaque':
            x = v.real
            if extra == 'exp':
                return math.exp(x)
            if extra == 'log':
                return math.log(x)
            if extra == 'tanh':
                return math.tanh(x)
            if extra == 'arg':
                return cmath.phase(v)
            if extra.startswith('fmt'):
                return float(format(x, extra[3:]))
        raise ValueError(kind)

    def inverse(self, p):
        if p.cplx and not p.is_real():
            return p.conjugate() * SNum(self.inverse(p.abs2()).p, True)
        p = SNum(p.p, False)
        q = p.rational()
        if q is not None:
            return SNum.const(1 / q)
        heads = {(m, a) for m, a, _ in p.p}
        if len(heads) == 1:
            (m, a), = heads
            if not m or not any(v in self.rules for v, _ in m):
                return p.inverse()
            # r * const : split off
            if not a:
                const = {}
                for (_, _, qq), c in p.p.items():
                    const[qq] = c
                r = SNum({((), (), qq): c for qq, c in num._inv_cyclotomic(const).items()}, False)
                for v, e in m:
                    r = r * self._invvar(v) ** e if e > 0 else r * SNum.var(v) ** (-e)
                return r
        k = ('inv', p.key())
        if k in self.defmemo:
            return self.defmemo[k]
        # normalise content and sign so that proportional divisors share one variable
        lead = min(p.p.items(), key=lambda t: repr(t[0]))[1]
        if lead != 1:
            pn = SNum({kk: c / lead for kk, c in p.p.items()}, False)
            r = self.inverse(pn) * (1 / lead)
            self.defmemo[k] = r
            return r
        if self.compare(p, 'eq'):
            raise ZeroDivisionError("division by zero")
        name = self.fresh('inv')
        self._define('inv', name, p)
        r = SNum.var(name)
        self.defmemo[k] = r
        return r

    def _invvar(self, v):
        if v in self.rules:
            # 1/v = v / v^2
            if not self.assume_nonzero_var(v):
                raise ZeroDivisionError("division by zero")
            return SNum.var(v) * self.inverse(self.rules[v])
        if not self.assume_nonzero_var(v):
            raise ZeroDivisionError("division by zero")
        return SNum({(((v, -1),), (), num.F0): num.F1}, False)

    def assume_nonzero_var(self, v):
        if v == PI:
            return True
        return not self.compare(SNum.var(v), 'eq')

    def known_nonneg(self, p):
        """p is a sum of squares"""
        if not p.is_const():
            self.memo.setdefault(('le', (-p).key()), True)

    def assume_nonneg(self, p):
        return self.compare(-p, 'le')

    def sign(self, d):
        """+1/-1 when every term of d has that sign by the positivity of its variables, else 0"""
        g = 0
        for (m, a, q), c in d.p.items():
            if a or q or not all(v in self.positive or v == PI for v, _ in m):
                return 0
            t = 1 if c > 0 else -1
            if g and t != g:
                return 0
            g = t
        return g

    def opaque(self, fn, p):
        if not p.is_real():
            raise Unsupported(fn + " of complex")
        p = SNum(p.p, False)
        k = (fn, p.key())
        if k in self.defmemo:
            return self.defmemo[k]
        if fn == 'log':
            if p.is_const() and p.rational() == 1:
                return SNum.const(0)
            if len(p.p) == 1:
                ((m, a, q), c), = p.p.items()
                if c == 1 and m and (len(m) > 1 or m[0][1] != 1) and not a and not q and self.sign(p) > 0:
                    # log of a product of positive factors
                    r = SNum.const(0)
                    for v, e in m:
                        r = r + self.opaque('log', SNum.var(v)) * e
                    return r
        if fn == 'exp':
            # one variable for e^x and e^-x
            m = max(p.p, key=repr, default=None)
            if m is None:
                return SNum.const(1)
            if p.p[m] < 0:
                return SNum.const(1) / self.opaque('exp', -p)
        name = self.fresh(fn)
        self._define('opaque', name, p, fn)
        if fn == 'exp' or fn == 'tanh' and self.sign(p) > 0:
            self.nonneg.add(name)
            self.positive.add(name)
        r = SNum.var(name)
        self.defmemo[k] = r
        return r

    def arg(self, z):
        """the angle of a non-zero complex number: e^{i arg(z)} is z/|z|"""
        k = ('arg', z.key())
        if k not in self.defmemo:
            name = self.fresh('arg')
            self._define('opaque', name, z, 'arg')
            self.args[name] = z / abs(z)
            self.defmemo[k] = SNum.var(name)
        return self.defmemo[k]

    # -- tokens (symbolic values inside text) -------------------------------------------------
    def text(self, x):
        """str() of a symbolic number; on request with the sign or the brackets the real text would have"""
        if not self.signed_text:
            return self.token(x)
        if not x.cplx:
            return '-' + self.token(-x) if x < 0 else self.token(x)
        if x.real == 0:
            return '-' + self.token(-x) if x.imag < 0 else self.token(x)
        return '(' + self.token(x) + ')'

    def token(self, x):
        for t, y in self.tokens.items():
            if y.p == x.p:
                return t
        neg = -x
        for t, y in self.tokens.items():
            if y.p == neg.p:
                return '-' + t
        t = 'symtok%d' % len(self.tokens)
        self.tokens[t] = x
        return t

    def token_fmt(self, x, spec):
        m = re.fullmatch(r'(\.(\d+))?([eEfFgG]?)', spec)
        if not m or not x.is_real():
            raise Unsupported("format spec %r on a symbolic number" % spec)
        if m.group(3).lower() in ('g', 'e', '') and m.group(2) and int(m.group(2)) >= 17:
            return self.token(x)
        return self.token(self.opaque('fmt' + spec, x))     # a rounded value, otherwise unconstrained

    # -- comparisons and forks -----------------------------------------------------------------
    def compare(self, d, op):
        """truth of d <op> 0"""
        if op == 'eq':
            if not d.p:
                return True
            if d.is_const():
                return False
        else:
            if not d.is_real():
                raise TypeError("'<' not supported between instances of 'complex' and 'complex'")
            if d.is_const():
                v = eval_poly(d, {}).real
                return v < 0 if op == 'lt' else (v <= 0 or not d.p)
        if op == 'eq':
            key = ('eq', frozenset((d if min(d.p.items(), key=lambda t: repr(t[0]))[1] > 0 else -d).p.items()))
            neg = None
        else:
            key = (op, d.key())
            neg = ('le' if op == 'lt' else 'lt', (-d).key())
        if key in self.memo:
            return self.memo[key]
        if neg is not None and neg in self.memo:
            return not self.memo[neg]
        # sign facts
        if self.positive:
            g = self.sign(d)
            if g:
                return op != 'eq' and g < 0
        if op in ('lt', 'le') and len(d.p) == 1:
            ((m, a, q), c), = d.p.items()
            if not a and not q and m and all(v in self.nonneg or e % 2 == 0 for v, e in m):
                if op == 'lt' and c > 0:
                    return False
                if op == 'le' and c < 0:
                    return True
        r = self._fork((op, d))
        self.memo[key] = r
        return r

    def _atom_num(self, atom, w):
        """(surely true, surely false) of an atom at witness w"""
        op, d = atom
        v = eval_poly(d, w)
        if op == 'eq':
            return (False, abs(v) > EPS)
        x = v.real
        return (x < -EPS, x > EPS)

    def _fork(self, atom):
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
            self.trace.append(r)
            self._push(atom, r)
            return r
        self.stats['forks'] += 1
        ft = ff = None
        for w, al in zip(self.wit, self.wit_alive):
            if not al:
                continue
            try:
                t, f = self._atom_num(atom, w)
            except (KeyError, OverflowError, ZeroDivisionError):
                continue
            ft = ft or t
            ff = ff or f
        if not ft:
            ft = self._feasible(atom, True)
        if not ff:
            ff = self._feasible(atom, False) if ft else True
        if ft and ff:
            self.pending.append(self.trace + [False])
            r = True
        elif ft:
            r = True
        else:
            r = False
        self.trace.append(r)
        self._push(atom, r)
        return r

    def _push(self, atom, r):
        self.atoms.append((atom[0], atom[1], r))
        for i, w in enumerate(self.wit):
            if not self.wit_alive[i]:
                continue
            try:
                t, f = self._atom_num(atom, w)
            except (KeyError, OverflowError, ZeroDivisionError):
                self.wit_alive[i] = False
                continue
            if not (t if r else f):
                self.wit_alive[i] = False

    def assume(self, op, d, truth=True):
        """assume d <op> 0 (part of the claim's preconditions)"""
        if d.is_const():
            return
        if op == 'eq':
            key = ('eq', frozenset((d if min(d.p.items(), key=lambda t: repr(t[0]))[1] > 0 else -d).p.items()))
        else:
            key = (op, d.key())
        self.memo[key] = truth
        self._push((op, d), truth)
        if self.defs and self._linear_unsat(self.atoms):
            raise PathAbort()

    def _linear_unsat(self, atoms):
        """atoms are already contradictory when every monomial is taken as an independent real"""
        t0 = time.time()
        names = {}
        s = z3.Solver()
        s.set('timeout', 5000)

        def mono(k):
            # real part of the monomial; a monomial and its conjugate share one variable
            m, a, q = k
            sg = 1
            if a or q:
                (c, cc), = SNum({k: num.F1}, True).conjugate().p.items()
                if repr(c) < repr(k):
                    k, sg = c, cc
            if k not in names:
                v = z3.Real('m%d' % len(names))
                names[k] = v
                if not a and q == 0 and all(x in self.nonneg or e % 2 == 0 for x, e in m):
                    s.add(v >= 0)
            return names[k] * z3.RealVal(str(sg))

        def lin(d):
            t = z3.RealVal(0)
            for k, c in d.p.items():
                m, a, q = k
                if not m and not a and q == 0:
                    t = t + z3.RealVal(str(c))
                else:
                    t = t + z3.RealVal(str(c)) * mono(k)
            return t
        for op, d, t in atoms:
            x = lin(d)
            b = x == 0 if op == 'eq' else (x < 0 if op == 'lt' else x <= 0)
            if op == 'eq' and not d.is_real():
                continue
            s.add(b if t else z3.Not(b))
        for kind, name, p, extra in self.defs:
            if kind == 'inv':
                s.add(lin(p * SNum.var(name)) == 1)
            elif kind in ('sqrt', 'rule'):
                x = lin(p)
                s.add(x >= 0)
                if kind == 'sqrt':
                    v = mono((((name, 1),), (), num.F0))
                    s.add((x == 0) == (v == 0))
                    for op, d, _ in atoms:
                        k = _bound(d, name)
                        if k is not None and k > 0:
                            s.add((v <= str(k)) == (x <= str(k * k)), (v < str(k)) == (x < str(k * k)))
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            self.stats['unsat'] += 1
            return True
        return False

    def _feasible(self, atom, truth):
        if self._linear_unsat(self.atoms + [(atom[0], atom[1], truth)]):
            return False
        r, _ = self.query_real(self.atoms + [(atom[0], atom[1], truth)], [], want_model=False, timeout_ms=4000)
        return r != z3.unsat

    # -- z3 encoding -----------------------------------------------------------------------------
    def _relevant(self, seeds):
        """defs and atoms connected to the seed variables"""
        vs = set(seeds)
        defs = {n: (k, n, p, e) for k, n, p, e in self.defs}
        changed = True
        atoms = list(self.atoms)
        used_atoms = set()
        used_defs = set()
        while changed:
            changed = False
            for n in list(vs):
                if n in defs and n not in used_defs:
                    used_defs.add(n)
                    vs |= defs[n][2].vars()
                    changed = True
            for n, dd in defs.items():
                # definitions over known vars are not needed unless referenced
                pass
            for i, (op, d, t) in enumerate(atoms):
                if i in used_atoms:
                    continue
                dv = d.vars()
                if dv & vs:
                    used_atoms.add(i)
                    if not dv <= vs:
                        vs |= dv
                    changed = True
        return [d for d in self.defs if d[1] in used_defs], [atoms[i] for i in sorted(used_atoms)], vs

    def query_real(self, atoms, neqs, want_model=True, probe=None, timeout_ms=None, margin=None, full=False):
        """sat of: relevant defs & atoms & (some lane of neqs differs)"""
        t0 = time.time()
        seeds = set()
        for _, d, _t in atoms[len(self.atoms):]:
            seeds |= d.vars()
        for l, r in neqs:
            seeds |= l.vars() | r.vars()
        if full or not neqs and len(atoms) == len(self.atoms):
            for _, d, _t in atoms:
                seeds |= d.vars()
        defs, ratoms, vs = self._relevant(seeds)
        atoms = ratoms + [a for a in atoms[len(self.atoms):]]
        z = ZCtx(self)
        polys = [d for _, d, _ in atoms] + [p for _, _, p, _ in defs]
        for l, r in neqs:
            polys += [l, r]
        z.prepare(polys)
        s = z3.Solver()
        s.set('timeout', int(timeout_ms or self.timeout_ms))
        s.set('random_seed', self.seed)
        cons = []
        for op, d, t in atoms:
            cons.append(z.atom(op, d, t))
        for kind, name, p, extra in defs:
            v = z.var(name)
            if kind in ('sqrt', 'rule'):
                cons.append(v * v == z.re(p))
                if kind == 'sqrt':
                    cons.append(v >= 0)
            elif kind == 'inv':
                cons.append(v * z.re(p) == 1)
            elif kind == 'opaque' and extra == 'exp':
                x = z.re(p)
                cons += [v > 0, z3.Implies(x > 0, v > 1), z3.Implies(x < 0, v < 1), z3.Implies(x == 0, v == 1)]
        if neqs:
            dis = []
            for l, r in neqs:
                (a, b), (c, d) = z.cplx(l), z.cplx(r)
                for x, y in ((a, c), (b, d)):
                    dis += [x - y > margin, y - x > margin] if margin is not None else [x != y]
            cons.append(z3.Or(*dis))
        cons += z.side()
        if probe is not None:
            cons += z.probe(probe)
        for c in cons:
            s.add(c)
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            self.stats['unsat'] += 1
        elif r == z3.sat:
            self.stats['sat'] += 1
        if r == z3.sat and want_model:
            return r, z.model_env(s.model(), vs)
        return r, None

    # -- integer side ------------------------------------------------------------------------------
    def int_var(self, name, lo, hi):
        if name not in self.ints:
            v = z3.Int(name)
            self.ints[name] = (v, lo, hi)
            if lo is not None:
                self._iadd(v >= lo)
            if hi is not None:
                self._iadd(v <= hi)
        return self.ints[name][0]

    def _iadd(self, b):
        self.iatoms.append(b)
        if self.isolver is not None:
            self.isolver.add(b)

    def _isolve(self, extra=()):
        if self.isolver is None:
            self.isolver = z3.Solver()
            self.isolver.set('timeout', self.timeout_ms)
            for a in self.iatoms:
                self.isolver.add(a)
        t0 = time.time()
        r = self.isolver.check(*extra)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            self.stats['unsat'] += 1
        elif r == z3.sat:
            self.stats['sat'] += 1
        return r

    def ifork(self, b):
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        k = b.get_id()
        if k in self.imemo:
            return self.imemo[k][0]
        i = len(self.trace)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            self.stats['forks'] += 1
            rt = self._isolve([b])
            rf = self._isolve([z3.Not(b)]) if rt != z3.unsat else z3.sat
            if z3.unknown in (rt, rf):
                raise Inconclusive("integer path condition undecided")
            if rt == z3.sat and rf == z3.sat:
                self.pending.append(self.trace + [False])
                r = True
            else:
                r = rt == z3.sat
        self.trace.append(r)
        self._iadd(b if r else z3.Not(b))
        self.imemo[k] = (r, b)
        return r

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            if self._isolve() != z3.sat:
                raise Inconclusive("cannot concretise")
            # canonical choice: value from the model (deterministic replays use the prefix)
            key = ('conc', len(self.trace), e.get_id())
            v = self._minval(e)
            if self.ifork(e == v):
                return v

    def _minval(self, e):
        # smallest feasible value within the declared range keeps re-execution deterministic
        m = self.isolver.model()
        v = m.eval(e, model_completion=True).as_long()
        while True:
            r = self._isolve([e < v])
            if r != z3.sat:
                return v
            v = self.isolver.model().eval(e, model_completion=True).as_long()

    def choose(self, name, n):
        """solver-driven choice of an index in 0..n-1"""
        v = self.int_var(name, 0, n - 1)
        for k in range(n - 1):
            if self.ifork(v == k):
                return k
        return n - 1

    # -- obligations ---------------------------------------------------------------------------------
    def env_ok(self, env, neqs=None, tol=3e-11):
        """numeric check that env satisfies the path (and differs on some lane)"""
        try:
            for op, d, t in self.atoms:
                v = eval_poly(d, env)
                if op == 'eq':
                    if abs(v) >= 1e-9 if t else abs(v) < 1e-13:
                        return False
                else:
                    x = v.real
                    if t and not (x < 0 if op == 'lt' else x <= 0):
                        return False
                    if not t and not (x >= 0 if op == 'lt' else x > 0):
                        return False
            if neqs is not None:
                for l, r in neqs:
                    a, b = eval_poly(l, env), eval_poly(r, env)
                    if abs(a - b) > tol * max(1.0, abs(a), abs(b)):
                        return True
                return False
            return True
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return False

    def complete_env(self, env, rng):
        """fill missing base variables with samples, recompute definitions"""
        out = {}
        done = set()
        for n, smp in self.base.items():
            if n in done:
                continue
            if isinstance(smp, tuple):
                _, names, f = smp
                vals = f(rng)
                if all(k in env for k in names):
                    vals = [env[k] for k in names]
                    done |= set(names)
                for k, v in zip(names, vals):
                    out[k] = v
                    done.add(k)
            elif smp is None:
                continue
            else:
                out[n] = env[n] if n in env else smp(rng)
        for kind, name, p, extra in self.defs:
            if kind == 'rule':
                if name not in out:
                    v = eval_poly(p, out).real
                    out[name] = math.copysign(math.sqrt(max(v, 0)), env.get(name, 1))
            else:
                out[name] = self._eval_def(kind, p, extra, out)
        return out

    def model_ints(self):
        if not self.ints:
            return {}
        if self._isolve() != z3.sat:
            raise Inconclusive("integer path condition not sat")
        m = self.isolver.model()
        return {n: m.eval(v, model_completion=True).as_long() for n, (v, _, _) in self.ints.items()}

    def find_env(self, env0, neqs):
        """a concrete assignment of the base variables for the current path, violating neqs"""
        cands = []
        if env0 is not None:
            try:
                cands.append(self.complete_env(env0, _rng(self.seed, 'fill')))
            except (ValueError, ZeroDivisionError, KeyError, OverflowError):
                pass
        for c in cands:
            if self.env_ok(c, neqs):
                return c
        for w, al in zip(self.wit, self.wit_alive):
            if al and self.env_ok(w, neqs):
                return w
        box = self._box()
        for k in range(400):
            rng = _rng(self.seed, 'smp', k)
            try:
                c = self.complete_env({}, rng)
                if box and k % 2:
                    near = {}
                    for n, (lo, hi) in box.items():
                        if lo is not None and hi is not None:
                            near[n] = lo + (hi - lo) * rng.choice((0.001, 0.25, 0.75, 0.999, rng.random()))
                        elif n in c and not ((lo is None or c[n] > lo) and (hi is None or c[n] < hi)):
                            b, s = (lo, 1) if lo is not None else (hi, -1)
                            near[n] = b + s * rng.choice((1.0, abs(b), abs(b) / 1000)) * (rng.random() + 0.001)
                    c = self.complete_env({**{n: c[n] for n in self.base if n in c}, **near}, rng)
            except (ValueError, ZeroDivisionError, KeyError, OverflowError):
                continue
            if self.env_ok(c, neqs):
                return c
        return None

    def _box(self):
        """the bounds the path condition puts on single base variables"""
        box = {}
        for op, d, t in self.atoms:
            if op == 'eq' or not d.is_real():
                continue
            v, c0, c1 = None, 0.0, 0.0
            for (m, a, q), c in d.real.p.items():
                if a or q or len(m) > 1 or m and (v is not None or m[0][1] != 1):
                    break
                x = complex(c).real if not isinstance(c, tuple) else None
                if m:
                    v, c1 = m[0][0], x
                else:
                    c0 = x
            else:
                if v is None or not c1:
                    continue
                b = -c0 / c1
                if v not in self.base:
                    # a root below a bound: everything under it is small
                    p = next((p for k, n, p, _ in self.defs if n == v and k == 'sqrt'), None)
                    names = [n for n in p.vars() if n in self.base and n != PI] if p is not None else []
                    if (c1 > 0) == bool(t) and b > 0:
                        for n in names:
                            box.setdefault(n, (-b / len(names), b / len(names)))
                    continue
                lo, hi = box.get(v, (None, None))
                if (c1 > 0) == bool(t):
                    hi = b if hi is None else min(hi, b)
                else:
                    lo = b if lo is None else max(lo, b)
                box[v] = (lo, hi)
        return box

    def full_env(self, env):
        e = {k: v for k, v in (env or {}).items() if k in self.base or k in self.rules}
        out = {k: (v.real if isinstance(v, complex) else v) for k, v in e.items()}
        out.update({k: v for k, v in self.model_ints().items()})
        return out

    def pinned(self):
        """variables the path condition fixes to a rational value"""
        vals = {}
        todo = [x for op, d, t in self.atoms if op == 'eq' and t for x in ((d.real, d.imag) if not d.is_real() else (d.real,))]
        again = True
        while again:
            again = False
            for d in todo:
                d = num.substitute(d, vals)
                v = c0 = c1 = None
                for (m, a, q), c in d.p.items():
                    if a or q or len(m) > 1 or (m and v is not None) or (m and m[0][1] < 1):
                        break
                    if m:
                        v, c1, e = m[0][0], c, m[0][1]
                    else:
                        c0 = c
                else:
                    if v is not None and v != num.PI and v not in vals and (e == 1 or c0 is None):
                        vals[v] = -(c0 or num.F0) / c1
                        again = True
        return vals

    def prove_equal(self, pairs, label):
        """Discharge: on this path, for all values, every lhs equals its rhs."""
        self.stats['obligations'] += 1
        self.stats['lanes'] += len(pairs)
        if not pairs:
            return
        lanes = []
        for l, r in pairs:
            l, r = num.tosnum(l), num.tosnum(r)
            if l is NotImplemented or r is NotImplemented:
                raise Unsupported("non-numeric lane in %s" % label)
            lanes.append((l, r))
        diff = [(l, r) for l, r in lanes if l.p != r.p]
        if diff:
            vals = self.pinned()
            if vals:
                lanes = [(num.substitute(l, vals), num.substitute(r, vals)) for l, r in lanes]
                diff = [(l, r) for l, r in lanes if l.p != r.p]
        if not diff:
            # the same query was answered on an earlier path of this job
            key = frozenset(l.key() for l, _ in lanes)
            if key in self.answered:
                self.stats['reused'] += 1
                return
            res, _ = self.query_real(list(self.atoms), lanes, want_model=False)
            if res != z3.unsat:
                raise Inconclusive("%s: %s" % (label, res))
            self.answered.add(key)
            return
        # syntactically different lanes: ask the solver, first at probe points (fast refutation)
        small = sorted(diff, key=lambda t: len(t[0].p) + len(t[1].p))[:8]
        for k in range(3):
            res, env = self.query_real(list(self.atoms), small, probe=k, timeout_ms=8000)
            if res == z3.sat:
                env2 = self.find_env(env, lanes)
                if env2 is not None:
                    raise Violation(label, self.full_env(env2), self._detail(lanes, env2))
        res, env = self.query_real(list(self.atoms), diff)
        if res == z3.unsat:
            rest = [(l, r) for l, r in lanes if l.p == r.p]
            if rest:
                res, _ = self.query_real(list(self.atoms), rest, want_model=False)
                if res != z3.unsat:
                    raise Inconclusive("%s: %s" % (label, res))
            return
        env2 = self.find_env(env, lanes)
        if env2 is not None and res == z3.sat:
            raise Violation(label, self.full_env(env2), self._detail(lanes, env2))
        if res == z3.sat:
            # with the conditions that are connected by nothing but a definition (slower, rarely needed)
            res2, env = self.query_real(list(self.atoms), lanes, timeout_ms=10000, full=True)
            if res2 == z3.unsat:
                return
            env2 = self.find_env(env, lanes) if res2 == z3.sat else None
            if env2 is not None:
                raise Violation(label, self.full_env(env2), self._detail(lanes, env2))
        for k, (margin, full) in enumerate([(m, f) for f in (False, True) for m in ('1/100', '1/5000000', '1/5000000000', '1/20000000000')] if res == z3.sat else ()):
            # a difference large enough to show in floating point
            res2, env = self.query_real(list(self.atoms), diff, timeout_ms=10000, margin=z3.Q(*map(int, margin.split('/'))),
                                        full=full)
            env2 = self.find_env(env, lanes) if res2 == z3.sat else None
            if env2 is not None:
                raise Violation(label, self.full_env(env2), self._detail(lanes, env2))
        raise Inconclusive("%s: solver answered %s and no concrete witness was found" % (label, res))

    def _detail(self, lanes, env):
        for i, (l, r) in enumerate(lanes):
            a, b = eval_poly(l, env), eval_poly(r, env)
            if abs(a - b) > 3e-11:
                return 'lane %d: got %s expected %s' % (i, a, b)
        return ''

    def fail(self, label, detail=''):
        """the current (feasible) path violates the property"""
        env0 = None
        self.stats['obligations'] += 1
        env = self.find_env(None, None)
        if env is None:
            res, env0 = self.query_real(list(self.atoms), [])
            if res == z3.unsat:
                raise PathAbort()
            env = self.find_env(env0, None)
        if env is None:
            if not self.atoms:
                env = {}
            else:
                raise Inconclusive("%s: no concrete witness for the failing path (%s)" % (label, detail))
        raise Violation(label, self.full_env(env), detail)

    def check(self, cond, label, detail=''):
        self.stats['obligations'] += 1
        self.stats['lanes'] += 1
        if not cond:
            self.fail(label, detail)

    def check_int(self, b, label):
        """Discharge an integer obligation on the current path."""
        self.stats['obligations'] += 1
        self.stats['lanes'] += 1
        r = self._isolve([z3.Not(b)])
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise Inconclusive(label)
        m = self.isolver.model()
        env = {n: m.eval(v, model_completion=True).as_long() for n, (v, _, _) in self.ints.items()}
        e = self.find_env(None, None) or {}
        e = {k: v for k, v in e.items() if k in self.base or k in self.rules}
        e.update(env)
        raise Violation(label, e, str(b))

    def path_feasible(self):
        """vacuity guard: is the present path condition satisfiable (solver or concrete witness)?"""
        if any(self.wit_alive) or not self.atoms:
            ok = True
        else:
            r, _ = self.query_real(list(self.atoms), [], want_model=False)
            ok = r != z3.unsat
        if ok and self.iatoms:
            ok = self._isolve() == z3.sat
        return ok

    # -- exploration ---------------------------------------------------------------------------------
    def explore(self, fn, deadline=None):
        self.pending = [[]]
        n = 0
        while self.pending:
            if n >= self.max_paths:
                raise Inconclusive("path bound %d exceeded" % self.max_paths)
            if deadline and time.time() > deadline:
                raise Inconclusive("time bound exceeded after %d paths" % n)
            self.reset(self.pending.pop())
            try:
                fn()
            except PathAbort:
                self.stats['assume_cut'] += 1
                continue
            n += 1
            self.stats['paths'] += 1
        return n


class ZCtx:
    """Encodes polynomials as z3 real terms; one (c,s) pair per angle monomial."""

    def __init__(self, eng):
        self.eng = eng
        self.L = {}
        self.phL = 4
        self.vars = {}
        self.units = {}
        self.powm = {}
        self.ph = {}
        self.extra = []
        self._cache = {}

    def prepare(self, polys):
        for p in polys:
            for m, a, q in p.p:
                if q:
                    self.phL = self.phL * q.denominator // math.gcd(self.phL, q.denominator)
                for k, e in a:
                    L = self.L.get(k, 1)
                    self.L[k] = L * e.denominator // math.gcd(L, e.denominator)

    def var(self, n):
        if n not in self.vars:
            self.vars[n] = z3.Real(n)
        return self.vars[n]

    def unit(self, k):
        if k not in self.units:
            i = len(self.units)
            nm = '.'.join('%s^%d' % x for x in k) or '1'
            self.units[k] = (z3.Real('c<%s>' % nm), z3.Real('s<%s>' % nm))
        return self.units[k]

    def unitpow(self, k, n):
        key = (k, n)
        if key in self.powm:
            return self.powm[key]
        if n < 0:
            c, s = self.unitpow(k, -n)
            r = (c, -s)
        elif n == 1:
            r = self.unit(k)
        else:
            h = n // 2
            a, b = self.unitpow(k, h)
            c, s = self.unitpow(k, n - h)
            r = (a * c - b * s, a * s + b * c)
        self.powm[key] = r
        return r

    def phase(self, q):
        if q in self.ph:
            return self.ph[q]
        if q == 0:
            r = (z3.RealVal(1), z3.RealVal(0))
        elif q == Fraction(1, 2):
            r = (z3.RealVal(0), z3.RealVal(1))
        elif q.denominator & (q.denominator - 1) == 0:
            # q = k / 2^m ; base w = e^{i*pi/2^m} via half-angle chain
            m = q.denominator.bit_length() - 1
            c, s = self._halfunit(m)
            k = q.numerator
            r = (z3.RealVal(1), z3.RealVal(0))
            # reduce with quarter turns
            turn, k2 = divmod(k, q.denominator // 2)
            for _ in range(k2):
                r = (r[0] * c - r[1] * s, r[0] * s + r[1] * c)
            for _ in range(turn):
                r = (-r[1], r[0])
        else:
            key = ('ph', q.denominator)
            c, s = z3.Real('cph%d' % q.denominator), z3.Real('sph%d' % q.denominator)
            if key not in self._cache:
                self._cache[key] = True
                v = math.pi / q.denominator
                self.extra += [c * c + s * s == 1, c > z3.RealVal(str(math.cos(v) - 1e-9)), c < z3.RealVal(str(math.cos(v) + 1e-9)),
                               s > z3.RealVal(str(math.sin(v) - 1e-9)), s < z3.RealVal(str(math.sin(v) + 1e-9))]
                w = (z3.RealVal(1), z3.RealVal(0))
                for _ in range(q.denominator):
                    w = (w[0] * c - w[1] * s, w[0] * s + w[1] * c)
                self.extra += [w[0] == -1, w[1] == 0]
            r = (z3.RealVal(1), z3.RealVal(0))
            for _ in range(q.numerator):
                r = (r[0] * c - r[1] * s, r[0] * s + r[1] * c)
        self.ph[q] = r
        return r

    def _halfunit(self, m):
        """cos, sin of pi/2^m"""
        if m == 1:
            return z3.RealVal(0), z3.RealVal(1)
        key = ('h', m)
        if key in self._cache:
            return self._cache[key]
        c = z3.Real('cpi%d' % (1 << m))
        s = z3.Real('spi%d' % (1 << m))
        pc, _ps = self._halfunit(m - 1)
        if m == 2:
            self.extra += [c * c == z3.Q(1, 2), c > 0, s == c]
        else:
            self.extra += [2 * c * c == 1 + pc, c > 0, 2 * s * s == 1 - pc, s > 0]
        self._cache[key] = (c, s)
        return c, s

    def cplx(self, p):
        re, im = [], []
        for (m, a, q), co in sorted(p.p.items(), key=lambda t: repr(t[0])):
            cr, ci = self.phase(q)
            for k, e in a:
                n = int(e * self.L[k])
                uc, us = self.unitpow(k, n)
                cr, ci = _mul((cr, ci), (uc, us))
            f = z3.RealVal(str(co))
            for v, e in m:
                x = self.var(v)
                if e < 0:
                    x = self.ivar(v)
                    e = -e
                for _ in range(e):
                    f = f * x if not (z3.is_rational_value(f) and f.as_fraction() == 1) else x
            re.append(_sc(f, cr))
            im.append(_sc(f, ci))
        return _sum(re), _sum(im)

    def ivar(self, v):
        n = 'inv(%s)' % v
        if n not in self.vars:
            self.vars[n] = z3.Real(n)
            self.extra.append(self.vars[n] * self.var(v) == 1)
        return self.vars[n]

    def re(self, p):
        return self.cplx(p)[0]

    def atom(self, op, d, t):
        r, i = self.cplx(d)
        if op == 'eq':
            b = z3.And(r == 0, i == 0)
        elif op == 'lt':
            b = r < 0
        else:
            b = r <= 0
        return b if t else z3.Not(b)

    def side(self):
        out = list(self.extra)
        for k, (c, s) in self.units.items():
            out.append(c * c + s * s == 1)
        if PI in self.vars:
            out += [self.vars[PI] > z3.Q(314159265, 100000000), self.vars[PI] < z3.Q(314159266, 100000000)]
        for n in self.vars:
            if n in self.eng.positive:
                out.append(self.vars[n] > 0)
            elif n in self.eng.nonneg:
                out.append(self.vars[n] >= 0)
        return out

    def probe(self, k):
        """fix the base variables and units at rational points"""
        r = _rng('probe', k)
        out = []
        trip = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29), (7, 24, 25), (12, 35, 37)]
        for key, (c, s) in self.units.items():
            a, b, h = r.choice(trip)
            if r.random() < .5:
                a, b = b, a
            if r.random() < .5:
                b = -b
            out += [c == z3.Q(a, h), s == z3.Q(b, h)]
        for n, v in self.vars.items():
            if n in self.eng.base and n not in self.eng.rules and n != PI:
                x = self.eng.wit[k].get(n) if k < len(self.eng.wit) else None
                if x is None:
                    x = r.uniform(-1, 1)
                f = Fraction(x).limit_denominator(64)
                if f == 0:
                    f = Fraction(1, 7)
                out.append(v == z3.Q(f.numerator, f.denominator))
        return out

    def model_env(self, m, vs):
        def val(x):
            v = m.eval(x, model_completion=True)
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            raise Inconclusive("model value %s" % v)
        env = {}
        for n, v in self.vars.items():
            if n in self.eng.base or n in self.eng.rules:
                env[n] = val(v)
        for k, (c, s) in self.units.items():
            if not k:
                continue
            ang = math.atan2(val(s), val(c)) * self.L[k]
            if len(k) == 1 and k[0][1] == 1:
                if k[0][0] not in self.vars:
                    env[k[0][0]] = ang
            else:
                free = [n for n, e in k if e == 1 and n not in self.vars and n not in env and n != PI]
                if free:
                    rest = 1.0
                    for n, e in k:
                        if n == free[0]:
                            continue
                        if n == PI:
                            rest *= math.pi ** e
                        else:
                            env.setdefault(n, 1.0)
                            rest *= env[n] ** e
                    if rest:
                        env[free[0]] = ang / rest
        return env


def _isz(x, v):
    return z3.is_rational_value(x) and x.as_fraction() == v


def _sc(f, x):
    if _isz(x, 0) or _isz(f, 0):
        return z3.RealVal(0)
    if _isz(x, 1):
        return f
    if _isz(f, 1):
        return x
    return f * x


def _mul(a, b):
    if _isz(a[0], 1) and _isz(a[1], 0):
        return b
    if _isz(a[0], 0) and _isz(a[1], 1):
        return (-b[1], b[0])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def _sum(l):
    l = [x for x in l if not _isz(x, 0)]
    if not l:
        return z3.RealVal(0)
    if len(l) == 1:
        return l[0]
    return z3.Sum(l)
