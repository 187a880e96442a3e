"""The API seen by property harnesses, in a symbolic and a concrete (replay) flavour.

A harness is a function h(S, **params).  In the symbolic flavour inputs are symbolic and S.eq & co.
discharge solver obligations on every path; in the concrete flavour the same harness runs against the
plain package with the numbers of a counterexample and S.eq compares floats.
"""
import cmath
import contextlib
import importlib
import math
import random as _random
import sys
import types
import warnings
from fractions import Fraction
from unittest import mock
import numpy as np
from . import num, npshim, loader
from .num import SNum, tosnum, Unsupported
from .core import Engine, Violation, Inconclusive, PathAbort, _rng
import z3
from .sint import SInt, SSlice, zt

TOL = 2e-11       # the solver's verdict is exact; this only separates a confirmed difference from rounding


class Rejected(Exception):
    pass


class Base:
    """operations common to both flavours"""

    def __init__(self, bq):
        self.bq = bq

    def mod(self, name):
        return importlib.import_module('blueqat.' + name)

    def Circuit(self, *a):
        return self.bq.Circuit(*a)

    def complex(self, name):
        return self.real(name + '.re') + self.IU * self.real(name + '.im')

    def reals(self, stem, n):
        return [self.real('%s%d' % (stem, i)) for i in range(n)]

    def vec(self, stem, n):
        return [self.complex('%s%d' % (stem, i)) for i in range(n)]

    def pick(self, name, seq):
        return seq[self.choose(name, len(seq))]

    def cos(self, x):
        return self.re(self.E(x))

    def sin(self, x):
        return self.re(self.E(x) * (-self.IU))

    def eqv(self, lhs, rhs, label):
        """vectors / matrices of numbers"""
        l, r = flat(lhs), flat(rhs)
        self.true(len(l) == len(r), label + '/shape', '%d vs %d entries' % (len(l), len(r)))
        self.eq(list(zip(l, r)), label)

    def raises(self, fn, label, exc=(Exception,)):
        try:
            fn()
        except exc:
            self.true(True, label)
            return
        self.true(False, label, 'no error raised')

    def norm2(self, v):
        t = 0
        for x in flat(v):
            t = t + self.abs2(x)
        return t


def flat(a):
    if isinstance(a, np.ndarray):
        return list(np.asarray(a).ravel())
    if hasattr(a, 'toarray'):
        return flat(a.toarray())
    out = []
    for x in a:
        if isinstance(x, (list, tuple, np.ndarray)):
            out += flat(x)
        else:
            out.append(x)
    return out


class Sym(Base):
    concrete = False

    def __init__(self, bq, eng):
        super().__init__(bq)
        self.e = eng
        self.IU = num.IUNIT
        self.pi = num.SNum.var(num.PI)
        self.sqrt2 = num.SQRT2

    def real(self, name, lo=-2.0, hi=2.0):
        return self.e.real(name, lambda r: r.uniform(lo, hi))
    angle = real

    def posreal(self, name, lo=0.1, hi=3.0):
        x = self.e.real(name, lambda r: r.uniform(lo, hi))
        self.e.assume('lt', -x)
        self.e.nonneg.add(name)
        self.e.positive.add(name)
        return x

    def int(self, name, lo, hi):
        return SInt(self.e.int_var(name, lo, hi))

    def slice(self, a, b, c):
        if any(isinstance(x, SInt) for x in (a, b, c)):
            return SSlice(a, b, c)
        return slice(a, b, c)

    def choose(self, name, n):
        if n <= 1:
            return 0
        return self.e.choose(name, n)

    def E(self, x):
        return tosnum(x)._expi()

    def re(self, x):
        return tosnum(x).real

    def im(self, x):
        return tosnum(x).imag

    def conj(self, x):
        return tosnum(x).conjugate()

    def abs2(self, x):
        return tosnum(x).abs2()

    def exp(self, x):
        return tosnum(x).exp()

    def log(self, x):
        return tosnum(x).log()

    def tanh(self, x):
        return tosnum(x).tanh()

    def sqrt(self, x):
        return tosnum(x).sqrt()

    def num(self, x):
        return tosnum(x)

    def state(self, n, norm=False, stem='s', idx=None):
        """symbolic state vector as {index: amplitude}; real and imaginary parts free"""
        idx = list(range(1 << n)) if idx is None else list(idx)
        names = []
        for k in idx:
            names += ['%s%d.re' % (stem, k), '%s%d.im' % (stem, k)]
        if not norm:
            vs = {nm: self.real(nm) for nm in names}
        else:
            def smp(r):
                x = [r.gauss(0, 1) for _ in names]
                t = math.sqrt(sum(y * y for y in x))
                return [y / t for y in x]
            self.e.group(names, smp)
            vs = {nm: SNum.var(nm) for nm in names}
            last = names[-1]
            p = SNum.const(1)
            for nm in names[:-1]:
                p = p - vs[nm] * vs[nm]
            self.e.rule_var(last, p)
        return {k: vs['%s%d.re' % (stem, k)] + num.IUNIT * vs['%s%d.im' % (stem, k)] for k in idx}

    def assume_lt(self, a, b):
        self.e.assume('lt', tosnum(a) - tosnum(b))

    def assume_ne(self, a, b):
        self.e.assume('eq', tosnum(a) - tosnum(b), False)

    def cmp_lt(self, a, b):
        return self.e.compare(tosnum(a) - tosnum(b), 'lt')

    # -- obligations
    def eq(self, pairs, label):
        ps = []
        for l, r in pairs:
            l2, r2 = tosnum(l), tosnum(r)
            if l2 is NotImplemented or r2 is NotImplemented:
                self.e.check(False, label, 'not a number: %r / %r' % (l, r))
            ps.append((l2, r2))
        self.e.prove_equal(ps, label)

    def eq_phase(self, lhs, rhs, label, free=False):
        l = [tosnum(x) for x in flat(lhs)]
        r = [tosnum(x) for x in flat(rhs)]
        self.e.check(len(l) == len(r), label + '/shape')
        nz = [i for i in range(len(r)) if r[i].p]
        if not nz:
            self.e.prove_equal(list(zip(l, r)), label)
            return None
        i = min(nz, key=lambda k: len(r[k].p))
        for ph in _phases(l[i], r[i]):
            if all((ph * b).p == a.p for a, b in zip(l, r)):
                self.e.prove_equal([(a, ph * b) for a, b in zip(l, r)], label)
                return ph
        # general form: lhs and rhs are parallel and equally long
        pairs = [(l[i] * r[j], l[j] * r[i]) for j in range(len(r)) if j != i]
        pairs += [(l[i].abs2(), r[i].abs2())]
        self.e.prove_equal(pairs, label)
        return None

    def true(self, cond, label, detail=''):
        self.e.check(bool(cond), label, detail)

    # integer terms without branching
    def ilt(self, a, b): return zt(a) < zt(b)
    def ieq(self, a, b): return zt(a) == zt(b)
    def iand(self, *a): return z3.And(*a)
    def ior(self, *a): return z3.Or(*a)
    def inot(self, a): return z3.Not(a)

    def ite(self, c, a, b):
        return SInt(z3.simplify(z3.If(c, zt(a), zt(b))))

    def ihold(self, b, label):
        """integer obligation: b holds for all values on this path"""
        self.e.check_int(b, label)

    def decide(self, b):
        return self.e.ifork(b)

    def iassume(self, b):
        if not self.e.ifork(b):
            raise PathAbort()

    def signed_text(self):
        self.e.signed_text = True

    def token_value(self, s):
        """number denoted by a piece of text"""
        s = s.strip()
        neg = False
        while s.startswith('-') or (s.startswith('(') and s.endswith(')')):
            if s.startswith('-'):
                neg, s = not neg, s[1:].strip()
            else:
                s = s[1:-1].strip()
        v = self.e.tokens[s] if s in self.e.tokens else tosnum(float(s))
        return -v if neg else v

    @property
    def tokens(self):
        return dict(self.e.tokens)

    def is_sym(self, x):
        return isinstance(x, SNum)

    def load_state(self, arr, st):
        if isinstance(arr, npshim.SArr) or arr.dtype == object:
            arr[...] = 0.0
            for k, v in st.items():
                arr[k] = v
        else:
            raise Unsupported("state array of an unexpected kind")

    @property
    def draws(self):
        return npshim.DRAWS

    @property
    def picks(self):
        return npshim.PICKS

    def fix_draws(self, vals):
        npshim.FIXED[:] = vals

    def fix_picks(self, vals):
        npshim.FIXED_PICKS[:] = vals

    def limit_picks(self, k):
        """a run that makes more than k more random choices fails"""
        npshim.PICK_LIMIT[:] = [len(npshim.PICKS) + k]

    def multinomials(self):
        return list(npshim.MULTI)


def _phases(a, b):
    if not a.p or not b.p:
        return
    (m1, a1, q1), c1 = min(a.p.items(), key=lambda t: repr(t[0]))
    for (m2, a2, q2), c2 in b.p.items():
        if m1 == m2 and abs(c1) == abs(c2):
            d = num._mulang(a1, tuple((k, -e) for k, e in a2))
            ph = SNum.phase(q1 - q2, d)
            if c1 != c2:
                ph = -ph
            yield ph


class Conc(Base):
    concrete = True

    def __init__(self, bq, env, rng):
        super().__init__(bq)
        self.env = dict(env)
        self.rng = rng
        self.IU = 1j
        self.pi = math.pi
        self.sqrt2 = math.sqrt(2)
        self.counters = {}
        self.multi = []
        self.draws = []
        self.fixed = []
        self.picks = []
        self.fixed_picks = []
        self.pick_limit = None
        self.checks = 0

    def _get(self, name, f):
        if name not in self.env:
            self.env[name] = f()
        return self.env[name]

    def fresh(self, stem):
        k = self.counters.get(stem, 0)
        self.counters[stem] = k + 1
        return '%s#%d' % (stem, k)

    def real(self, name, lo=-2.0, hi=2.0):
        return float(self._get(name, lambda: self.rng.uniform(lo, hi)))
    angle = real

    def posreal(self, name, lo=0.1, hi=3.0):
        return float(self._get(name, lambda: self.rng.uniform(lo, hi)))

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: self.rng.randint(lo, hi)))

    def slice(self, a, b, c):
        return slice(a, b, c)

    def choose(self, name, n):
        if n <= 1:
            return 0
        return int(self._get(name, lambda: self.rng.randrange(n)))

    def E(self, x):
        return cmath.exp(1j * x)

    def re(self, x):
        return complex(x).real

    def im(self, x):
        return complex(x).imag

    def conj(self, x):
        return complex(x).conjugate()

    def abs2(self, x):
        return abs(complex(x)) ** 2

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def tanh(self, x):
        return math.tanh(x)

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0))

    def num(self, x):
        return x

    def state(self, n, norm=False, stem='s', idx=None):
        idx = list(range(1 << n)) if idx is None else list(idx)
        out = {}
        for k in idx:
            re = self._get('%s%d.re' % (stem, k), lambda: self.rng.gauss(0, 1))
            im = self._get('%s%d.im' % (stem, k), lambda: self.rng.gauss(0, 1))
            out[k] = complex(re, im)
        if norm:
            t = math.sqrt(sum(abs(v) ** 2 for v in out.values()))
            for k in idx:
                out[k] /= t
                self.env['%s%d.re' % (stem, k)] = out[k].real
                self.env['%s%d.im' % (stem, k)] = out[k].imag
        return out

    def assume_lt(self, a, b):
        if not a < b:
            raise PathAbort()

    def assume_ne(self, a, b):
        if abs(complex(a) - complex(b)) < 1e-13:
            raise PathAbort()

    def cmp_lt(self, a, b):
        return a < b

    def _viol(self, label, detail):
        raise Violation(label, self.env, detail)

    def eq(self, pairs, label):
        self.checks += 1
        for i, (l, r) in enumerate(pairs):
            try:
                a, b = complex(l), complex(r)
            except TypeError:
                self._viol(label, 'lane %d: not a number: %r / %r' % (i, l, r))
            if not abs(a - b) <= TOL * max(1.0, abs(a), abs(b)):
                self._viol(label, 'lane %d: got %s expected %s' % (i, a, b))

    def eq_phase(self, lhs, rhs, label, free=False):
        self.checks += 1
        l = np.array([complex(x) for x in flat(lhs)])
        r = np.array([complex(x) for x in flat(rhs)])
        if l.shape != r.shape:
            self._viol(label + '/shape', '')
        if not len(r):
            return None
        i = int(np.argmax(abs(r)))
        if abs(r[i]) < TOL:
            if np.max(abs(l)) > TOL:
                self._viol(label, 'expected zero')
            return None
        ph = l[i] / r[i]
        if not abs(abs(ph) - 1) <= TOL * 10 or not np.max(abs(l - ph * r)) <= TOL * max(1.0, np.max(abs(r))) * 10:
            self._viol(label, 'got %s expected %s (up to phase)' % (np.round(l, 4).tolist()[:16], np.round(r, 4).tolist()[:16]))
        return ph

    def true(self, cond, label, detail=''):
        self.checks += 1
        if not cond:
            self._viol(label, detail)

    def ilt(self, a, b): return a < b
    def ieq(self, a, b): return a == b
    def iand(self, *a): return all(a)
    def ior(self, *a): return any(a)
    def inot(self, a): return not a
    def ite(self, c, a, b): return a if c else b

    def ihold(self, b, label):
        self.true(b, label)

    def decide(self, b):
        return b

    def iassume(self, b):
        if not b:
            raise PathAbort()

    def signed_text(self):
        pass

    def token_value(self, s):
        return float(s.strip().replace('(', '').replace(')', ''))

    tokens = {}

    def is_sym(self, x):
        return False

    def load_state(self, arr, st):
        arr[...] = 0.0
        for k, v in st.items():
            arr[k] = v

    def multinomials(self):
        return self.multi

    def fix_draws(self, vals):
        self.fixed = list(vals)

    def fix_picks(self, vals):
        self.fixed_picks = list(vals)

    def limit_picks(self, k):
        self.pick_limit = len(self.picks) + k

    # -- random draws of the code under test
    def uniform(self):
        if self.fixed:
            x = self.fixed[len(self.draws) % len(self.fixed)]
        else:
            x = float(self._get(self.fresh('draw'), self.rng.random))
        self.draws.append(x)
        return x

    def pickint(self, n):
        if self.fixed_picks:
            r = self.fixed_picks[len(self.picks) % len(self.fixed_picks)] % n
        elif n <= 1:
            r = 0
        else:
            r = int(self._get(self.fresh('pick'), lambda: self.rng.randrange(n)))
        self.picks.append(r)
        if self.pick_limit is not None and len(self.picks) > self.pick_limit:
            raise RuntimeError('more random choices than the %d there should be' % self.pick_limit)
        return r

    def multinomial(self, n, pvals):
        k = len(pvals)
        self.multi.append((n, list(pvals)))
        vs = []
        for _ in range(k - 1):
            vs.append(float(self._get(self.fresh('mult'), lambda: float(self.rng.randint(0, max(1, n // k))))))
        return np.array(vs + [n - sum(vs)])

    @contextlib.contextmanager
    def patched(self):
        ss = ConcSource(self)
        real_np = npshim._Random('r')
        ops = {n: getattr(real_np, n) for n in ('rand', 'random', 'random_sample', 'uniform', 'randint', 'choice',
                                                'multinomial', 'seed', 'randn', 'default_rng', 'shuffle', 'permutation')
               if hasattr(type(real_np), n)}

        def lift(f):
            def g(*a, **k):
                old = npshim.SOURCE
                npshim.SOURCE = ss
                try:
                    r = f(*a, **k)
                finally:
                    npshim.SOURCE = old
                if isinstance(r, npshim.SArr):
                    return np.array(np.asarray(r).tolist(), dtype=r.dtype)
                return r
            return g
        with contextlib.ExitStack() as st:
            for n, f in ops.items():
                st.enter_context(mock.patch.object(np.random, n, lift(f)))
            st.enter_context(mock.patch.object(_random, 'random', self.uniform))
            st.enter_context(mock.patch.object(_random, 'uniform', lambda a, b: a + (b - a) * self.uniform()))
            st.enter_context(mock.patch.object(_random, 'randint', lambda a, b: a + self.pickint(b - a + 1)))
            st.enter_context(mock.patch.object(_random, 'randrange', lambda a, b=None: self.pickint(a) if b is None else a + self.pickint(b - a)))
            st.enter_context(mock.patch.object(_random, 'choice', lambda s: s[self.pickint(len(s))]))
            st.enter_context(mock.patch.object(_random, 'seed', lambda *a: None))
            yield


class ConcSource:
    def __init__(self, c):
        self.c = c

    def uniform(self):
        return self.c.uniform()

    def choose(self, n):
        return self.c.pickint(n)

    def multinomial(self, n, pvals):
        return self.c.multinomial(n, pvals)


# -- running one harness --------------------------------------------------------------------------
class Fakes:
    """modules the sandbox lacks, put in place for both flavours"""

    def __init__(self, mods):
        self.mods = mods

    def __enter__(self):
        self.old = {}
        for n, m in self.mods.items():
            self.old[n] = sys.modules.get(n)
            if not '_package_only_' in type(m).__dict__:
                sys.modules[n] = m
            loader.FAKES[n] = m
        return self

    def __exit__(self, *a):
        for n in self.mods:
            del loader.FAKES[n]
            if self.old[n] is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = self.old[n]


def run_symbolic(fn, params, seed, deadline, max_paths=20000, fakes=None, timeout_ms=30000):
    """returns dict(status, stats, violations, note)"""
    eng = Engine(seed=seed, max_paths=max_paths, timeout_ms=timeout_ms)
    out = dict(status='ok', violation=None, note='')
    witness = []

    def body():
        npshim.MULTI.clear()
        npshim.DRAWS.clear()
        npshim.FIXED.clear()
        npshim.PICKS.clear()
        npshim.FIXED_PICKS.clear()
        npshim.PICK_LIMIT.clear()
        with Fakes(fakes(False) if fakes else {}):
            bq = loader.load(True)
            S = Sym(bq, eng)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    fn(S, **params)
            except Inconclusive:
                raise
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if '/blueqat/' in f.filename]
                if isinstance(e, RecursionError) and not where:
                    raise Inconclusive("recursion limit")
                eng.fail('exception', '%s: %s at %s' % (type(e).__name__, str(e)[:200],
                                                        ['%s:%d' % (f.filename.split('/blueqat/')[-1], f.lineno)
                                                         for f in where[-3:]] or [str(f) for f in tb[-2:]]))
        if not eng.path_feasible():
            out['infeasible'] = out.get('infeasible', 0) + 1
            return
        if len(witness) < 3:
            env = eng.find_env(None, None)
            if env is not None:
                witness.append(eng.full_env(env))
    try:
        eng.explore(body, deadline)
    except Violation as v:
        out['status'] = 'violation'
        out['violation'] = dict(label=v.label, env={k: (v2 if isinstance(v2, (int, float)) else float(v2))
                                                    for k, v2 in v.env.items()}, detail=v.detail)
    except (Inconclusive, Unsupported) as ex:
        out['status'] = 'undecided'
        out['note'] = '%s: %s' % (type(ex).__name__, ex)
        import traceback
        tb = [f for f in traceback.extract_tb(ex.__traceback__) if '/blueqat/' in f.filename]
        if tb:
            out['note'] += ' at %s:%d' % (tb[-1].filename.split('/blueqat/')[-1], tb[-1].lineno)
    if out['status'] == 'ok' and not eng.stats['obligations']:
        out.update(status='undecided', note='no path reached an obligation')
    out['stats'] = eng.stats
    out['witness'] = witness
    return out


def run_concrete(fn, params, env, rng, fakes=None):
    """None if the harness passes, else (label, detail, env)"""
    with Fakes(fakes(True) if fakes else {}):
        bq = loader.load(False)
        S = Conc(bq, env, rng)
        try:
            with S.patched(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(S, **params)
        except Violation as v:
            return v.label, v.detail, S.env
        except PathAbort:
            return None
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            return 'exception', '%s: %s at %s' % (type(e).__name__, str(e)[:300],
                                                  ['%s:%d' % (f.filename, f.lineno) for f in tb[-2:]]), S.env
    return None
