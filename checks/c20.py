"""C20: backend, gate and macro registries dispatch to what was registered."""
import copy
import itertools
import types
from sym import ref
from .common import ops_of, add_ops

BOUNDS = {
    'quick': 'all histories of 2 steps after 7 prefixes (3 steps after a registration and a run) over 16 registry operations on two backend names, the global '
             'default and the defaults of a circuit and its copy, each followed by runs through every route, also of copies, inverses and sums; all 3-step '
             'histories of gate and macro registrations over two names; every gate handed to backends that know '
             'different sets of primitives, with symbolic angles and on an arbitrary state; the run flow hooks with '
             'positional and keyword arguments',
    'thorough': 'as quick with 4 steps (after 7 prefixes) and gates on all pairs of 3 qubits',
}
OUTSIDE = 'longer histories; macros and gates registered over one another with allow_overwrite'


class Rec:
    """a backend that records what it is given"""
    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    def run(self, gates, n_qubits, *a, **kw):
        r = ('result', self.tag, len(self.log))
        self.log.append((self.tag, 'run', list(gates), n_qubits, a, kw, r))
        return r

    def make_cache(self, gates, n_qubits):
        self.log.append((self.tag, 'cache', list(gates), n_qubits, (), {}, None))

    def copy(self):
        return Rec(self.tag, self.log)


ACTS = ['reg a', 'over a', 'reg b', 'over b', 'unreg a', 'unreg b', 'gdef a', 'gdef b', 'gdef z', 'cdef a', 'cdef b',
        'cdef None', 'copy', 'run', 'run a', 'gate']


def backends(S, prefix, depth):
    G = S.bq.BlueqatGlobalSetting
    log, model, made = [], {}, itertools.count()

    def new():
        tag = 'impl%d' % next(made)
        return tag, lambda: Rec(tag, log)
    tag, f = new()
    G.register_backend('z', f)
    model['z'] = tag
    gdef = ['z']
    G.set_default_backend('z')
    th = S.real('th')
    c = S.Circuit(1).h[0].rx(th)[0]
    others = []
    cdef = [None]

    def routed(name, fn, lab, c, a=(), kw={}, kind='run'):
        """fn must reach the backend registered as name with the circuit's own gates and width"""
        mark = len(log)
        if name not in model:
            S.raises(fn, lab + ': an unregistered name is used', (ValueError, AttributeError))
            S.true(len(log) == mark, lab + ': a backend is reached', str(log[mark:]))
            return
        r = fn()
        S.true(len(log) == mark + 1, lab + ': one execution', '%d' % (len(log) - mark))
        t, k, gates, n, a2, kw2, res = log[-1]
        S.true(t == model[name], lab + ': backend', '%s instead of %s' % (t, model[name]))
        S.true(k == kind, lab + ': method')
        S.true(len(gates) == len(c.ops) and all(x is y for x, y in zip(gates, c.ops)), lab + ': gates')
        S.true(n == c.n_qubits, lab + ': width')
        S.true(a2 == tuple(a) and kw2 == kw, lab + ': arguments', '%r %r' % (a2, kw2))
        if kind == 'run':
            S.true(r == res, lab + ': result')

    def visit(c, d):
        S.true(c.get_default_backend_name() == (d or gdef[0]), 'default name of the circuit')
        routed(d or gdef[0], lambda: c.run(), 'run()', c)
        routed(d or gdef[0], lambda: c.run(5, shots=3, token='x'), 'run with arguments', c, (5,), dict(shots=3, token='x'))
        routed(d or gdef[0], lambda: c.make_cache(), 'make_cache', c, kind='cache')
        for nm in ('a', 'b', 'z', 'nosuch'):
            routed(nm, lambda: c.run(backend=nm, returns='t'), 'run(backend=%s)' % nm, c, (), dict(returns='t'))
            routed(nm, lambda: getattr(c, 'run_with_' + nm)(1, y=2), 'run_with_' + nm, c, (1,), dict(y=2))
            routed(nm, lambda: c.make_cache(backend=nm), 'make_cache(%s)' % nm, c, kind='cache')
        mark = len(log)
        r = c.run(7, backend=Rec('own', log), k=1)
        S.true(len(log) == mark + 1 and log[-1][0] == 'own' and log[-1][4:6] == ((7,), dict(k=1)) and r == log[-1][6],
               'run(backend=object)')

    for k in range(depth):
        act = prefix[k] if k < len(prefix) else S.pick('step%d' % k, ACTS)
        op, _, x = act.partition(' ')
        if op == 'reg':
            tag, f = new()
            if x in model:
                S.raises(lambda: G.register_backend(x, f), 'clashing backend name accepted', (ValueError,))
            else:
                G.register_backend(x, f)
                model[x] = tag
        elif op == 'over':
            tag, f = new()
            G.register_backend(x, f, allow_overwrite=True)
            model[x] = tag
        elif op == 'unreg':
            if x in model:
                G.unregister_backend(x)
                del model[x]
            else:
                S.raises(lambda: G.unregister_backend(x), 'unknown backend unregistered', (ValueError,))
        elif op == 'gdef':
            if x in model:
                G.set_default_backend(x)
                gdef[0] = x
            else:
                S.raises(lambda: G.set_default_backend(x), 'unknown default accepted', (ValueError,))
        elif op == 'cdef':
            x = None if x == 'None' else x
            if x is None or x in model:
                c.set_default_backend(x)
                cdef[0] = x
            else:
                S.raises(lambda: c.set_default_backend(x), 'unknown circuit default accepted', (ValueError,))
        elif op == 'copy' and (cdef[0] is None or cdef[0] in model):
            others.append((c, cdef[0]))
            c = c.copy()
        elif op == 'run':
            name = x or cdef[0] or gdef[0]
            routed(name, (lambda: c.run(backend=x)) if x else c.run, 'step run', c)
        elif op == 'gate':
            c.cx[0, 1]
        S.true(G.get_default_backend_name() == gdef[0], 'global default name')
    visit(c, cdef[0])
    # circuits made from this one keep its default, unless asked not to
    # (a default that has been unregistered since: only that the circuit itself says so)
    if cdef[0] is None or cdef[0] in model:
        made_from = [('copy', c.copy(copy_backends=False), True), ('copy without default', c.copy(copy_default_backend=False), False),
                     ('copy without either', c.copy(copy_backends=False, copy_default_backend=False), False),
                     ('inverse', c.dagger(), True), ('inverse with backends', c.dagger(copy_backends=True), True),
                     ('inverse without default', c.dagger(copy_default_backend=False), False),
                     ('inverse with backends, without default', c.dagger(copy_backends=True, copy_default_backend=False), False),
                     ('sum', c + S.Circuit(2).x[1], True), ('sum on the right', S.Circuit(2).x[1] + c, False),
                     ('copy.copy', copy.copy(c), True)]
        for lab, e, keeps in made_from:
            d = cdef[0] if keeps else None
            S.true(e.get_default_backend_name() == (d or gdef[0]), lab + ': default name')
            routed(d or gdef[0], lambda: e.run(2, z=3), lab + ': run', e, (2,), dict(z=3))
            routed(d or gdef[0], lambda: e.make_cache(), lab + ': make_cache', e, kind='cache')
    for o, d in others:
        visit(o, d)
    d = S.Circuit(2)
    visit(d, None)
    # the backends that were there before are still there
    B = S.mod('circuit').BACKENDS
    S.true(set(B) == set(model) | {'numpy', 'numba', 'qasm_output', 'ibmq', 'sympy_unitary', 'qgate'},
           'registered names', str(sorted(B)))


GM = ['gate p', 'gate q', 'macro p', 'macro q', 'ungate p', 'ungate q', 'unmacro p', 'unmacro q', 'gover p', 'mover p',
      'gover q', 'mover q']


def names(S, prefix, depth):
    """gates and macros: dispatch, clashes, removal"""
    G = S.bq.BlueqatGlobalSetting
    g = S.mod('gate')
    gates, macros, made = {}, {}, itertools.count()
    for k in range(depth):
        act = prefix[k] if k < len(prefix) else S.pick('step%d' % k, GM)
        op, _, x = act.partition(' ')
        i = next(made)
        cls = type('Gate%d' % i, (g.OneQubitGate,), dict(lowername=x))

        def mac(c, *a, i=i, **kw):
            return ('macro', i, c, a, kw)
        if op in ('gate', 'macro'):
            reg, val = (G.register_gate, cls) if op == 'gate' else (G.register_macro, mac)
            if x in gates or x in macros:
                S.raises(lambda: reg(x, val), 'clashing %s name accepted' % op, (ValueError,))
            else:
                reg(x, val)
                (gates if op == 'gate' else macros)[x] = val
        elif op in ('gover', 'mover'):
            mine, other, reg, val = (gates, macros, G.register_gate, cls) if op == 'gover' else \
                (macros, gates, G.register_macro, mac)
            if x not in other:
                reg(x, val, allow_overwrite=True)
                mine[x] = val
        else:
            mine, un = (gates, G.unregister_gate) if op == 'ungate' else (macros, G.unregister_macro)
            if x in mine:
                un(x)
                del mine[x]
            else:
                S.raises(lambda: un(x), 'unknown name unregistered', (ValueError,))
        for nm in ('p', 'q'):
            c = S.Circuit(1)
            if nm in gates:
                r = getattr(c, nm)[0]
                S.true(r is c and len(c.ops) == 1 and type(c.ops[0]) is gates[nm] and c.ops[0].targets == 0, 'gate dispatch')
            elif nm in macros:
                r = getattr(c, nm)(1, k=2)
                w = macros[nm](c, 1, k=2)
                S.true(r[:2] == w[:2] and r[2] is c and r[3:] == w[3:], 'macro dispatch')
            else:
                S.raises(lambda: getattr(c, nm), 'unregistered name found', (AttributeError,))
    C = S.mod('circuit')
    S.true(C.GATE_SET.get('cnot') is g.CXGate and C.GATE_SET['h'] is g.HGate and
           set(C.GATE_SET) - {'p', 'q'} == STANDARD, 'standard gates kept', str(set(C.GATE_SET) ^ STANDARD))


STANDARD = set(ref.NARGS) | {'reset', 'measure', 'm'}


def reserved(S):
    """names that clash with circuit methods, gates and run_with_ are refused"""
    G = S.bq.BlueqatGlobalSetting
    g = S.mod('gate')

    class Z(g.OneQubitGate):
        lowername = 'zz'
    for nm in ('run', 'copy', 'dagger', 'to_qasm', 'to_unitary', 'make_cache', 'set_default_backend', 'run_with_zz',
               '__add__', 'x', 'cx', 'm', 'measure'):
        for reg, v in ((G.register_gate, Z), (G.register_macro, lambda c: None)):
            S.raises(lambda: reg(nm, v), 'reserved name %s accepted' % nm, (ValueError,))
            if nm.startswith('run_with'):
                S.raises(lambda: getattr(S.Circuit(), nm), 'refused name is reachable', (AttributeError,))
    for nm in ('numpy', 'numba', 'qasm_output', 'ibmq', 'sympy_unitary', 'qgate'):
        S.raises(lambda: G.register_backend(nm, lambda: None), 'existing backend replaced', (ValueError,))
    c = S.Circuit()
    S.true(callable(c.run) and c.x[0].ops[0].lowername == 'x', 'still there')
    G.register_macro('run_with_zz', lambda c: 'forced', allow_overwrite=True)
    S.true(S.Circuit().run_with_zz() == 'forced', 'overwriting is possible')
    G.unregister_macro('run_with_zz')
    S.raises(lambda: S.Circuit().run_with_zz, 'gone', (AttributeError,))
    for nm in ('nosuch', '', 'Numpy', None):
        S.raises(lambda: G.set_default_backend(nm), 'unknown global default', (ValueError,))
        if nm is not None:
            S.raises(lambda: S.Circuit(1).run(backend=nm), 'unknown backend', (ValueError,))
            S.raises(lambda: S.Circuit(1).set_default_backend(nm), 'unknown circuit default', (ValueError,))
    S.true(G.get_default_backend_name() == 'numpy', 'default unchanged')
    G.register_backend('extra', lambda: Rec('extra', []))
    G.remove_backend('extra')
    S.raises(lambda: S.Circuit(1).run(backend='extra'), 'removed backend', (ValueError,))


# sets of primitives a backend may know; the smallest covers what has no decomposition
BASE = ['x', 'y', 'z', 'h', 'rx', 'ry', 'rz', 'u3', 'cx', 'cz', 'measure', 'reset']
SETS = {
    'base': BASE,
    'phase': BASE + ['phase'],
    'clifford': BASE + ['s', 'sdg', 't', 'tdg', 'swap', 'cy', 'ch'],
    'controlled': BASE + ['crx', 'cry', 'crz', 'cphase'],
    'u': BASE + ['u1', 'u2', 'cu1', 'cu2', 'cu3'],
    'three': BASE + ['ccx', 'i'],
    'pairs': BASE + ['rzz', 'rxx', 'cswap', 'tdg'],
    'all': sorted(set(ref.NARGS) - {'cnot', 'r', 'cr', 'toffoli'}) + ['measure', 'reset'],
}


def recorder(S, prims):
    """a backend that knows prims and records the primitive operations it is told to do"""
    B = S.mod('backends.backendbase').Backend
    done = []

    def act(self, gate, ctx):
        S.true(ctx == ('ctx', len(done)), 'context handed over', str(ctx))
        done.append(gate)
        return ('ctx', ctx[1] + 1)

    def pre(self, gates, n_qubits, args, kwargs):
        self.seen = (n_qubits, args, kwargs)
        return gates, ('ctx', 0)

    def post(self, ctx):
        return 'post', ctx
    cls = type('Recorder', (B,), dict({'gate_' + p: act for p in prims}, _preprocess_run=pre, _postprocess_run=post))
    return cls(), done


def as_ops(S, gates, n):
    """recorded gate objects -> reference operations on explicit qubits"""
    g = S.mod('gate')
    out = []
    for x in gates:
        if isinstance(x, g.OneQubitGate):
            out += [(x.lowername, x.params, q) for q in ref.expand(x.targets, n)]
        elif isinstance(x, g.TwoQubitGate):
            out += [(x.lowername, x.params, (a, b)) for a, b in zip(ref.expand(x.targets[0], n), ref.expand(x.targets[1], n))]
        else:
            out.append((x.lowername, x.params, x.targets))
    return out


def handed(S, spec, n, prims):
    ops = ops_of(S, spec)
    c = add_ops(S.Circuit(n), ops)
    bk, done = recorder(S, SETS[prims])
    r = c.run(1, 'b', backend=bk, key=3)
    S.true(r == ('post', ('ctx', len(done))), 'result of the postprocessing', str(r))
    S.true(bk.seen == (n, (1, 'b'), dict(key=3)), 'arguments of the preprocessing', str(bk.seen))
    S.true(all(x.lowername in SETS[prims] for x in done), 'only known gates handed over')
    if all(x.lowername in SETS[prims] for x in c.ops):
        S.true(len(done) == len(c.ops) and all(x is y for x, y in zip(done, c.ops)), 'known gates handed over as they are')
    k = 0
    got = as_ops(S, done, n)
    st = S.state(n)
    S.eq_phase(ref.dense(ref.run(S, got, st, n), n), ref.dense(ref.run(S, ops, st, n), n), 'decomposition')
    flat = bk._resolve_fallback(c.ops, n)
    S.true([(x.lowername, x.targets) for x in flat] == [(x.lowername, x.targets) for x in done], 'resolved list')


def refused(S):
    """what a backend does not know and has no decomposition for is refused, not skipped"""
    g = S.mod('gate')
    for miss in ('x', 'y', 'z', 'h', 'rx', 'ry', 'rz', 'u3', 'cx', 'cz', 'measure', 'reset'):
        bk, done = recorder(S, [p for p in BASE if p != miss])
        c = S.Circuit(2).s[1]
        op = getattr(c, miss)
        n = ref.NARGS.get(miss, 0)
        if n:
            op = op(*S.reals('a', n))
        op[(0, 1) if miss in ('cx', 'cz') else 0]
        if miss in ('rz',):
            c = S.Circuit(2).rz(S.real('a0'))[1]
        S.raises(lambda: c.run(backend=bk), '%s skipped silently' % miss, (NotImplementedError,))
        S.raises(lambda: bk._resolve_fallback(c.ops, 2), '%s skipped silently' % miss, (NotImplementedError,))
    bk, done = recorder(S, BASE)
    S.Circuit(2).m[0].reset[1].m[:].run(backend=bk)
    S.true([(x.lowername, x.targets) for x in done] == [('measure', 0), ('reset', 1), ('measure', slice(None))],
           'measurements handed over')


def parsable(S):
    """backends generated from a function that takes OpenQASM text"""
    gen = S.mod('backends.qasm_parser_backend_generator')
    G = S.bq.BlueqatGlobalSetting
    seen = []

    def runner(qasm, *a, **kw):
        seen.append((qasm, a, kw))
        return ('ran', len(seen))
    G.register_backend('txt', gen.generate_backend(runner))
    th = S.real('th')
    c = S.Circuit(2).h[0].rx(th)[1].cx[0, 1].m[:]
    r = c.run(4, backend='txt', shots=9)
    S.true(r == ('ran', 1) and len(seen) == 1, 'executed once, result returned')
    S.true(seen[0][1:] == ((4,), dict(shots=9)), 'arguments', str(seen[0][1:]))
    S.true(seen[0][0] == c.to_qasm(), 'program')
    c.x[3]
    S.true(c.run_with_txt() == ('ran', 2) and seen[1] == (c.to_qasm(), (), {}), 'second run')


def jobs(tier):
    out = []
    big = tier == 'thorough'
    for p in ([], ['reg a'], ['reg a', 'run a'], ['reg a', 'gdef a', 'run'], ['reg a', 'cdef a', 'run'],
              ['reg a', 'reg b', 'gdef b'], ['reg a', 'cdef a', 'copy']):
        deep = len(p) < 3 or big
        for q in itertools.product(ACTS, ACTS if big else [None]):
            pre = p + [x for x in q if x]
            out.append(('backends', dict(prefix=pre, depth=len(p) + (4 if big else 3 if deep and len(p) == 2 else 2))))
    for q in GM:
        out.append(('names', dict(prefix=[q], depth=5 if big else 3)))
    for p in itertools.product(['gate p', 'macro p'], ['gate q', 'macro q']):
        out.append(('names', dict(prefix=list(p), depth=5 if big else 4)))
    out += [('reserved', {}), ('refused', {}), ('parsable', {})]
    for prims in SETS:
        for g in ref.ONE:
            out.append(('handed', dict(spec=[(g, 1)], n=2, prims=prims)))
            if ref.NARGS[g] < 2:
                out.append(('handed', dict(spec=[(g, slice(None))], n=2, prims=prims)))
        for g in ref.TWO:
            pl = [((0, 1), 2), ((1, 0), 2)]
            if big:
                pl += [(t, 3) for t in itertools.permutations(range(3), 2)]
            for t, n in pl:
                out.append(('handed', dict(spec=[(g, t)], n=n, prims=prims)))
        for g in ref.THREE:
            for t in itertools.permutations(range(3)) if big or prims in ('base', 'three') else [(0, 1, 2), (2, 0, 1), (-1, 0, 1)]:
                out.append(('handed', dict(spec=[(g, t)], n=3, prims=prims)))
        out.append(('handed', dict(spec=[('h', slice(None)), ('cy', ((0, 1), (1, 2))), ('t', -1)], n=3, prims=prims)))
    return out
