"""Runs the jobs of a check, confirms violations on the real package, writes evidence."""
import argparse
import collections
import importlib
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback
from . import harness, loader, workers
from .core import _rng

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known_findings.txt')


class JobTimeout(BaseException):
    pass


def _alarm(*a):
    raise JobTimeout()


# -- which functions of the package were executed symbolically -------------------------------------
class Trace:
    TOOL = 3

    def __init__(self):
        self.names = set()

    def start(self):
        m = sys.monitoring
        root = os.path.realpath(loader.REPO) + os.sep
        alt = loader.REPO + os.sep

        def on(code, off):
            f = code.co_filename
            if f.startswith(root) or f.startswith(alt):
                self.names.add('%s:%s' % (f[len(alt):] if f.startswith(alt) else f[len(root):], code.co_qualname))
            return m.DISABLE
        try:
            m.use_tool_id(self.TOOL, 'verif')
        except ValueError:
            pass
        m.register_callback(self.TOOL, m.events.PY_START, on)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        return self.names


def job_name(mod, fn, params):
    return '%s.%s(%s)' % (mod, fn, ', '.join('%s=%r' % kv for kv in params.items()))


def run_job(a):
    """executed in a worker process"""
    mod, fname, params, opts = a
    m = importlib.import_module('checks.' + mod)
    fn = getattr(m, fname)
    fakes = getattr(fn, 'fakes', None)
    t0 = time.time()
    limit = opts['limit']
    tr = Trace()
    res = dict(mod=mod, fn=fname, params=params)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit + 10)
    try:
        tr.start()
        try:
            r = harness.run_symbolic(fn, params, opts['seed'], t0 + limit, fakes=fakes,
                                     timeout_ms=int(min(limit, opts['qlimit']) * 1000),
                                     max_paths=opts.get('max_paths', 50000))
        finally:
            names = tr.stop()
        res.update(r)
        res['funcs'] = sorted(names)
        res['wall_sym'] = time.time() - t0
        signal.setitimer(signal.ITIMER_REAL, 60)
        # validate the encoding: the same harness on the plain package, at a concrete point of the
        # explored space (and at sample points when the job could not be decided)
        res['validated'] = 0
        n = 0
        if r['status'] == 'ok':
            envs = (r.get('witness') or [{}])[:opts['nval']]
        elif r['status'] == 'undecided':
            envs = [{}] * 12
        else:
            envs = []
        for k, env in enumerate(envs):
            rng = _rng(opts['seed'], 'val', fname, repr(params), k)
            c = harness.run_concrete(fn, params, env, rng, fakes)
            n += 1
            if c is not None:
                res['status'] = 'violation'
                res['violation'] = dict(label=c[0], detail=c[1], env=c[2], by='validation')
                break
        res['validated'] = n
    except JobTimeout:
        if 'status' not in res:
            res.update(status='undecided', note='time limit of %ds' % limit, stats={}, funcs=[], witness=[])
        else:
            res['note'] = (res.get('note') or '') + ' validation timed out'
    except MemoryError:
        res.update(status='undecided', note='memory', stats={}, funcs=[], witness=[])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        res.update(status='error', note=traceback.format_exc()[-1500:], stats={}, funcs=[], witness=[])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res['wall'] = time.time() - t0
    return res


def save_replay(prop, k, res):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, k))
    v = res['violation']
    with open(path, 'w') as f:
        json.dump(dict(property=prop, module=res['mod'], harness=res['fn'], params=repr(res['params']),
                       label=v['label'], detail=v.get('detail', ''),
                       env={k2: v2 for k2, v2 in v['env'].items()}), f, indent=1, default=float)
    return path


def replay(path):
    """re-run a recorded counterexample against the real package; 1 = it fails there"""
    d = json.load(open(path))
    m = importlib.import_module('checks.' + d['module'])
    fn = getattr(m, d['harness'])
    params = eval(d['params'], {'__builtins__': {'slice': slice}}, {})
    c = harness.run_concrete(fn, params, d['env'], _rng('replay'), getattr(fn, 'fakes', None))
    if c is None:
        print('REPLAY property=%s: holds at this point' % d['property'])
        return 0
    print('REPLAY property=%s: FAILS at %s(%s): %s %s' % (d['property'], d['harness'], d['params'], c[0], c[1]))
    for k2, v2 in list(c[2].items())[:40]:
        print('   ', k2, '=', v2)
    return 1


def confirm(path):
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, 'run.py'), '--replay', path], capture_output=True,
                           text=True, timeout=120, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return False, 'the replay did not finish in 120 s'
    return p.returncode == 1, (p.stdout + p.stderr)[-1500:]


def load_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) at=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def key_of(res):
    """identifies the failing input / call site"""
    ps = ','.join('%s=%s' % (k, str(v).replace(' ', '')) for k, v in res['params'].items())
    return '%s(%s)#%s' % (res['fn'], ps, res['violation']['label'].replace(' ', '_'))


def selftest():
    """the tools are present and one small proof and one refutation come out as they must"""
    import z3

    def good(S):
        t = S.angle('t')
        v = S.Circuit(1).ry(t)[0].run()
        S.eqv(v, [S.cos(t / 2), S.sin(t / 2)], 'ry')

    def bad(S):
        t = S.angle('t')
        S.eqv(S.Circuit(1).ry(t)[0].run(), [S.cos(t / 2), -S.sin(t / 2)], 'ry')
    a = harness.run_symbolic(good, {}, 1, time.time() + 60)
    b = harness.run_symbolic(bad, {}, 1, time.time() + 60)
    print('z3', z3.get_version_string(), 'package', loader.REPO, a['status'], b['status'])
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--only', help='regular expression on job names')
    ap.add_argument('--procs', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    random.seed(seed)
    t0 = time.time()
    m = importlib.import_module('checks.' + prop.lower())
    budget = 420 if tier == 'quick' else 3000
    opts0 = dict(seed=seed, limit=90 if tier == 'quick' else 600, qlimit=20 if tier == 'quick' else 120, nval=1)
    jobs = []
    for j in m.jobs(tier):
        fname, params = j[0], j[1]
        o = dict(opts0)
        if len(j) > 2:
            o.update(j[2])
        jobs.append((prop.lower(), fname, params, o))
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, job_name(*j[:3]))]
    procs = a.procs or min(8, os.cpu_count() or 1)
    sys.stdout.flush()
    results = []
    confirmed, known, unconfirmed = [], [], []
    findings = load_findings(prop)
    nrep = 0
    if procs == 1:
        it = map(run_job, jobs)
    else:
        it = workers.run(jobs, run_job, procs, t0 + budget, lambda j: j[3]['limit'] + 90, _lost)
    stop = False
    try:
        for r in it:
            results.append(r)
            if a.v:
                print('%-9s %6.2fs %s %s %s' % (r['status'], r['wall'], job_name(r['mod'], r['fn'], r['params']),
                                                r.get('note', ''), r['violation'] and (r['violation']['label'], r['violation'].get('detail')) if r.get('violation') else ''), flush=True)
            if r['status'] == 'violation':
                k = key_of(r)
                hit = [f for f in findings if f[0] == k]
                if hit:
                    known.append((hit[0], r))
                    continue
                if nrep >= 60 or (nrep and time.time() > t0 + budget + 60):
                    r['status'] = 'undecided'
                    r['note'] = 'counterexample not replayed (too many)'
                    continue
                nrep += 1
                path = save_replay(prop, nrep, r)
                ok, txt = confirm(path)
                r['replay'] = path
                r['replay_out'] = txt
                if ok:
                    confirmed.append(r)
                    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
                    print('  at %s: %s %s' % (k, r['violation']['label'], r['violation'].get('detail', '')))
                    print('  ' + '\n  '.join(txt.strip().splitlines()[:8]))
                    if len(confirmed) >= 3 and not a.v:
                        stop = True
                        break
                else:
                    r['status'] = 'undecided'
                    r['note'] = 'counterexample did not reproduce on the real package: ' + r['violation']['label'] + ' ' + str(r['violation'].get('detail'))[:300]
                    unconfirmed.append(r)
    finally:
        if procs != 1:
            it.close()
    for (k, txt) in {f for f, _ in known}:
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    und = [r for r in results if r['status'] in ('undecided', 'error')]
    missing = 0 if stop else len(jobs) - len(results)
    for r in und:
        print('UNDECIDED %s: %s' % (job_name(r['mod'], r['fn'], r['params']), r.get('note', '')[-600:]))
    if missing:
        print('NOT RUN within the budget: %d jobs' % missing)
    ev = evidence(prop, tier, seed, m, jobs, results, confirmed, known, und, missing, time.time() - t0)
    if not a.only:
        write_evidence(prop, ev)
    c = ev['coverage']
    print('%s %s: jobs=%d ok=%d paths=%d obligations=%d queries=%d solver=%.1fs undecided=%d violations=%d known=%d wall=%.1fs'
          % (prop, tier, len(jobs), sum(r['status'] == 'ok' for r in results), c['states'], c['obligations'],
             c['queries'], c['solver_seconds'], len(und) + missing, len(confirmed), len(known), time.time() - t0))
    if confirmed:
        return 1
    if len(und) + missing > max(2, len(jobs) // 2):
        return 2
    return 0


def _lost(job, why):
    return dict(mod=job[0], fn=job[1], params=job[2], status='undecided', note=why, stats={}, funcs=[], witness=[],
                wall=0.0)


def evidence(prop, tier, seed, m, jobs, results, confirmed, known, und, missing, wall):
    tot = collections.Counter()
    funcs = set()
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            tot[k] += v
        funcs.update(r.get('funcs') or [])
    ok = [r for r in results if r['status'] == 'ok']
    samples = []
    for r in sorted(ok, key=lambda r: -r['wall'])[:4] + ok[:4]:
        s = dict(job=job_name(r['mod'], r['fn'], r['params']), paths=r['stats'].get('paths'),
                 obligations=r['stats'].get('obligations'), lanes=r['stats'].get('lanes'),
                 solver_queries=r['stats'].get('queries'), wall_s=round(r['wall'], 3))
        if r.get('witness'):
            s['satisfying_point'] = {k: (round(v, 6) if isinstance(v, float) else v)
                                     for k, v in list(r['witness'][0].items())[:24]}
        if s not in samples:
            samples.append(s)
    cov = dict(
        states=tot['paths'], transitions=tot['forks'] + tot['paths'],
        traces_validated_against_impl=sum(r.get('validated', 0) for r in results),
        samples=samples or ['no job finished'],
        obligations=tot['obligations'], discharged=tot['obligations'] - len(confirmed) - len(known),
        jobs=len(jobs), jobs_decided=len(ok) + len(confirmed) + len(known), jobs_undecided=len(und) + missing,
        lanes_compared=tot['lanes'], queries=tot['queries'], unsat=tot['unsat'], sat=tot['sat'],
        solver_seconds=round(tot['solver_s'], 3),
        functions_encoded=sorted(funcs), bounds=m.BOUNDS[tier] if isinstance(m.BOUNDS, dict) else m.BOUNDS,
        outside=getattr(m, 'OUTSIDE', ''),
        explanation='states = symbolic paths explored to their end, transitions = solver-decided branch points plus '
                    'paths, traces_validated = the same harness re-run on the plain package at a concrete point of '
                    'a proved job; an obligation is one solver-discharged assertion over all values on one path.',
        exhaustive=False)
    if und:
        cov['undecided'] = [dict(job=job_name(r['mod'], r['fn'], r['params']), note=(r.get('note') or '')[-300:])
                            for r in und[:20]]
    return dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
                assumptions=getattr(m, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 2),
                violations=len(confirmed))


COMMON_ASSUMPTIONS = [
    'floating-point rounding is outside the claim: the code is executed over exact reals/complex numbers '
    '(dyadic constants exact, 1/sqrt(2) and multiples of pi recognised)',
    'numpy, scipy.sparse, math, cmath and random are represented by the models in /verif/sym (validated per job '
    'against the real libraries at one point)',
    'z3 answers are trusted',
]


def write_evidence(prop, ev):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=float)
    os.replace(tmp, os.path.join(d, prop + '.json'))
