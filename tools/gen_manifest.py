#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of check modules present."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NA = {
    'C23': 'the execution semantics lie in the third-party qgate package, which is not installed and cannot be fetched: '
           'there is no code to encode, and what its gates (e.g. the phase convention of U) and its observations mean is not '
           'defined anywhere in this repository; a stand-in written here would only be compared with itself',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason='no check built yet'))
        continue
    checks.append(dict(
        property=i,
        quick_cmd='%s run.py %s --tier quick' % (PY, i),
        thorough_cmd='%s run.py %s --tier thorough' % (PY, i),
        evidence_file='evidence/%s.json' % i,
        technique='bounded symbolic execution of the real Python code with z3 deciding every branch and assertion; '
                  'counterexamples replayed on the plain package',
        level='model_checking',
        level_note='Holds for every value of the symbolic inputs within the bounds written in the evidence (sizes, '
                   'depths, gate sequences are enumerated; angles, amplitudes, coefficients, indices and random draws are '
                   'symbolic). Assumes exact real arithmetic (no float rounding), the numpy/scipy.sparse/math/random '
                   'models in sym/ (re-run against the real libraries at a witness point per job), and z3.'))
m = dict(version=1, setup_cmd='%s run.py --selftest' % PY, checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the package is loaded from source with symbolic stand-ins for its '
               'imports on every run. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
