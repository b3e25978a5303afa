#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the harness files present and the table of reasons below"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
TECH = 'symbolic execution of the real code (LLVM IR of /repo) with Z3 deciding every branch and assertion'
def note(pid):
    b = []; o = []
    for l in open('%s/harness/%s.cpp' % (V, pid)):
        if l.startswith('// @bound:'): b.append(l[10:].strip())
        if l.startswith('// @outside:'): o.append(l[12:].strip())
    return ('Every execution path of the real code within the bounds is decided by the solver (quick tier: complete; thorough tier: larger bounds, time-boxed, the evidence says what was finished). Bounds: %s. Outside: %s. '
            'Trusted: clang, the engine in /verif/engine, the QtCore/libc/Win32 model in /verif/model (validated against the real QtCore on sampled paths each run), Z3. Counterexamples count only when they replay on the natively built real code.') % (' '.join(b), ' '.join(o))
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists('%s/harness/%s.cpp' % (V, i)):
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking', 'level_note': note(i)})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks compile /repo/src/jomlib as it is. Repairs of genuine defects are fix: commits listed in known_findings.json.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
