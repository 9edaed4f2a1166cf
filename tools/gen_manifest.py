#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present (their META) and the reasons below"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'C35': 'whether a file holds the old or the new content after a crash depends on when the C library and the kernel write buffers back; no rule over the source of this library can establish it (the code makes no attempt at atomic replacement), and it is outside what the library promises',
    'C36': 'a statement about the arithmetic of std::stod and friends for every decimal string: it lives in the C library, not in the source under analysis',
    'C37': 'a bound on time under a fair thread schedule: a liveness/timing property no static rule over this source bounds',
    'C38': 'the library documents no synchronisation for this use and has none; the property is about runtime schedules of application threads (a lockset rule would only restate that there is no lock)',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower()).META
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': m['technique'], 'level': 'other', 'level_note': m['note'], 'evidence_file': 'evidence/%s.json' % i})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
