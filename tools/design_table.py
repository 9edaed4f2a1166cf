#!/usr/bin/env python3
"""prints the per-property part of DESIGN.md from the META of the checks and properties.jsonl"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
for l in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if not os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        continue
    m = importlib.import_module('checks.' + i.lower()).META
    print('### %s  %s\n' % (i, d['title']))
    print('*Decided by:* %s.\n' % m['technique'])
    print('*What is decided:* %s\n' % m['explanation'])
    if m['assumptions']:
        print('*Assumed:* %s.\n' % '; '.join(m['assumptions']))
    print('*Scope:* %s\n' % m['note'])
