#!/usr/bin/env python3
"""development aid: apply textual mutations to a scratch copy of /repo/include and run checks on it.
usage: mut.py FILE.json [name]   [{"name":..,"file":..,"old":..,"new":..,"checks":[..],"expect":1|0}]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ms = []
for fn in sys.argv[1:2]:
    ms += json.load(open(fn))
only = sys.argv[2:]
ms = [m for m in ms if not only or m['name'] in only]


def one(m):
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = os.path.join(d, 'repo')
        os.makedirs(r)
        shutil.copytree('/repo/include', os.path.join(r, 'include'))
        if 'patch' in m:
            subprocess.check_call(['git', 'apply', '--include=include/*', m['patch']], cwd=r)
        for ed in m.get('edits', [m] if 'old' in m else []):
            if isinstance(ed, list):
                ed = {'file': m['file'], 'old': ed[0], 'new': ed[1]}
            f = os.path.join(r, 'include/cli', ed['file'])
            s = open(f).read()
            if s.count(ed['old']) < 1:
                return m, [('?', 'OLD TEXT NOT FOUND ' + ed['old'], '')]
            s = s.replace(ed['old'], ed['new'], ed.get('count', 1))
            open(f, 'w').write(s)
        ev = os.path.join(d, 'ev')
        res = []
        for c in m['checks']:
            env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=ev)
            q = subprocess.run([sys.executable, os.path.join(V, 'check.py'), c], env=env, capture_output=True, text=True)
            res.append((c, q.returncode, (q.stdout + q.stderr[-1500:]).strip()))
        return m, res
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(8) as ex:
    for m, res in ex.map(one, ms):
        for c, rc, out in res:
            ok = rc == m.get('expect', 1)
            print('%-4s %-30s %s rc=%s' % ('ok' if ok else 'BAD', m['name'], c, rc))
            if not ok or os.environ.get('SHOW'):
                print('      ' + '\n      '.join(out.split('\n')[-8:])[:1800])
