#!/usr/bin/env python3
"""development aid: put the behaviour-preserving edits (expect 0) of dev/*.json together into as few scratch trees as possible.
usage: combo.py DIR  (writes DIR/N/repo and DIR/N/list)"""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
D = sys.argv[1]
H = ['core', 'boost', 'standalone']


def compiles(r):
    def one(h):
        c = ['clang++', '-std=c++14', '-fsyntax-only', '-w', '-I', r + '/include', os.path.join(V, 'harness', h + '.cpp')]
        if h == 'boost':
            c[1:1] = ['-DBOOST_ASIO_NO_DEPRECATED=1']
        return subprocess.run(c, capture_output=True).returncode == 0
    with ThreadPoolExecutor(3) as ex:
        return all(ex.map(one, H))


def apply(r, m):
    new = {}
    for ed in m.get('edits', [m] if 'old' in m else []):
        if isinstance(ed, list):
            ed = {'file': m['file'], 'old': ed[0], 'new': ed[1]}
        f = os.path.join(r, 'include/cli', ed['file'])
        s = new.get(f) or open(f).read()
        if s.count(ed['old']) < 1:
            return None
        new[f] = s.replace(ed['old'], ed['new'], ed.get('count', 1))
    return new


todo = []
for fn in sorted(glob.glob(os.path.join(V, 'dev/c*.json'))):
    for m in json.load(open(fn)):
        if m.get('expect', 1) == 0 and m['name'].startswith('R') and 'patch' not in m:
            m['src'] = os.path.basename(fn)
            todo.append(m)
n = 0
while todo and n < 12:
    r = os.path.join(D, str(n), 'repo')
    os.makedirs(r)
    shutil.copytree('/repo/include', r + '/include')
    used, rest = [], []
    for m in todo:
        new = apply(r, m)
        if not new:
            rest.append(m)
            continue
        old = {f: open(f).read() for f in new}
        for f in new:
            open(f, 'w').write(new[f])
        if compiles(r):
            used.append(m)
        else:
            for f in old:
                open(f, 'w').write(old[f])
            rest.append(m)
    json.dump([[m['src'], m['name']] for m in used], open(os.path.join(D, str(n), 'list'), 'w'))
    print(n, len(used), flush=True)
    if not used:
        break
    todo = rest
    n += 1
print('left', [(m['src'], m['name']) for m in todo])
