#!/usr/bin/env python3
"""development aid: (re)generates seeded/<id>/ from dev/seeds/*.py and validates them in scratch copies.
usage: seed.py [id ...]      (no id: those not generated yet)"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks, flags='', cmd=None, std='c++14', cov=True):
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, cmd=cmd, std=std)


DEMO = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
g++ -std=%(std)s -w -O1 -I"$PWD/include" "$here/demo.cpp" -o "$d/demo" -pthread %(flags)s || exit 3
cd "$d" && %(cmd)s
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def make(s):
    d = tempfile.mkdtemp(prefix='seed')
    try:
        r = d + '/repo'
        sh('cp -a /repo %s' % r)
        for e in s['edits']:
            f = os.path.join(r, 'include/cli', e[0])
            t = open(f).read()
            if t.count(e[1]) < 1:
                return s['id'], 'OLD TEXT NOT FOUND: ' + e[1]
            open(f, 'w').write(t.replace(e[1], e[2], 1))
        out = os.path.join(V, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        diff = sh('git diff', cwd=r).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cpp', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write(DEMO % dict(std=s['std'], flags=s['flags'], cmd=s['cmd'] or 'timeout 60 ./demo'))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        # validation
        q = sh('bash %s/demo.sh' % out, cwd='/repo')
        if q.returncode != 0:
            return s['id'], 'demo fails on the unchanged tree rc=%s %s' % (q.returncode, (q.stdout + q.stderr)[-800:])
        q = sh('bash %s/demo.sh' % out, cwd=r)
        if q.returncode == 0:
            return s['id'], 'demo passes with the patch'
        if q.returncode == 3 and 'does not compile' not in (s['cmd'] or ''):
            return s['id'], 'demo does not compile with the patch ' + q.stderr[-500:]
        info = 'demo rc=%s ' % q.returncode
        # tests: compile against the changed headers
        t = sh('bash %s/dev/tests.sh %s' % (V, r))
        if t.returncode != 0:
            return s['id'], 'tests fail: ' + (t.stdout + t.stderr)[-600:]
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + '/ev')
        c = subprocess.run([sys.executable, V + '/check.py', s['prop']], env=env, capture_output=True, text=True)
        last = [l for l in c.stdout.strip().split('\n')]
        return s['id'], info + ('CAUGHT ' if c.returncode == 1 else 'MISSED rc=%s ' % c.returncode) + ' | '.join(last[-3:])[:600] + c.stderr[-300:]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    for f in sorted(glob.glob(V + '/dev/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'))
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(os.path.join(V, 'seeded', i, 'meta.json'))]
    if ids == ['all']:
        ids = list(SEEDS)
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(make, [SEEDS[i] for i in ids]):
            print('%-30s %s' % (i, m))
