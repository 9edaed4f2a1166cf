"""What the checks share: reports, evidence, roles of fields, abstract runs."""
import json
import os
import signal
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import program, interp, walk, models          # noqa: E402
from engine.domain import *                                # noqa: E402,F401,F403
from engine.domain import V, State, Ev, T, F               # noqa: E402
from engine.lin import L, Lin, sym, Sym                    # noqa: E402
from engine.program import strip, fieldkey, REPO, VERIF    # noqa: E402
from engine.interp import Budget, Policy, Interp           # noqa: E402
from engine.walk import Monitor, all_events                # noqa: E402


class Anchor(Exception):
    """something the check needs is not in the program any more"""


MAXVIOL = 60                # more are counted, not listed


class Report(object):
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.violations = []
        self.said = set()
        self.obl = {}            # rule -> [holds, fails, undecided]
        self.fns = set()
        self.paths = 0
        self.loops = 0
        self.notes = []
        self.samples = []
        self.t0 = time.time()
        self.assumptions = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text
        self.obl.setdefault(name, [0, 0, 0])

    def ok(self, rule, n=1):
        self.obl.setdefault(rule, [0, 0, 0])[0] += n

    def und(self, rule, why):
        self.obl.setdefault(rule, [0, 0, 0])[2] += 1
        if len(self.notes) < 200:
            self.notes.append('%s: %s' % (rule, why))

    def bad(self, rule, file, line, fn, msg, path=()):
        self.obl.setdefault(rule, [0, 0, 0])[1] += 1
        v = {'rule': rule, 'file': file, 'line': line, 'function': fn, 'message': msg, 'path': [str(p)[:400] for p in path]}
        k = (rule, file, line, fn, msg)
        if k not in self.said and len(self.violations) < MAXVIOL:
            self.said.add(k)
            self.violations.append(v)

    def enough(self):
        return len(self.violations) >= MAXVIOL

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(str(s)[:600])

    def ran(self, I, outs, root=None):
        for fid in I.fnseen:
            f = I.p.fn(fid)
            if f:
                self.fns.add('%s:%s %s' % (os.path.basename(f['file']), f['l'], strip(f['n'])))
        self.paths += len(outs)
        self.loops += len(I.loops)


_progs = {}


def prog(name='core'):
    if name not in _progs:
        _progs[name] = program.load(name)
    return _progs[name]


def fn(p, name, n=None, body=True, pred=None):
    """the function of that (template-free) qualified name"""
    fs = [f for f in p.bystrip.get(name, []) if f.get('repo') and (f.get('body') is not None or not body)]
    if n is not None:
        fs = [f for f in fs if len(f['ps']) == n]
    if pred is not None:
        fs = [f for f in fs if pred(f)]
    if not fs:
        raise Anchor('function %s not found' % name)
    return fs[0]


def fns(p, name):
    return [f for f in p.bystrip.get(name, []) if f.get('repo') and f.get('body') is not None]


def recof(p, name):
    rs = [r for r in p.records.values() if strip(r['n']) == name]
    if not rs:
        raise Anchor('class %s not found' % name)
    return rs[0]


def fields(p, rec, pred):
    """[(fieldkey, field, TK)] of a class (bases included) satisfying pred(TK, field)"""
    out = []
    for fk, f in p.allfields(rec['id']):
        tk = p.tk(f['t'])
        if pred(tk, f):
            out.append((fk, f, tk))
    return out


WRITES = ('operator=', 'operator+=', 'operator-=', 'operator|=', 'operator++', 'operator--', 'assign', 'clear', 'append', 'push_back', 'store', 'fetch_add')


def idle(p, rec):
    """keys of the members of a class that nothing but their own update depends on"""
    if not hasattr(p, '_idle'):
        p._idle = {}
    if rec['id'] in p._idle:
        return p._idle[rec['id']]
    own = {}
    for fk, f in p.allfields(rec['id']):
        own.setdefault(f['n'], set()).add(fk)
    dead = set(own)
    bodies = [(f['body'], f.get('inits')) for f in p.functions.values() if f.get('repo') and f.get('body') is not None]

    def target(n):
        return isinstance(n, dict) and n.get('k') == 'mem' and n.get('fn') in dead

    def walk(n, live):
        if isinstance(n, list):
            for x in n:
                walk(x, live)
            return
        if not isinstance(n, dict):
            return
        e = n.get('e') if n.get('k') == 'expr' else None
        if isinstance(e, dict):
            while e.get('k') in ('paren', 'full', 'cleanup', 'cast') and isinstance(e.get('e'), dict):
                e = e['e']
            k = e.get('k')
            if k == 'un' and '++' in e.get('op', '') + ' ' or k == 'un' and '--' in e.get('op', ''):
                if target(e.get('e')):
                    walk(e['e'].get('b'), live)
                    return
            if k in ('asg', 'casg', 'bin') and (k != 'bin' or e.get('op', '').endswith('=') and e.get('op') not in ('==', '<=', '>=', '!=')) and target(e.get('a')):
                walk(e['a'].get('b'), live)
                return
            if k in ('mcall', 'opcall', 'call') and e.get('sn') in WRITES:
                o = e.get('obj') if isinstance(e.get('obj'), dict) else (e.get('args') or [None])[0]
                if target(o):
                    walk(o.get('b'), live)
                    for x in (e.get('args') or []):
                        if x is not o and has(x, ('call', 'mcall', 'opcall', 'lambda', 'lam')):
                            walk(x, live)
                    return
        if n.get('k') == 'mem' and n.get('fn') in own:
            live.add(n['fn'])
        for k, x in n.items():
            if k != 'k' and isinstance(x, (dict, list)):
                walk(x, live)

    def has(n, ks):
        if isinstance(n, list):
            return any(has(x, ks) for x in n)
        return isinstance(n, dict) and (n.get('k') in ks or any(has(x, ks) for x in n.values()))

    while True:
        live = set()
        for b, i in bodies:
            walk(b, live)
            for x in i or ():
                if isinstance(x, dict):
                    walk([y for y in x.values() if isinstance(y, (dict, list))], live)
        if dead <= dead - live:
            break
        dead -= live
    r = set()
    for n in dead:
        r |= own[n]
    # objects whose life is what matters, and references, are not idle
    r = set(k for k in r for fk, f in p.allfields(rec['id']) if fk == k and (p.tk(f['t']).k in ('int', 'bool', 'enum', 'seq') or 'atomic' in (p.tk(f['t']).s or '')))
    p._idle[rec['id']] = r
    return r


def field(p, rec, pred, what):
    fs = fields(p, rec, pred)
    if len(fs) != 1:
        raise Anchor('%s: %d fields are candidates for %s' % (rec['n'], len(fs), what))
    return fs[0][0]


def to_rec(tk):
    """stripped name of the class a pointer-like type points to"""
    t = tk.sub('to')
    return strip(t.t['n']) if t is not None and t.t['k'] == 'rec' else None


def bases(x, deep=False, out=None):
    """the unknown sequences whose content appears in a value"""
    from engine.domain import SBase
    if out is None:
        out = []
    if isinstance(x, SBase):
        if x not in out:
            out.append(x)
            if deep:
                bases(x.key, deep, out)
    elif isinstance(x, V):
        for y in x.a:
            bases(y, deep, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            bases(y, deep, out)
    elif deep and isinstance(x, Lin):
        for q, c in x.t:
            bases(q.key, deep, out)
    return out


def approx(x, depth=0):
    """the value mentions the state of a loop after an unknown number of iterations: not a definite value"""
    from engine.domain import SBase
    if depth > 12:
        return False
    if isinstance(x, (SBase, Sym)):
        return approx(x.key, depth + 1)
    if isinstance(x, V):
        return any(approx(y, depth + 1) for y in x.a)
    if isinstance(x, Lin):
        return any(approx(q.key, depth + 1) for q in x.syms())
    if isinstance(x, (tuple, frozenset, list)):
        if isinstance(x, tuple) and len(x) >= 2 and x[0] in ('h', 'm', 'n', 'd', 't') and isinstance(x[1], int):
            return True
        return any(approx(y, depth + 1) for y in x)
    return False


def at(ev):
    return ev.file, ev.line, ev.fn


def short(f):
    return f.replace(REPO + '/', '')


def trace(st, maxn=40):
    return [repr(e) for e in st.events if e.kind not in ('init', 'assume', 'destroy')][-maxn:]


def runfn(rep, p, f, pol=None, st=None, this=('o', 'this'), args=None, maxsteps=None, clo=None):
    """abstract execution; Budget exceptions propagate"""
    I = Interp(p, pol or Policy())
    if maxsteps:
        I.maxsteps = maxsteps
    th = this if f.get('rec') is not None and not f.get('static') else None
    outs = I.run(f, st=st, this=th, args=args, clo=clo)
    rep.ran(I, outs)
    return I, outs


def closures(st):
    """the closures stored anywhere in a state"""
    out = []
    for k, v in st.store.items():
        if isinstance(v, V) and v.k == 'clo' and v not in out:
            out.append(v)
    return out


def runclo(rep, p, clo, pol=None, st=None, args=None):
    f = p.fn(clo.a[0]) if clo.a[0] is not None else None
    if f is None:
        return None
    I = Interp(p, pol or Policy())
    outs = I.run(f, st=st, args=args, clo=clo)
    rep.ran(I, outs)
    return f, I, outs


LIMIT = 720                 # seconds; a check has 900


def late(*a):
    signal.alarm(40)        # in case a part of the check goes on after this
    raise Budget('the analysis took more than %d s' % LIMIT)


def main(pid, tier):
    import importlib
    rep = Report(pid, tier)
    mod = importlib.import_module('checks.' + pid.lower())
    status = 0
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        mod.check(rep, tier)
        signal.alarm(0)
    except Anchor as x:
        # what the rest of the property is about was not found; what was decided before stands
        rep.und('anchor', str(x))
        print('UNDECIDED %s: %s' % (pid, x))
    except program.ToolError as x:
        print('ANALYSIS-BROKEN %s: %s' % (pid, x))
        status = 2
    except Budget as x:
        rep.und('budget', str(x))
        print('UNDECIDED %s: %s' % (pid, x))
    except Exception:
        # a construct the analysis cannot handle: what was decided before stands
        traceback.print_exc()
        rep.und('internal', traceback.format_exc().strip().split('\n')[-1])
        print('UNDECIDED %s: the analysis stopped early' % pid)
    signal.alarm(0)
    if tier == 'thorough' and not os.environ.get('VERIF_VARIANT') and pid != 'C32':
        variants(rep, pid)
    known = load_known(pid)
    left = []
    for v in rep.violations:
        k = [w for w in known if w['rule'] == v['rule'] and w['function'] == v['function']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what']))
        else:
            left.append(v)
    evd = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evd, exist_ok=True)
    held = sum(o[0] for o in rep.obl.values())
    failed = sum(o[1] for o in rep.obl.values())
    und = sum(o[2] for o in rep.obl.values())
    meta = getattr(mod, 'META', {})
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {
              'explanation': meta.get('explanation', ''),
              'rules': {r: {'text': rep.rules.get(r, ''), 'held': o[0], 'violated': o[1], 'undecided': o[2]} for r, o in sorted(rep.obl.items())},
              'obligations_total': held + failed + und,
              'functions_analysed': sorted(rep.fns),
              'functions': len(rep.fns), 'abstract_paths': rep.paths, 'loop_summaries': rep.loops,
              'samples': rep.samples, 'undecided_reasons': sorted(set(rep.notes))[:30]},
          'assumptions': meta.get('assumptions', []) + rep.assumptions,
          'wall_s': round(time.time() - rep.t0, 2), 'violations': len(left)}
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if status == 0 and not left and held == 0:
        # nothing is claimed about this tree (the evidence says why); not an alarm either
        print('UNDECIDED %s: no obligation was decided' % pid)
    if left:
        path = os.path.join(evd, 'replay-%s.json' % pid)
        with open(path, 'w') as f:
            json.dump(left, f, indent=1)
        for v in left[:20]:
            print('%s:%s: %s: [%s] %s' % (short(v['file']), v['line'], v['function'], v['rule'], v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if status == 0:
        print('%s: %d obligations held, %d undecided, %d paths, %d functions, %.1fs' % (pid, held, und, rep.paths, len(rep.fns), time.time() - rep.t0))
    return status


VARIANTS = (('c++17', 'NDEBUG'), ('c++20', ''))


def variants(rep, pid):
    """the same rules on the program as other language standards, and builds with assertions, see it"""
    import subprocess
    import tempfile
    runs = []
    with tempfile.TemporaryDirectory(prefix='verif-var') as d:
        for n, (std, defs) in enumerate(VARIANTS):
            ev = os.path.join(d, str(n))
            env = dict(os.environ, VERIF_STD=std, VERIF_DEFS=defs, VERIF_EVIDENCE=ev, VERIF_VARIANT='1', VERIF_TIER='quick')
            runs.append((std, defs, ev, subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), pid, 'quick'], env=env,
                                                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        left = max(60, 860 - (time.time() - rep.t0))
        end = time.time() + left
        for std, defs, ev, pr in runs:
            what = '%s%s' % (std, '' if defs else ', assertions enabled')
            try:
                rc = pr.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill()
                rep.und('variant', '%s: no time left' % what)
                continue
            try:
                cov = json.load(open(os.path.join(ev, pid + '.json')))['coverage']
            except (OSError, ValueError):
                rep.und('variant', '%s: no result (status %d)' % (what, rc))
                continue
            for r, o in cov['rules'].items():
                rep.rule('%s [%s]' % (r, what), o['text'])
                rep.obl['%s [%s]' % (r, what)] = [o['held'], 0, o['undecided']]
            rep.paths += cov['abstract_paths']
            rp = os.path.join(ev, 'replay-%s.json' % pid)
            if rc == 1 and os.path.exists(rp):
                for v in json.load(open(rp)):
                    if (v['rule'], v['file'], v['line'], v['function'], v['message']) not in rep.said:
                        rep.bad(v['rule'], v['file'], v['line'], v['function'], '%s (%s)' % (v['message'], what), v['path'])


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [w for w in json.load(open(p)).get('findings', []) if w['property'] == pid]


def compile_check(code, std='c++14', defs=(), files=None, extra=()):
    """type-checks a translation unit against the current headers: (exit status, diagnostics)"""
    import subprocess
    import tempfile
    with tempfile.TemporaryDirectory(prefix='verif-tu') as d:
        f = os.path.join(d, 'tu.cpp')
        with open(f, 'w') as h:
            h.write(code)
        r = subprocess.run(['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-fsyntax-only', '-std=' + std, '-I' + os.path.join(REPO, 'include'), '-w'] +
                           ['-D' + x for x in defs] + list(extra) + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors='replace')
