"""C30: colours are switched off again, and never switched on when disabled."""
from .roles import *
from .callgraph import graph, lib, calls, bodyof

META = {
    'technique': 'typestate automaton (one per output stream, over the characters of the escape sequences written) run on every path of every function of the library that prints in colour, the manipulators entered',
    'note': 'The setting is the location that SetColor and SetNoColor write; the functions checked are found from the call graph.',
    'explanation': 'On every path of every operation that prints the prompt or echoes input: a colour or style switched on is switched off on the same stream before the operation ends, not before the text it is for; '
                   'a path on which colours may be disabled switches none on. SetColor and SetNoColor write the setting that the paths test.',
    'assumptions': ['the prompt and the echoed text carry no escape sequences of their own', 'outputting to the stream does not throw', 'the setting does not change during one operation'],
}
MAXSTEPS = 400000


def check(rep, tier):
    rep.rule('off', 'what is switched on is switched off in the same operation')
    rep.rule('text', 'not before the text it is for')
    rep.rule('disabled', 'nothing is switched on when colours are disabled')
    rep.rule('setting', 'SetColor and SetNoColor write the setting')
    for n in ('core', 'boost', 'standalone')[:1 if tier == 'quick' else 3]:
        Check(rep, prog(n), tier).run()


class ColPolicy(Policy):
    def hook(self, I, st, fr, name, e, obj, args):
        sn = name.rsplit('::', 1)[-1]
        if name == 'std::ios_base::iword':
            return [(st, ('o', ('iword', repr(obj))))]
        if sn in ('supportsColor', 'isTerminal'):
            return [(st, pred('rang', sn, repr([I.argval(st, a, x) for a, x in zip(args, e['args'])])))]
        return None


# classes of attributes and what switches each off
def attr(n):
    if 30 <= n <= 38 or 90 <= n <= 97:
        return 'fg'
    if 40 <= n <= 48 or 100 <= n <= 107:
        return 'bg'
    return {1: 'weight', 2: 'weight', 3: 'italic', 4: 'underline', 5: 'blink', 6: 'blink', 7: 'reverse', 8: 'conceal', 9: 'crossed', 21: 'underline'}.get(n)


OFF = {39: 'fg', 49: 'bg', 22: 'weight', 23: 'italic', 24: 'underline', 25: 'blink', 27: 'reverse', 28: 'conceal', 29: 'crossed'}


class Colours(walk.Monitor):
    """state: per stream (attributes on, lexical state, text since switched on); plus flags"""
    init = (frozenset(), frozenset())

    def __init__(self, chk):
        self.c = chk

    def step(self, ms, ev, st):
        if ev.kind not in ('out', 'manip', 'ext') or ev.obj is None:
            return (ms,)
        if ev.kind == 'ext' and ev.name.rsplit('::', 1)[-1] not in ('write', 'put'):
            return (ms,)
        streams, flags = ms
        key = self.c.streamkey(ev.obj, st)
        cur = {k: v for k, v in streams}
        on, lex, text = cur.get(key, (frozenset(), 'n', False))
        for ch in self.c.chars(ev):
            if ch is None:
                if lex not in ('n',):
                    flags = flags | {('unknown',)}
                lex = 'n'
                if on:
                    text = True
                if key is not None and ('early', key) in flags:
                    flags = flags | {('earlytext', key, ev.line)}
                continue
            if isinstance(ch, tuple):            # a number
                lex = lex + str(ch[1]) if lex.startswith('[') else 'n'
                continue
            if lex == 'n':
                if ch == 27:
                    lex = 'e'
                else:
                    if on:
                        text = True
                    if ('early', key) in flags and ch > 32:
                        flags = flags | {('earlytext', key, ev.line)}
            elif lex == 'e':
                lex = '[' if ch == ord('[') else 'n'
            elif ch in b'0123456789;':
                lex += chr(ch)
            elif ch == ord('m'):
                for t in lex[1:].split(';'):
                    n = int(t or '0')
                    if n == 0 or n in OFF:
                        was = on
                        on = frozenset() if n == 0 else on - {OFF[n]}
                        if was and not on:
                            if not text:
                                flags = flags | {('early', key)}
                            text = False
                    elif attr(n):
                        on = on | {attr(n)}
                        flags = frozenset(x for x in flags if x != ('early', key)) | {('on', ev.line)}
                        self.c.switched(ev, st)
                lex = 'n'
            else:
                lex = 'n'
        if on or lex != 'n':
            cur[key] = (on, lex, text)
        else:
            cur.pop(key, None)
        return ((frozenset(cur.items()), flags),)


class Check(object):
    def __init__(self, rep, p, tier):
        self.rep, self.p, self.tier = rep, p, tier
        self.setting = None
        self.seen = set()

    def run(self):
        p, rep = self.p, self.rep
        self.settings()
        done = set()
        fs = self.users()
        if not fs:
            rep.und('off', 'no function of the library prints in colour')
        g = graph(p)
        todo = [(f, self.paths(f)) for f in fs]
        done = {f['id'] for f in fs}
        halves = {strip(f['n']) for f, r in todo if not self.switches(r)}
        while todo:
            f, runs = todo.pop(0)
            me = strip(f['n'])
            if me in halves:
                rep.sample('%s switches no colour on' % me)
                continue
            if self.opens(runs):
                # half of an operation if its users also end it
                users = [c for c, x in g.get(me, []) if c['id'] != f['id'] and self.callees[strip(c['n'])] & (self.manips | halves) - {me}]
                if users:
                    for c in users:
                        if c['id'] not in done:
                            done.add(c['id'])
                            todo.append((c, self.paths(c)))
                    continue
            self.operation(f, runs)

    # -------------------------------------------------- the setting
    def settings(self):
        p, rep = self.p, self.rep
        for name, want in (('cli::SetColor', True), ('cli::SetNoColor', False)):
            f = fn(p, name)
            I, outs = runfn(rep, p, f, Policy(), State(), None)
            for s, fl in outs:
                ws = [(k, v) for k, v in s.store.items() if k[0] == 'g' and isinstance(v, tuple)]
                ws = [(k, v) for k, v in ws if v == (T if want else F)]
                if len(ws) != 1:
                    wrong = [k for k, v in s.store.items() if v == (F if want else T)]
                    if wrong or not any(k[0] == 'g' for k in s.store):
                        rep.bad('setting', f['file'], f['l'], strip(f['n']), 'colours are not %s by this function' % ('enabled' if want else 'disabled'), trace(s))
                    else:
                        rep.und('setting', 'the setting is not a variable of static duration')
                    return
                if self.setting is not None and ws[0][0] != self.setting:
                    rep.bad('setting', f['file'], f['l'], strip(f['n']), 'this function does not write the setting that SetColor writes', trace(s))
                    return
                self.setting = ws[0][0]
                rep.ok('setting')

    # -------------------------------------------------- which functions
    def manipulator(self, f):
        """ostream& f(ostream&, …): part of an output expression of its caller"""
        if not f['ps']:
            return False
        return 'basic_ostream' in self.p.tk(f['ps'][0]['t']).s and f['sn'].startswith('operator')

    def users(self):
        """functions of the library that print in colour, not by way of another one that does"""
        p = self.p
        by = {}
        for f in p.functions.values():
            if f.get('body') is not None and f.get('repo') and lib(f):
                by.setdefault(strip(f['n']), []).append(f)
        em = set()
        callees = {}
        for n, l in by.items():
            callees[n] = set()
            for f in l:
                for c in calls(bodyof(f)):
                    callees[n].add(strip(c['n']))
        def coloured(n, l):
            return any('rang' in c and c.rsplit('::', 1)[-1] in ('setColor',) for c in callees[n])
        emit = {n for n, l in by.items() if coloured(n, l)}
        emit |= {n for n, l in by.items() if any(self.direct(f) for f in l)}
        roots = set()
        self.callees = callees
        self.manips = {n for n, cs in callees.items() if cs & emit and any(self.manipulator(f) for f in by[n])}
        self.manips |= {n for n, cs in callees.items() if cs & self.manips and any(self.manipulator(f) for f in by[n])}
        changed = True
        reach = {n for n in emit}
        while changed:
            changed = False
            for n, cs in callees.items():
                if n in reach or not cs & reach:
                    continue
                hit = cs & reach
                if all(self.closed(by[h]) for h in hit if h in by):
                    continue
                reach.add(n)
                changed = True
        for n in reach:
            for f in by.get(n, []):
                if not self.manipulator(f) and not ('rang' in n):
                    roots.add(f['id'])
        # helpers (not public, or used by another root that is checked) are entered from there
        out = []
        g = graph(p)
        for i in roots:
            f = p.fn(i)
            callers = [c for c, x in g.get(strip(f['n']), []) if c['id'] in roots and c['id'] != i]
            if callers and not self.closed([f]):
                continue
            out.append(f)
        return sorted(out, key=lambda f: (f['file'], f['l'], f['id']))

    def closed(self, l):
        """an operation of its own: a public member function"""
        return any(f.get('rec') is not None and f.get('access') == 0 and not self.manipulator(f) and f.get('kind') != 'ctor' for f in l)

    def direct(self, f):
        """writes an escape sequence of its own"""
        hit = []

        def scan(x):
            if isinstance(x, dict):
                if x.get('k') == 'str' and '\x1b[' in str(x.get('v', '')):
                    v = str(x['v'])
                    i = v.find('\x1b[')
                    while i >= 0:
                        j = i + 2
                        while j < len(v) and v[j] in '0123456789;':
                            j += 1
                        if j == len(v) or v[j] == 'm':
                            hit.append(1)
                        i = v.find('\x1b[', j)
                for y in x.values():
                    scan(y)
            elif isinstance(x, list):
                for y in x:
                    scan(y)
        scan(f.get('body'))
        return bool(hit) and 'rang' not in f['n']

    # -------------------------------------------------- one operation
    def streamkey(self, o, st):
        return repr(o)

    def chars(self, ev):
        out = []
        for a in ev.args or ():
            if isinstance(a, V) and a.k == 'seq':
                for g in a.a[0]:
                    if g[0] == 'e' and isinstance(g[1], Lin):
                        out.append(g[1].c if g[1].is_const() else None)
                    elif g[0] == 'r' and isinstance(g[1], Lin) and g[1].is_const():
                        out.append(g[1].c if g[1].c != 27 else None)
                    else:
                        out.append(None)
            elif isinstance(a, V) and a.k == 'term' and a.a and a.a[0] == 'num' and isinstance(a.a[1], Lin) and a.a[1].is_const():
                out.append(('n', a.a[1].c))
            elif isinstance(a, Lin) and a.is_const():
                out.append(a.c)
            else:
                out.append(None)
        return out

    def switched(self, ev, st):
        self.ons.append((ev, st))

    def paths(self, f):
        p, rep = self.p, self.rep
        R = roles(p)
        st, this = None, ('o', 'this')
        if f.get('rec') is not None and p.rec(f['rec'])['id'] == R.ses['id']:
            st, this = R.session(), R.S
        I, outs = runfn(rep, p, f, ColPolicy(), st, this, maxsteps=MAXSTEPS)
        runs = []
        for s, fl in outs:
            self.ons = []
            runs.append((s, fl, walk.run(Colours(self), s), self.ons))
        return runs

    def ends(self, runs):
        return [(any(v[0] and not v[2] for k, v in streams), any(x[0] == 'on' for x in flags)) for s, fl, es, ons in runs for streams, flags in es]

    def switches(self, runs):
        return any(o for l, o in self.ends(runs))

    def opens(self, runs):
        return all(l for l, o in self.ends(runs) if o)

    def operation(self, f, runs):
        rep = self.rep
        w = (f['file'], f['l'], strip(f['n']))
        on = 0
        for s, fl, ends, ons in runs:
            path = trace(s)
            for ev, x in ons:
                on += 1
                if self.setting is None:
                    rep.und('disabled', 'the setting is not known')
                    continue
                c = ('?',)
                v = s.store.get(self.setting)
                init = self.init(s)
                if v is not None and v in (T, F) and init is None:
                    init = v
                if init is None:
                    may = True
                else:
                    ss = x if x is not None else s
                    may = ss.can(neg(init))
                if not may:
                    rep.ok('disabled')
                elif approx(s):
                    rep.und('disabled', 'imprecise path')
                else:
                    rep.bad('disabled', *at(ev), msg='a colour is switched on although colours are disabled', path=path)
            for streams, flags in ends:
                if ('unknown',) in flags:
                    rep.und('off', 'an escape sequence whose parameters are not known')
                    continue
                left = [k for k, v in streams if v[0]]
                if left:
                    how = 'an exception leaves' if fl and fl[0] == 'throw' else 'returns from'
                    rep.bad('off', *w, msg='a colour switched on is still on when control %s the operation' % how, path=path)
                elif any(x[0] == 'on' for x in flags):
                    rep.ok('off')
                if any(x[0] == 'earlytext' for x in flags):
                    rep.bad('text', *w, msg='the colour is switched off before the text it is for', path=path)
                elif any(x[0] == 'on' for x in flags):
                    rep.ok('text')
        if not on:
            rep.und('off', '%s switches no colour on' % strip(f['n']))
        rep.sample('%s: %d paths' % (strip(f['n']), len(runs)))

    def init(self, s):
        return self.p.tk(self.settingtype()).mk(('init', self.setting)) if self.setting is not None else None

    def settingtype(self):
        for i, t in enumerate(self.p.types):
            if t.get('k') == 'bool':
                return i
