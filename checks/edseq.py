"""Editors that keep more than a line and a cursor: key sequences from the start, against a reference editor.
The line is what enter would hand over, whatever the members are."""
import time
from .editor import *

KEYSEQ = ('ascii', 'backspace', 'canc', 'left', 'right', 'home', 'end', 'up', 'down', 'tab', 'tab0', 'tab2', 'clear', 'ignored', 'ret')
TABS = ('tab', 'tab0', 'tab2')
LISTED = (b'@p', b'#qr')


def text(tag, n):
    return tuple(('e', L(sym(('seqch', tag, i), fin=range(33, 127)))) for i in range(n))


class SeqPolicy(EditPolicy):
    """what the session answers has a known length"""
    def __init__(self, depth, key):
        EditPolicy.__init__(self)
        self.unroll = 8
        self.depth = depth
        self.key = key

    def hook(self, I, st, fr, name, e, obj, args):
        if name.startswith(SES):
            n = name[len(SES):]
            if n in ('NextCmd', 'PreviousCmd', 'GetCompletions'):
                vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
                if n == 'PreviousCmd':
                    res = V('seq', text(('up', self.depth), 2))
                elif n == 'NextCmd':
                    res = V('seq', text(('down', self.depth), 1))
                elif self.key == 'tab0':
                    res = V('seq', ())
                elif self.key == 'tab2':
                    res = V('seq', tuple(('e', V('seq', tuple(('e', L(c)) for c in q))) for q in LISTED))
                else:
                    res = V('seq', (('e', V('seq', text(('tab', self.depth), 3))),))
                I.event(st, 'ses', n, obj, vals, res, e)
                return [(st, res)]
        return EditPolicy.hook(self, I, st, fr, name, e, obj, args)


def step(k, line, pos, ch, depth):
    """the reference editor"""
    if k == 'ascii':
        return line[:pos] + (ch,) + line[pos:], pos + 1
    if k == 'backspace':
        return (line, pos) if pos == 0 else (line[:pos - 1] + line[pos:], pos - 1)
    if k == 'canc':
        return line[:pos] + line[pos + 1:], pos
    if k == 'left':
        return line, max(0, pos - 1)
    if k == 'right':
        return line, min(len(line), pos + 1)
    if k == 'home':
        return line, 0
    if k in ('end', 'clear', 'tab2'):
        return line, len(line)
    if k == 'ret':
        return (), 0
    if k in ('up', 'down'):
        t = text((k, depth), 2 if k == 'up' else 1)
        return t, len(t)
    if k == 'tab':
        t = text(('tab', depth), 3) + (('e', L(32)),)
        return t, len(t)
    return line, pos


WANT = {'ret': ('DeactivateInput', 'Feed', 'Prompt', 'ActivateInput'), 'eof': ('Exit',), 'up': ('PreviousCmd',), 'down': ('NextCmd',),
        'tab': ('GetCompletions',), 'tab0': ('GetCompletions',), 'tab2': ('GetCompletions', 'Prompt'), 'clear': ('Prompt',)}


def explore(E, mine, visit, top=6, budget=100, most=30000):
    """visits (key, state, flow, line before, line, cursor, screens or message, sequence) of the keys of every sequence"""
    t0 = time.time()
    s = E.st.copy()
    s.events = []
    start = (s, (), 0, Screen((), L(0)), (), 0)
    level = [start]
    seen = set()
    n = 0

    def press(node, k, few=None):
        s0, line, pos, scr, seq, made = node
        s = s0.copy()
        s.events = []
        ch = ('e', L(sym(('seqkey', made), fin=range(33, 127)) if few is None else few))
        s.store[KEYLOC + ('pair::first',)] = L(E.keys['ascii' if k in TABS else k])
        s.store[KEYLOC + ('pair::second',)] = ch[1] if k == 'ascii' else L(9) if k in TABS else L(32)
        pol = SeqPolicy(made, k)
        I = Interp(E.p, pol)
        I.maxsteps = 100000
        pol.unroll = max(8, len(line) + 4)
        outs = I.run(E.handler, st=s, args=[V('rec', KEYLOC, None)], clo=E.clo)
        E.rep.ran(I, outs)
        E.I = I
        want, cur = step(k, line, pos, ch, made)
        for t, fl in outs:
            sq = seq + (k,)
            try:
                scrs = E.played(t, mine, scr)
            except (Wrong, Unknown) as x:
                scrs = x
            if not visit(k, t, fl, line, want, cur, scrs, sq if len(sq) < 12 else sq[:3] + ('...',) + sq[-8:], I) or len(scrs) != 1:
                yield None
                continue
            t2, x2 = scrs[0]
            yield (t2, want, cur, x2, sq, made + (k in ('ascii', 'up', 'down', 'tab')))

    for depth in range(top):
        nxt = []
        for node in level:
            for k in KEYSEQ if depth < top - 1 else ('ret', 'tab2'):
                if time.time() - t0 > budget or n > most:
                    break
                for q in press(node, k):
                    n += 1
                    if q is None:
                        continue
                    key = after(q)
                    if key not in seen:
                        seen.add(key)
                        nxt.append(q)
        level = nxt
    # far beyond: what is counted up to a number the code mentions
    for run in runs(E):
        node = start
        for i, k in enumerate(run):
            if E.rep.enough() or time.time() - t0 > 2 * budget:
                return n, top
            qs = list(press(node, k, 97 + i % 26))
            n += 1
            if not qs or None in qs or len(set(map(after, qs))) != 1:
                break
            node = qs[0]
    return n, top


def after(q):
    t, want, cur, x = q[:4]
    return repr(sorted(((k, v) for k, v in t.store.items() if k[:2] in (CP, KB)), key=repr)), want, cur, repr(x)


def runs(E):
    ks = set()
    for f in E.p.functions.values():
        if f.get('repo') and f.get('body') is not None and strip(f['n']).startswith(('cli::detail::Terminal', 'cli::detail::CommandProcessor')):
            ints(f['body'], ks)
    for c in sorted(set([10] + [k for k in ks if 13 <= k <= 300 and k not in (32, 127)]))[-4:]:
        for k in ('ascii', 'ret', 'tab2', 'up'):
            yield ('ascii',) * (c + 2 if k != 'ascii' else c) + (k,) * (c + 2 if k != 'ascii' else 0) + ('ascii', 'left', 'left', 'ascii', 'ascii', 'backspace', 'right', 'canc', 'home', 'ascii', 'end', 'ret', 'ascii', 'ret')
        for d in (-1, 0, 1, 2):
            yield ('ascii',) * (c + d) + ('left',) * 3 + ('ascii',) * 3 + ('backspace',) * 3 + ('ret',)
        yield ('ascii',) * (c + 2) + ('left',) * (c + 1) + ('ascii', 'right') * 3 + ('canc',) * 3 + ('ret',)


def ints(x, out):
    if isinstance(x, dict):
        if x.get('k') == 'int' and isinstance(x.get('v'), int):
            out.add(x['v'])
        for y in x.values():
            ints(y, out)
    elif isinstance(x, list):
        for y in x:
            ints(y, out)
