"""C22: special keys act on the session without losing the line."""
from .editor import *
from .c21 import mine, part

META = {
    'technique': 'abstract execution of the handler of every key from an arbitrary line and cursor: the calls on the session and on the input device are a trace that is compared with the one the key stands for, and the outputs are interpreted over a symbolic terminal row',
    'note': 'The choice between the only completion, the common prefix and the list is decided for up to three completions of up to three characters (all characters unknown); everything else for any number.',
    'explanation': 'Enter: deactivate, feed the line, prompt, activate, each once and in this order. End of input: one Exit. Up and down: the line becomes what the history returned for the current line. Tab: the line becomes what the completions of the current line imply. After every redraw the terminal shows the prompt and then the unchanged line.',
    'assumptions': ['the session does what its own checks say (C01, C10, C23)', 'names of commands contain no blanks', 'the completions are sorted and free of duplicates (C23)'],
}
LINE0 = (('s', LINEB, L(0), L(LINEB.len)),)
SHAPES = [(), (0,), (1,), (2,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (0, 1), (1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 3, 3)]
DEEP = [(3, 3), (3, 3, 3), (3, 2, 3), (2, 2, 2, 2)]


def check(rep, tier):
    rep.rule('enter', 'enter deactivates the input, feeds the line, shows the prompt, activates the input, each once')
    rep.rule('exit', 'end of input exits the session, once')
    rep.rule('history', 'up and down replace the line by what the history yields')
    rep.rule('complete', 'tab replaces the line by the only completion or the longest common prefix, or leaves it unchanged')
    rep.rule('list', 'otherwise tab lists the completions, then shows the prompt')
    rep.rule('redraw', 'after a redraw the unchanged line is shown after the prompt')
    rep.rule('other', 'the other keys do not act on the session')
    p = prog()
    E = Editor(rep, p)
    if E.why:
        rep.und('enter', E.why)
        return
    if E.extra:
        byseq(rep, E)
        return
    for k in sorted(E.keys):
        for s, fl in E.key(k):
            acts = [e for e in s.events if e.kind == 'ses' or (e.kind == 'vcall' and isinstance(e.obj, V) and e.obj == ptr(KB))]
            lp = [e for e in s.events if e.kind == 'loop' and any(x.kind in ('ses', 'vcall') for b in e.x.backs for x in b.events)]
            w = at(acts[0]) if acts else E.where
            if lp:
                rep.und('other', '%s: the session is called in a loop' % k)
                continue
            if fl and fl[0] == 'throw':
                rep.und('other', '%s: an exception' % k)
                continue
            names = tuple(e.name.split('::')[-1] for e in acts)
            line = s.store.get(E.line)
            if not (isinstance(line, V) and line.k == 'seq'):
                rep.und('other', '%s: the line is not known afterwards' % k)
                continue
            if k == 'ret':
                want = ('DeactivateInput', 'Feed', 'Prompt', 'ActivateInput')
                if names == want:
                    rep.ok('enter')
                else:
                    rep.bad('enter', *w, msg='enter does: %s; not: %s' % (', '.join(names) or 'nothing', ', '.join(want)), path=trace(s))
            elif k == 'eof':
                if names == ('Exit',):
                    rep.ok('exit')
                else:
                    rep.bad('exit', *w, msg='end of input does: %s; not one Exit' % (', '.join(names) or 'nothing'), path=trace(s))
            elif k in ('up', 'down'):
                want = 'PreviousCmd' if k == 'up' else 'NextCmd'
                if names != (want,):
                    rep.bad('history', *w, msg='%s does: %s; not one %s' % (k, ', '.join(names) or 'nothing', want), path=trace(s))
                    continue
                e = acts[0]
                if k == 'up':
                    same(rep, 'history', s, e.args[0], LINE0, at(e), 'the history is asked about %s')
                same(rep, 'history', s, line, e.res.a[0], at(e), 'the line becomes %s, not what the history yields')
            elif k == 'clear':
                if names != ('Prompt',):
                    rep.bad('redraw', *w, msg='clear screen does: %s; not one Prompt' % (', '.join(names) or 'nothing'), path=trace(s))
                else:
                    redraw(rep, E, k, s, line, w)
            elif k == 'ascii':
                a, b = s.split(cmp_('==', L(CH), L(9)))
                if b:
                    if names and not a:
                        rep.bad('other', *w, msg='an ordinary character does: %s' % ', '.join(names), path=trace(s))
                    elif not names:
                        rep.ok('other')
                for t in a:
                    ontab(rep, E, t, names, acts, line, w)
            elif names:
                rep.bad('other', *w, msg='key %s does: %s' % (k, ', '.join(names)), path=trace(s))
            else:
                rep.ok('other')
    for sh in SHAPES + (DEEP if tier == 'thorough' else []):
        shape(rep, E, sh)


def byseq(rep, E):
    from .edseq import explore, WANT
    rule = {'ret': 'enter', 'eof': 'exit', 'up': 'history', 'down': 'history', 'tab': 'complete', 'tab0': 'complete', 'tab2': 'list', 'clear': 'redraw'}

    def visit(k, s, fl, before, want, cur, scrs, seq, I):
        acts = [e for e in s.events if e.kind == 'ses' or (e.kind == 'vcall' and isinstance(e.obj, V) and e.obj == ptr(KB))]
        w = at(acts[0]) if acts else E.where
        r = rule.get(k, 'other')
        how = 'after the keys %s' % ' '.join(seq)
        if (fl and fl[0] == 'throw') or any(e.kind == 'loop' and any(x.kind in ('ses', 'vcall') for b in e.x.backs for x in b.events) for e in s.events):
            rep.und(r, how)
            return False
        names = tuple(e.name.split('::')[-1] for e in acts)
        if names != WANT.get(k, ()):
            rep.bad(r, *w, msg='%s the last one does: %s; not: %s' % (how, ', '.join(names) or 'nothing', ', '.join(WANT.get(k, ())) or 'nothing'), path=trace(s))
            return False
        for e in acts:
            if e.name in ('Feed', 'PreviousCmd', 'GetCompletions') and not same(rep, r, s, e.args[0], before, at(e), how + ': the session is given %s'):
                return False
        if k == 'tab2' and not listed(s):
            rep.bad('list', *w, msg='%s not all the completions are listed' % how, path=trace(s))
            return False
        if isinstance(scrs, list) and k in ('tab', 'tab0', 'tab2', 'clear'):
            for t, scr in scrs:
                if not scr.at:
                    rep.bad('redraw', *w, msg='%s the line is not shown after the prompt' % how, path=trace(t))
                    return False
                if k in ('tab2', 'clear'):
                    for t2, x in shows(I, t, scr, want, L(cur)):
                        if x is True:
                            rep.ok('redraw')
                        elif x is None or approx(scr.segs) or approx(scr.cur):
                            rep.und('redraw', how)
                        else:
                            rep.bad('redraw', *w, msg='%s %s' % (how, x), path=trace(t2))
                            return False
        rep.ok(r)
        return isinstance(scrs, list)
    n, d = explore(E, mine, visit)
    rep.sample('%s: %d steps of key sequences from the start, up to %d keys' % (E.extra, n, d))


def same(rep, rule, s, v, want, w, msg):
    if isinstance(v, V) and v.k == 'seq' and samesegs(s, normsegs(v.a[0]), normsegs(want)):
        rep.ok(rule)
        return True
    d = textdiffers(s, v.a[0], L(0), normsegs(want), L(0)) if isinstance(v, V) and v.k == 'seq' and not approx(v) else None
    if d:
        rep.bad(rule, *w, msg=msg % d, path=trace(s))
    else:
        rep.und(rule, 'a text is not known: %s' % (v,))
    return False


def listed(s):
    """the completions are among what is printed before the prompt"""
    from .edseq import LISTED
    out = []
    for e in s.events:
        if e.kind == 'ses' and e.name == 'Prompt':
            break
        if e.kind == 'out' and e.args and isinstance(e.args[0], V) and e.args[0].k == 'seq':
            out += [g[1].c if g[0] == 'e' and isinstance(g[1], Lin) and g[1].is_const() else g[0] for g in e.args[0].a[0]]
        elif e.kind == 'out':
            out.append(None)
    for g in out:
        if not isinstance(g, int):
            return True                 # not known
    return all(any(tuple(out[i:i + len(q)]) == tuple(q) for i in range(len(out))) for q in LISTED)


def ontab(rep, E, s, names, acts, line, w):
    """the calls of tab, for any completions"""
    if names not in (('GetCompletions',), ('GetCompletions', 'Prompt')):
        rep.bad('complete', *w, msg='tab does: %s' % (', '.join(names) or 'nothing'), path=trace(s))
        return
    same(rep, 'complete', s, acts[0].args[0], LINE0, at(acts[0]), 'the completions of %s are asked for')
    if 'Prompt' in names:
        redraw(rep, E, 'tab', s, line, at(acts[-1]))
    else:
        try:
            for t, scr in E.played(s, mine):
                if scr.at:
                    rep.ok('redraw')
                else:
                    rep.bad('redraw', *w, msg='key tab: the line is not shown after what is printed', path=trace(t))
        except (Wrong, Unknown) as x:
            rep.und('redraw', 'tab: %s' % x)


def redraw(rep, E, k, s, line, w):
    if not same(rep, 'redraw', s, line, LINE0, w, k + ': after the redraw the line is %s'):
        return
    try:
        for t, scr in E.played(s, mine):
            if not scr.at:
                rep.bad('redraw', *w, msg='key %s: the line is not shown after the prompt' % k, path=trace(t))
                continue
            for t2, r in shows(E.I, t, scr, LINE0, s.store[E.pos]):
                if r is True:
                    rep.ok('redraw')
                elif r is None or approx(scr.segs) or approx(scr.cur):
                    rep.und('redraw', '%s: the terminal shows %s' % (k, scr))
                else:
                    rep.bad('redraw', *w, msg='key %s: after the redraw %s' % (k, r), path=trace(t2))
    except Wrong as x:
        rep.bad('redraw', *w, msg='key %s: %s' % (k, x), path=trace(s))
    except Unknown as x:
        rep.und('redraw', '%s: %s' % (k, x))


def shape(rep, E, lens):
    """tab with completions of these lengths"""
    C = tab(lens)
    for s, fl in E.key('ascii', C):
        acts = [e for e in s.events if e.kind == 'ses']
        names = tuple(e.name for e in acts)
        w = at(acts[0]) if acts else E.where
        line = s.store.get(E.line)
        if any(e.kind == 'loop' for e in s.events) or not (isinstance(line, V) and line.k == 'seq') or names[:1] != ('GetCompletions',):
            rep.und('complete', 'the completions are not gone through one by one')
            continue
        for t, want, listed in implied(s, C):
            why = '%d completions' % len(C) if len(C) != 1 else 'one completion'
            if listed is None:
                if want is None:
                    want = LINE0
                if 'Prompt' in names:
                    rep.bad('complete', *w, msg='%s: the completions are listed where the line has to be replaced' % why if want is not LINE0 else 'completions are listed where there are none', path=trace(t))
                    continue
                compare(rep, t, line.a[0], want, w, why)
            else:
                compare(rep, t, line.a[0], LINE0, w, why)
                if names != ('GetCompletions', 'Prompt'):
                    rep.bad('list', *w, msg='%s: tab does: %s; the completions are not listed and the prompt shown' % (why, ', '.join(names)), path=trace(t))
                    continue
                toks = tokens(t)
                if toks is None:
                    rep.und('list', 'the text written is not known')
                elif sorted(toks, key=repr) == sorted((c.a[0] for c in C if c.a[0]), key=repr):
                    rep.ok('list')
                else:
                    rep.bad('list', *w, msg='%s: the list shows %s, the completions are %s' % (why, [V('seq', x) for x in toks], list(C)), path=trace(t))


def compare(rep, t, got, want, w, why):
    if samesegs(t, normsegs(got), normsegs(want)):
        rep.ok('complete')
        return
    d = textdiffers(t, got, L(0), normsegs(want), L(0))
    if d:
        rep.bad('complete', *w, msg='%s: the line becomes %s' % (why, d), path=trace(t))
    else:
        rep.und('complete', '%s: the line becomes %s' % (why, V('seq', got)))


def implied(s, C):
    """[(state, new line or None, list or None)]"""
    if not C:
        return [(s, None, None)]
    if len(C) == 1:
        return [(s, C[0].a[0] + (('e', L(32)),), None)]
    out = []
    # the longest common prefix
    todo = [(s, 0)]
    while todo:
        t, k = todo.pop()
        if any(len(c.a[0]) == k for c in C):
            out.append((t, k))
            continue
        eq = and_(*[cmp_('==', C[0].a[0][k][1], c.a[0][k][1]) for c in C[1:]])
        a, b = t.split(eq)
        todo += [(x, k + 1) for x in a]
        out += [(x, k) for x in b]
    res = []
    for t, k in out:
        a, b = t.split(cmp_('>', L(k), L(LINEB.len)))
        res += [(x, C[0].a[0][:k], None) for x in a]
        res += [(x, None, C) for x in b]
    return res


def tokens(s):
    """what is written before the prompt, split at blanks"""
    out, cur = [], ()
    for e in s.events:
        if e.kind == 'ses' and e.name == 'Prompt':
            break
        if e.kind != 'out' or not mine(e):
            continue
        v = e.args[0]
        if not (isinstance(v, V) and v.k == 'seq'):
            return None
        for g in v.a[0]:
            c = const(g)
            if c is not None and c in (9, 10, 13, 32):
                if cur:
                    out.append(cur)
                cur = ()
            elif g[0] != 'e':
                return None
            else:
                cur += (g,)
    if cur:
        out.append(cur)
    return out
