"""C21: the line editor keeps buffer, cursor and screen consistent."""
from .editor import *
from .screen import *

META = {
    'technique': 'abstract execution of the handler of every key from an arbitrary line and cursor, the line as slices of an unknown text; what is written on the stream is interpreted over a symbolic terminal row, which is compared with the new line',
    'note': 'A character of the line is taken to occupy one cell, and the row to be long enough.',
    'explanation': 'For every key, line and cursor: the line and the cursor are what the key says, the cursor is within the line, and the terminal row equals the line with the cursor at the same place. Proved by equality of slices under the path condition; a difference is reported with a small line and cursor that shows it.',
    'assumptions': ['the characters of the line take one cell each and the row does not wrap', 'before the key, the terminal shows the line from the place after the prompt, with the cursor of the line', 'backspace moves the cursor one cell to the left'],
}
NONE = ('ignored', 'eof', 'clear')


def check(rep, tier):
    rep.rule('start', 'the editor starts with an empty line and the cursor at its beginning')
    rep.rule('line', 'the line and the cursor after a key are what the key says')
    rep.rule('cursor', 'the cursor is within the line')
    rep.rule('screen', 'the terminal shows the new line, its cursor at the new position')
    rep.rule('enter', 'enter hands over exactly the edited line')
    p = prog()
    E = Editor(rep, p)
    if E.why:
        rep.und('line', E.why)
        return
    if E.extra:
        byseq(rep, E)
        return
    if E.init[E.line] == EMPTY and E.init[E.pos] == L(0):
        rep.ok('start')
    else:
        rep.bad('start', *E.where, msg='the editor does not start with an empty line')
    for k in sorted(E.keys):
        for s, fl in E.key(k):
            one(rep, E, k, s, fl)
        for u in E.I.ubs:
            ub(rep, E, k, u)
    rep.sample('keys: %s' % ', '.join('%s %d paths' % (k, len(E.runs[k])) for k in sorted(E.keys)))
    if not rep.enough() and any(o[2] for o in rep.obl.values()):
        byseq(rep, E)                # what the states alone do not decide, sequences of keys may


def byseq(rep, E):
    from .edseq import explore

    def visit(k, s, fl, before, want, cur, scrs, seq, I):
        ev = [e for e in s.events if e.kind in ('out', 'ses')]
        w = at(ev[0]) if ev else E.where
        how = 'after the keys %s' % ' '.join(seq)
        if fl and fl[0] == 'throw':
            rep.und('line', '%s: an exception' % how)
            return False
        if I.ubs:
            kind, f, line, st, detail = I.ubs[0]
            if kind in ('bounds', 'empty', 'erase', 'range') and not any(True for e in st.events if e.kind == 'ext'):
                rep.bad('cursor', f['file'], line, strip(f['n']), '%s: a position outside the line is used' % how, path=trace(st))
                return False
        good = True
        for e in s.events:
            if e.kind == 'ses' and e.name in ('Feed', 'PreviousCmd', 'GetCompletions') and e.args and isinstance(e.args[0], V) and e.args[0].k == 'seq':
                rule = 'enter' if e.name == 'Feed' else 'line'
                if samesegs(s, normsegs(e.args[0].a[0]), normsegs(before)):
                    rep.ok(rule)
                    continue
                good = False
                d = textdiffers(s, e.args[0].a[0], L(0), normsegs(before), L(0))
                if d and not approx(e.args[0]):
                    rep.bad(rule, *at(e), msg='%s: the edited line was %s' % (how, d), path=trace(s))
                else:
                    rep.und(rule, '%s: what is handed over is not known' % how)
        if not good:
            return False
        if not isinstance(scrs, list):
            if isinstance(scrs, Exception) and type(scrs).__name__ == 'Wrong':
                rep.bad('screen', *w, msg='%s: %s' % (how, scrs), path=trace(s))
            else:
                rep.und('screen', '%s: %s' % (how, scrs))
            return False
        for t, scr in scrs:
            if not scr.at:
                rep.bad('screen', *w, msg='%s: the line is not shown after what is printed' % how, path=trace(t))
                good = False
                continue
            for t2, r in shows(I, t, scr, want, L(cur)):
                if r is True:
                    rep.ok('screen')
                    rep.ok('cursor')
                else:
                    good = False
                    if r is None or approx(scr.segs) or approx(scr.cur):
                        rep.und('screen', '%s: the terminal shows %s' % (how, scr))
                    else:
                        rep.bad('screen', *w, msg='%s: %s' % (how, r), path=trace(t2))
        return good
    n, d = explore(E, mine, visit)
    rep.sample('%s: %d steps of key sequences from the start, up to %d keys' % (E.extra, n, d))


def ub(rep, E, k, u):
    kind, f, line, st, detail = u
    if kind not in ('bounds', 'empty', 'erase', 'range', 'overflow'):
        return
    try:
        if any(True for m in models(st, syms(L(POS), L(LINEB.len)))):
            rep.bad('cursor', f['file'], line, strip(f['n']), 'key %s: a position outside the line is used' % k, path=trace(st))
            return
    except Unknown:
        pass
    rep.und('cursor', '%s: %s' % (k, kind))


def part(lo, hi):
    return ('s', LINEB, L(lo), L(hi))


def expected(k, s, E):
    """[(state, line, cursor)] that a key leads to; None: the line only has to be consistent"""
    n, p = L(LINEB.len), L(POS)
    whole = (part(0, n),)

    def on(c, a, b):
        x, y = s.split(c)
        return [(z,) + a for z in x] + [(z,) + b for z in y]
    same = (whole, p)
    if k == 'ascii':
        x, y = s.split(cmp_('==', L(CH), L(9)))
        return [(z, None, None) for z in x] + [(z, (part(0, p), ('e', L(CH)), part(p, n)), p + 1) for z in y]
    if k == 'backspace':
        return on(cmp_('==', p, L(0)), same, ((part(0, p - 1), part(p, n)), p - 1))
    if k == 'canc':
        return on(cmp_('==', p, n), same, ((part(0, p), part(p + 1, n)), p))
    if k == 'left':
        return on(cmp_('==', p, L(0)), same, (whole, p - 1))
    if k == 'right':
        return on(cmp_('==', p, n), same, (whole, p + 1))
    if k == 'home':
        return [(s, whole, L(0))]
    if k == 'end':
        return [(s, whole, n)]
    if k == 'ret':
        return [(s, (), L(0))]
    if k == 'ignored':
        return [(s,) + same]
    return [(s, None, None)]


def mine(e):
    return isinstance(e.obj, V) and e.obj.k == 'ptr' and e.obj.a[0] == Roles.OUT


def one(rep, E, k, s0, fl):
    ev = [e for e in s0.events if e.kind in ('out', 'ses')]
    w = at(ev[0]) if ev else E.where
    if fl and fl[0] == 'throw':
        rep.und('line', '%s: an exception' % k)
        return
    line, pos = s0.store.get(E.line), s0.store.get(E.pos)
    if not (isinstance(line, V) and line.k == 'seq') or not isinstance(pos, Lin):
        rep.und('line', '%s: the line is not known afterwards' % k)
        return
    for s, want, cur in expected(k, s0.copy(), E):
        if want is None:
            pass
        elif samesegs(s, normsegs(line.a[0]), normsegs(want)) and s.equal(pos, cur):
            rep.ok('line')
        else:
            d = textdiffers(s, line.a[0], pos, normsegs(want), cur)
            if d and not approx(line) and not approx(pos):
                rep.bad('line', *E.at(k, w), msg='key %s: the edited line becomes %s' % (k, d), path=trace(s))
            else:
                rep.und('line', '%s: the line is %s' % (k, line))
        n = seqlen(line.a[0])
        inside = and_(cmp_('>=', pos, L(0)), cmp_('<=', pos, n))
        if s.entails(inside):
            rep.ok('cursor')
        else:
            bad = False
            for t in s.copy().assume(neg(inside)):
                try:
                    for m in models(t, syms(pos, n)):
                        bad = True
                        break
                except Unknown:
                    pass
            if bad and not approx(pos) and not approx(line):
                rep.bad('cursor', *E.at(k, w), msg='key %s: the cursor can be outside the line' % k, path=trace(s))
            else:
                rep.und('cursor', '%s: the cursor is %s' % (k, pos))
        if k == 'ret':
            fed = [e for e in s.events if e.kind == 'ses' and e.name == 'Feed']
            for e in fed:
                if e.args[0] == wholeseq(LINEB):
                    rep.ok('enter')
                elif isinstance(e.args[0], V) and e.args[0].k == 'seq' and textdiffers(s, e.args[0].a[0], L(0), (part(0, LINEB.len),), L(0)):
                    rep.bad('enter', *at(e), msg='enter hands over %s' % textdiffers(s, e.args[0].a[0], L(0), (part(0, LINEB.len),), L(0)), path=trace(s))
                else:
                    rep.und('enter', 'what is handed over is not known')
        try:
            for t, scr in E.played(s, mine):
                if not scr.at:
                    if k != 'ret':
                        rep.bad('screen', *E.at(k, w), msg='key %s: the line is not shown after what is printed' % k, path=trace(t))
                    continue
                for t2, r in shows(E.I, t, scr, line.a[0], pos):
                    if r is True:
                        rep.ok('screen')
                    elif r is None or approx(scr.segs) or approx(scr.cur):
                        rep.und('screen', '%s: the terminal shows %s, the line is %s' % (k, scr, line))
                    else:
                        rep.bad('screen', *E.at(k, w), msg='key %s: %s' % (k, r), path=trace(t2))
        except Wrong as x:
            rep.bad('screen', *E.at(k, w), msg='key %s: %s' % (k, x), path=trace(s))
        except Unknown as x:
            rep.und('screen', '%s: %s' % (k, x))
