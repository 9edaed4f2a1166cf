"""C25: key sequences mean the same on every input device."""
from .fsm import *

META = {
    'technique': 'both decoders extracted (the keyboard thread as the set of its read paths with the bytes each admits, the telnet session as a finite state machine) and compared with one table of key sequences over all bytes',
    'note': 'The Windows keyboard is not compiled here and is not analysed.',
    'explanation': 'For every sequence of bytes up to the end of a key, each device posts exactly one key, the one of the common table, and starts again from its initial state; all other bytes are delivered unchanged.',
    'assumptions': ['the terminal sends the bytes of the common table'],
}
# sequences repeated when the decoder counts something
CYCLES = ((97,), (0,), (195, 164), (13, 10), (13, 0), (8,), (127,), (4,), (12,), (27, 91, 65), (27, 91, 68), (27, 91, 51, 126), (27, 79), (27, 27))
REPEAT = 260
CONTROL = {4: 'eof', 255: 'eof', 8: 'backspace', 127: 'backspace', 12: 'clear'}
ARROWS = {65: 'up', 66: 'down', 67: 'right', 68: 'left', 70: 'end', 72: 'home'}
SPECIAL = set(CONTROL.values()) | set(ARROWS.values()) | {'canc', 'ret'}


def check(rep, tier):
    rep.rule('control', 'the control characters are the keys of the table')
    rep.rule('escape', 'the escape sequences are the keys of the table, and no other is')
    rep.rule('enter', 'enter is byte 10 on the keyboard, 13 followed by 0 or 10 on telnet')
    rep.rule('ordinary', 'any other byte is one ordinary key, unchanged')
    rep.rule('onekey', 'every sequence yields exactly one key')
    keyboard_(rep)
    for n in ('boost', 'standalone'):
        remote(rep, prog(n))


def name(names, k):
    t = k[0] if isinstance(k[0], int) else None
    return names.get(t)


def show(k, names):
    return '%s%s' % (name(names, k), ' %s' % k[1] if name(names, k) == 'ascii' else '')


def keyboard_(rep):
    p = prog()
    kb = keyboard(rep, p)
    names = keytypes(p)
    f, pol, I, outs = kb.thread
    w = (f['file'], f['l'], strip(f['n']))
    if not outs:
        rep.und('onekey', 'the thread of the keyboard as a whole is not analysed')
        return
    paths, seen = [], set()
    for s, fl in outs:
        for ev in s.events:
            if ev.kind == 'loop' and id(ev.x) not in seen:
                seen.add(id(ev.x))
                for b in ev.x.backs:
                    k = collect(b.events)
                    if k is None:
                        rep.und('onekey', 'keys are read in a loop')
                    elif k[0]:
                        paths.append((k, b.state))
    if not paths:
        rep.und('onekey', 'the loop reading keys is not recognised')
        return
    covered = set()
    said = set()

    def bad(rule, k, st, seq_, msg):
        if (rule, msg) not in said:
            said.add((rule, msg))
            loc = at(k[2]) if k[2] is not None else w
            rep.bad(rule, *loc, msg='bytes %s on the keyboard: %s' % (' '.join(str(x) for x in seq_), msg), path=trace(st))

    for (reads, posts, ev), st in paths:
        A = [sorted(c & 255 for c in allowed(st, c.single())) if c.single() is not None else None for c in reads]
        if any(a is None for a in A):
            rep.und('onekey', 'a byte read is not known')
            continue
        for b in A[0]:
            covered.add(b)
            seqs = [(b,)]
            if b == 27:
                seqs = sequences(A)
            for q in seqs:
                one(rep, bad, (reads, posts, ev), st, q, len(reads), names, kb)
    for b in range(256):
        if b not in covered:
            rep.bad('onekey', *w, msg='byte %d read from the keyboard yields no key' % b)


def sequences(A):
    """what a path starting with escape can read: all that matters of it"""
    out = []
    if len(A) == 1:
        return [(27,)]
    for c in A[1]:
        if c != 91 or len(A) == 2:
            out.append((27, c))
            continue
        for d in A[2]:
            if d != 51 or len(A) == 3:
                out.append((27, 91, d))
                continue
            for e in A[3]:
                out.append((27, 91, 51, e))
    return out


def expected(q, enter):
    """(rule, key name, length or None when open)"""
    b = q[0]
    if b in CONTROL:
        return 'control', CONTROL[b], 1
    if b == enter:
        return 'enter', 'ret', 1
    if b != 27:
        return 'ordinary', 'ascii', 1
    if len(q) == 1:
        return 'escape', None, 2
    if q[1] != 91:
        return 'escape', 'ignored', 2
    if len(q) == 2:
        return 'escape', None, 3
    if q[2] in ARROWS:
        return 'escape', ARROWS[q[2]], 3
    if q[2] != 51:
        return 'escape', 'ignored', None
    if len(q) == 3:
        return 'escape', None, 4
    return 'escape', 'canc' if q[3] == 126 else 'ignored', 4


def one(rep, bad, k, st, q, n, names, kb):
    reads, posts, ev = k
    rule, want, length = expected(q, 10)
    if len(posts) != 1:
        bad('onekey', k, st, q, '%d keys are posted' % len(posts))
        return
    m = {c.single(): signed(x) for c, x in zip(reads, q)}
    if len(posts[0].args) != 1:
        rep.und('onekey', 'the key posted is not known')
        return
    t, c = posts[0].args[0]
    key = (concrete(t, m), None if concrete(c, m) is None else concrete(c, m) & 255)
    got = name(names, key)
    if want is None or (length is not None and n != length):
        bad(rule, k, st, q, 'the key ends after %d bytes' % n)
    elif got != want:
        bad(rule, k, st, q, 'taken for %s instead of %s' % (got, want))
    elif want == 'ascii' and key[1] != q[0]:
        bad(rule, k, st, q, 'delivered as %s' % key[1])
    else:
        rep.ok(rule)
        rep.ok('onekey')


def collect(events):
    reads, posts, ev = [], [], None
    for e in events:
        if e.kind == 'read' and e.res == 'got':
            reads.append(e.args[1])
        elif e.kind == 'posted':
            posts.append(e)
            ev = e
        elif e.kind == 'loop':
            for b in e.x.backs:
                if any(x.kind == 'posted' or (x.kind == 'read' and x.res == 'got') for x, _, _ in _flat(b)):
                    return None
    return reads, posts, ev


class _E(object):
    def __init__(self, b):
        self.events = b.events


def _flat(b):
    return all_events(_E(b))


def remote(rep, p):
    t = telnet(rep, p)
    w = (t.f['file'], t.f['l'], strip(t.f['n']))
    if t.why:
        rep.und('onekey', t.why)
        return
    m = Machine(t)
    names = keytypes(p)
    start = (t.start, 'init')
    seen, todo = set([start]), [start]
    hist = {start: ()}
    said = set()
    def visit(x, h0, bytes_):
        s, ks = x
        for b in bytes_:
            d, keys, u = s, (), None
            ok = True
            for c in (255, 255) if b == 255 else (b,):
                r = m.go(d, c)
                if len(r) != 1:
                    ok = False
                    break
                d, keys, u = r[0][0], keys + r[0][1], r[0][-1]
            if not ok:
                rep.und('onekey', 'the step of the decoder is not determined')
                continue
            rule, want, nxt = refkey(ks, b, bool(keys))
            h = h0 + (b,)
            ks2 = [name(names, k) for k in keys]
            msg = None
            if len(keys) > 1:
                rule, msg = 'onekey', '%d keys are posted' % len(keys)
            elif want is None and keys:
                msg = 'taken for %s before its end' % ks2[0]
            elif want is not None and not keys:
                msg = 'no key is posted instead of %s' % want
            elif want is not None and ks2[0] is None:
                rep.und(rule, 'the key posted is not known')
                continue
            elif want is not None and ks2[0] != want:
                msg = 'taken for %s instead of %s' % (ks2[0], want)
            elif want == 'ascii' and keys[0][1] != b:
                msg = 'delivered as %s' % keys[0][1]
            if msg is None:
                rep.ok(rule)
                if want is not None:
                    rep.ok('onekey')
            else:
                if (s, ks, msg) not in said:
                    said.add((s, ks, msg))
                    e = [o[-1] for o in u.out if o[0] == 'key']
                    loc = at(e[0]) if e else w
                    rep.bad(rule, *loc, msg='bytes %s on telnet: %s' % (' '.join(str(c) for c in h), msg), path=trace(u.st))
                continue
            yield (d, nxt), h

    while todo:
        x = todo.pop(0)
        for y, h in visit(x, hist[x], range(256)):
            if y not in seen:
                seen.add(y)
                hist[y] = h
                todo.append(y)
        if rep.enough():
            break
        if len(seen) > 20000 or (t.open and len(seen) > 400):
            rep.und('onekey', 'more states than can be enumerated')
            break
    if t.open and not rep.enough():
        # many states: also far along the repetitions of each sequence
        for cycle in CYCLES:
            x, h = start, ()
            for i in range(REPEAT):
                for c in cycle:
                    ys = [y for y, b in visit(x, h, (c,))]
                    if len(ys) != 1:
                        x = None
                        break
                    x, h = ys[0][0], ys[0][1][-8:]
                if x is None or rep.enough():
                    break
            if x is not None and not rep.enough():
                for y in visit(x, h, range(256)):
                    pass




def refkey(ks, b, keyed):
    """(rule, key or None, next)"""
    if ks == 'init':
        if b == 27:
            return 'escape', None, 'esc'
        if b == 13:
            return 'enter', None, 'cr'
        rule, want, n = expected((b,), None)
        return rule, want, 'init'
    if ks == 'cr':
        return 'enter', 'ret' if b in (0, 10) else 'ignored', 'init'
    if ks == 'esc':
        return ('escape', None, 'csi') if b == 91 else ('escape', 'ignored', 'init')
    if ks == 'csi':
        if b in ARROWS:
            return 'escape', ARROWS[b], 'init'
        if b == 51:
            return 'escape', None, 'csi3'
        # not in the table: how long it is is left open
        return ('escape', 'ignored', 'init') if keyed else ('escape', None, 'tail')
    if ks == 'csi3':
        return 'escape', 'canc' if b == 126 else 'ignored', 'init'
    return ('escape', 'ignored', 'init') if keyed else ('escape', None, 'tail')
