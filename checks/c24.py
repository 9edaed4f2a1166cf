"""C24: the telnet protocol never leaks into the command line."""
from .fsm import *

META = {
    'technique': 'extraction of the decoder as a finite state machine (abstract execution of one received byte from every reachable valuation of the members it reads) and product with a reference protocol machine; two-byte packets compared with the composition of single bytes',
    'note': 'The state space is closed (all reachable states, all 256 bytes). What the decoder does with a command inside a subnegotiation other than its end, or between a request and its option, is left open.',
    'explanation': 'In every reachable state, protocol bytes produce no key and do not change the reaction to any later data byte; a doubled escape is data; an option takes one byte; a response is sent to WILL and DO only, and is three bytes about that option.',
    'assumptions': ['bytes of a packet are given to the session in the order received'],
}
# messages repeated when the decoder counts something
CYCLES = ((97,), (13, 10), (27, 91, 65), (255, 255), (255, 241), (255, 251, 1), (255, 253, 1), (255, 252, 1), (255, 254, 1), (255, 250, 1, 255, 240), (255, 250, 1, 2, 3, 4, 255, 240))
REPEAT = 260
SE, SB, WILL, WONT, DO, DONT, IAC = 240, 250, 251, 252, 253, 254, 255


def check(rep, tier):
    rep.rule('noleak', 'protocol bytes produce no key')
    rep.rule('transparent', 'data bytes mean the same after protocol bytes as without them')
    rep.rule('data', 'every data byte is delivered exactly once')
    rep.rule('response', 'a response goes to WILL and DO only and is one command of three bytes about the option')
    rep.rule('packets', 'decoding does not depend on the split into packets')
    rep.rule('members', 'the state of the decoder belongs to the session')
    for n in ('boost', 'standalone'):
        machine(rep, prog(n), tier)


def machine(rep, p, tier):
    t = telnet(rep, p)
    w = (t.f['file'], t.f['l'], strip(t.f['n']))
    if t.why:
        rep.und('transparent', t.why)
        return
    m = Machine(t)
    # members: the state is not shared between sessions
    shared = sorted(set(l for l in t.globals if l != ERRNO), key=repr)
    if shared:
        rep.bad('members', *w, msg='%s, shared by all the sessions, is part of the state of the decoder' % (shared[0][-1],))
    else:
        rep.ok('members')
    # product: (state, mode, escaped, state after the data bytes alone)
    start = (t.start, 'data', False, t.start)
    seen, todo = set([start]), [start]
    history = {start: ()}
    said = set()

    def bad(rule, u, h, b, msg):
        e = [o[-1] for o in u.out if o[0] != 'log']
        loc = at(e[0]) if e else w
        rep.bad(rule, *loc, msg='%s (bytes received: %s)' % (msg, ' '.join(str(x) for x in h + (b,))), path=trace(u.st))

    def visit(x, h, bytes_):
        s, mode, esc, d = x
        for b in bytes_:
            steps = m.go(s, b)
            if not steps:
                rep.und('transparent', 'no step')
                continue
            for nxt, keys, sent, flushed, other, u in steps:
                kind, mode2, esc2 = reference(mode, esc, b)
                if kind is None:
                    continue                    # left open
                d2 = d
                k = (kind, nxt, mode2, esc2)
                if kind == 'data':
                    want = data(m, d, b)
                    if want is None:
                        rep.und('transparent', 'no step')
                        continue
                    d2, wk, ws = want
                    if keys != wk:
                        if (x, 'k') not in said:
                            said.add((x, 'k'))
                            bad('transparent', u, h, b, 'a data byte after protocol bytes is not taken as it would be without them')
                    else:
                        rep.ok('transparent')
                    if d == t.start and b not in (13, 27):
                        if len(keys) != 1:
                            bad('data', u, h, b, 'a data byte is delivered %d times' % len(keys))
                        else:
                            rep.ok('data')
                    if sent and sent != ws:
                        bad('response', u, h, b, 'a data byte is answered')
                else:
                    if keys:
                        if (x, 'n') not in said:
                            said.add((x, 'n'))
                            bad('noleak', u, h, b, {'esc': 'the escape byte', 'cmd': 'a command', 'opt': 'an option', 'noopt': 'an option', 'sub': 'a byte of a subnegotiation'}[kind] + ' produces a key')
                    else:
                        rep.ok('noleak')
                    if kind == 'opt':
                        if sent is None:
                            rep.und('response', 'the text sent is not known')
                        elif len(sent) != 3 or sent[0] != IAC or sent[1] not in (WILL, WONT, DO, DONT) or sent[2] != b:
                            if (s, 'r') not in said:
                                said.add((s, 'r'))
                                bad('response', u, h, b, 'the response to a request is not one command about its option: %s' % (' '.join(str(c) for c in sent) or 'nothing is sent'))
                        elif not flushed:
                            bad('response', u, h, b, 'the response is not flushed')
                        else:
                            rep.ok('response')
                    elif sent is None or sent:
                        if (s, 's') not in said:
                            said.add((s, 's'))
                            bad('response', u, h, b, 'a response is sent to something other than WILL or DO')
                    else:
                        rep.ok('response')
                yield (nxt, mode2, esc2, d2), b

    while todo:
        x = todo.pop(0)
        for y, b in visit(x, history[x], range(256)):
            if y not in seen:
                seen.add(y)
                history[y] = history[x] + (b,)
                todo.append(y)
        if rep.enough():
            break
        if len(seen) > 20000 or (t.open and len(seen) > 800):
            rep.und('transparent', 'more states than can be enumerated')
            break
    if t.open and not rep.enough():
        # many states: also far along the repetitions of each kind of message
        for cycle in CYCLES:
            x, h = start, ()
            for i in range(REPEAT):
                for c in cycle:
                    ys = [y for y, b in visit(x, h, (c,))]
                    if len(ys) != 1:
                        x = None
                        break
                    x, h = ys[0], (h + (c,))[-8:]
                if x is None or rep.enough():
                    break
                for y in visit(x, h, (97, 251)):
                    pass
            if x is not None and not rep.enough():
                for y, b in visit(x, h, range(256)):
                    pass
    packets(rep, t, m, w, tier, bad)


def reference(mode, esc, b):
    """(kind of byte, mode, escaped)"""
    if not esc:
        if b == IAC:
            return 'esc', mode, True
        return plain(mode)
    if b == IAC:
        return plain(mode)
    if mode == 'data':
        if b in (WILL, WONT, DO, DONT):
            return 'cmd', b, False
        if b == SB:
            return 'cmd', 'sub', False
        return 'cmd', 'data', False
    if mode == 'sub' and b == SE:
        return 'cmd', 'data', False
    return None, None, None


def plain(mode):
    if mode == 'data':
        return 'data', 'data', False
    if mode == 'sub':
        return 'sub', 'sub', False
    return 'opt' if mode in (WILL, DO) else 'noopt', 'data', False


def data(m, d, b):
    """what a data byte does after data bytes alone"""
    ks, ss = (), ()
    for c in (IAC, IAC) if b == IAC else (b,):
        r = m.go(d, c)
        if len(r) != 1:
            return None
        d, k, s = r[0][:3]
        ks += k
        ss += s or ()
    return d, ks, ss


def packets(rep, t, m, w, tier, bad):
    """two bytes in one packet: like one after the other"""
    b0, b1 = BYTE, sym(('byte', 1), -128, 127)
    n = 0
    for s in t.order[:40] if t.open else t.order:
        pairs = {}
        for st, fl in t.run(s, [L(b0), L(b1)]):
            a0, a1 = allowed(st, b0), allowed(st, b1)
            outs = t.outputs(st)
            nxt = {k: st.store.get(k) for k, v in s}
            for u in t.states[s]:
                x = sorted(u.bytes & a0)
                if not x:
                    continue
                for u2 in t.states.get(u.next, ()):
                    y = sorted(u2.bytes & a1)
                    if not y:
                        continue
                    c0, c1 = x[0], y[0]
                    if any(b0 in [q for q, k in r.t] and b1 in [q for q, k in r.t] for coll in (st.le, st.eq, st.ne) for r in coll):
                        continue
                    mm = {b0: c0, b1: c1}
                    got = happens(outs, mm)
                    f1, f2 = happens(u.out, {BYTE: c0}), happens(u2.out, {BYTE: c1})
                    want = (f1[0] + f2[0], None if f1[1] is None or f2[1] is None else f1[1] + f2[1])
                    n2 = t.at(st, nxt, mm) or {}
                    ok = got[:2] == want and (frozenset(n2.items()) == u2.next)
                    if ok:
                        rep.ok('packets')
                    else:
                        n += 1
                        if n <= 3:
                            rep.bad('packets', *w, msg='bytes %d %d in one packet are not decoded as they are in two' % (c0 & 255, c1 & 255), path=trace(st))
