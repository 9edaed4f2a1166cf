"""C11: history navigation."""
from .hist import *
from .c10 import loc

META = {
    'technique': 'inductive invariant of the history class and comparison of the effect of every operation on entries, position and mode with the specified one, over an arbitrary state of the invariant (abstract interpretation)',
    'note': 'The container has unknown length and content; positions are compared symbolically. The roles of the private fields are found from what the operations do. Trusts the clang front end, the extractor and the container '
            'models.',
    'explanation': 'Up, not navigating: the line becomes the newest entry (the oldest is dropped when there is no room) and the entry after it is returned; navigating: the line replaces the entry shown and the next older one is '
                   'returned, or the same on the oldest. Down returns the next newer entry, or an empty line on the newest or when not navigating. Entering a command replaces the line kept, or drops it when the command equals the '
                   'newest entry, or adds it when not navigating and different from the newest; the navigation ends.',
    'assumptions': ['a history of size 0 keeps nothing: up returns the line itself', 'counters do not wrap around (2^62 operations)'],
}


def check(rep, tier):
    p = prog()
    rep.rule('up', 'going up keeps the line and returns the next older entry')
    rep.rule('down', 'going down returns the next newer entry, or an empty line')
    rep.rule('enter', 'entering a command records it once and ends the navigation')
    rep.rule('mode', 'going up starts the navigation and only entering a command ends it')
    h = Hist(rep, p)
    h.solve()
    cur = cursor(h)
    if cur is None:
        rep.und('up', 'position of the navigation')
        return
    nav, idle = modes(rep, h, cur)
    if nav is None:
        return
    for o in h.runs:
        if o.name == 'Previous':
            up(rep, h, o, cur, o.combo in nav, nav)
        elif o.name == 'Next':
            down(rep, h, o, cur, o.combo in nav)
        elif o.name == 'NewCommand':
            enter(rep, h, o, cur, o.combo in nav, idle)


def cursor(h):
    """the field going down changes"""
    ch = set()
    for o in h.runs:
        if o.name == 'Next':
            for s, fl in o.outs:
                ch |= {l for l in h.ints if s.store.get(l) != h.sym(l) and not s.equal(s.store.get(l), h.sym(l))}
    if not ch:
        E = h.numbering()
        ids = {q for q, k in E(L(0)).t} if E else set()
        for o in h.runs:
            if o.name == 'Previous':
                for s, fl in o.outs:
                    ch |= {l for l in h.ints if s.store.get(l) != h.sym(l) and list(h.sym(l).syms())[0] not in ids}
    return list(ch)[0] if len(ch) == 1 else None


def modes(rep, h, cur):
    nav, idle = {}, {}
    for o in h.runs:
        for s, fl in o.outs:
            c = h.combo(s)
            if o.name == 'Previous' and s.entails(cmp_('>=', h.sym(h.M), L(1))):
                nav.setdefault(c, []).append((o, s))
            if o.name == 'NewCommand':
                idle.setdefault(c, []).append((o, s))
    both = set(nav) & set(idle)
    if both or None in nav or None in idle:
        for c in both:
            for o, s in nav[c]:
                for o2, s2 in idle[c]:
                    a, b = s.store.get(cur), s2.store.get(cur)
                    if isinstance(a, Lin) and isinstance(b, Lin) and a.is_const() and a == b:
                        if o.combo in idle or o.combo == c:
                            rep.bad('mode', *loc(o), msg='going up leaves the history in the state it has when it is not navigated', path=trace(s))
                            return None, None
                        rep.bad('mode', *loc(o2), msg='entering a command does not end the navigation', path=trace(s2))
                        return None, None
        rep.und('mode', 'navigating and not navigating are not told apart')
        return None, None
    rep.ok('mode')
    return set(nav), set(idle)


def want(h, st, segs):
    """the history made of [('new', value) | ('old', lo, hi)]"""
    out = []
    for g in segs:
        if g[0] == 'new':
            out.append(('e', g[1]))
        else:
            lo, hi = L(g[1]), L(g[2])
            d = st.decide(cmp_('<', lo, hi))
            if d is False:
                continue
            out.append(('s', h.base, lo, hi))
    return out


def same(h, st, v, segs):
    """True / False / None: is the history v made of these pieces"""
    if not isinstance(v, V) or v.k != 'seq':
        return None
    a = expand(h, st, h.pieces(v, st))
    b, pos = [], L(0)
    for g in want(h, st, segs):
        if g[0] == 'e':
            b.append((pos, 'new', g[1], None))
            pos = pos + L(1)
        else:
            b.append((pos, 'old', g[2], g[3]))
            pos = pos + g[3] - g[2]
    b = expand(h, st, b)
    na = seqlen(v.a[0])
    if not st.can(cmp_('==', na, pos)):
        return False
    if any(x[1] == '?' for x in a):
        return None
    # element by element: every piece of a is at the same place in b
    if len(a) != len(b):
        d = decide_len(st, na, pos)
        return False if d is False else None if d is None else covers(st, a, b)
    for x, y in zip(a, b):
        if x[1] != y[1]:
            return covers(st, a, b)
        if x[1] == 'old':
            if not (st.equal(x[2], y[2]) and st.equal(x[3], y[3])):
                return covers(st, a, b)
        elif x[2] != y[2]:
            return False
    return True


def expand(h, st, ps):
    """pieces without the empty ones, adjacent ones merged"""
    out = []
    for x in ps:
        if x[1] == 'old' and st.entails(cmp_('>=', x[2], x[3])):
            continue
        if x[1] == 'old' and out and out[-1][1] == 'old' and st.equal(out[-1][3], x[2]):
            out[-1] = (out[-1][0], 'old', out[-1][2], x[3])
        else:
            out.append(x)
    return out


def decide_len(st, a, b):
    return st.decide(cmp_('==', a, b))


def covers(st, a, b):
    """at some position the two differ for sure: False; unknown: None"""
    J = L(sym(('pos',), 0, BIG))

    def at(ps, s, total):
        """[(state, content)] at position J"""
        out = []
        for i, x in enumerate(ps):
            n = L(1) if x[1] != 'old' else x[3] - x[2]
            for y in [z for w in s.copy().assume(cmp_('>=', J, x[0])) for z in w.assume(cmp_('<', J, x[0] + n))]:
                out.append((y, ('old', J - x[0] + x[2]) if x[1] == 'old' else ('new', x[2])))
        return out
    diff = False
    for y, ca in at(a, st, None):
        for z, cb in at(b, y, None):
            if ca[0] != cb[0]:
                diff = True
            elif ca[0] == 'old':
                if z.can(cmp_('!=', ca[1], cb[1])):
                    diff = True
            elif ca[1] != cb[1]:
                diff = True
    return False if diff else True


def cases(h, st, v, alts):
    """alts: [(condition, pieces, ...)] exhaustive; yields (state, alternative)"""
    rest = [st.copy()]
    for a in alts:
        nxt = []
        for s in rest:
            c, d = s.copy().split(a[0])
            for x in c:
                yield x, a
            nxt += d
        rest = nxt


def judge(rep, h, rule, o, s, r, msg):
    if r is True:
        rep.ok(rule)
    elif r is False and h.small(s):
        rep.bad(rule, *loc(o), msg=msg, path=trace(s))
    else:
        rep.und(rule, msg)


def ret(h, s, v, kind, x):
    """is the string returned: ('old', index) / ('text', value) / ('empty',)"""
    if not isinstance(v, V) or v.k != 'seq':
        return None
    if kind == 'empty':
        d = s.decide(cmp_('==', seqlen(v.a[0]), L(0)))
        return True if d else False
    if kind == 'text':
        if v == x:
            return True
        return False if v == EMPTY or h.element(v) is not None else None
    i = h.element(v)
    if i is None:
        return False if v == EMPTY or v == wholeseq(h.line) else None
    if s.equal(i, x):
        return True
    return False if s.can(cmp_('!=', i, x)) else None


def up(rep, h, o, cur, navig, nav):
    N, M, C = h.N, h.sym(h.M), h.sym(cur)
    item = wholeseq(h.line)
    if navig:
        alts = [(cmp_('==', M, L(0)), None),
                (cmp_('<', C, N - L(1)), [('old', 0, C), ('new', item), ('old', C + L(1), N)], C + L(1), ('old', C + L(1))),
                (T, [('old', 0, C), ('new', item)], C, ('text', item))]
    else:
        alts = [(cmp_('==', M, L(0)), [('old', 0, N)], None, ('text', item)),
                (cmp_('==', N, L(0)), [('new', item)], L(0), ('text', item)),
                (cmp_('<', N, M), [('new', item), ('old', 0, N)], L(1), ('old', L(0))),
                (cmp_('>=', N, L(2)), [('new', item), ('old', 0, N - L(1))], L(1), ('old', L(0))),
                (T, [('new', item)], L(0), ('text', item))]
    for s, fl in o.outs:
        if not fl or fl[0] == 'throw':
            continue
        for x, a in cases(h, s, None, alts):
            if a[1] is None:
                continue
            what = 'going up while navigating' if navig else 'going up'
            judge(rep, h, 'up', o, x, same(h, x, x.store.get(h.buf), a[1]), what + ' does not keep the line in its place and the other entries unchanged')
            judge(rep, h, 'up', o, x, ret(h, x, fl[1], *((a[3] + (None,))[:2])), what + ' does not return the next older entry')
            if a[2] is not None:
                v = x.store.get(cur)
                judge(rep, h, 'up', o, x, None if not isinstance(v, Lin) else True if x.equal(v, a[2]) else False, what + ' does not move to the next older entry')
                c = h.combo(x)
                judge(rep, h, 'mode', o, x, None if c is None else c in nav, what + ' does not start the navigation')


def down(rep, h, o, cur, navig):
    N, C = h.N, h.sym(cur)
    if navig:
        alts = [(cmp_('==', C, L(0)), L(0), ('empty',)), (T, C - L(1), ('old', C - L(1)))]
    else:
        alts = [(T, C, ('empty',))]
    for s, fl in o.outs:
        if not fl or fl[0] == 'throw':
            continue
        for x, a in cases(h, s, None, alts):
            what = 'going down while navigating' if navig else 'going down'
            judge(rep, h, 'down', o, x, same(h, x, x.store.get(h.buf), [('old', 0, N)]), what + ' changes the entries')
            judge(rep, h, 'down', o, x, ret(h, x, fl[1], *((a[2] + (None,))[:2])), what + ' does not return the next newer entry, or an empty line when there is none')
            v = x.store.get(cur)
            judge(rep, h, 'down', o, x, None if not isinstance(v, Lin) else True if x.equal(v, a[1]) else False, what + ' does not move to the next newer entry')
            c = h.combo(x)
            judge(rep, h, 'mode', o, x, None if c is None else c == o.combo, what + ' changes the mode')


def equalto(h, s, idx):
    """is the command equal to the entry at idx on this path: True / False / None"""
    for k, v in s.preds.items():
        if isinstance(k, tuple) and k[0] == 'seqeq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a == wholeseq(h.line):
                    i = h.element(b)
                    if i is not None and s.equal(i, idx):
                        return v
    return None


def enter(rep, h, o, cur, navig, idle):
    N, M, C = h.N, h.sym(h.M), h.sym(cur)
    item = wholeseq(h.line)
    last = L(1) if navig else L(0)
    for s, fl in o.outs:
        if not fl or fl[0] == 'throw':
            continue
        there, none = s.copy().split(cmp_('>', N, last))
        for x in there:
            eq = equalto(h, x, last)
            got = x.store.get(h.buf)
            dup = [('old', 1 if navig else 0, N)]
            if navig:
                new = [([('new', item), ('old', 1, N)], T)]
            else:
                new = [([('new', item), ('old', 0, N)], cmp_('<', N, M)), ([('new', item), ('old', 0, N - L(1))], T)]
            if eq is True:
                judge(rep, h, 'enter', o, x, same(h, x, got, dup), 'a command equal to the newest entry is recorded again, or the line kept stays' if navig else 'a command equal to the newest entry is recorded again')
            elif eq is False:
                for y, a in cases(h, x, None, [(c, n) for n, c in new]):
                    judge(rep, h, 'enter', o, y, same(h, y, got, a[1]), 'a new command does not replace the line kept' if navig else 'a new command is not recorded as the newest entry')
            elif any(h.element(b) is not None or h.element(a) is not None for k in x.preds if isinstance(k, tuple) and k[0] == 'seqeq' for a, b in ((k[1], k[2]),)) or not any(isinstance(k, tuple) and k[0] == 'seqeq' for k in x.preds):
                # compared with another entry, or with none
                r1 = same(h, x, got, dup)
                r2 = [same(h, y, got, a[1]) for y, a in cases(h, x, None, [(c, n) for n, c in new])]
                if r1 is False and False in r2:
                    judge(rep, h, 'enter', o, x, False, 'entering a command changes the entries in another way than recording it once')
                elif r1 is False or False in r2:
                    judge(rep, h, 'enter', o, x, False, 'a command is recorded whether or not it equals the newest entry' if r1 is False else 'a command may be dropped although it differs from the newest entry')
                else:
                    rep.und('enter', 'comparison with the newest entry')
            else:
                rep.und('enter', 'comparison with the newest entry')
        for x in none:
            got = x.store.get(h.buf)
            for y, a in cases(h, x, None, [(cmp_('==', M, L(0)), []), (T, [('new', item)])]):
                judge(rep, h, 'enter', o, y, same(h, y, got, a[1]), 'the first command is not recorded')
        c = h.combo(s)
        judge(rep, h, 'mode', o, s, None if c is None else c in idle and c not in {o.combo} if navig else c in idle, 'entering a command does not end the navigation')
        v = s.store.get(cur)
        judge(rep, h, 'mode', o, s, True if isinstance(v, Lin) and (s.equal(v, L(0)) or idle_free(h, cur)) else None, 'position after entering a command')


def idle_free(h, cur):
    """the position does not matter while not navigating"""
    return False
