"""C10: the history is bounded and its numbers are valid."""
from .hist import *

META = {
    'technique': 'inductive invariant of the history class over its public operations (Houdini over linear templates, abstract interpretation of every operation) and comparison of the listing, the recall and the updates with '
                 'one numbering of the entries',
    'note': 'Every operation is interpreted from an arbitrary state satisfying the inferred invariant, per navigation mode, with a container of unknown length. Trusts the clang front end, the extractor and the container models.',
    'explanation': 'Invariant: never more entries than the size. The listing loop defines the number of the entry at each position; recalling a number must return the entry at the position with that number and throw exactly when '
                   'there is none; no operation changes the number of an entry it keeps; no operation accesses an entry out of range in any state of the invariant.',
    'assumptions': ['counters do not wrap around (2^62 operations)', 'operations beyond NewCommand, Previous, Next, Show, At, LoadCommands and GetCommands that modify the history are called only right after a command was entered '
                    '(ForgetLatest; checked for the library in C12)'],
}


def check(rep, tier):
    p = prog()
    rep.rule('bound', 'no operation leaves more entries than the size')
    rep.rule('access', 'no operation accesses an entry that does not exist')
    rep.rule('list', 'the listing shows every entry once, oldest first, with consecutive numbers')
    rep.rule('recall', 'a number recalls exactly the entry listed with it')
    rep.rule('error', 'any other number, and only such a number, is an error')
    rep.rule('stable', 'an entry that is kept keeps its number')
    h = Hist(rep, p)
    inv = h.solve()
    rep.sample('invariant: ' + '; '.join('%s: %s' % (c, sorted(map(str, v))) for c, v in inv.items()))
    bound(rep, h, inv)
    access(rep, h)
    E = listing(rep, h)
    if E is None:
        rep.und('recall', 'numbering')
        return
    recall(rep, h, E)
    stable(rep, h, E)


def loc(o, s=None):
    f = o.f
    return f['file'], f['l'], strip(f['n'])


def bound(rep, h, inv):
    T_ = ('le', 'n', 'M', 0)
    for o in h.runs:
        for s, fl, lp in h.posts(o, {c: v | {T_} for c, v in inv.items()}):
            for x in s.assume(h.atom(T_, dict(n=h.N, M=h.sym(h.M)))):
                a = h.atom(T_, h.vals(x))
                if a is None:
                    rep.und('bound', '%s: container' % o.name)
                elif x.entails(a):
                    rep.ok('bound')
                elif lp is not None or any(e.kind == 'loop' and h.buf in e.x.classes for e in s.events) or h.small(x.copy().assume(neg(a))[0] if x.copy().assume(neg(a)) else x):
                    y = x.copy().assume(neg(a))
                    if lp is None and any(e.kind == 'loop' and h.buf in e.x.classes for e in s.events):
                        rep.und('bound', '%s: after the loop' % o.name)
                    else:
                        rep.bad('bound', *loc(o), msg='%s may leave more entries than the size of the history' % o.name, path=trace(x))
                else:
                    rep.und('bound', o.name)


def access(rep, h):
    for o in h.runs:
        n = 0
        for kind, fn_, l, st, detail in o.I.ubs:
            if kind not in UB:
                continue
            n += 1
            if any(e.kind == 'loop' and h.buf in e.x.classes for e in st.events):
                ss = h.headinv(st.copy(), [e.x for e in st.events if e.kind == 'loop' and h.buf in e.x.classes][-1], h.inv)
            else:
                ss = [st]
            if not ss:
                continue
            if h.small(ss[0]):
                rep.bad('access', fn_['file'], l, strip(fn_['n']), 'an entry that does not exist is accessed (%s) in %s' % (kind, o.name), trace(st))
            else:
                rep.und('access', '%s in %s' % (kind, o.name))
        if not n:
            rep.ok('access')
        for s, fl in o.outs:
            if fl and fl[0] == 'throw' and o.name != 'At':
                rep.bad('access', *loc(o), msg='%s throws' % o.name, path=trace(s))


def listing(rep, h):
    ls = h.listing()
    if not ls:
        shows = [o for o in h.runs if o.name == 'Show']
        if shows and all(not any(e.kind == 'out' and h.element(e.args[0]) is not None for e, st, lp in all_events(s)) for o in shows for s, fl in o.outs) and not any(o.I.loops for o in shows):
            rep.bad('list', *loc(shows[0]), msg='the entries are not listed')
        else:
            rep.und('list', 'no loop lists the entries')
        return None
    good = True
    for o, lp, bk, el, nums, evs in ls:
        w = (lp.file, lp.line, strip(lp.fn))
        K = L(lp.K)
        if len(el) != 1:
            rep.bad('list', *w, msg='%d entries are printed with one number' % len(el), path=trace(bk.state))
            good = False
            continue
        if len(nums) != 1:
            rep.bad('list', *w, msg='%d numbers are printed with one entry' % len(nums), path=trace(bk.state))
            good = False
            continue
        j, i = el[0][1], nums[0][1]
        if set(q for q, k in j.t if q != lp.K) - {h.base.len} or j.coef(lp.K) == 0 and j.t:
            rep.und('list', 'position %r' % (j,))
            good = False
            continue
        c = j.coef(lp.K)
        first = j - K.scale(c)
        if c == -1 and first == h.N - L(1):
            pass
        elif c == 1:
            rep.bad('list', *w, msg='the newest entry is listed first', path=trace(bk.state))
            good = False
            continue
        else:
            rep.bad('list', *w, msg='the listing starts from another entry than the oldest one', path=trace(bk.state))
            good = False
            continue
        if i.coef(lp.K) != 1:
            rep.bad('list', *w, msg='the numbers of the entries listed are not consecutive', path=trace(bk.state))
            good = False
            continue
        outs = [e.args[0] for e in evs]
        pos = [k for k, e in enumerate(evs) if e is nums[0][0] or e is el[0][0]]
        if evs.index(nums[0][0]) > evs.index(el[0][0]):
            rep.und('list', 'the number follows the entry')
        stream = {repr(e.obj) for e in evs}
        if len(stream) != 1 or 'arg' not in list(stream)[0]:
            rep.bad('list', *w, msg='the listing is not printed on the stream given', path=trace(bk.state))
            good = False
            continue
        rep.ok('list')
        # all of them
        for s, fl in o.outs:
            if any(e.kind == 'loop' and e.x is lp for e in s.events):
                if s.entails(cmp_('>=', K, h.N)):
                    rep.ok('list')
                else:
                    x = s.copy().assume(cmp_('<', K, h.N))
                    if x and h.small(x[0]):
                        rep.bad('list', *w, msg='the listing may end before the newest entry', path=trace(s))
                        good = False
                    else:
                        rep.und('list', 'end of the listing')
        for s, fl in o.outs:
            if not any(e.kind == 'loop' and e.x is lp for e in s.events):
                if not s.entails(cmp_('==', h.N, L(0))):
                    rep.bad('list', *loc(o), msg='the entries may not be listed', path=trace(s))
                    good = False
    # different paths of the loop agree
    fs = {(repr(j[0][1] if j else None), repr(i[0][1] if i else None)) for o, lp, bk, j, i, ev in ls}
    E = h.numbering()
    if not good:
        return None
    return E


def recall(rep, h, E):
    for o in h.runs:
        if o.name != 'At':
            continue
        idp = [i for i, q in enumerate(o.f['ps']) if h.p.tk(q['t']).k == 'int']
        if len(idp) != 1:
            rep.und('recall', 'parameters')
            continue
        tk = h.p.tk(o.f['ps'][idp[0]]['t'])
        ID = L(sym(('arg', idp[0]), *tk.range()))
        J = L(sym(('any',), 0, BIG))
        for s, fl in o.outs:
            if fl and fl[0] == 'throw':
                # no entry has that number
                ss = s.copy().assume(cmp_('<', J, h.N))
                e = h.numat(E, s, J)
                if e is None:
                    rep.und('error', 'number')
                    continue
                ss = [y for x in ss for y in x.assume(cmp_('==', e, ID))]
                if not ss:
                    rep.ok('error')
                elif h.small(ss[0]):
                    rep.bad('error', *loc(o), msg='a number that is listed is refused', path=trace(ss[0]))
                else:
                    rep.und('error', 'refused number')
                cls = o.I.exc_classes(fl[1].a[0], fl[1].a[1]) if fl[1].a[0] not in ('other', 'unknown') else ()
                if 'std::exception' in cls:
                    rep.ok('error')
                else:
                    rep.bad('error', *loc(o), msg='a number that is not listed is not reported as an exception of the standard hierarchy', path=trace(s))
            else:
                idx = h.element(fl[1])
                if idx is None:
                    if isinstance(fl[1], V) and fl[1].k == 'seq' and not bases(fl[1]):
                        rep.bad('error', *loc(o), msg='a number that is not listed recalls some text instead of being an error', path=trace(s))
                    else:
                        rep.und('recall', 'entry returned: %r' % (fl[1],))
                    continue
                e = h.numat(E, s, idx)
                if e is None:
                    rep.und('recall', 'number')
                    continue
                inr = and_(cmp_('>=', idx, L(0)), cmp_('<', idx, h.N))
                if s.entails(cmp_('==', e, ID)) and s.entails(inr):
                    rep.ok('recall')
                    continue
                for bad_, m in ((cmp_('!=', e, ID), 'a number recalls another entry than the one listed with it'), (neg(inr), 'a number that is not listed is not refused')):
                    ss = s.copy().assume(bad_)
                    ss = [y for y in ss if h.small(y)]
                    if ss:
                        rep.bad('recall', *loc(o), msg=m, path=trace(ss[0]))
                        break
                else:
                    rep.und('recall', 'number')


def stable(rep, h, E):
    for o in h.runs:
        for s, fl in [(s, fl) for s, fl in o.outs if not any(e.kind == 'loop' and h.buf in e.x.classes for e in s.events)]:
            v = s.store.get(h.buf)
            if not isinstance(v, V) or v.k != 'seq':
                rep.und('stable', o.name)
                continue
            one(rep, h, E, o, s, v, h.base, None)
        for lp in o.I.loops:
            if h.buf not in lp.classes:
                continue
            c = lp.classes[h.buf]
            if c[0] != 'hav':
                rep.und('stable', '%s: loop' % o.name)
                continue
            hb = c[1].a[0][0][1]
            for bk in lp.backs:
                for x in h.headinv(bk.state.copy(), lp, h.inv):
                    one(rep, h, E, o, x, x.store.get(h.buf), hb, h.headvals(lp, x))


def one(rep, h, E, o, s, v, base, head):
    J = L(sym(('any',), 0, BIG))
    for pc in h.pieces(v, s, base):
        if pc[1] != 'old':
            if pc[1] == '?':
                rep.und('stable', '%s: %r' % (o.name, pc[2]))
            continue
        pos, _, lo, hi = pc
        if head is None:
            before = E(J)
        else:
            e = E(J)
            before = L(e.c)
            m = {sym(('fld', l[-1]), 0, BIG): head.get('M' if l == h.M else l) for l in h.ints + h.const}
            m[h.base.len] = head['n']
            for q, k in e.t:
                x = m.get(q, L(q))
                if x is None:
                    before = None
                    break
                before = before + x.scale(k)
        after = h.numat(E, s, J - lo + pos)
        if after is None or before is None:
            rep.und('stable', '%s: number' % o.name)
            continue
        ss = [y for x in s.copy().assume(cmp_('>=', J, lo)) for y in x.assume(cmp_('<', J, hi))]
        ss = [y for x in ss for y in x.assume(cmp_('!=', after, before))]
        if not ss:
            rep.ok('stable')
        elif head is not None or h.small(ss[0]):
            rep.bad('stable', *loc(o), msg='%s changes the number of an entry that is kept' % o.name, path=trace(s))
        else:
            rep.und('stable', o.name)
