"""C14: every history storage keeps the newest commands in order."""
from .roles import *
from .hist import whole_el

META = {
    'technique': 'abstract interpretation of every storage class with symbolic sequences; element-wise comparison at a symbolic position with the cut concatenation; trace rules on the file that is read and written',
    'note': 'The old content, the new commands and the size limit are symbolic and unbounded; loops over them are summarised. Trusts the clang front end, the extractor and the models of containers and file streams.',
    'explanation': 'For the class of every storage and every path: the content after storing is compared, element by element at a symbolic position, with the last limit elements of the old content followed by the new '
                   'commands. A file is read completely before it is truncated for writing, every line read is one entry, reading stops only when a line cannot be read, every entry is written as one line, and clearing truncates. '
                   'The constructor keeps the limit and the file name given.',
    'assumptions': ['commands contain no line break', 'files can be opened'],
}
IN, OUTM, TRUNC, APP, ATE = 8, 16, 32, 1, 2


class StorePolicy(Policy):
    """reading the content back is a value of its own: it is checked separately"""
    def __init__(self, rec):
        self.rec, self.reads = rec, {}

    def hook(self, I, st, fr, name, e, obj, args):
        f = I.p.fn(e['f']) if e.get('f') is not None else None
        if f is None or not f.get('repo') or f.get('rec') is None or f.get('body') is None or f['sn'] == 'Store' or args and any(I.p.tk(q['t']).k not in ('seq', 'ref') for q in f['ps']):
            return None
        if f['rec'] != self.rec or f.get('kind') in ('ctor', 'dtor'):
            return None
        tk = I.p.tk(f['ret'])
        if not strings(tk) or any(strings(I.p.tk(q['t'])) or I.p.tk(q['t']).k == 'ref' and strings(I.p.tk(q['t']).sub('to')) for q in f['ps']):
            return None
        res = tk.mk('OLD')
        self.reads[f['id']] = f
        I.event(st, 'content', name, obj, (), res, e)
        return [(st, res)]


def strings(tk):
    el = tk.sub('elem') if tk is not None and tk.k == 'seq' else None
    return el is not None and el.k == 'seq'


def check(rep, tier):
    p = prog()
    rep.rule('store', 'after storing, the content is the newest of the old and the new commands, in order')
    rep.rule('read', 'reading returns the content, oldest first')
    rep.rule('clear', 'clearing leaves the storage empty')
    rep.rule('limit', 'the storage keeps the limit and the file it was created with')
    base = recof(p, 'cli::HistoryStorage')
    classes = [r for r in p.records.values() if strip(r['n']).startswith('cli::') and r['id'] != base['id'] and base['id'] in list(p.bases(r['id']))]
    if not classes:
        raise Anchor('no storage classes')
    for r in classes:
        storage(rep, p, r)


def own(p, r, name):
    fs = [f for f in p.functions.values() if f.get('rec') == r['id'] and f['sn'] == name and f.get('body') is not None]
    if not fs:
        raise Anchor('%s::%s not found' % (r['n'], name))
    return fs[0]


def storage(rep, p, r):
    O = ('o', 'this')
    ints = fields(p, r, lambda tk, f: tk.k == 'int')
    seqs = fields(p, r, lambda tk, f: strings(tk))
    names = fields(p, r, lambda tk, f: tk.k == 'seq' and not strings(tk))
    limit = None
    # what the constructor keeps
    for f in [f for f in p.functions.values() if f.get('rec') == r['id'] and f.get('kind') == 'ctor' and f.get('body') is not None and f['ps'] and f.get('repo') and not f.get('defaulted')]:
        if any(p.tk(q['t']).k == 'ref' and p.tk(q['t']).sub('to') is not None and p.tk(q['t']).sub('to').k == 'rec' and p.tk(q['t']).sub('to').rec == r['id'] for q in f['ps']):
            continue
        I, outs = runfn(rep, p, f, Policy(), State(), O)
        w = (f['file'], f['l'], strip(f['n']))
        for s, fl in outs:
            if fl[0] == 'throw':
                continue
            for i, q in enumerate(f['ps']):
                tk = p.tk(q['t'])
                if tk.k == 'int':
                    want = tk.mk(('arg', i))
                    has = [k for k, fl_, t in ints if isinstance(s.store.get(O + (k,)), Lin) and s.equal(s.store[O + (k,)], want)]
                    if has:
                        limit = has[0]
                        rep.ok('limit')
                    elif ints and all(isinstance(s.store.get(O + (k,)), Lin) for k, fl_, t in ints):
                        rep.bad('limit', *w, msg='the limit given is not the one that is kept', path=trace(s))
                        limit = limit or ints[0][0]
                    else:
                        rep.und('limit', 'limit of %s' % r['n'])
                elif names and (tk.k == 'seq' or tk.k == 'ref'):
                    v = s.store.get(O + (names[0][0],))
                    b = bases(v) if v is not None else []
                    if len(b) == 1 and 'arg' in repr(b[0].key) and v == wholeseq(b[0]):
                        rep.ok('limit')
                    else:
                        rep.und('limit', 'file name of %s' % r['n'])
    if limit is None:
        if len(ints) != 1:
            raise Anchor('%s: size limit' % r['n'])
        limit = ints[0][0]
    M = [t for k, f_, t in ints if k == limit][0].mk(('init', O + (limit,)))
    cont = O + (seqs[0][0],) if len(seqs) == 1 and not names else None
    name = names[0][0] if len(names) == 1 else None
    if cont is None and name is None:
        rep.und('store', 'content of %s' % r['n'])
        return
    # reading
    reads = [own(p, r, 'Commands')]
    pol = StorePolicy(r['id'])
    f = own(p, r, 'Store')
    I, outs = runfn(rep, p, f, pol, State(), O)
    for g in pol.reads.values():
        if g not in reads:
            reads.append(g)
    for g in reads:
        if cont:
            readmem(rep, p, g, cont, O)
        else:
            readfile(rep, p, g, name, O, r)
    for u in I.ubs:
        if u[0] in ('range', 'bounds', 'erase', 'iterator-invalidation', 'empty'):
            rep.und('store', 'access %s' % u[0])
    new = sbase(('init', ('o', ('arg', 0))), 'seq')
    for s, fl in outs:
        if fl[0] == 'throw':
            rep.bad('store', f['file'], f['l'], strip(f['n']), 'storing throws', trace(s))
        elif cont:
            memory(rep, p, f, s, cont, M)
        else:
            filed(rep, p, f, s, name, M, O)
    g = own(p, r, 'Clear')
    I, outs = runfn(rep, p, g, Policy(), State(), O)
    for s, fl in outs:
        w = (g['file'], g['l'], strip(g['n']))
        if cont:
            v = s.store.get(cont)
            n = seqlen(v.a[0]) if isinstance(v, V) and v.k == 'seq' else None
            if n is None:
                rep.und('clear', 'content')
            elif s.entails(cmp_('==', n, L(0))):
                rep.ok('clear')
            elif approx(v):
                rep.und('clear', 'content')
            else:
                rep.bad('clear', *w, msg='entries remain after clearing', path=trace(s))
        else:
            evs = [e for e, st, lp in all_events(s)]
            op = opened(s, evs, name, O)
            last = [x for x in op if x[1] is not None and x[1] & OUTM]
            if any(x[1] is None or x[2] is None for x in op) or any(e.kind == 'ext' for e in evs):
                rep.und('clear', 'file')
            elif not last:
                rep.bad('clear', *w, msg='clearing does not truncate the file', path=trace(s))
            elif truncates(last[-1][1]) and last[-1][2] and not [e for e in evs if e.kind == 'out']:
                rep.ok('clear')
            elif not last[-1][2]:
                rep.bad('clear', *w, msg='clearing truncates another file', path=trace(s))
            elif [e for e in evs if e.kind == 'out']:
                rep.bad('clear', *w, msg='something is written to the file that is cleared', path=trace(s))
            else:
                rep.bad('clear', *w, msg='the file is opened without being truncated', path=trace(s))


def truncates(mode):
    return bool(mode & OUTM) and not mode & (APP | IN) or bool(mode & TRUNC)


def opened(s, evs, name, O):
    """[(event, mode or None, is it the file of the storage or None)] of the file streams opened"""
    out = []
    fname = ('init', O + (name,))
    for e in evs:
        if e.kind == 'ctor' and e.name in ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream') and e.args or \
                e.kind == 'ext' and e.name.endswith('stream::open'):
            a = e.args[0]
            b = bases(a)
            mine_ = True if len(b) == 1 and b[0].key == fname and a == wholeseq(b[0]) else \
                False if isinstance(a, V) and a.k == 'seq' and (not b or b[0].key == fname and not approx(a) and s.can(cmp_('!=', seqlen(a.a[0]), L(b[0].len)))) else None
            m = None
            if len(e.args) > 1 and isinstance(e.args[1], Lin) and e.args[1].is_const():
                m = e.args[1].c
            elif len(e.args) == 1:
                m = OUTM if 'ofstream' in e.name else IN
            if m is not None and 'ofstream' in e.name:
                m |= OUTM
            if m is not None and 'ifstream' in e.name:
                m |= IN
            out.append((e, m, mine_))
    return out


def readmem(rep, p, g, cont, O):
    I, outs = runfn(rep, p, g, Policy(), State(), O)
    w = (g['file'], g['l'], strip(g['n']))
    for s, fl in outs:
        v = fl[1] if fl[0] == 'ret' else None
        b = [x for x in bases(v) if x.key == ('init', cont)] if v is not None else []
        if not isinstance(v, V) or v.k != 'seq':
            rep.und('read', 'result')
            continue
        base = sbase(('init', cont), b[0].ek if b else 'seq')
        compare(rep, 'read', w, s, v.a[0], [(base, L(0), L(base.len))], L(0), 'what is read is not the content')
        after = s.store.get(cont)
        if after is not None and after != wholeseq(base):
            rep.bad('read', *w, msg='reading changes the content', path=trace(s))


def compare(rep, rule, w, s, segs, want, cut, msg):
    """segs is the concatenation of want [(base, lo, hi)] without its first cut elements"""
    J = L(sym(('pos',), 0, 2 ** 62))
    total = L(0)
    for b, lo, hi in want:
        total = total + hi - lo
    n = seqlen(segs)
    if approx(segs):
        fill = True
    if not s.equal(n, total - cut):
        y = s.copy().assume(cmp_('!=', n, total - cut))
        if y and not approx(segs):
            rep.bad(rule, *w, msg=msg + ' (another number of entries)', path=trace(y[0]))
        elif y:
            rep.und(rule, 'number')
        return
    pos = L(0)
    good = True
    for g in segs:
        ln = seglen(g)
        for x in [y for z in s.copy().assume(cmp_('>=', J, pos)) for y in z.assume(cmp_('<', J, pos + ln))]:
            if g[0] == 's':
                got = (g[1], L(g[2]) + (J - pos))
            elif g[0] == 'v':
                got = (g[1], L(g[3]) - L(1) - (J - pos))
            elif g[0] == 'e' and whole_el(g[1]):
                got = whole_el(g[1])
                got = (got[0], L(got[1]))
            elif g[0] == 'r' or g[0] == 'e' and isinstance(g[1], V) and g[1].k == 'seq' and not bases(g[1]):
                rep.bad(rule, *w, msg=msg + ' (another entry)', path=trace(x))
                good = None
                continue
            else:
                rep.und(rule, repr(g)[:80])
                good = None
                continue
            k = cut + J
            for b, lo, hi in want:
                for z in [q for y in x.copy().assume(cmp_('>=', k, L(0))) for q in y.assume(cmp_('<', k, hi - lo))]:
                    if got[0] is b or got[0] == b:
                        if z.equal(got[1], lo + k):
                            continue
                        bad = z.copy().assume(cmp_('!=', got[1], lo + k))
                        if bad:
                            rep.bad(rule, *w, msg=msg + ' (in another order)', path=trace(z))
                            good = None
                    else:
                        rep.bad(rule, *w, msg=msg + ' (in another order)', path=trace(z))
                        good = None
                k = k - (hi - lo)
        pos = pos + ln
    if good:
        rep.ok(rule)


def cuts(s, old, new, M):
    """[(state, number of entries to drop)]"""
    t = L(old.len) + L(new.len)
    a, b = s.copy().split(cmp_('>', t, M))
    return [(x, t - M) for x in a] + [(x, L(0)) for x in b]


def memory(rep, p, f, s, cont, M):
    w = (f['file'], f['l'], strip(f['n']))
    v = s.store.get(cont)
    old = sbase(('init', cont), 'seq')
    new = sbase(('init', ('o', ('arg', 0))), 'seq')
    for b in bases(v) + [x for y in s.store.values() if isinstance(y, V) for x in bases(y)] + [x for e in s.events for y in e.args or () if isinstance(y, V) for x in bases(y)]:
        if b.key == old.key:
            old = b
        if b.key == new.key:
            new = b
    if v is None:
        v = wholeseq(old)
    if not isinstance(v, V) or v.k != 'seq':
        rep.und('store', 'content')
        return
    for x, cut in cuts(s, old, new, M):
        kept = [g for g in normsegs(v.a[0]) if not x.equal(seqlen((g,)), L(0))]
        if x.entails(cmp_('==', L(new.len), L(0))) and (not kept and x.equal(L(old.len), L(0)) or kept == list(wholeseq(old).a[0])):
            rep.ok('store')       # nothing to store: the old content is within the limit
            continue
        compare(rep, 'store', w, x, v.a[0], [(old, L(0), L(old.len)), (new, L(0), L(new.len))], cut, 'the content after storing is not the newest of the old and the new commands')


def filed(rep, p, f, s, name, M, O):
    w = (f['file'], f['l'], strip(f['n']))
    evs = s.events
    flatev = [e for e, st, lp in all_events(s)]
    op = opened(s, flatev, name, O)
    new = sbase(('init', ('o', ('arg', 0))), 'seq')
    old = sbase('OLD', 'seq')
    wr = [x for x in op if x[1] is None or x[1] & OUTM]
    rd = [e for e in flatev if e.kind == 'content']
    # the real symbolic sequences
    allb = [b for e in flatev for v in (list(e.args or ()) + [e.res]) if isinstance(v, V) for b in bases(v, True)]
    for b in allb + [x for v in s.store.values() if isinstance(v, V) for x in bases(v)]:
        if b.key == 'OLD':
            old = b
        if b.key == ('init', ('o', ('arg', 0))):
            new = b
    if any(e.kind == 'ext' and not e.name.endswith('stream::open') and ('rename' in e.name or 'remove' in e.name) for e in flatev):
        rep.und('store', 'file operations')
        return
    if not wr:
        if s.entails(cmp_('==', L(new.len), L(0))) or s.entails(cmp_('==', M, L(0))):
            rep.ok('store')
        else:
            rep.bad('store', *w, msg='the new commands are not written to the file', path=trace(s))
        return
    if len(wr) > 1 or wr[0][1] is None or wr[0][2] is None:
        rep.und('store', 'files opened')
        return
    e, mode, mine_ = wr[0]
    if not mine_:
        rep.bad('store', *at(e), msg='another file is written', path=trace(s))
        return
    # what is written: loops over entries, in order
    pieces = []
    app = not truncates(mode)
    if mode & IN and not mode & TRUNC:
        rep.und('store', 'file mode')
        return
    if not app and rd and flatev.index(rd[-1]) > flatev.index(e):
        rep.bad('store', *at(e), msg='the file is truncated before its content has been read', path=trace(s))
        return
    total = L(0)
    for ev in evs[evs.index(e) if e in evs else 0:]:
        if ev.kind == 'out':
            if not filestream(s, ev):
                continue
            if ev.args and isinstance(ev.args[0], V) and ev.args[0].k == 'seq' and seqlen(ev.args[0].a[0]) == L(0):
                continue
            rep.und('store', 'written outside of a loop')
            return
        if ev.kind == 'loop':
            lp = ev.x
            outs_ = [b for b in lp.backs if any(q.kind == 'out' for q in b.events)]
            if not outs_:
                if any(q.kind == 'loop' for b in lp.backs for q in b.events):
                    rep.und('store', 'nested loops')
                    return
                continue
            pieces.append((ev, lp))
    tail = evs[evs.index(e):] if e in evs else []
    if not pieces and not any(q.kind in ('content', 'getline', 'loop') for q in tail) and any(q.kind == 'assume' and q.name in ('fail', 'bad') and q.res is True for q in tail):
        rep.ok('store')          # the file cannot be written
        return
    if any('ostream_iterator' in (q.name or '') or 'ostreambuf_iterator' in (q.name or '') for q in flatev) or \
            not pieces and any(q.kind == 'ext' and not (q.name or '').startswith('std::') for q in tail if q is not e):
        rep.und('store', 'the file is written by a function that is not known')
        return
    if len(pieces) > 2 or (len(pieces) > 1 and not app and False):
        rep.und('store', '%d loops write' % len(pieces))
        return
    want = [(old, L(0), L(old.len)), (new, L(0), L(new.len))]
    for x, cut in cuts(s, old, new, M):
        if app:
            # the old content stays in front: right only when nothing has to be dropped
            if x.can(cmp_('>', cut, L(0))) and not x.entails(cmp_('<=', cut, L(0))):
                rep.bad('store', *at(e), msg='commands are appended to the file although older ones have to be dropped', path=trace(x))
                continue
            k0 = L(old.len)
        else:
            k0 = L(0)
        if not pieces:
            n = L(old.len) + L(new.len) - cut
            if x.entails(cmp_('==', n, k0)):
                rep.ok('store')
            else:
                rep.bad('store', *w, msg='the commands are not written to the file', path=trace(x))
            continue
        good = True
        for ev, lp in pieces:
            for bk in lp.backs:
                good = written(rep, w, bk, lp, want, k0, M, old, new) and good
            k0 = k0 + L(lp.K)
        n = L(old.len) + L(new.len) - cut
        if x.equal(k0, n):
            if good:
                rep.ok('store')
        else:
            y = x.copy().assume(cmp_('<', k0, n))
            z = x.copy().assume(cmp_('>', k0, n))
            if (y or z) and all(len(lp.backs) and all(c[0] in ('ind', 'fin', 'itind') for c in lp.classes.values()) for ev, lp in pieces):
                rep.bad('store', *w, msg='%s commands are written than have to be kept' % ('fewer' if y else 'more'), path=trace((y or z)[0]))
            else:
                rep.und('store', 'number of entries written')


def filestream(s, ev):
    o = ev.obj
    return isinstance(o, V) and o.k == 'ptr' and o.a[0][0] in ('v', 'n')


def written(rep, w, bk, lp, want, k0, M, old, new):
    """one iteration writes exactly the next entry as one line"""
    st = bk.state
    K = L(lp.K)
    txt = ()
    n0 = len(rep.violations)
    for e in bk.events:
        if e.kind == 'loop' and any(q.kind == 'out' for b in e.x.backs for q in b.events):
            rep.und('store', 'nested loop')
            return False
        if e.kind == 'out' and filestream(st, e):
            v = e.args[0] if e.args else None
            if not isinstance(v, V) or v.k != 'seq':
                rep.und('store', 'text written')
                return False
            txt += v.a[0]
    txt = normsegs(txt)
    ok = True
    for x, cut in cuts(st, old, new, M):
        if not txt:
            rep.bad('store', *w, msg='an entry is not written', path=trace(x))
            ok = False
            continue
        nl = txt[-1][0] == 'e' and txt[-1][1] == L(10)
        el = whole_el(V('seq', txt[:-1])) if nl else None
        if el is None:
            b = bases(V('seq', txt))
            if any(g[0] in ('c', 'l') for g in txt) or approx(txt) or any(isinstance(y.key, tuple) and y.key[0] == 'unkel' for y in b):
                rep.und('store', 'text written')
            elif not nl and whole_el(V('seq', txt)):
                rep.bad('store', *w, msg='entries are written without a line break', path=trace(x))
            elif b:
                rep.bad('store', *w, msg='what is written for an entry is not the entry and a line break', path=trace(x))
            else:
                rep.und('store', 'text written')
            ok = False
            continue
        k = cut + k0 + K
        decided = False
        for b, lo, hi in want:
            for z in [q for y in x.copy().assume(cmp_('>=', k, L(0))) for q in y.assume(cmp_('<', k, hi - lo))]:
                if (el[0] is b or el[0] == b) and z.equal(L(el[1]), lo + k):
                    decided = True
                elif approx(el[1]):
                    rep.und('store', 'entry written')
                    ok = False
                elif (el[0] is b or el[0] == b) and not z.copy().assume(cmp_('!=', L(el[1]), lo + k)):
                    decided = True
                else:
                    rep.bad('store', *w, msg='the entries written are not the newest of the old and the new commands, in order', path=trace(z))
                    ok = False
            k = k - (hi - lo)
    return ok


def readfile(rep, p, g, name, O, r):
    I, outs = runfn(rep, p, g, StorePolicy(None), State(), O)
    w = (g['file'], g['l'], strip(g['n']))
    loops = set()
    for s, fl in outs:
        evs = [e for e, st, lp in all_events(s)]
        op = opened(s, evs, name, O)
        if g['ps'] and any(x[2] is None for x in op):
            rep.und('read', 'file name')
        elif not op:
            if any(e.kind == 'content' for e in evs):
                rep.ok('read')
            else:
                rep.bad('read', *w, msg='the file is not read', path=trace(s))
            continue
        elif any(x[2] is False for x in op):
            rep.bad('read', *w, msg='another file is read', path=trace(s))
            continue
        if any(x[1] is not None and (truncates(x[1]) if x[1] & OUTM else False) for x in op):
            rep.bad('read', *w, msg='reading truncates the file', path=trace(s))
            continue
        if fl[0] == 'throw':
            rep.und('read', 'throws')
            continue
        lev = [e for e in s.events if e.kind == 'loop' and any(q.kind in ('getline', 'extract') for b in e.x.backs for q in b.events)]
        v = fl[1]
        if not lev:
            gl = [e for e in evs if e.kind == 'getline']
            failed = any(e.kind == 'assume' and e.name in ('fail', 'eof', 'bad') and e.res is True for e in s.events)
            if failed and isinstance(v, V) and v.k == 'seq' and not v.a[0]:
                rep.ok('read')
            elif isinstance(v, V) and v.k == 'seq' and not v.a[0] and not gl:
                rep.bad('read', *w, msg='nothing is read from the file', path=trace(s))
            else:
                rep.und('read', 'no loop')
            continue
        if len(lev) != 1:
            rep.und('read', '%d loops' % len(lev))
            continue
        lp = lev[0].x
        # the loop ends only when a line could not be read
        tail = s.events[s.events.index(lev[0]) + 1:]
        fails = [e for e in s.preds if isinstance(e, tuple) and e and e[0] == 'fail' and s.preds[e]]
        last = [e for e in tail if e.kind == 'getline']
        ended = any(e.kind == 'assume' and e.name in ('fail', 'eof') and e.res is True for e in tail)
        if ended:
            rep.ok('read')
        else:
            rep.bad('read', *w, msg='reading stops although the file goes on', path=trace(s))
        # the sequence returned
        segs = v.a[0] if isinstance(v, V) and v.k == 'seq' else ()
        res = []
        for l, c in lp.classes.items():
            if c[0] == 'appc' and any(g[0] == 'c' and g[2] == c[2] for g in segs) or c[0] == 'app' and any(g[0] == 'l' and g[2] == l for g in segs):
                res.append((l, c))
        if any(q.kind == 'extract' for b in lp.backs for q in b.events) and not any(q.kind == 'getline' for b in lp.backs for q in b.events):
            rep.bad('read', *w, msg='the file is read word by word, not line by line', path=trace(s))
            continue
        head = s.events[:s.events.index(lev[0])]
        if any(e.kind in ('getline', 'extract') for e in head) and res and not any(isinstance(c[1], V) and c[1].a[0] for l, c in res):
            rep.bad('read', *w, msg='the first line of the file is skipped', path=trace(s))
            continue
        if not res:
            rep.und('read', 'lines collected')
            continue
        l, c = res[0]
        objs = {e.obj for b in lp.backs for e in b.events if e.kind == 'getline'}
        more = [e for e in head + [q for b in lp.backs for q in b.events] if e.obj in objs and
                (e.kind in ('manip', 'extract') and e.name != 'std::skipws' or e.kind == 'ext' and (e.name or '').split('::')[-1] in ('get', 'ignore', 'read', 'readsome', 'seekg', 'unget', 'putback'))]
        ate = [x for x in op if x[1] is not None and x[1] & 2]
        if ate and not any(e.kind == 'ext' for e in more):
            rep.bad('read', *w, msg='the file is opened at its end: nothing is read', path=trace(s))
            continue
        if any(e.kind == 'manip' and e.name == 'std::ws' or e.kind == 'extract' for e in more):
            e = [e for e in more if e.kind in ('manip', 'extract')][0]
            rep.bad('read', *at(e), msg='the blanks that start a line, and blank lines, are dropped', path=trace(s))
            continue
        if any(e.name.split('::')[-1] == 'ignore' for e in more):
            e = [e for e in more if e.name.split('::')[-1] == 'ignore'][0]
            rep.bad('read', *at(e), msg='characters of the file are skipped', path=trace(s))
            continue
        if more:
            rep.und('read', more[0].name)
            continue
        if isinstance(c[1], V) and c[1].a[0]:
            rep.bad('read', *w, msg='what is read does not start with the first line of the file', path=trace(s))
            continue
        if len(segs) != 1:
            if last and any(e.args and set(bases(e.args[0])) & set(bases(V('seq', segs))) for e in last) or len(segs) > 1:
                rep.bad('read', *w, msg='more than the lines of the file is returned', path=trace(s))
            else:
                rep.und('read', 'result')
            continue
        if segs[0][0] == 'c' and not s.equal(segs[0][3], L(lp.K)):
            rep.und('read', 'number of lines')
            continue
        if id(lp) in loops:
            continue
        loops.add(id(lp))
        for b in lp.backs:
            h0, h1 = b.trans.get(l, (None, None))
            gl = [e for e in b.events if e.kind == 'getline']
            if not isinstance(h0, V) or not isinstance(h1, V):
                rep.und('read', 'lines collected')
                continue
            n0 = len(h0.a[0])
            add = h1.a[0][n0:] if h1.a[0][:n0] == h0.a[0] else None
            lines = [e.args[0] for e in gl if e.args]
            if any(len(e.args) > 1 and not (isinstance(e.args[1], Lin) and e.args[1] == L(10)) for e in gl):
                rep.bad('read', *at(gl[0]), msg='lines end at another character than the line break')
                continue
            if add is None:
                rep.und('read', 'lines collected')
            elif tuple(('e', x) for x in lines) == tuple(add):
                after = b.events[b.events.index(gl[-1]):] if gl else []
                if any(e.kind == 'assume' and e.name == 'fail' and e.res is False for e in after):
                    rep.ok('read')
                elif any(e.kind == 'assume' and e.name in ('fail', 'eof', 'bad') for e in after) or not gl:
                    rep.und('read', 'end of the file')
                else:
                    rep.bad('read', *at(gl[-1]), msg='an entry is added whether or not a line could be read', path=[repr(e) for e in b.events])
            elif len(add) < len(lines):
                rep.bad('read', *w, msg='a line of the file is skipped', path=[repr(e) for e in b.events])
            elif len(add) > len(lines):
                rep.bad('read', *w, msg='an entry is returned that is not a line of the file', path=[repr(e) for e in b.events])
            elif all(g_[0] == 'e' and isinstance(g_[1], V) for g_ in add) and not approx(add):
                rep.bad('read', *w, msg='the entry returned is not the line of the file', path=[repr(e) for e in b.events])
            else:
                rep.und('read', 'lines collected')

