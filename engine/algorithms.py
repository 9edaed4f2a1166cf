"""Models of the standard algorithms: as loops over a hidden iterator."""
from .lin import L, Lin, sym
from .domain import *
from .domain import V, Ev, T, F
from .models import model, aval, argtk, rangeseq, reverse, seqeq, as_seq, conc
from . import loops


def elemtk(I, st, cont):
    tk = I.loctk.get(cont)
    if tk is not None and tk.sub('elem') is not None:
        return tk.sub('elem')
    v = st.store.get(cont)
    if isinstance(v, V) and v.k == 'seq':
        for s in v.a[0]:
            if s[0] in ('s', 'v') and not isinstance(s[1].ek, str):
                return s[1].ek
    return None


def fnval(I, st, e, args, i):
    a = args[i]
    if isinstance(a, tuple):
        if e['args'][i].get('lv'):
            v = I.load(st, a, argtk(I, e, i))
            return v
    return a


def elem(I, st, v, x):
    """location of the element an iterator denotes"""
    idx = x - 1 if v.a[2] else x
    return v.a[0] + (('[]', idx),)


def okrange(first, last):
    return isinstance(first, V) and first.k == 'iter' and isinstance(last, V) and last.k == 'iter' and first.a[0] == last.a[0] and first.a[2] == last.a[2]


def scan(I, st, fr, e, first, last, body, tag):
    """runs body(state, element loc, index)->[(state, flow)] over a range; [(state, flow, index)]"""
    I.frid = st.fresh()
    it_ = ('v', I.frid, '#' + tag)
    st.store[it_] = first.a[1]
    rev = first.a[2]

    def cond(x):
        return [(x, cmp_('>', x.store[it_], last.a[1]) if rev else cmp_('<', x.store[it_], last.a[1]))]

    def bd(x):
        return body(x, elem(I, x, first, x.store[it_]), x.store[it_])

    def inc(x):
        x.store[it_] = x.store[it_] + (-1 if rev else 1)
        return [(x, None)]
    out = []
    for s, fl in loops.run_loop(I, st, fr, {'l': e.get('l', 0)}, cond, bd, inc):
        if fl is not None and fl[0] == 'throw':
            I.sink.append((s, fl[1]))
        else:
            out.append((s, fl, s.store[it_]))
    return out


def callpred(I, s, fr, f, loc, e, extra=()):
    """[(state, Cond)] of a predicate call; exceptions go to the sink"""
    etk = elemtk(I, s, loc[:-1])
    out = []
    for s2, v in I.call_value(s, fr, f, [('lv', loc, etk.idx if etk else None)] + list(extra), {'k': 'call', 'l': e.get('l', 0), 't': e['t']}):
        if isinstance(v, tuple) and v and v[0] in ('v', 'o', 'n', 'g'):
            v = I.load(s2, v, None)
        out.append((s2, I.tocond(s2, v)))
    return out


def prange(I, st, fr, e, first, last, test, tag):
    """[(state, found, index)]"""
    def body(s, loc, idx):
        def f():
            out = []
            for s2, c in test(s, loc):
                a, b = s2.split(c)
                out += [(x, ('found',)) for x in a]
                out += [(x, None) for x in b]
            return out
        return I.stmt_sink(f)
    return [(s, fl == ('found',), i) for s, fl, i in scan(I, st, fr, e, first, last, body, tag)]


def valtest(I, e, args, i):
    def test(s, loc):
        v = aval(I, s, e, args, i)
        out = []
        for s2, x in I.seq_at_all(s, I.load_seq(s, loc[:-1], None), loc[-1][1], elemtk(I, s, loc[:-1])):
            if isinstance(x, V) and x.k == 'seq':
                out.append((s2, seqeq(I, s2, x, as_seq(I, s2, v, None))))
            else:
                for s3, c in I.binop(s2, '==', x, v, None, e):
                    out.append((s3, c))
        return out
    return test


def unknown(I, st, e, what):
    I.note(st, 'unmodelled range', what)
    return I.external(st, None, e, I.p.fn(e['f']), 'std::' + what, None, [])


def off(e, args):
    """number of leading execution policy arguments: none are used"""
    return 0


@model('std::find', 'std::find_if', 'std::find_if_not')
def m_find(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last):
        return unknown(I, st, e, 'find')
    if e['sn'] == 'find':
        test = valtest(I, e, args, 2)
    else:
        f = fnval(I, st, e, args, 2)
        if e['sn'] == 'find_if':
            def test(s, loc):
                return callpred(I, s, fr, f, loc, e)
        else:
            def test(s, loc):
                return [(x, neg(c)) for x, c in callpred(I, s, fr, f, loc, e)]
    out = []
    for s, found, i in prange(I, st, fr, e, first, last, test, 'find'):
        out.append((s, V('iter', first.a[0], i if found else last.a[1], first.a[2])))
    return out


@model('std::any_of', 'std::all_of', 'std::none_of')
def m_anyof(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last):
        return unknown(I, st, e, 'any_of')
    f = fnval(I, st, e, args, 2)
    sn = e['sn']

    def test(s, loc):
        r = callpred(I, s, fr, f, loc, e)
        return [(x, neg(c)) for x, c in r] if sn == 'all_of' else r
    return [(s, T if found == (sn == 'any_of') else F) for s, found, i in prange(I, st, fr, e, first, last, test, sn)]


@model('std::for_each')
def m_foreach(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last):
        return unknown(I, st, e, 'for_each')
    f = fnval(I, st, e, args, 2)

    def body(s, loc, idx):
        etk = elemtk(I, s, loc[:-1])
        return I.stmt_sink(lambda: [(x, None) for x, _ in I.call_value(s, fr, f, [('lv', loc, etk.idx if etk else None)], {'k': 'call', 'l': e.get('l', 0), 't': e['t']})])
    return [(s, f) for s, fl, i in scan(I, st, fr, e, first, last, body, 'for_each')]


@model('std::count', 'std::count_if')
def m_count(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last):
        return unknown(I, st, e, 'count')
    I.frid = st.fresh()
    cl = ('v', I.frid, '#n')
    st.store[cl] = L(0)
    f = fnval(I, st, e, args, 2) if e['sn'] == 'count_if' else None
    vt = valtest(I, e, args, 2) if e['sn'] == 'count' else None

    def body(s, loc, idx):
        def g():
            out = []
            for s2, c in (callpred(I, s, fr, f, loc, e) if f is not None else vt(s, loc)):
                a, b = s2.split(c)
                for x in a:
                    x.store[cl] = x.store[cl] + 1
                out += [(x, None) for x in a + b]
            return out
        return I.stmt_sink(g)
    return [(s, s.store[cl]) for s, fl, i in scan(I, st, fr, e, first, last, body, 'count')]


@model('std::min_element', 'std::max_element')
def m_minel(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last) or first.a[2]:
        return unknown(I, st, e, 'min_element')
    f = fnval(I, st, e, args, 2) if len(args) > 2 else None
    n = last.a[1] - first.a[1]
    if f is not None and n.is_const() and 0 <= n.c <= 8 and first.a[1].is_const():
        # a known number of elements: compared one after the other
        t = elemtk(I, st, first.a[0])
        t = t.idx if t else None
        work = [(st, first.a[1])]
        for d in range(1, n.c):
            i = first.a[1] + d
            nxt = []
            for s, best in work:
                ls = [first.a[0] + (('[]', i),), first.a[0] + (('[]', best),)]
                if e['sn'] == 'max_element':
                    ls.reverse()
                for s2, v in I.call_value(s, fr, f, [('lv', l, t) for l in ls], {'k': 'call', 'l': e.get('l', 0), 't': e['t']}):
                    if isinstance(v, Lin):
                        v = cmp_('!=', v, L(0))
                    a, b = s2.split(v)
                    nxt += [(x, i) for x in a] + [(x, best) for x in b]
            work = nxt
        return [(s, V('iter', first.a[0], b, False)) for s, b in work]
    empty, some = st.split(cmp_('>=', first.a[1], last.a[1]))
    out = [(s, last) for s in empty]
    for s in some:
        i = L(sym(('minel', s.fresh()), 0, 2 ** 62))
        for s2 in s.assume(and_(cmp_('>=', i, first.a[1]), cmp_('<', i, last.a[1]))):
            f = fnval(I, s2, e, args, 2) if len(args) > 2 else None
            r = V('iter', first.a[0], i, False)
            I.event(s2, 'minel', e['sn'], r, [first, last], r, e, x=f)
            minfact(I, s2, fr, e, first, last, i, f)
            out.append((s2, r))
    return out


def minfact(I, st, fr, e, first, last, m, f):
    """for all j in the range: not (element j < element m)"""
    cont = I.load_seq(st, first.a[0], None)
    if len(cont.a[0]) != 1 or cont.a[0][0][0] != 's' or f is None:
        return
    base = cont.a[0][0][1]
    j = sym(('J', st.fresh()), 0, 2 ** 62)
    tmp = st.copy()
    for c in (cmp_('>=', L(j), first.a[1]), cmp_('<', L(j), last.a[1])):
        tmp.assume(c)
    tmp.elems = dict(tmp.elems)
    tmp.elems[base] = (L(j), m)
    etk = elemtk(I, tmp, first.a[0])
    t = etk.idx if etk else None
    ls = [first.a[0] + (('[]', L(j)),), first.a[0] + (('[]', m),)]
    if e['sn'] == 'max_element':
        ls.reverse()
    try:
        r, sk = I.with_sink(lambda: I.call_value(tmp, fr, f, [('lv', l, t) for l in ls], {'k': 'call', 'l': e.get('l', 0), 't': e['t']}))
    except Exception:
        return
    if len(r) == 1 and not sk and isinstance(r[0][1], tuple) and r[0][1] and r[0][1][0] in ('le', 'in', 'ne', 'eq'):
        st.facts = st.facts + ((base, first.a[1], last.a[1], j, neg(r[0][1])),)


def replace_range(I, st, cont, lo, hi, mid, e):
    """[state]: container[lo..hi) := mid (same length)"""
    v = I.load_seq(st, cont, I.loctk.get(cont))
    out = []
    for s, a, b in I.split_seq(st, v.a[0], lo):
        for s2, c, d in I.split_seq(s, b, hi - lo):
            for s3, m in mid(s2, V('seq', normsegs(c))):
                s3.store[cont] = V('seq', normsegs(a + m.a[0] + d))
                out.append(s3)
    return out


@model('std::remove_if', 'std::remove')
def m_removeif(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last) or first.a[2]:
        return unknown(I, st, e, 'remove_if')
    cont = first.a[0]
    f = fnval(I, st, e, args, 2) if e['sn'] == 'remove_if' else None
    val = aval(I, st, e, args, 2) if e['sn'] == 'remove' else None
    out = []
    for s, old in rangeseq(I, st, first, last):
        # the predicate on every element
        nl = len(I.loops)
        test = valtest(I, e, args, 2) if f is None else None

        def body(x, loc, idx):
            def g():
                r = []
                for s2, c in (callpred(I, x, fr, f, loc, e) if f is not None else test(x, loc)):
                    a, b = s2.split(c)
                    for y in a:
                        I.event(y, 'removed', None, ptr(loc), [idx], e=e)
                    for y in b:
                        I.event(y, 'kept', None, ptr(loc), [idx], e=e)
                    r += [(y, None) for y in a + b]
                return r
            return I.stmt_sink(g)
        if len(old.a[0]) <= 8 and all(sg[0] == 'e' for sg in old.a[0]):
            # element by element
            work = [(s, ())]
            for k, sg in enumerate(old.a[0]):
                loc = cont + (('[]', first.a[1] + L(k)),)
                nxt = []
                for x, kept in work:
                    for s2, c in (callpred(I, x, fr, f, loc, e) if f is not None else test(x, loc)):
                        a, b = s2.split(c)
                        nxt += [(y, kept) for y in a] + [(y, kept + (sg,)) for y in b]
                work = nxt
            for s2, kept in work:
                def mid(x, c, kept=kept):
                    return [(x, V('seq', normsegs(kept + tuple(old.a[0][len(kept):]))))]
                for s3 in replace_range(I, s2, cont, first.a[1], last.a[1], mid, e):
                    out.append((s3, V('iter', cont, first.a[1] + L(len(kept)), False)))
            continue
        for s1, fl, i in scan(I, s, fr, e, first, last, body, 'remove_if'):
            ek = None
            for sg in old.a[0]:
                if sg[0] in ('s', 'v'):
                    ek = sg[1].ek
            if ek is None:
                t = elemtk(I, s1, cont)
                ek = 'char' if t is None or (t.k == 'int' and t.bits == 8) else t
            b = sbase(('filter', old, f if f is not None else val), ek)
            n = seqlen(old.a[0])
            for s2 in s1.assume(cmp_('<=', L(b.len), n)):
                I.event(s2, 'remove_if', e['sn'], ptr(cont), [first, last], V('seq', (('s', b, L(0), L(b.len)),)), e, x=(old, f if f is not None else val))
                res = V('iter', cont, first.a[1] + L(b.len), False)

                def mid(x, c):
                    return [(x, V('seq', normsegs((('s', b, L(0), L(b.len)), ('l', ('tail', b), 'tail', n - L(b.len))))))]
                for s3 in replace_range(I, s2, cont, first.a[1], last.a[1], mid, e):
                    out.append((s3, res))
    return out


@model('std::sort', 'std::stable_sort')
def m_sort(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last) or first.a[2]:
        return unknown(I, st, e, 'sort')
    cont = first.a[0]
    key = fnval(I, st, e, args, 2) if len(args) > 2 else None
    I.event(st, 'sort', e['sn'], ptr(cont), [first, last], None, e, x=key)
    t = elemtk(I, st, cont)

    def mid(x, c):
        ek = 'char' if t is None or (t.k == 'int' and t.bits == 8) else t
        b = sbase(('sorted', c, key), ek)
        return [(y, wholeseq(b)) for y in x.assume(cmp_('==', L(b.len), seqlen(c.a[0])))]
    return [(s, VOID) for s in replace_range(I, st, cont, first.a[1], last.a[1], mid, e)]


@model('std::unique')
def m_unique(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last) or first.a[2]:
        return unknown(I, st, e, 'unique')
    cont = first.a[0]
    t = elemtk(I, st, cont)
    out = []
    for s, old in rangeseq(I, st, first, last):
        ek = 'char' if t is None or (t.k == 'int' and t.bits == 8) else t
        b = sbase(('uniq', old), ek)
        n = seqlen(old.a[0])
        for s2 in s.assume(cmp_('<=', L(b.len), n)):
            for s3 in s2.assume(or_(cmp_('>=', L(b.len), 1), cmp_('<=', n, 0))):
                I.event(s3, 'unique', None, ptr(cont), [first, last], None, e)

                def mid(x, c):
                    return [(x, V('seq', normsegs((('s', b, L(0), L(b.len)), ('l', ('tail', b), 'tail', n - L(b.len))))))]
                for s4 in replace_range(I, s3, cont, first.a[1], last.a[1], mid, e):
                    out.append((s4, V('iter', cont, first.a[1] + L(b.len), False)))
    return out


@model('std::reverse')
def m_reverse(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last) or first.a[2]:
        return unknown(I, st, e, 'reverse')
    return [(s, VOID) for s in replace_range(I, st, first.a[0], first.a[1], last.a[1], lambda x, c: [(x, reverse(c))], e)]


def put_out(I, st, dest, q, e):
    """[(state, result iterator)]: writes a sequence through an output iterator"""
    if isinstance(dest, V) and dest.k == 'term' and dest.a[0] == 'inserter':
        _, kind, loc = dest.a
        v = I.load_seq(st, loc, I.loctk.get(loc))
        st.store[loc] = conc(v, q) if kind == 'back' else conc(reverse(q), v)
        return [(st, dest)]
    if isinstance(dest, V) and dest.k == 'term' and dest.a[0] == 'osit':
        I.event(st, 'out', None, dest.a[1], [q], e=e)
        return [(st, dest)]
    if isinstance(dest, V) and dest.k == 'iter' and not dest.a[2]:
        n = seqlen(q.a[0])
        v = I.load_seq(st, dest.a[0], I.loctk.get(dest.a[0]))
        lo, hi = dest.a[1], dest.a[1] + n
        out = []
        bad = or_(cmp_('<', lo, 0), cmp_('>', hi, seqlen(v.a[0]))) if dest.a[0][0] != 'buf' else F
        for s in I.ub(st, 'range', bad, e):
            for s2 in replace_range(I, s, dest.a[0], lo, hi, lambda x, c: [(x, q)], e):
                out.append((s2, V('iter', dest.a[0], hi, False)))
        return out
    I.note(st, 'output iterator')
    return [(st, dest)]


@model('std::copy', 'std::reverse_copy', 'std::move_backward', 'std::copy_n')
def m_copy(I, st, fr, e, obj, args):
    first = aval(I, st, e, args, 0)
    second = aval(I, st, e, args, 1)
    if e['sn'] == 'copy_n' and isinstance(second, Lin) and isinstance(first, V) and first.k == 'iter':
        second = V('iter', first.a[0], first.a[1] + (second if not first.a[2] else -second), first.a[2])
    dest = aval(I, st, e, args, 2)
    if not okrange(first, second):
        return unknown(I, st, e, 'copy')
    out = []
    for s, q in rangeseq(I, st, first, second):
        out += put_out(I, s, dest, reverse(q) if e['sn'] == 'reverse_copy' else q, e)
    return out


@model('std::back_inserter', 'std::front_inserter')
def m_inserter(I, st, fr, e, obj, args):
    return [(st, V('term', 'inserter', 'back' if e['sn'].startswith('back') else 'front', args[0]))]


@model('std::copy_if')
def m_copyif(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    dest = aval(I, st, e, args, 2)
    if not okrange(first, last):
        return unknown(I, st, e, 'copy_if')
    f = fnval(I, st, e, args, 3)
    if not (isinstance(dest, V) and dest.k == 'term' and dest.a[0] == 'inserter'):
        return unknown(I, st, e, 'copy_if')

    def body(s, loc, idx):
        def g():
            out = []
            for s2, c in callpred(I, s, fr, f, loc, e):
                a, b = s2.split(c)
                for x in a:
                    for y, v in I.seq_at_all(x, I.load_seq(x, loc[:-1], None), loc[-1][1], elemtk(I, x, loc[:-1])):
                        for z, _ in put_out(I, y, dest, seq(('e', v)), e):
                            out.append((z, None))
                out += [(x, None) for x in b]
            return out
        return I.stmt_sink(g)
    return [(s, dest) for s, fl, i in scan(I, st, fr, e, first, last, body, 'copy_if')]


@model('std::transform')
def m_transform(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    dest = aval(I, st, e, args, 2)
    if not okrange(first, last) or len(args) != 4:
        return unknown(I, st, e, 'transform')
    f = fnval(I, st, e, args, 3)
    I.frid = st.fresh()
    dl = ('v', I.frid, '#out')
    st.store[dl] = dest

    def body(s, loc, idx):
        def g():
            out = []
            etk = elemtk(I, s, loc[:-1])
            for s2, v in I.call_value(s, fr, f, [('lv', loc, etk.idx if etk else None)], {'k': 'call', 'l': e.get('l', 0), 't': e['t']}):
                if isinstance(v, tuple) and v and v[0] in ('v', 'o', 'n', 'g'):
                    v = I.load(s2, v, None)
                for s3, d in put_out(I, s2, s2.store[dl], seq(('e', v)), e):
                    s3.store[dl] = d
                    out.append((s3, None))
            return out
        return I.stmt_sink(g)
    return [(s, s.store[dl]) for s, fl, i in scan(I, st, fr, e, first, last, body, 'transform')]


@model('std::accumulate')
def m_accumulate(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not okrange(first, last):
        return unknown(I, st, e, 'accumulate')
    I.frid = st.fresh()
    al = ('v', I.frid, '#acc')
    v0 = aval(I, st, e, args, 2)
    st.store[al] = v0
    I.loctk[al] = argtk(I, e, 2)
    f = fnval(I, st, e, args, 3) if len(args) > 3 else None

    def body(s, loc, idx):
        def g():
            out = []
            etk = elemtk(I, s, loc[:-1])
            if f is not None:
                at = argtk(I, e, 2).idx
                for s2, v in I.call_value(s, fr, f, [('lv', al, at), ('lv', loc, etk.idx if etk else None)], {'k': 'call', 'l': e.get('l', 0), 't': e['t']}):
                    s2.store[al] = v
                    out.append((s2, None))
            else:
                for s2, x in I.seq_at_all(s, I.load_seq(s, loc[:-1], None), loc[-1][1], etk):
                    a = s2.store[al]
                    if isinstance(a, V) and a.k == 'seq':
                        s2.store[al] = conc(a, as_seq(I, s2, x, None))
                        out.append((s2, None))
                    else:
                        for s3, r in I.binop(s2, '+', a, x, argtk(I, e, 2), e):
                            s3.store[al] = r
                            out.append((s3, None))
            return out
        return I.stmt_sink(g)
    return [(s, s.store[al]) for s, fl, i in scan(I, st, fr, e, first, last, body, 'accumulate')]


@model('std::equal')
def m_equal(I, st, fr, e, obj, args):
    first, last = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    b = aval(I, st, e, args, 2)
    if not okrange(first, last) or not (isinstance(b, V) and b.k == 'iter'):
        return unknown(I, st, e, 'equal')
    n = last.a[1] - first.a[1] if not first.a[2] else first.a[1] - last.a[1]
    out = []
    work = [(st, V('iter', b.a[0], b.a[1] + (n if not b.a[2] else -n), b.a[2]))]
    if len(args) >= 4:
        b2 = aval(I, st, e, args, 3)
        if okrange(b, b2):
            m = b2.a[1] - b.a[1] if not b.a[2] else b.a[1] - b2.a[1]
            same, diff = st.split(cmp_('==', n, m))
            out += [(s, F) for s in diff]
            work = [(s, b2) for s in same]
    for s, end in work:
        for s1, x in rangeseq(I, s, first, last):
            for s2, y in rangeseq(I, s1, b, end):
                out.append((s2, seqeq(I, s2, x, y)))
    return out
