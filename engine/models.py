"""Models of the standard library operations used by the library."""
from .lin import L, Lin, sym
from .domain import *
from .domain import V, Ev, T, F
from .program import strip

MODELS = {}
CTORS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ctor(*names):
    def d(f):
        for n in names:
            CTORS[n] = f
        return f
    return d


SEQN = ['std::vector', 'std::deque', 'std::basic_string', 'std::queue', 'std::list', 'std::array', 'std::stack', 'std::initializer_list', 'std::basic_string_view']


def seqm(*ops):
    def d(f):
        for c in SEQN:
            for o in ops:
                MODELS[c + '::' + o] = f
        return f
    return d


def argtk(I, e, i):
    return I.p.tk(e['args'][i]['t'])


def objtk(I, e):
    t = I.p.tk(e['obj']['t'])
    if e.get('arrow'):
        t = t.sub('to') or t
    return t


def aval(I, st, e, args, i):
    """value of the i-th argument"""
    a = args[i]
    if e['args'][i].get('lv') and isinstance(a, tuple):
        tk = argtk(I, e, i)
        if tk.k == 'rec':
            return V('rec', I.resolve(st, a), tk.rec)
        if tk.k == 'opq':
            return ptr(a)
        if tk.k == 'seq':
            return I.load_seq(st, a, tk)
        return I.load(st, a, tk)
    return a


def cstr(I, st, v):
    """the characters of a C string"""
    if v.k != 'iter':
        return wholeseq(sbase(('cstr', v), 'char'))
    cont = I.load_seq(st, v.a[0], None)
    segs = cont.a[0]
    if v.a[1].is_const():
        i, out = 0, []
        for s in segs:
            if s[0] != 'e':
                return wholeseq(sbase(('cstr', v), 'char'))
            if i >= v.a[1].c:
                if s[1] == L(0):
                    return V('seq', normsegs(tuple(out)))
                out.append(s)
            i += 1
    return wholeseq(sbase(('cstr', v), 'char'))


def as_seq(I, st, v, tk):
    if isinstance(v, V) and v.k == 'seq':
        return v
    if isinstance(v, V) and v.k in ('iter', 'psym', 'null', 'ptr'):
        return cstr(I, st, v)
    if isinstance(v, Lin):
        return seq(('e', v))
    return wholeseq(sbase(('asseq', v), 'char'))


def conc(a, b):
    return V('seq', normsegs(a.a[0] + b.a[0]))


def rangeseq(I, st, first, last):
    """[(state, seq)] elements first..last"""
    if not (isinstance(first, V) and first.k == 'iter' and isinstance(last, V) and last.k == 'iter' and first.a[0] == last.a[0]):
        I.note(st, 'range')
        return [(st, wholeseq(sbase(('range', first, last), 'char')))]
    cont = I.load_seq(st, first.a[0], None)
    lo, hi = first.a[1], last.a[1]
    if first.a[2]:
        out = []
        for s, q in I.seq_sub(st, cont, hi, lo):
            out.append((s, reverse(q)))
        return out
    if first.a[0][0] == 'buf':
        b = cont.a[0][0]
        return [(st, V('seq', normsegs((('s', b[1], lo, hi),))))]
    bad = or_(cmp_('<', lo, 0), cmp_('>', hi, seqlen(cont.a[0])), cmp_('>', lo, hi))
    out = []
    for s in I.ub(st, 'range', bad, I.cure):
        out += I.seq_sub(s, cont, lo, hi)
    return out


def reverse(q):
    out = []
    for s in reversed(q.a[0]):
        if s[0] == 's':
            out.append(('v', s[1], s[2], s[3]))
        elif s[0] == 'v':
            out.append(('s', s[1], s[2], s[3]))
        elif s[0] in ('e', 'r'):
            out.append(s)
        elif s[0] == 'c' and len(s[2]) == 1:
            k = s[1]
            out.append(('c', k, tuple(subst(s[2], lambda y: s[3] - 1 - L(k) if y is k else None)), s[3]))
        else:
            out.append(('l', ('rev', s), 'r', seglen(s)))
    return V('seq', normsegs(tuple(out)))


def build_seq(I, st, tk, vals, tks, e, sequ=True):
    """constructs a string/vector/deque value from constructor arguments: [(state, seq)]"""
    pairs = [(v, t) for v, t in zip(vals, tks) if not (t.k == 'opq' and t.base and t.base.startswith('std::allocator')) and not (t.k == 'rec' and t.base == 'std::allocator')]
    vals = [v for v, _ in pairs]
    tks = [t for _, t in pairs]
    n = len(vals)
    isstr = tk.base in ('std::basic_string', 'std::basic_string_view')
    if n == 0:
        return [(st, EMPTY)]
    if n == 1:
        v = vals[0]
        if isinstance(v, V) and v.k == 'seq':
            return [(st, v)]
        if isinstance(v, Lin) and not isstr:
            et = tk.sub('elem')
            d = et.default() if et is not None else None
            I.cure = e
            out = []
            for s in I.ub(st, 'length', cmp_('>', v, 2 ** 62), e):
                out.append((s, V('seq', normsegs((('r', d if d is not None else term('dflt'), v),)))))
            return out
        if isinstance(v, Lin):
            return [(st, seq(('e', v)))]
        return [(st, as_seq(I, st, v, tks[0]))]
    if n == 2:
        a, b = vals
        if isinstance(a, V) and a.k == 'iter' and isinstance(b, V) and b.k == 'iter':
            I.cure = e
            return rangeseq(I, st, a, b)
        if isinstance(a, Lin):
            out = []
            for s in I.ub(st, 'length', or_(cmp_('>', a, 2 ** 62), cmp_('<', a, 0)), e):
                out.append((s, V('seq', normsegs((('r', b, a),)))))
            return out
        if isinstance(a, V) and a.k in ('iter',) and isinstance(b, Lin):       # (const char*, n)
            cont = I.load_seq(st, a.a[0], None)
            if a.a[0][0] == 'buf':
                return [(st, V('seq', normsegs((('s', cont.a[0][0][1], a.a[1], a.a[1] + b),))))]
            out = []
            for s in I.ub(st, 'range', or_(cmp_('>', a.a[1] + b, seqlen(cont.a[0])), cmp_('<', b, 0)), e):
                out += I.seq_sub(s, cont, a.a[1], a.a[1] + b)
            return out
        if isinstance(a, V) and a.k == 'seq' and isinstance(b, Lin):            # (string, pos)
            return substr(I, st, a, b, None, e)
    if n == 3 and isinstance(vals[0], V) and vals[0].k == 'seq' and isinstance(vals[1], Lin):
        return substr(I, st, vals[0], vals[1], vals[2], e)
    I.note(st, 'seq construction')
    return [(st, wholeseq(sbase(('built', st.fresh()), tk.elemkind())))]


@ctor('std::basic_string', 'std::vector', 'std::deque', 'std::queue', 'std::list', 'std::initializer_list', 'std::array', 'std::stack', 'std::basic_string_view')
def c_seq(I, st, fr, e, tk, args):
    vals = [aval(I, st, e, args, i) for i in range(len(args))]
    tks = [argtk(I, e, i) for i in range(len(args))]
    if e.get('move') and isinstance(args[0], tuple) and e['args'][0].get('lv') and e['args'][0]['k'] != 'mat':
        I.put(st, args[0], EMPTY)
    return build_seq(I, st, tk, vals, tks, e)


@ctor('#sptr')
def c_sptr(I, st, fr, e, tk, args):
    if not args:
        return [(st, NULL)]
    v = aval(I, st, e, args, 0)
    if isinstance(args[0], tuple) and e['args'][0].get('lv'):
        f = I.p.fn(e['f'])
        ptk = I.p.tk(f['ps'][0]['t']) if f and f['ps'] else None
        if (e.get('move') or (ptk is not None and ptk.t.get('rv'))):
            I.put(st, args[0], NULL)
    if isinstance(v, V) and v.k == 'weak':
        return lock(I, st, v)
    return [(st, v if isinstance(v, V) else NULL)]


@ctor('#wptr')
def c_wptr(I, st, fr, e, tk, args):
    if not args:
        return [(st, V('weak', NULL))]
    v = aval(I, st, e, args, 0)
    if isinstance(v, V) and v.k == 'weak':
        if e.get('move') and isinstance(args[0], tuple) and e['args'][0].get('lv'):
            I.put(st, args[0], V('weak', NULL))
        return [(st, v)]
    return [(st, V('weak', v))]


@ctor('#func')
def c_func(I, st, fr, e, tk, args):
    if not args:
        return [(st, NOFN)]
    return [(st, tofunc(I, st, e, args, 0))]


def tofunc(I, st, e, args, i):
    v = aval(I, st, e, args, i)
    if isinstance(v, V):
        if v.k == 'null':
            return NOFN
        if v.k == 'ptr':
            w = st.store.get(v.a[0])
            if isinstance(w, V) and w.k in ('clo', 'fsym', 'nofn'):
                return w
        return v
    return v


@ctor('#iter')
def c_iter(I, st, fr, e, tk, args):
    if not args:
        return [(st, V('iter', ('o', 'singular'), L(0), False))]
    v = aval(I, st, e, args, 0)
    if tk.base == 'std::reverse_iterator' and isinstance(v, V) and v.k == 'iter' and not e.get('copy') and not e.get('move') and argtk(I, e, 0).base != 'std::reverse_iterator':
        v = V('iter', v.a[0], v.a[1], not v.a[2])
    return [(st, v)]


@ctor('#guard')
def c_guard(I, st, fr, e, tk, args):
    if e.get('move') or e.get('copy'):
        v = aval(I, st, e, args, 0)
        if e.get('move') and isinstance(args[0], tuple) and isinstance(v, V) and v.k == 'guard':
            I.put(st, args[0], V('guard', v.a[0], False))
        return [(st, v)]
    if not args:
        return [(st, V('guard', NULL, False))]
    m = ptr(args[0]) if isinstance(args[0], tuple) else args[0]
    if len(args) > 1:
        t = argtk(I, e, 1)
        if 'defer_lock' in t.s:
            return [(st, V('guard', m, False))]
        if 'adopt_lock' in t.s:
            return [(st, V('guard', m, True))]
        I.note(st, 'lock form')
    I.locking(st, 'lock', m, e)
    st.guards.append(('guard', m))
    return [(st, V('guard', m, True))]


@ctor('std::pair')
def c_pair(I, st, fr, e, tk, args):
    if (e.get('copy') or e.get('move')) or (len(args) == 1):
        v = aval(I, st, e, args, 0)
        return [(st, v)]
    return mkpair(I, st, fr, e, tk, args)


def mkpair(I, st, fr, e, tk, args):
    r = I.newroot(st)
    a = tk.t.get('a', [])
    for i, fk in enumerate(('pair::first', 'pair::second')):
        if i < len(args):
            v = aval(I, st, e, args, i)
            et = I.p.tk(a[i]['t'])
            if et.k == 'seq' and isinstance(v, V) and v.k != 'seq':
                v = as_seq(I, st, v, None)
            I.store_val(st, r + (fk,), v)
        else:
            d = I.p.tk(a[i]['t']).default()
            if d is not None:
                st.store[r + (fk,)] = d
    return [(st, V('rec', r, tk.rec))]


@model('std::make_pair')
def m_make_pair(I, st, fr, e, obj, args):
    return mkpair(I, st, fr, e, I.p.tk(e['t']), args)


@model('std::move', 'std::forward', 'std::move_if_noexcept', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref')
def m_move(I, st, fr, e, obj, args):
    if e['sn'] == 'addressof':
        return [(st, ptr(args[0]))]
    if e['sn'] in ('ref', 'cref'):
        return [(st, ptr(args[0]))]
    if e['sn'] == 'move' and len(args) == 3:
        return m_copy(I, st, fr, e, obj, args)
    return [(st, args[0])]


def oloc(I, st, obj, e):
    return I.deref(st, obj, e)


# ------------------------------------------------------------ sequences
def with_seq(f):
    """adapts f(I, s, fr, e, loc, seqvalue, args)"""
    def g(I, st, fr, e, obj, args):
        out = []
        I.cure = e
        tk = objtk(I, e)
        for s, loc in oloc(I, st, obj, e):
            v = I.load_seq(s, loc, tk)
            out += f(I, s, fr, e, loc, v, args, tk)
        return out
    return g


@seqm('size', 'length')
@with_seq
def m_size(I, st, fr, e, loc, v, args, tk):
    return [(st, seqlen(v.a[0]))]


@seqm('empty')
@with_seq
def m_empty(I, st, fr, e, loc, v, args, tk):
    return [(st, cmp_('<=', seqlen(v.a[0]), 0))]


@seqm('clear')
@with_seq
def m_clear(I, st, fr, e, loc, v, args, tk):
    I.put(st, loc, EMPTY)
    return [(st, VOID)]


@seqm('reserve', 'shrink_to_fit')
@with_seq
def m_reserve(I, st, fr, e, loc, v, args, tk):
    return [(st, VOID)]


@seqm('begin', 'cbegin', 'data', 'c_str')
@with_seq
def m_begin(I, st, fr, e, loc, v, args, tk):
    if e['sn'] in ('c_str',) or (e['sn'] == 'data' and tk.base == 'std::basic_string'):
        r = I.newroot(st)
        st.store[r] = V('seq', normsegs(v.a[0] + (('e', L(0)),)))
        # remembers the contents as a string
        return [(st, V('iter', loc if e['sn'] == 'data' else ('cs',) + r, L(0), False))] if False else [(st, V('iter', r, L(0), False))]
    return [(st, V('iter', loc, L(0), False))]


@seqm('end', 'cend')
@with_seq
def m_end(I, st, fr, e, loc, v, args, tk):
    return [(st, V('iter', loc, seqlen(v.a[0]), False))]


@seqm('rbegin', 'crbegin')
@with_seq
def m_rbegin(I, st, fr, e, loc, v, args, tk):
    return [(st, V('iter', loc, seqlen(v.a[0]), True))]


@seqm('rend', 'crend')
@with_seq
def m_rend(I, st, fr, e, loc, v, args, tk):
    return [(st, V('iter', loc, L(0), True))]


def elem_value(I, st, tk, e, args, i0=0):
    """[(state, value)] of a new element from the arguments of emplace/push"""
    et = tk.sub('elem')
    vals = [aval(I, st, e, args, i) for i in range(i0, len(args))]
    tks = [argtk(I, e, i) for i in range(i0, len(args))]
    if et is not None and et.k == 'seq':
        if et.base == 'std::basic_string':
            for i, (v, t) in enumerate(zip(vals, tks)):
                if isinstance(v, V) and v.k == 'seq' and t.t['k'] == 'array' and not seqlen(v.a[0]).t:
                    # a literal decays to a C string
                    vals[i] = V('seq', normsegs(I.split_seq(st, v.a[0], seqlen(v.a[0]) - 1)[0][1]))
        return build_seq(I, st, et, vals, tks, e)
    if et is not None and et.k == 'rec':
        if len(vals) == 1 and isinstance(vals[0], V) and vals[0].k == 'rec':
            r = I.newroot(st)
            I.copy_rec(st, r, vals[0].a[0], vals[0].a[1])
            return [(st, V('rec', r, vals[0].a[1]))]
        if et.base == 'std::pair' and len(vals) == 2:
            r = I.newroot(st)
            st.store[r + ('pair::first',)] = vals[0]
            st.store[r + ('pair::second',)] = vals[1]
            return [(st, V('rec', r, et.rec))]
    if et is not None and et.k == 'func':
        return [(st, tofunc(I, st, e, args, i0) if vals else NOFN)]
    if vals:
        if et is not None and et.k == 'sptr' and isinstance(args[i0], tuple) and e['args'][i0]['k'] == 'call' and e['args'][i0].get('sn') == 'move':
            I.put(st, args[i0], NULL)
        return [(st, vals[0])]
    d = et.default() if et is not None else None
    return [(st, d if d is not None else term('dflt'))]


@seqm('push_back', 'emplace_back', 'push', 'emplace_last')
@with_seq
def m_push_back(I, st, fr, e, loc, v, args, tk):
    out = []
    for s, x in elem_value(I, st, tk, e, args):
        v2 = I.load_seq(s, loc, tk)
        I.put(s, loc, V('seq', normsegs(v2.a[0] + (('e', x),))))
        out.append((s, loc + (('[]', seqlen(v2.a[0])),) if e.get('lv') else VOID))
    return out


@seqm('push_front', 'emplace_front')
@with_seq
def m_push_front(I, st, fr, e, loc, v, args, tk):
    out = []
    for s, x in elem_value(I, st, tk, e, args):
        v2 = I.load_seq(s, loc, tk)
        I.put(s, loc, V('seq', normsegs((('e', x),) + v2.a[0])))
        out.append((s, loc + (('[]', L(0)),) if e.get('lv') else VOID))
    return out


@seqm('pop_back', 'pop_front', 'pop')
@with_seq
def m_pop(I, st, fr, e, loc, v, args, tk):
    out = []
    n = seqlen(v.a[0])
    back = e['sn'] == 'pop_back' or (e['sn'] == 'pop' and tk.base == 'std::stack')
    for s in I.ub(st, 'empty', cmp_('<=', n, 0), e):
        cut = n - 1 if back else L(1)
        for s2, a, b in I.split_seq(s, v.a[0], cut):
            I.put(s2, loc, V('seq', normsegs(a if back else b)))
            out.append((s2, VOID))
    return out


def inseg(st, v, i):
    """the states in which it is decided which part of a sequence the index falls into"""
    segs = v.a[0]
    xs = [st]
    if 1 < len(segs) <= 3 and not all(g[0] == 'e' for g in segs):
        pos = L(0)
        for g in segs[:-1]:
            pos = pos + seglen(g)
            xs = [w for y in xs for zz in y.split(cmp_('<', i, pos)) for w in zz]
    return xs


@seqm('front')
@with_seq
def m_front(I, st, fr, e, loc, v, args, tk):
    return [(x, loc + (('[]', L(0)),)) for s in I.ub(st, 'empty', cmp_('<=', seqlen(v.a[0]), 0), e) for x in inseg(s, v, L(0))]


@seqm('back', 'top')
@with_seq
def m_back(I, st, fr, e, loc, v, args, tk):
    n = seqlen(v.a[0])
    return [(x, loc + (('[]', n - 1),)) for s in I.ub(st, 'empty', cmp_('<=', n, 0), e) for x in inseg(s, v, n - 1)]


@seqm('operator[]')
@with_seq
def m_index(I, st, fr, e, loc, v, args, tk):
    out = []
    n = seqlen(v.a[0])
    i0 = aval(I, st, e, args, 0)
    for s, i in I.toint(st, i0):
        isstr = tk.base == 'std::basic_string'
        bad = or_(cmp_('<', i, 0), cmp_('>', i, n) if isstr else cmp_('>=', i, n))
        for s2 in I.ub(s, 'bounds', bad, e):
            if isstr:
                a, b = s2.split(cmp_('<', i, n))
                out += [(x, loc + (('[]', i),)) for x in a]
                for x in b:
                    r = I.newroot(x)
                    x.store[r] = L(0)
                    out.append((x, r))
            else:
                out += [(x, loc + (('[]', i),)) for x in inseg(s2, v, i)]
    return out


@seqm('at')
@with_seq
def m_at(I, st, fr, e, loc, v, args, tk):
    out = []
    n = seqlen(v.a[0])
    for s, i in I.toint(st, aval(I, st, e, args, 0)):
        a, b = s.split(and_(cmp_('>=', i, 0), cmp_('<', i, n)))
        out += [(y, loc + (('[]', i),)) for x in a for y in (inseg(x, v, i) if tk.base != 'std::basic_string' else [x])]
        for x in b:
            exc = V('exc', 'std::out_of_range', None, L(0))
            I.event(x, 'throw', 'std::out_of_range', exc, e=e)
            I.sink.append((x, exc))
    return out


@seqm('erase')
@with_seq
def m_erase(I, st, fr, e, loc, v, args, tk):
    vals = [aval(I, st, e, args, i) for i in range(len(args))]
    n = seqlen(v.a[0])
    if isinstance(vals[0], Lin):        # string::erase(pos, n)
        pos = vals[0]
        cnt = vals[1] if len(vals) > 1 else L(2 ** 64 - 1)
        out = []
        a, b = st.split(cmp_('<=', pos, n))
        for x in b:
            exc = V('exc', 'std::out_of_range', None, L(0))
            I.sink.append((x, exc))
        for s in a:
            c, d = s.split(cmp_('<=', pos + cnt, n))
            for s1 in c:
                out += del_range(I, s1, loc, v, pos, pos + cnt, loc)
            for s1 in d:
                out += del_range(I, s1, loc, v, pos, n, loc)
        return out
    lo = vals[0].a[1]
    if len(vals) == 1:
        hi = lo + 1
        bad = or_(cmp_('<', lo, 0), cmp_('>=', lo, n))
    else:
        hi = vals[1].a[1]
        bad = or_(cmp_('<', lo, 0), cmp_('>', hi, n), cmp_('>', lo, hi))
    out = []
    for s in I.ub(st, 'erase', bad, e):
        I.event(s, 'erase', None, ptr(loc), [lo, hi, v], e=e)
        out += del_range(I, s, loc, v, lo, hi, V('iter', loc, lo, False))
    return out


def del_range(I, st, loc, v, lo, hi, res):
    out = []
    for s, a, b in I.split_seq(st, v.a[0], lo):
        for s2, c, d in I.split_seq(s, b, L(hi) - L(lo)):
            I.put(s2, loc, V('seq', normsegs(a + d)))
            out.append((s2, res))
    return out


@seqm('insert', 'emplace')
@with_seq
def m_insert(I, st, fr, e, loc, v, args, tk):
    if tk.base in ('std::queue', 'std::stack'):
        return m_push_back(I, st, fr, e, ptr(loc), args)
    vals = [aval(I, st, e, args, i) for i in range(len(args))]
    n = seqlen(v.a[0])
    out = []
    if isinstance(vals[0], Lin):
        pos = vals[0]
        news = build_seq(I, st, tk, vals[1:], [argtk(I, e, i) for i in range(1, len(args))], e)
    else:
        if vals[0].k != 'iter':
            I.note(st, 'insert position')
            return [(st, V('iter', loc, L(0), False))]
        pos = vals[0].a[1]
        if len(vals) == 2:
            if isinstance(vals[1], V) and vals[1].k == 'seq' and tk.sub('elem') is not None and tk.sub('elem').k != 'seq':
                news = [(st, vals[1])]
            else:
                news = [(s, seq(('e', x))) for s, x in elem_value(I, st, tk, e, args, 1)]
        elif isinstance(vals[1], V) and vals[1].k == 'iter':
            news = rangeseq(I, st, vals[1], vals[2])
        else:
            news = [(st, V('seq', normsegs((('r', vals[2], vals[1]),))))]
    for s, q in news:
        for s1 in I.ub(s, 'insert', or_(cmp_('<', pos, 0), cmp_('>', pos, n)), e):
            for s2, a, b in I.split_seq(s1, v.a[0], pos):
                I.put(s2, loc, V('seq', normsegs(a + q.a[0] + b)))
                out.append((s2, V('iter', loc, L(pos), False) if not isinstance(vals[0], Lin) else loc))
    return out


@seqm('resize')
@with_seq
def m_resize(I, st, fr, e, loc, v, args, tk):
    n = seqlen(v.a[0])
    m = aval(I, st, e, args, 0)
    out = []
    a, b = st.split(cmp_('<=', m, n))
    for s in a:
        for s2, q in I.seq_sub(s, v, 0, m):
            I.put(s2, loc, q)
            out.append((s2, VOID))
    et = tk.sub('elem')
    d = aval(I, st, e, args, 1) if len(args) > 1 else (et.default() if et else None)
    for s in b:
        I.put(s, loc, V('seq', normsegs(v.a[0] + (('r', d if d is not None else term('dflt'), m - n),))))
        out.append((s, VOID))
    return out


@seqm('swap')
@with_seq
def m_swap(I, st, fr, e, loc, v, args, tk):
    o = args[0]
    w = I.load_seq(st, o, tk)
    I.put(st, loc, w)
    I.put(st, o, v)
    return [(st, VOID)]


@model('std::swap', 'std::exchange')
def m_stdswap(I, st, fr, e, obj, args):
    a = args[0]
    tk = argtk(I, e, 0)
    v = aval(I, st, e, args, 0)
    w = aval(I, st, e, args, 1)
    I.store_val(st, a, w)
    if e['sn'] == 'swap':
        I.store_val(st, args[1], v)
        return [(st, VOID)]
    return [(st, v)]


@seqm('operator=', 'assign')
@with_seq
def m_assign(I, st, fr, e, loc, v, args, tk):
    vals = [aval(I, st, e, args, i) for i in range(len(args))]
    out = []
    f = I.p.fn(e['f'])
    rvref = f and f['ps'] and I.p.tk(f['ps'][0]['t']).t.get('rv')
    for s, q in build_seq(I, st, tk, vals, [argtk(I, e, i) for i in range(len(args))], e):
        if rvref and isinstance(args[0], tuple) and e['args'][0].get('lv') and e['args'][0]['k'] != 'mat' and args[0] != loc:
            I.put(s, args[0], EMPTY)
        I.put(s, loc, q)
        out.append((s, loc))
    return out


@seqm('operator+=', 'append')
@with_seq
def m_append(I, st, fr, e, loc, v, args, tk):
    vals = [aval(I, st, e, args, i) for i in range(len(args))]
    out = []
    for s, q in build_seq(I, st, tk, vals, [argtk(I, e, i) for i in range(len(args))], e):
        I.put(s, loc, conc(I.load_seq(s, loc, tk), q))
        out.append((s, loc))
    return out


def substr(I, st, v, pos, cnt, e):
    n = seqlen(v.a[0])
    out = []
    a, b = st.split(cmp_('<=', pos, n))
    for x in b:
        exc = V('exc', 'std::out_of_range', None, L(0))
        I.event(x, 'throw', 'std::out_of_range', exc, e=e)
        I.sink.append((x, exc))
    for s in a:
        if cnt is None:
            out += I.seq_sub(s, v, pos, n)
            continue
        c, d = s.split(cmp_('<=', L(pos) + cnt, n))
        for s1 in c:
            out += I.seq_sub(s1, v, pos, L(pos) + cnt)
        for s1 in d:
            out += I.seq_sub(s1, v, pos, n)
    return out


@seqm('substr')
@with_seq
def m_substr(I, st, fr, e, loc, v, args, tk):
    pos = aval(I, st, e, args, 0) if args else L(0)
    cnt = aval(I, st, e, args, 1) if len(args) > 1 else None
    if cnt is not None and cnt == L(2 ** 64 - 1):
        cnt = None
    return substr(I, st, v, pos, cnt, e)


NPOS = 2 ** 64 - 1


@seqm('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')
@with_seq
def m_find(I, st, fr, e, loc, v, args, tk):
    what = as_seq(I, st, aval(I, st, e, args, 0), argtk(I, e, 0))
    pos = aval(I, st, e, args, 1) if len(args) > 1 else None
    sn = e['sn']
    n = seqlen(v.a[0])
    if sn == 'rfind' and pos == L(0) or sn == 'find' and False:
        # starts with
        a, b = st.split(prefixcond(I, st, v, what))
        return [(s, L(0)) for s in a] + [(s, L(NPOS)) for s in b]
    text = constchars(v)
    if text is not None and len(what.a[0]) == 1 and what.a[0][0][0] == 'e' and isinstance(what.a[0][0][1], Lin) and what.a[0][0][1].t and \
            sn in ('find', 'rfind', 'find_first_of', 'find_last_of') and (pos is None or pos == L(0) and sn in ('find', 'find_first_of')) and len(set(text)) <= 24:
        # one unknown character in a constant text
        x = what.a[0][0][1]
        out = []
        rest = [st]
        for ch in dict.fromkeys(text):
            i = text.index(ch) if sn in ('find', 'find_first_of') else len(text) - 1 - text[::-1].index(ch)
            nxt = []
            for s in rest:
                a, b = s.split(cmp_('==', x, L(ch)))
                out += [(y, L(i)) for y in a]
                nxt += b
            rest = nxt
        return out + [(s, L(NPOS)) for s in rest]
    pat = constchars(what)
    if sn in ('find', 'find_first_of', 'find_first_not_of') and pat is not None and pat and (len(pat) == 1 or sn != 'find') and tk.sub('elem') is not None and tk.sub('elem').k == 'int':
        return findloop(I, st, fr, e, v, frozenset(pat), sn, pos if pos is not None else L(0), n)
    # found at r, or npos
    key = ('find', sn, v, what, pos)
    out = []
    c = pred('found', key)
    a, b = st.split(c)
    m = seqlen(what.a[0]) if sn in ('find', 'rfind') else L(1)
    for s in a:
        r = L(sym(key, 0, 2 ** 62))
        cs = [cmp_('<=', r + m, n)]
        if pos is not None and sn in ('find', 'find_first_of', 'find_first_not_of'):
            cs.append(cmp_('>=', r, pos))
        for s2 in s.assume(and_(*cs)):
            # the character found
            if sn in ('find_first_not_of', 'find_last_not_of', 'find_first_of', 'find_last_of') or (sn in ('find', 'rfind') and m == L(1)):
                cs2 = [x[1].c for x in what.a[0] if x[0] == 'e' and isinstance(x[1], Lin) and x[1].is_const()]
                if len(cs2) == len(what.a[0]):
                    el = I.seq_at(s2, v, r, None)
                    if isinstance(el, Lin) and el.single() is not None and el.single().fin is not None:
                        inn = in_(el.single(), el.single().fin & frozenset(cs2))
                        c2 = neg(inn) if 'not_of' in sn else inn
                        out += [(x, r) for x in s2.assume(c2)]
                        continue
            out.append((s2, r))
    out += [(s, L(NPOS)) for s in b]
    return out


def findloop(I, st, fr, e, v, pat, sn, pos, n):
    """the first character of a text, from pos on, that is (not) one of a set"""
    out = []
    inside, outside = st.split(cmp_('<=', pos, n))
    for s in inside:
        loc = ('v', s.fresh(), '#text')
        s.store[loc] = v

        def test(x, l):
            q = I.seq_at(x, v, l[-1][1], None)
            c = or_(*[cmp_('==', q, L(ch)) for ch in sorted(pat)]) if isinstance(q, Lin) else pred('unk', x.fresh())
            return [(x, neg(c) if sn == 'find_first_not_of' else c)]
        for t, found, i in rangesearch(I, s, fr, e, V('iter', loc, pos, False), V('iter', loc, n, False), test, 'find'):
            t.store.pop(loc, None)
            out.append((t, i if found else L(NPOS)))
    return out + [(s, L(NPOS)) for s in outside]


def rangesearch(*a):
    from .algorithms import prange
    return prange(*a)


def constchars(v):
    """the characters of a constant string"""
    out = []
    for g in v.a[0]:
        if g[0] == 'e' and isinstance(g[1], Lin) and not g[1].t:
            out.append(g[1].c)
        else:
            return None
    return out


def prefixcond(I, st, v, p):
    """condition: v starts with p"""
    if v == p:
        return T
    lp, lv = seqlen(p.a[0]), seqlen(v.a[0])
    if st.entails(cmp_('==', lp, 0)):
        return T
    if not st.can(cmp_('<=', lp, lv)):
        return F
    return and_(cmp_('<=', lp, lv), pred('prefix', p, v))


@seqm('compare')
@with_seq
def m_compare(I, st, fr, e, loc, v, args, tk):
    if len(args) == 1:
        w = as_seq(I, st, aval(I, st, e, args, 0), argtk(I, e, 0))
        c = seqeq(I, st, v, w)
        a, b = st.split(c)
        return [(s, L(0)) for s in a] + [(s, L(sym(('cmp', v, w), None, None))) for x in b for s in x.assume(cmp_('!=', L(sym(('cmp', v, w), None, None)), 0))]
    if len(args) == 3:
        pos, cnt = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
        w = as_seq(I, st, aval(I, st, e, args, 2), argtk(I, e, 2))
        if pos == L(0) and cnt == seqlen(w.a[0]):
            a, b = st.split(prefixcond(I, st, v, w))
            r = L(sym(('cmp3', v, w), None, None))
            return [(s, L(0)) for s in a] + [(s, r) for x in b for s in x.assume(cmp_('!=', r, 0))]
        out = []
        for s, q in substr(I, st, v, pos, cnt, e):
            a, b = s.split(seqeq(I, s, q, w))
            r = L(sym(('cmp', q, w), None, None))
            out += [(x, L(0)) for x in a] + [(x, r) for y in b for x in y.assume(cmp_('!=', r, 0))]
        return out
    I.note(st, 'compare')
    return [(st, L(sym(('cmp', st.fresh()), None, None)))]


def seqeq(I, st, a, b):
    """condition: equal sequences"""
    if a == b:
        return T
    la, lb = seqlen(a.a[0]), seqlen(b.a[0])
    if not st.can(cmp_('==', la, lb)):
        return F
    if la == L(0) or lb == L(0):
        return cmp_('==', la, lb)
    sa, sb = a.a[0], b.a[0]
    if len(sa) == len(sb) and all(x[0] == 'e' for x in sa) and all(x[0] == 'e' for x in sb) and all(isinstance(x[1], Lin) for x in sa + sb):
        return and_(*[cmp_('==', x[1], y[1]) for x, y in zip(sa, sb)])
    if repr(b) < repr(a):
        a, b = b, a
    return pred('seqeq', a, b)


@model('std::operator==', 'std::operator!=', 'std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<',
       '__gnu_cxx::operator<=', '__gnu_cxx::operator>', '__gnu_cxx::operator>=')
def m_cmp(I, st, fr, e, obj, args):
    a, b = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    op = e['op']
    if any((I.p.tk(x['t']).base or '').startswith('std::fpos') for x in e['args'][:2]):
        return [(st, pred('fposcmp', op, st.fresh()))]
    if isinstance(a, V) and isinstance(b, V):
        if a.k == 'seq' or b.k == 'seq':
            a, b = as_seq(I, st, a, None), as_seq(I, st, b, None)
            if op in ('==', '!='):
                c = seqeq(I, st, a, b)
                return [(st, c if op == '==' else neg(c))]
            return [(st, pred('seqcmp', op, a, b))]
        if a.k in ('fsym', 'nofn', 'clo') or b.k in ('fsym', 'nofn', 'clo'):
            x = a if b.k in ('null', 'nofn') else b
            c = neg(I.nonnull(x))
            return [(st, c if op == '==' else neg(c))]
    return I.binop(st, op, a, b, I.p.tk(e['t']), e)


@seqm('operator==', 'operator!=')
def m_mcmp(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        v = I.load_seq(s, loc, objtk(I, e))
        c = seqeq(I, s, v, as_seq(I, s, aval(I, s, e, args, 0), None))
        out.append((s, c if e['op'] == '==' else neg(c)))
    return out


@model('std::operator+')
def m_plus(I, st, fr, e, obj, args):
    a, b = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if I.p.tk(e['t']).k == 'iter':
        return I.binop(st, '+', a, b, I.p.tk(e['t']), e)
    return [(st, conc(as_seq(I, st, a, None), as_seq(I, st, b, None)))]


@model('std::to_string')
def m_tostring(I, st, fr, e, obj, args):
    return [(st, wholeseq(sbase(('num', aval(I, st, e, args, 0)), 'char')))]


# ------------------------------------------------------------ iterators
ITN = ['__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::move_iterator', 'std::reverse_iterator', 'std::_List_iterator', 'std::_List_const_iterator']


def iterm(*ops):
    def d(f):
        for c in ITN:
            for o in ops:
                MODELS[c + '::' + o] = f
        return f
    return d


def iter_of(I, st, e, obj):
    if obj.k == 'iter':
        return obj, None
    if obj.k == 'ptr':
        v = I.load(st, obj.a[0], objtk(I, e))
        return v, obj.a[0]
    return obj, None


@iterm('operator*', 'operator->')
def i_deref(I, st, fr, e, obj, args):
    v, _ = iter_of(I, st, e, obj)
    if v.k != 'iter':
        return [(st, ('o', ('deref', v)))]
    idx = v.a[1] - 1 if v.a[2] else v.a[1]
    cont = v.a[0]
    out = []
    sv = st.store.get(cont)
    if sv is not None and sv.k == 'seq' and cont[0] != 'buf':
        ss = I.ub(st, 'bounds', or_(cmp_('<', idx, 0), cmp_('>=', idx, seqlen(sv.a[0]))), e)
    else:
        ss = [st]
    for s in ss:
        loc = cont + (('[]', idx),)
        for x in inseg(s, sv, idx) if sv is not None and sv.k == 'seq' else [s]:
            if e['sn'] == 'operator->':
                out.append((x, ptr(I.resolve(x, loc))))
            else:
                out.append((x, loc))
    return out


@iterm('operator++', 'operator--')
def i_inc(I, st, fr, e, obj, args):
    v, loc = iter_of(I, st, e, obj)
    if v.k != 'iter':
        I.note(st, 'iterator')
        return [(st, loc if e.get('lv') else v)]
    d = 1 if e['sn'] == 'operator++' else -1
    if v.a[2]:
        d = -d
    n = V('iter', v.a[0], v.a[1] + d, v.a[2])
    if loc is not None:
        I.put(st, loc, n)
    return [(st, loc if e.get('lv') else (v if args else n))]


@iterm('operator+', 'operator-', 'operator+=', 'operator-=')
def i_arith(I, st, fr, e, obj, args):
    v, loc = iter_of(I, st, e, obj)
    n = aval(I, st, e, args, 0)
    op = e['sn'][8:]
    out = []
    for s, r in I.binop(st, op[0], v, n, I.p.tk(e['t']), e):
        if op.endswith('='):
            I.put(s, loc, r)
            out.append((s, loc))
        else:
            out.append((s, r))
    return out


@iterm('operator=')
def i_assign(I, st, fr, e, obj, args):
    I.put(st, obj.a[0], aval(I, st, e, args, 0))
    return [(st, obj.a[0])]


@iterm('operator[]')
def i_index(I, st, fr, e, obj, args):
    v, loc = iter_of(I, st, e, obj)
    n = aval(I, st, e, args, 0)
    return [(st, v.a[0] + (('[]', v.a[1] + n),))]


@iterm('base')
def i_base(I, st, fr, e, obj, args):
    v, loc = iter_of(I, st, e, obj)
    return [(st, V('iter', v.a[0], v.a[1], False) if v.k == 'iter' else v)]


@iterm('operator==', 'operator!=', 'operator<')
def i_cmp(I, st, fr, e, obj, args):
    v, loc = iter_of(I, st, e, obj)
    return I.binop(st, e['sn'][8:], v, aval(I, st, e, args, 0), I.p.tk(e['t']), e)


@model('__gnu_cxx::operator-', 'std::operator-')
def m_itdiff(I, st, fr, e, obj, args):
    a, b = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    return I.binop(st, '-', a, b, I.p.tk(e['t']), e)


@model('__gnu_cxx::operator+')
def m_itplus(I, st, fr, e, obj, args):
    return I.binop(st, '+', aval(I, st, e, args, 0), aval(I, st, e, args, 1), I.p.tk(e['t']), e)


@model('std::make_move_iterator')
def m_mmi(I, st, fr, e, obj, args):
    return [(st, aval(I, st, e, args, 0))]


@model('std::make_reverse_iterator')
def m_mri(I, st, fr, e, obj, args):
    v = aval(I, st, e, args, 0)
    return [(st, V('iter', v.a[0], v.a[1], not v.a[2]))]


@model('std::next', 'std::prev')
def m_next(I, st, fr, e, obj, args):
    v = aval(I, st, e, args, 0)
    n = aval(I, st, e, args, 1) if len(args) > 1 else L(1)
    return I.binop(st, '+' if e['sn'] == 'next' else '-', v, n, I.p.tk(e['t']), e)


@model('std::advance')
def m_advance(I, st, fr, e, obj, args):
    v = aval(I, st, e, args, 0)
    out = []
    for s, r in I.binop(st, '+', v, aval(I, st, e, args, 1), argtk(I, e, 0), e):
        I.put(s, args[0], r)
        out.append((s, VOID))
    return out


@model('std::distance')
def m_distance(I, st, fr, e, obj, args):
    return I.binop(st, '-', aval(I, st, e, args, 1), aval(I, st, e, args, 0), I.p.tk(e['t']), e)


@model('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::rbegin', 'std::rend', 'std::size', 'std::empty', 'std::data')
def m_fbegin(I, st, fr, e, obj, args):
    loc = args[0]
    if not isinstance(loc, tuple):
        r = I.newroot(st)
        st.store[r] = loc
        loc = r
    v = I.load_seq(st, loc, argtk(I, e, 0))
    st.store.setdefault(loc, v)
    n = seqlen(v.a[0])
    sn = e['sn']
    return [(st, {'begin': V('iter', loc, L(0), False), 'cbegin': V('iter', loc, L(0), False), 'end': V('iter', loc, n, False), 'cend': V('iter', loc, n, False),
                  'rbegin': V('iter', loc, n, True), 'rend': V('iter', loc, L(0), True), 'size': n, 'empty': cmp_('<=', n, 0), 'data': V('iter', loc, L(0), False)}[sn])]


@model('std::min', 'std::max')
def m_min(I, st, fr, e, obj, args):
    if len(args) == 1:
        q = aval(I, st, e, args, 0)
        if isinstance(q, V) and q.k == 'seq' and len(q.a[0]) == 2 and all(s[0] == 'e' for s in q.a[0]):
            a, b = q.a[0][0][1], q.a[0][1][1]
            x, y = st.split(cmp_('<=', a, b) if e['sn'] == 'min' else cmp_('>=', a, b))
            return [(s, a) for s in x] + [(s, b) for s in y]
        I.note(st, 'min')
        return [(st, I.unk(I.p.tk(e['t']), ('min', st.fresh())))]
    a, b = aval(I, st, e, args, 0), aval(I, st, e, args, 1)
    if not (isinstance(a, Lin) and isinstance(b, Lin)):
        I.note(st, 'min')
        return [(st, args[0])]
    x, y = st.split(cmp_('<=', a, b) if e['sn'] == 'min' else cmp_('>=', a, b))

    def r(s, i, v):
        if e.get('lv'):
            if isinstance(args[i], tuple):
                return args[i]
            n = I.newroot(s)
            s.store[n] = v
            return n
        return v
    return [(s, r(s, 0, a)) for s in x] + [(s, r(s, 1, b)) for s in y]


# ------------------------------------------------------------ smart pointers, functions
def sp(*ops):
    def d(f):
        for c in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr'):
            for o in ops:
                MODELS[c + '::' + o] = f
        return f
    return d


def spval(I, st, e, obj):
    if obj.k == 'ptr':
        return I.load(st, obj.a[0], objtk(I, e)), obj.a[0]
    return obj, None


@sp('get', 'release')
def sp_get(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    if e['sn'] == 'release':
        I.put(st, loc, NULL)
    return [(st, v)]


@sp('operator->', 'operator*')
def sp_arrow(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    if e['sn'] == 'operator->':
        return [(st, v)]
    return I.deref(st, v, e)


@sp('operator bool')
def sp_bool(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    return [(st, I.nonnull(v))]


@sp('reset')
def sp_reset(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    n = aval(I, st, e, args, 0) if args else NULL
    I.event(st, 'reset', None, ptr(loc), [v, n], e=e)
    I.put(st, loc, n)
    return [(st, VOID)]


@sp('use_count', 'unique')
def sp_count(I, st, fr, e, obj, args):
    return [(st, I.unk(I.p.tk(e['t']), ('usecount', st.fresh())))]


@sp('swap')
def sp_swap(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    w = aval(I, st, e, args, 0)
    I.put(st, loc, w)
    I.put(st, args[0], v)
    return [(st, VOID)]


@sp('operator=')
def sp_assign(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    n = aval(I, st, e, args, 0)
    f = I.p.fn(e['f'])
    if f and f['ps'] and I.p.tk(f['ps'][0]['t']).t.get('rv') and isinstance(args[0], tuple) and e['args'][0].get('lv') and e['args'][0]['k'] != 'mat':
        I.put(st, args[0], NULL)
    I.event(st, 'reset', None, ptr(loc), [v, n], e=e)
    I.put(st, loc, n if isinstance(n, V) else NULL)
    return [(st, loc)]


def epoch(st):
    return st.ver.get(('epoch',), 0)


def lock(I, st, w):
    p = w.a[0]
    if p.k == 'null':
        return [(st, NULL)]
    c = pred('expired', w, epoch(st))
    a, b = st.split(c)
    out = [(s, NULL) for s in a]
    for s in b:
        for s2 in s.assume(I.nonnull(p)):
            out.append((s2, p))
    return out


@model('std::weak_ptr::lock')
def w_lock(I, st, fr, e, obj, args):
    w, loc = spval(I, st, e, obj)
    return lock(I, st, w)


@model('std::weak_ptr::expired', 'std::__weak_ptr::expired')
def w_expired(I, st, fr, e, obj, args):
    w, loc = spval(I, st, e, obj)
    if w.a[0].k == 'null':
        return [(st, T)]
    return [(st, pred('expired', w, epoch(st)))]


@model('std::weak_ptr::operator=', 'std::__weak_ptr::operator=')
def w_assign(I, st, fr, e, obj, args):
    n = aval(I, st, e, args, 0)
    if n.k != 'weak':
        n = V('weak', n)
    I.put(st, obj.a[0], n)
    return [(st, obj.a[0])]


@model('std::weak_ptr::reset', 'std::__weak_ptr::reset')
def w_reset(I, st, fr, e, obj, args):
    I.put(st, obj.a[0], V('weak', NULL))
    return [(st, VOID)]


@model('std::function::operator bool')
def f_bool(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    return [(st, I.nonnull(v))]


@model('std::function::operator()')
def f_call(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    return I.call_value(st, fr, v, [I.asarg(st, a, x) for a, x in zip(args, e['args'])], e)


@model('std::pair::operator=')
def pair_assign(I, st, fr, e, obj, args):
    v = I.argval(st, args[0], e['args'][0]) if args else None
    src = v.a[0] if isinstance(v, V) and v.k in ('rec', 'ptr') else None
    if not (isinstance(obj, V) and obj.k == 'ptr') or src is None:
        return None
    vals = [(fk, st.store.get(src + (fk,))) for fk in ('pair::first', 'pair::second')]
    if any(v is None for _, v in vals):
        return None
    for fk, v in vals:
        I.put(st, obj.a[0] + (fk,), v)
    return [(st, obj.a[0])]


@model('std::function::operator=')
def f_assign(I, st, fr, e, obj, args):
    v = tofunc(I, st, e, args, 0)
    I.event(st, 'setfn', None, obj, [v], e=e)
    I.put(st, obj.a[0], v)
    return [(st, obj.a[0])]


@model('std::function::swap')
def f_swap(I, st, fr, e, obj, args):
    v, loc = spval(I, st, e, obj)
    w = aval(I, st, e, args, 0)
    I.put(st, loc, w)
    I.put(st, args[0], v)
    return [(st, VOID)]


@model('std::make_shared', 'std::make_unique')
def m_make(I, st, fr, e, obj, args):
    t = I.p.tk(e['ta'][0]['t'])
    r = I.newroot(st)
    h = I.pol.hook(I, st, fr, 'make ' + (t.base or t.s), e, ptr(r), args)
    if h is not None:
        return h
    rec = I.p.rec(t.rec) if t.rec is not None else None
    if t.k == 'rec' and rec and rec.get('repo'):
        best = pick_ctor(I, rec, e, args)
        if best is not None:
            if rec.get('poly'):
                st.dyn[r] = t.rec
            I.event(st, 'new', t.s, ptr(r), e=e)
            a2 = [I.asarg(st, a, x) for a, x in zip(args, e['args'])]
            fake = {'l': e.get('l', 0), 't': e['t']}
            return [(s, ptr(r)) for s, _ in I.call_fn(st, fr, best, r, a2, fake)]
        if not args:
            for fk, fld in I.p.allfields(t.rec):
                ftk = I.p.tk(fld['t'])
                d = ftk.default()
                if d is not None:
                    st.store[r + (fk,)] = d
            I.event(st, 'new', t.s, ptr(r), e=e)
            return [(st, ptr(r))]
    I.event(st, 'new', t.s, ptr(r), [I.argval(st, a, x) for a, x in zip(args, e['args'])], e=e)
    if t.k == 'seq':
        out = []
        for s, q in build_seq(I, st, t, [aval(I, st, e, args, i) for i in range(len(args))], [argtk(I, e, i) for i in range(len(args))], e):
            s.store[r] = q
            out.append((s, ptr(r)))
        return out
    if args:
        st.store[r] = aval(I, st, e, args, 0)
    elif t.default() is not None:
        st.store[r] = t.default()
    return [(st, ptr(r))]


def pick_ctor(I, rec, e, args):
    best, score = None, -1
    for m in rec.get('methods', []):
        f = I.p.fn(m)
        if not f or f['kind'] != 'ctor' or f.get('body') is None or len(f['ps']) != len(args) or f.get('deleted'):
            continue
        if (f.get('copy') or f.get('move')) and not (len(args) == 1 and I.p.tk(e['args'][0]['t']).rec == rec['id']):
            continue
        sc = 0
        for p, x in zip(f['ps'], e['args']):
            a, b = I.p.tk(p['t']), I.p.tk(x['t'])
            if a.k == 'ref':
                a = a.sub('to')
            if a.k == b.k:
                sc += 2
                if a.s.replace('const ', '') == b.s.replace('const ', ''):
                    sc += 3
        if sc > score:
            best, score = f, sc
    return best


@model('std::enable_shared_from_this::shared_from_this', 'std::enable_shared_from_this::weak_from_this')
def m_sft(I, st, fr, e, obj, args):
    I.event(st, 'shared_from_this', None, obj, e=e)
    if e['sn'] == 'weak_from_this':
        return [(st, V('weak', obj))]
    return [(st, obj)]


# ------------------------------------------------------------ streams
def stream_obj(I, st, e, args):
    a = args[0]
    return ptr(a) if isinstance(a, tuple) else a


def out_item(I, st, e, args, i):
    tk = argtk(I, e, i)
    v = aval(I, st, e, args, i)
    if tk.k == 'seq' and tk.t['k'] == 'array':
        q = I.load_seq(st, args[i], tk) if isinstance(args[i], tuple) else v
        return cstr(I, st, V('iter', args[i], L(0), False)) if isinstance(args[i], tuple) else q
    if isinstance(v, V) and v.k == 'seq':
        return v
    if tk.k == 'ptr' and isinstance(v, V) and v.k == 'iter':
        return cstr(I, st, v)
    if tk.k == 'int' and tk.bits == 8 and isinstance(v, Lin):
        return seq(('e', v))
    if isinstance(v, Lin) or tk.k in ('int', 'bool', 'enum'):
        return term('num', v)
    return v if isinstance(v, V) else term('cond', v)


def emit(I, st, e, stream, item):
    """output of an item on a stream"""
    if isinstance(item, V) and item.k == 'fnptr':
        n = strip(item.a[1])
        if n == 'std::endl':
            I.event(st, 'out', None, stream, [strseq(b'\n')], e=e)
            I.event(st, 'flush', None, stream, e=e)
        elif n == 'std::flush':
            I.event(st, 'flush', None, stream, e=e)
        else:
            I.event(st, 'manip', n, stream, e=e)
        return
    if isinstance(item, V) and item.k == 'seq' and item == EMPTY:
        return
    I.event(st, 'out', None, stream, [item], e=e)


@model('std::operator<<')
def m_lshift(I, st, fr, e, obj, args):
    emit(I, st, e, stream_obj(I, st, e, args), out_item(I, st, e, args, 1))
    return [(st, args[0])]


@model('std::basic_ostream::operator<<')
def m_mlshift(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        emit(I, s, e, ptr(loc), out_item(I, s, e, args, 0))
        out.append((s, loc))
    return out


@model('std::endl', 'std::flush')
def m_endl(I, st, fr, e, obj, args):
    emit(I, st, e, stream_obj(I, st, e, args), V('fnptr', 0, 'std::' + e['sn']))
    return [(st, args[0])]


@model('std::basic_ostream::flush')
def m_flush(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        I.event(s, 'flush', None, ptr(loc), e=e)
        out.append((s, loc))
    return out


@model('std::basic_ostream::put')
def m_put(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        emit(I, s, e, ptr(loc), seq(('e', aval(I, s, e, args, 0))))
        out.append((s, loc))
    return out


@model('std::basic_ostream::write')
def m_write(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        for s2, q in build_seq(I, s, FAKESTR, [aval(I, s, e, args, 0), aval(I, s, e, args, 1)], [argtk(I, e, 0), argtk(I, e, 1)], e):
            emit(I, s2, e, ptr(loc), q)
            out.append((s2, loc))
    return out


class _F(object):
    base = 'std::basic_string'
    k = 'seq'

    def elemkind(self):
        return 'char'

    def sub(self, n):
        return None


FAKESTR = _F()


def sver(st, p):
    return st.ver.get(('stream', p), 0)


def bump(st, p):
    st.ver[('stream', p)] = st.fresh()


@model('std::getline')
def m_getline(I, st, fr, e, obj, args):
    s = stream_obj(I, st, e, args)
    bump(st, s)
    n = st.fresh()
    v = wholeseq(sbase(('line', s, n), 'char'))
    I.put(st, args[1], v)
    I.event(st, 'getline', None, s, [v] + [aval(I, st, e, args, i) for i in range(2, len(args))], e=e)
    return [(st, args[0])]


@model('std::operator>>', 'std::basic_istream::operator>>')
def m_rshift(I, st, fr, e, obj, args):
    if e['k'] == 'mcall':
        outs = I.deref(st, obj, e)
        i = 0
    else:
        outs = [(st, args[0])]
        i = 1
    out = []
    for s, loc in outs:
        if not isinstance(loc, tuple):
            r = I.newroot(s)
            s.store[r] = loc
            loc = r
        p = ptr(loc)
        bump(s, p)
        a = args[i]
        if isinstance(a, tuple) and e['args'][i].get('lv'):
            I.havoc(s, a)
            I.event(s, 'extract', None, p, [ptr(a)], e=e)
        else:
            v = a
            if isinstance(v, V) and v.k == 'fnptr':
                I.event(s, 'manip', strip(v.a[1]), p, e=e)
            else:
                I.event(s, 'extract', None, p, [v], e=e)
        out.append((s, loc))
    return out


@model('std::ws')
def m_ws(I, st, fr, e, obj, args):
    p = stream_obj(I, st, e, args)
    bump(st, p)
    I.event(st, 'manip', 'std::ws', p, e=e)
    return [(st, args[0])]


def ios(*ops):
    def d(f):
        for c in ('std::basic_ios', 'std::basic_istream', 'std::basic_ostream', 'std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream', 'std::basic_iostream'):
            for o in ops:
                MODELS[c + '::' + o] = f
        return f
    return d


@ios('good', 'eof', 'fail', 'bad', 'operator bool', 'operator!')
def m_ios(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        p = ptr(loc)
        v = sver(s, p)
        eof, fail = pred('eof', p, v), pred('fail', p, v)
        sn = e['sn']
        c = {'good': and_(neg(eof), neg(fail)), 'eof': eof, 'fail': fail, 'bad': pred('bad', p, v), 'operator bool': neg(fail), 'operator!': fail}[sn]
        out.append((s, c))
    return out


@model('std::basic_ifstream::is_open', 'std::basic_ofstream::is_open', 'std::basic_fstream::is_open')
def m_isopen(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        p = ptr(loc)
        v = sver(s, p)
        out.append((s, neg(pred('fail', p, v)) if v == 0 else pred('isopen', p, v)))         # opening has failed, or not
    return out


@ios('peek')
def m_peek(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        p = ptr(loc)
        was = or_(pred('eof', p, sver(s, p)), pred('fail', p, sver(s, p)))
        bump(s, p)
        eof, fail = pred('eof', p, sver(s, p)), pred('fail', p, sver(s, p))
        a, b = s, s.copy()
        for s1 in a.assume(eof):
            out.append((s1, L(-1)))
        for s1 in b.assume(and_(neg(was), and_(neg(eof), neg(fail)))):
            out.append((s1, L(sym(('peek', p, s1.fresh()), 0, 255))))
    return out


@ios('rdbuf')
def m_rdbuf(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        if args:
            v = aval(I, s, e, args, 0)
            I.event(s, 'setbuf', None, ptr(loc), [v], e=e)
            out.append((s, v))
        else:
            out.append((s, ptr(loc + ('#rdbuf',))))
    return out


@model('std::basic_streambuf::sputn', 'std::basic_streambuf::sputc', 'std::basic_streambuf::xsputn')
def m_sputn(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        stream = ptr(loc[:-1]) if loc[-1] == '#rdbuf' else ptr(loc)
        if e['sn'] == 'sputc':
            emit(I, s, e, stream, seq(('e', aval(I, s, e, args, 0))))
            out.append((s, L(sym(('sputc', s.fresh()), -1, 255))))
        else:
            for s2, q in build_seq(I, s, FAKESTR, [aval(I, s, e, args, 0), aval(I, s, e, args, 1)], [argtk(I, e, 0), argtk(I, e, 1)], e):
                emit(I, s2, e, stream, q)
                out.append((s2, L(sym(('sputn', s2.fresh()), 0, 2 ** 62))))
    return out


# ------------------------------------------------------------ characters and numbers
CLASSES = {
    'isspace': frozenset([9, 10, 11, 12, 13, 32]),
    'isdigit': frozenset(range(48, 58)),
    'isprint': frozenset(range(32, 127)),
    'isgraph': frozenset(range(33, 127)),
    'isalpha': frozenset(list(range(65, 91)) + list(range(97, 123))),
    'isupper': frozenset(range(65, 91)),
    'islower': frozenset(range(97, 123)),
    'isalnum': frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123))),
    'isblank': frozenset([9, 32]),
    'iscntrl': frozenset(list(range(0, 32)) + [127]),
    'ispunct': frozenset(x for x in range(33, 127) if not chr(x).isalnum()),
    'isxdigit': frozenset([ord(c) for c in '0123456789abcdefABCDEF']),
}


def m_ctype(I, st, fr, e, obj, args):
    vs = CLASSES[e['sn']]
    if len(args) != 1:
        I.note(st, 'ctype')
        return [(st, pred('ctype', e['sn'], st.fresh()))]
    out = []
    v = aval(I, st, e, args, 0)
    for s, i in I.toint(st, v):
        for s2 in I.ub(s, 'ctype', or_(cmp_('<', i, -1), cmp_('>', i, 255)), e):
            if len(i.t) == 1 and i.t[0][0].fin is not None:
                sm, k = i.t[0]
                out.append((s2, in_(sm, frozenset(x for x in sm.fin if k * x + i.c in vs))))
            elif i.is_const():
                out.append((s2, T if i.c in vs else F))
            else:
                out.append((s2, pred('ctype', e['sn'], i)))
    return out


for _n in CLASSES:
    MODELS[_n] = m_ctype
    MODELS['std::' + _n] = m_ctype


@model('std::stof', 'std::stod', 'std::stold', 'std::stoi', 'std::stol', 'std::stoll', 'std::stoul', 'std::stoull')
def m_sto(I, st, fr, e, obj, args):
    v = aval(I, st, e, args, 0)
    n = st.fresh()
    ev = I.event(st, 'parse', e['sn'], None, [v], n, e)
    out = []
    for k in ('std::invalid_argument', 'std::out_of_range'):
        s = st.copy()
        exc = V('exc', k, None, L(n))
        s.events.append(Ev('throws', k, exc, (), None, ev.line, ev.file, ev.fn, ev))
        I.sink.append((s, exc))
    used = L(sym(('parsed', v, n), 0, 2 ** 48))
    for s in st.assume(and_(cmp_('>=', used, 1), cmp_('<=', used, seqlen(v.a[0])))):
        if len(args) > 1:
            p = aval(I, s, e, args, 1)
            if isinstance(p, V) and p.k == 'ptr':
                I.put(s, p.a[0], used)
        tk = I.p.tk(e['t'])
        out.append((s, term('parsed', e['sn'], v, n) if tk.k == 'float' else tk.mk(('parsedint', e['sn'], v, n))))
    return out


@model('std::numeric_limits::max', 'std::numeric_limits::min')
def m_limits(I, st, fr, e, obj, args):
    lo, hi = I.p.tk(e['t']).range()
    return [(st, L(hi if e['sn'] == 'max' else lo))]


# ------------------------------------------------------------ atomics
def atomics(*names):
    return model(*[b + '::' + n for b in ('std::atomic', 'std::__atomic_base') for n in names])


def atk(I, e):
    return objtk(I, e)


@ctor('std::atomic', 'std::__atomic_base')
def c_atomic(I, st, fr, e, tk, args):
    if not args:
        return [(st, tk.const_zero() if hasattr(tk, 'const_zero') else (F if tk.k == 'bool' else L(0)))]
    return [(s, v) for s, v in conv_atomic(I, st, tk, I.argval(st, args[0], e['args'][0]))]


def conv_atomic(I, st, tk, v):
    if tk.k == 'bool':
        return [(st, I.tocond(st, v))]
    return [(st, v)]


@atomics('load', 'operator bool', 'operator int', 'operator long', 'operator unsigned long', 'operator unsigned int', 'operator char')
def m_aload(I, st, fr, e, obj, args):
    return [(s, I.load(s, loc, atk(I, e))) for s, loc in I.deref(st, obj, e)]


@atomics('store', 'operator=', 'exchange')
def m_astore(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        tk = atk(I, e)
        old = I.load(s, loc, tk) if e['sn'] == 'exchange' else None
        for s2, v in conv_atomic(I, s, tk, I.argval(s, args[0], e['args'][0])):
            I.put(s2, loc, v)
            out.append((s2, old if e['sn'] == 'exchange' else v if e['sn'] == 'operator=' else VOID))
    return out


@atomics('operator++', 'operator--', 'operator+=', 'operator-=', 'fetch_add', 'fetch_sub')
def m_aadd(I, st, fr, e, obj, args):
    out = []
    sn = e['sn']
    for s, loc in I.deref(st, obj, e):
        old = I.load(s, loc, atk(I, e))
        d = L(1) if sn in ('operator++', 'operator--') else I.argval(s, args[0], e['args'][0])
        if not isinstance(old, Lin) or not isinstance(d, Lin):
            I.note(s, 'atomic')
            I.havoc(s, loc)
            out.append((s, I.unkres(s, e)))
            continue
        new = old - d if sn in ('operator--', 'operator-=', 'fetch_sub') else old + d
        I.put(s, loc, new)
        post = sn.startswith('fetch') or (sn in ('operator++', 'operator--') and args)
        out.append((s, old if post else new))
    return out


# ------------------------------------------------------------ threads and locks
@model('std::mutex::lock', 'std::mutex::unlock', 'std::recursive_mutex::lock', 'std::recursive_mutex::unlock')
def m_mutex(I, st, fr, e, obj, args):
    I.locking(st, e['sn'], obj, e)
    return [(st, VOID)]


@model('std::unique_lock::lock', 'std::unique_lock::unlock')
def m_ulock(I, st, fr, e, obj, args):
    loc = obj.a[0]
    v = I.load(st, loc, objtk(I, e))
    if v.k == 'guard':
        I.locking(st, e['sn'], v.a[0], e)
        I.put(st, loc, V('guard', v.a[0], e['sn'] == 'lock'))
    return [(st, VOID)]


@model('std::unique_lock::owns_lock', 'std::unique_lock::operator bool')
def m_owns(I, st, fr, e, obj, args):
    v = I.load(st, obj.a[0], objtk(I, e))
    return [(st, T if v.k == 'guard' and v.a[1] else F)]


@model('std::condition_variable::wait', 'std::condition_variable::wait_for', 'std::condition_variable::wait_until')
def m_wait(I, st, fr, e, obj, args):
    """a wait releases the lock: what the environment may change is up to the policy"""
    lk = I.load(st, args[0], argtk(I, e, 0)) if isinstance(args[0], tuple) else args[0]
    m = lk.a[0] if lk.k == 'guard' else NULL
    timed = e['sn'] != 'wait'
    npred = 2 if timed else 1
    if len(args) <= npred:
        ev = I.event(st, 'wait', e['sn'], obj, [m, L(0)], e=e)
        return [(s, VOID if not timed else I.unkres(s, e)) for s in I.pol.on_event(I, st, ev)]
    p = tofunc(I, st, e, args, npred)
    # while (!pred()) wait();  the predicate holds at return
    out = []
    first = I.call_value(st.copy(), fr, p, [], {'l': e['l'], 't': BOOLT(I), 'args': []})
    for s, c in first:
        a, b = s.split(I.tocond(s, c))
        for x in a:
            I.event(x, 'waitpred', 'true', obj, [m], e=e)
            out.append((x, T if timed else VOID))
        for x in b:
            ev = I.event(x, 'wait', e['sn'], obj, [m, L(1)], e=e)
            for y in I.pol.on_event(I, x, ev):
                for z, c2 in I.call_value(y, fr, p, [], {'l': e['l'], 't': BOOLT(I), 'args': []}):
                    c2 = I.tocond(z, c2)
                    if timed:
                        # it may give up
                        for w in z.copy().assume(neg(c2)):
                            out.append((w, F))
                    for w in z.assume(c2):
                        I.event(w, 'waitpred', 'true', obj, [m], e=e)
                        out.append((w, T if timed else VOID))
    return out


def BOOLT(I):
    for i, t in enumerate(I.p.types):
        if t['k'] == 'bool':
            return i


@model('std::condition_variable::notify_one', 'std::condition_variable::notify_all')
def m_notify(I, st, fr, e, obj, args):
    I.event(st, 'notify', e['sn'], obj, e=e)
    return [(st, VOID)]


@ctor('std::thread')
def c_thread(I, st, fr, e, tk, args):
    if e.get('move'):
        v = aval(I, st, e, args, 0)
        if isinstance(v, V) and v.k == 'ptr':
            v = I.load(st, args[0], tk)
        return [(st, v)]
    vals = [I.argval(st, a, x) for a, x in zip(args, e['args'])]
    if not vals:
        return [(st, term('thread', 0))]
    I.event(st, 'spawn', None, None, vals, e=e)
    return [(st, term('thread', st.fresh()))]


@model('std::thread::join', 'std::thread::detach')
def m_join(I, st, fr, e, obj, args):
    I.event(st, e['sn'], None, obj, e=e)
    return [(st, VOID)]


@model('std::thread::operator=')
def m_thassign(I, st, fr, e, obj, args):
    v = args[0]
    if isinstance(v, tuple):
        v = I.load(st, v, argtk(I, e, 0))
    I.put(st, obj.a[0], v)
    return [(st, obj.a[0])]


@model('std::thread::joinable')
def m_joinable(I, st, fr, e, obj, args):
    return [(st, pred('joinable', obj))]


@model('__errno_location')
def m_errno(I, st, fr, e, obj, args):
    return [(st, ptr(('g', 'errno')))]


@model('std::exception::what', 'std::runtime_error::what', 'std::logic_error::what', 'std::bad_cast::what')
def m_what(I, st, fr, e, obj, args):
    out = []
    for s, loc in I.deref(st, obj, e):
        x = s.store.get(loc)
        o = x.a[2] if isinstance(x, V) and x.k == 'exc' and len(x.a) > 2 else None
        if isinstance(o, V) and o.k == 'term' and isinstance(o.a[-1], V) and o.a[-1].k == 'seq':
            text = o.a[-1]
            r = ('o', ('whattext', text))       # the same for all exceptions with that text
        else:
            text = wholeseq(sbase(('what', x if x is not None else loc), 'char'))
            r = ('o', ('what', x if x is not None else loc))
        s.store.setdefault(r, text)
        out.append((s, V('iter', ('what', r), L(0), False)))
        s.store.setdefault(('what', r), text)
    return out


from . import algorithms  # noqa: E402  (registers the algorithms)
