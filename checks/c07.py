"""C07: the command line is split by one fixed lexical grammar."""
from .lib import *

META = {
    'technique': 'extraction of the finite-state transducer of the splitting loop by abstract interpretation, compared with the transducer of the grammar in the product of the two',
    'note': 'The loop over the characters is summarised with its finite variables split into classes; each class and each of the 256 byte values gives one transition with its effect on the tokens. Trusts the clang front end, the '
            'extractor and the library models.',
    'explanation': 'Every reachable pair (state of the code, state of the grammar) is explored for every byte value; the effect on the list of tokens must be the same up to empty tokens, which are dropped at the end; no '
                   'pair lets the code touch the last token of an empty list. The code starts from the same state for every line.',
    'assumptions': [],
}
BLANK = (9, 10, 32)
DQ, SQ, BS, EX = 34, 39, 92, 33


def grammar(s, v):
    """(next state, [('push'|'app', text)])  for the byte value v"""
    if s == 'space':
        if v in BLANK:
            return s, []
        if v in (DQ, SQ):
            return ('d' if v == DQ else 'q'), [('push', ())]
        if v == BS:
            return 'word\\', [('push', ())]
        if v == EX:
            return s, [('push', (v,))]
        return 'word', [('push', (v,))]
    if s == 'word':
        if v in BLANK:
            return 'space', []
        if v in (DQ, SQ):
            return ('d' if v == DQ else 'q'), [('push', ())]
        if v == BS:
            return 'word\\', []
        if v == EX:
            return 'space', [('push', (v,))]
        return s, [('app', (v,))]
    if s in ('d', 'q'):
        if v == (DQ if s == 'd' else SQ):
            return 'space', []
        if v == BS:
            return s + '\\', []
        return s, [('app', (v,))]
    return s[:-1], [('app', (v,) if v in (DQ, SQ, BS) else (BS, v))]


class Unknown(Exception):
    pass


def text(segs, c, v, open_):
    """the characters of a string value for byte value v; the open token is 'X'"""
    out = []
    for g in segs:
        if g[0] == 'e':
            if g[1] == c:
                out.append(v)
            elif isinstance(g[1], Lin) and not g[1].t:
                out.append(g[1].c)
            else:
                raise Unknown(repr(g)[:80])
        elif g[0] == 's' and open_ is not None and g[1] == open_ and g[2] == L(0) and g[3] == L(g[1].len):
            out.append('X')
        elif g[0] == 'r' and isinstance(g[2], Lin) and not g[2].t:
            out += [v if g[1] == c else L(g[1]).c] * g[2].c
        else:
            raise Unknown(repr(g)[:80])
    return tuple(out)


def effect(st, b, cur, val, curval, c, v):
    """the list of tokens after the step, seen from the last token 'X' before it"""
    segs = [g for g in val.a[0]]
    toks = []
    n = L(b.len)
    open_ = None
    i = 0
    if segs and segs[0][0] == 's' and segs[0][1] == b and st.equal(L(segs[0][2]), L(0)):
        hi = segs[0][3]
        i = 1
        if st.equal(hi, n):
            toks = [('X',)] if cur is None else []
        elif st.equal(hi, n - L(1)):
            open_ = sbase_of(b, n - L(1))
        else:
            raise Unknown('tokens lost: %r' % (segs[0],))
    elif st.entails(cmp_('==', n, L(0))):
        toks = [('X',)] if cur is None else []
    elif len(segs) >= 1 and st.entails(cmp_('==', n, L(1))):
        open_ = sbase_of(b, L(0))
    else:
        raise Unknown('tokens lost')
    for g in segs[i:]:
        if g[0] != 'e' or not isinstance(g[1], V) or g[1].k != 'seq':
            raise Unknown(repr(g)[:80])
        toks.append(text(g[1].a[0], c, v, open_ if cur is None else cur))
    if cur is not None:
        toks.append(text(curval.a[0], c, v, cur))
    return toks


_el = {}


def sbase_of(b, idx):
    return _Any(b, idx)


class _Any(object):
    """the unknown string that is element idx of b"""
    def __init__(self, b, idx):
        self.b, self.idx = b, idx

    def __eq__(self, o):
        k = getattr(o, 'key', None)
        return isinstance(k, tuple) and len(k) == 3 and k[0] == 'el' and k[1] == self.b and L(k[2]) == L(self.idx)


def apply(ops, toks):
    toks = list(toks)
    for op, t in ops:
        if op == 'push':
            toks.append(t)
        else:
            toks[-1] = toks[-1] + t
    return toks


def norm(toks):
    return [t for i, t in enumerate(toks) if t or i == len(toks) - 1]


def relate(spec, impl):
    a, b = norm(spec), norm(impl)
    if a == b:
        return '='
    if a == b + [()]:
        return 'S'
    if b == a + [()]:
        return 'I'
    return None


def check(rep, tier):
    p = prog()
    rep.rule('step', 'every step of the code has the effect of the grammar')
    rep.rule('start', 'splitting starts from the initial state, with no tokens, for every line')
    rep.rule('bounds', 'the last token is only used when there is one, and no other access is out of bounds')
    rep.rule('end', 'the result is the tokens that are not empty, in order')
    rep.rule('all', 'every character of the line is read once, in order')
    f = fn(p, 'cli::detail::split')
    i = [k for k, q in enumerate(f['ps']) if p.tk(q['t']).k == 'ref' and p.tk(q['t']).sub('to').k == 'seq' and p.tk(q['t']).sub('to').base == 'std::vector']
    j = [k for k, q in enumerate(f['ps']) if k not in i]
    if len(i) != 1 or len(j) != 1:
        raise Anchor('parameters of split')
    line = sbase('LINE', 'char')
    st = State()
    st.store[('o', ('arg', j[0]))] = wholeseq(line)
    I, outs = runfn(rep, p, f, Policy(), st)
    loops = [lp for lp in I.loops if any(isvec(c) for c in lp.classes.values())]
    if not loops:
        rep.und('step', 'no loop over the characters builds the tokens')
        return
    entry = {lp.entry for lp in loops}
    lines = {lp.line for lp in loops}
    if len(lines) != 1:
        rep.und('step', 'the tokens are built by more than one loop')
        return
    reach, pushes = {}, [False]
    for lp in loops:
        product(rep, p, f, I, lp, line, reach, pushes)
    bounds(rep, I, f, loops, reach)
    for s, fl in outs:
        end(rep, p, f, s, fl, ('o', ('arg', i[0])), loops, pushes[0])


def isvec(c):
    return c[0] == 'hav' and isinstance(c[1], V) and c[1].k == 'seq' and any(g[0] == 's' and not isinstance(g[1].ek, str) and g[1].ek is not None and g[1].ek.k == 'seq' for g in c[1].a[0])


def isstr_(c):
    return c[0] == 'hav' and isinstance(c[1], V) and c[1].k == 'seq' and any(g[0] == 's' and isinstance(g[1].ek, str) for g in c[1].a[0])


def product(rep, p, f, I, lp, line, reach, pushes):
    where = (lp.file, lp.line, strip(lp.fn))
    vec = [l for l, c in lp.classes.items() if isvec(c)]
    cur = [l for l, c in lp.classes.items() if isstr_(c)]
    if len(vec) != 1 or len(cur) > 1:
        rep.und('step', 'the tokens under construction are in %d containers' % (len(vec) + len(cur)))
        return
    # every iteration reads one character
    inds = [c for c in lp.classes.values() if c[0] in ('ind', 'itind')]
    b = lp.classes[vec[0]][1].a[0][0][1]
    curb = lp.classes[cur[0]][1].a[0][0][1] if cur else None
    e0 = lp.entrystate
    if e0 is None:
        rep.und('start', 'state before the loop')
        return
    v0 = e0.store.get(vec[0])
    if not isinstance(v0, V) or v0.k != 'seq':
        rep.und('start', 'tokens before the loop')
        return
    if v0 != EMPTY and not e0.entails(cmp_('==', seqlen(v0.a[0]), L(0))):
        rep.bad('start', *where, msg='tokens are left over from before the line is split')
        return
    for loc in lp.finlocs:
        x = e0.store.get(loc)
        if (isinstance(x, Lin) and x.t) or (isinstance(x, tuple) and x and x[0] == 'in'):
            rep.bad('start', *where, msg='the state in which splitting starts depends on something other than the line')
            return
    rep.ok('start')
    start = (lp.entry, 'space', 'I' if cur else '=')
    if any(isinstance(c, Lin) and c.t for c in lp.entry):
        rep.bad('start', *where, msg='the state in which splitting starts is not fixed')
        return
    by = {}
    for bk in lp.backs:
        by.setdefault(repr(bk.src), []).append(bk)
    work, seen = [start], {(repr(start[0]),) + start[1:]: []}
    cover = {}
    while work:
        q, s, r = work.pop()
        reach.setdefault(repr(q), set()).add((s, r))
        hist = seen[(repr(q), s, r)]
        got = set()
        for bk in by.get(repr(q), []):
            c = char_of(I, bk, line, lp)
            if c is None:
                rep.und('step', 'the character of the step is not visible')
                continue
            val = bk.state.store.get(vec[0])
            cv = bk.state.store.get(cur[0]) if cur else None
            vals = [v for v in range(-128, 128) if bk.state.can(cmp_('==', c, L(v)))]
            for v in vals:
                got.add(v)
                s2, ops = grammar(s, v)
                spec = apply(ops, [('X',)] + ([()] if r == 'S' else []))
                try:
                    impl = effect(bk.state, b, curb, val, cv, c, v)
                except Unknown as x:
                    rep.und('step', 'effect on the tokens: %s' % x)
                    continue
                if r == 'I' and cur is None:
                    # the last token of the code is an additional empty one
                    impl = [('X',)] + [tuple(y for y in t if y != 'X') if 'X' in t else t for t in impl] if any('X' in t for t in impl) else impl
                elif r == 'I':
                    impl = [('X',)] + [tuple(y for y in t if y != 'X') for t in impl]
                if r == 'S' and cur is not None:
                    pass
                rel = relate(spec, impl)
                if any(t == () for t in impl):
                    pushes[0] = True
                if rel is None:
                    rep.bad('step', *where, msg='after %s, reading %s %s; the grammar has %s' % (show(hist), ch(v), said(impl), said(spec)), path=[repr(q), s])
                    return
                rep.ok('step')
                k = (repr(bk.dst), s2, rel)
                if k not in seen:
                    seen[k] = hist + [v]
                    work.append((bk.dst, s2, rel))
        miss = [v for v in range(-128, 128) if v not in got]
        if miss and got:
            rep.und('all', 'no step for %d byte values' % len(miss))
        elif got:
            rep.ok('all')


def ch(v):
    return repr(chr(v)) if 32 <= v < 127 else '\\x%02x' % (v & 255)


def show(h):
    return '"' + ''.join(chr(v) if 32 <= v < 127 else '\\x%02x' % (v & 255) for v in h) + '"'


def said(toks):
    out = []
    for i, t in enumerate(toks):
        s = ''.join('...' if y == 'X' else ch(y).strip("'") for y in t)
        out.append('<%s>' % s)
    return 'gives ' + ' '.join(out)


def char_of(I, bk, line, lp):
    c = I.seq_at(bk.state.copy(), wholeseq(line), lp.K, None)
    return c if isinstance(c, Lin) else None


def bounds(rep, I, f, loops, reach):
    for kind, fn_, l, st, what in I.ubs:
        if kind == 'empty':
            # reachable only when the list of tokens is empty
            lp = None
            for e in st.events:
                if e.kind == 'loop':
                    lp = e
            if lp is None or lp.x.line not in [x.line for x in loops]:
                rep.und('bounds', 'line %s' % l)
                continue
            rs = reach.get(repr(lp.args[0]))
            if rs is None:
                rep.ok('bounds')
                continue
            if all(s != 'space' and r != 'S' for s, r in rs):
                rep.ok('bounds')     # the grammar has an open token here, so the list is not empty
            else:
                rep.bad('bounds', fn_['file'], l, strip(fn_['n']), 'the last token is used although there may be none', trace(st))
        elif kind in ('bounds', 'null', 'range', 'erase', 'divzero', 'emptycall'):
            rep.bad('bounds', fn_['file'], l, strip(fn_['n']), 'access out of bounds (%s)' % kind, trace(st))
    rep.ok('bounds')


def end(rep, p, f, s, fl, out, loops, pushes):
    where = (f['file'], f['l'], strip(f['n']))
    if not fl or fl[0] == 'throw':
        rep.bad('end', *where, msg='splitting throws', path=trace(s))
        return
    v = s.store.get(out)
    if not isinstance(v, V) or v.k != 'seq':
        rep.und('end', 'result')
        return
    bs = [c[1] for lp in loops for c in lp.classes.values() if isvec(c)]
    if v == EMPTY or s.entails(cmp_('==', seqlen(v.a[0]), L(0))):
        if any(s.entails(cmp_('==', seqlen(b.a[0]), L(0))) for b in bs):
            rep.ok('end')
        else:
            n = s.decide(cmp_('==', L(sbase('LINE', 'char').len), L(0)))
            rep.ok('end') if n is True else rep.bad('end', *where, msg='the tokens are lost', path=trace(s))
        return
    g = v.a[0]
    if v in bs:
        if pushes:
            rep.bad('end', *where, msg='empty tokens are kept', path=trace(s))
        else:
            rep.ok('end')
        return
    if len(g) == 1 and g[0][0] == 's' and isinstance(g[0][1].key, tuple) and g[0][1].key[0] == 'filter' and g[0][1].key[1] in bs and L(g[0][2]) == L(0) and L(g[0][3]) == L(g[0][1].len):
        good = True
        for e, st, lp in all_events(s):
            if e.kind in ('removed', 'kept'):
                b = [x for x in bases(g[0][1].key[1])][0]
                n = el_len(st, b, e.args[0])
                if n is None:
                    rep.und('end', 'length of a token')
                    good = None
                    break
                d = st.decide(cmp_('==', n, L(0)))
                if d is not (e.kind == 'removed'):
                    rep.bad('end', e.file, e.line, e.fn, 'a token is %s whether or not it is empty' % e.kind if d is None else
                            'an empty token is kept' if d else 'a token that is not empty is dropped', trace(s))
                    good = False
                    break
        if good:
            rep.ok('end')
        return
    rep.und('end', 'result %r' % (v,))


def el_len(st, b, idx):
    e = Interp(prog()).seq_at(st.copy(), wholeseq(b), idx, b.ek)
    if isinstance(e, V) and e.k == 'seq':
        return seqlen(e.a[0])
    return None
