"""C08: integer, bool and char parameters are converted exactly or rejected."""
from .lib import *

META = {
    'technique': 'abstract interpretation of every integer conversion with one inductive summary of its digit loop: the step of the accumulator, its start and every accepting and rejecting path are decided against the '
                 'decimal value of the token',
    'note': 'Machine arithmetic (promotion, wrap-around, signed overflow, narrowing) is part of the interpreter; a violation is reported only with concrete operands of the step that confirm it. Trusts the clang front end, '
            'the extractor and the models of std::string and <cctype>.',
    'explanation': 'For every integer type: the accumulator r starts at 0 and each step computes exactly 10*r + digit of the next character; a path accepts only after the whole token and with the signed value of r inside the '
                   'limits of the type, and rejects only an empty token, a character that is not a digit where a digit is due, or a value out of the limits. No step has undefined behaviour.',
    'assumptions': [],
}
PLUS, MINUS = 43, 45
UB = ('bounds', 'divzero', 'empty', 'emptycall', 'erase', 'null', 'overflow', 'range', 'ctype', 'terminate')


def check(rep, tier):
    p = prog()
    rep.rule('step', 'one iteration over the digits computes 10*r + digit of the next character')
    rep.rule('start', 'the digits start right after the optional sign, with the value 0')
    rep.rule('accept', 'a value is returned only for a whole token of that value, inside the limits of the type')
    rep.rule('reject', 'a token is rejected only when it denotes no value of the type')
    rep.rule('error', 'a rejection is a bad conversion')
    rep.rule('defined', 'no step has undefined behaviour')
    rep.rule('text', 'bool accepts exactly true and false besides 0 and 1; char the one-character tokens; a string is unchanged')
    fs = fns(p, 'cli::detail::from_string')
    if not fs:
        raise Anchor('from_string')
    done = 0
    for f in fs:
        tk = p.tk(f['ret'])
        if tk.k == 'int' and tk.t['s'] not in ('char', 'wchar_t', 'char16_t', 'char32_t'):
            b, u = tk.t['b'], tk.t['u']
            lo, hi = (0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            number(rep, p, f, tk.t['s'], lo, hi, not u, None)
            done += 1
        elif tk.k == 'bool':
            number(rep, p, f, 'bool', 0, 1, True, {'true': 1, 'false': 0})
            done += 1
        elif tk.k == 'int' and tk.t['s'] == 'char':
            onechar(rep, p, f)
            done += 1
        elif tk.k == 'seq' and tk.base == 'std::basic_string':
            string(rep, p, f)
            done += 1
    if done < 12:
        rep.und('text', 'only %d conversions are instantiated' % done)


def run(rep, p, f):
    line = sbase('LINE', 'char')
    st = State()
    st.store[('o', ('arg', 0))] = wholeseq(line)
    I, outs = runfn(rep, p, f, Policy(), st)
    return I, outs, line


def error(rep, I, f, s, fl, what):
    cls = I.exc_classes(fl[1].a[0], fl[1].a[1]) if isinstance(fl[1], V) and fl[1].k == 'exc' and fl[1].a[0] not in ('other', 'unknown') else ()
    if 'std::bad_cast' in cls:
        rep.ok('error')
    else:
        n = lastthrow(s, f)
        rep.bad('error', n[0], n[1], n[2], 'conversion to %s fails with %s instead of a bad conversion' % (what, cls[0] if cls else 'another exception'), trace(s))


def lastthrow(s, f):
    w = (f['file'], f['l'], strip(f['n']))
    for e, st, lp in all_events(s):
        if e.kind in ('throw', 'throws', 'rethrow'):
            w = at(e)
    return w


def ev_exc(I, fl):
    return fl[1]


def literals(s, line):
    """{text: True/False} for the literals the token was compared with on this path"""
    out = {}
    for k, v in s.preds.items():
        if isinstance(k, tuple) and k[0] == 'seqeq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                t = segtext(a)
                if t is not None and [x for x in bases(b)] == [line]:
                    out[t] = v
    return out


def segtext(v):
    segs = v.a[0] if isinstance(v, V) else v
    out = ''
    for g in segs:
        if g[0] == 'e' and isinstance(g[1], Lin) and not g[1].t:
            out += chr(g[1].c & 255)
        elif g[0] in ('c', 'l') and isinstance(g[1], (str, bytes)):
            out += g[1] if isinstance(g[1], str) else g[1].decode('latin1')
        else:
            return None
    return out


class Loop(object):
    """the digit loop, or why it is not one"""


def digits(rep, I, lp, line):
    """(accumulator loc, head value, sign of the accumulation, start offset) of the loop"""
    if len(lp.backs) == 0:
        return None
    best = None
    for loc, c in lp.classes.items():
        if c[0] != 'hav' or not isinstance(c[1], Lin) or len(c[1].t) != 1 or c[1].c:
            continue
        ok = True
        for bk in lp.backs:
            v = bk.state.store.get(loc)
            if not isinstance(v, Lin) or not any(isel(q, line) for q, k in v.t) and v.t:
                ok = False
        if ok:
            if best is not None:
                return None
            best = loc
    return best


def isel(q, line):
    k = q.key
    return isinstance(k, tuple) and k[0] == 'el' and k[1] is line


def number(rep, p, f, what, lo, hi, signed, texts):
    I, outs, line = run(rep, p, f)
    where = (f['file'], f['l'], strip(f['n']))
    n = L(line.len)
    info = {}
    for lp in I.loops:
        loc = digits(rep, I, lp, line)
        if loc is None:
            continue
        d = Loop()
        d.loc, d.lp, d.head = loc, lp, lp.classes[loc][1]
        d.ok = step(rep, I, lp, d, line, what, lo, hi)
        info[id(lp)] = d
    for s, fl in outs:
        for sg in (1, -1):
            # the two cases of the sign
            c0 = I.seq_at(s.copy(), wholeseq(line), L(0), None)
            if s.entails(cmp_('==', n, L(0))):
                if sg == -1:
                    continue
                ss = [s]
            elif isinstance(c0, Lin):
                ss = s.copy().assume(cmp_('==' if sg == -1 else '!=', c0, L(MINUS)))
            else:
                rep.und('accept', 'first character')
                continue
            for x in ss:
                path(rep, p, f, I, x, fl, sg, c0, info, line, what, lo, hi, signed, texts)
    for kind, fn_, l, st, detail in I.ubs:
        if kind not in UB:
            continue
        if confirm(st, info, lo, hi, line, kind):
            rep.bad('defined', fn_['file'], l, strip(fn_['n']), {'overflow': 'the arithmetic overflows', 'ctype': 'a negative character is classified'}.get(kind, 'undefined behaviour (%s)' % kind) + ' when converting to ' + what, trace(st))
        else:
            rep.und('defined', '%s at line %s' % (kind, l))
    rep.ok('defined')


def loopof(s, info):
    """the digit loop the path went through"""
    r = [e.x for e in s.events if e.kind == 'loop' and id(e.x) in info]
    return info[id(r[-1])] if len(r) == 1 else None


def legal(lo, hi, sg):
    return max(hi, 0) if sg > 0 else -lo


def samples(lo, hi, sg):
    m = legal(lo, hi, sg)
    out = []
    for v in (0, 1, 2, 9, 10, m // 10 - 1, m // 10, m // 10 + 1, m // 100, m - 1, m):
        if 0 <= v <= m and v not in out:
            out.append(v)
    return out


def pinned(st, pairs):
    ss = [st.copy()]
    val = {}
    for a, b in pairs:
        ss = [y for x in ss for y in x.assume(cmp_('==', a, L(b)))]
        l = L(a)
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:
            val[l.t[0][0]] = (b - l.c) * l.t[0][1]
    # narrowing conversions of pinned values
    ws = []
    for x in ss:
        for r in list(x.le) + list(x.eq) + list(x.ne):
            for q, k in r.t:
                wraps(q, ws)
    for q in ws:
        v = evalto(q.key[1], val)
        if v is not None:
            lo, hi = q.key[2], q.key[3]
            val[q] = (v - lo) % (hi - lo + 1) + lo
            ss = [y for x in ss for y in x.assume(cmp_('==', L(q), L(val[q])))]
    return ss


def wraps(q, out):
    k = q.key
    if isinstance(k, tuple) and k[0] == 'wrap' and q not in out:
        for r, _ in L(k[1]).t:
            wraps(r, out)
        out.append(q)


def evalto(l, val):
    v = l.c
    for q, k in l.t:
        if q not in val:
            return None
        v += k * val[q]
    return v


def confirm(st, info, lo, hi, line, kind):
    r = loopof(st, info)
    if kind == 'ctype':
        return True
    if r is None:
        hd = [d for d in info.values() if heads(st, d.head)]
        if len(hd) != 1:
            return not info
        r = hd[0]
    c = char_at(st, r, line)
    for sg in (1, -1):
        for v in samples(lo, hi, sg) + [legal(lo, hi, sg) + 1]:
            if v > legal(lo, hi, sg) and not reach(r, v, line):
                continue
            for d in range(10) if c is not None else (None,):
                if pinned(st, [(r.head, v)] + ([(c, 48 + d)] if d is not None else [])):
                    return True
    return False


def heads(st, h):
    q = h.t[0][0]
    return any(q in e.syms() for e in st.le + list(st.eq))


def char_at(st, d, line):
    """the character the current iteration looks at"""
    best = None
    for q, _ in ((q, k) for bk in d.lp.backs for q, k in bk.state.store[d.loc].t):
        if isel(q, line):
            best = L(q)
    return best


def reach(d, v, line, depth=0):
    """is the value v (of some digits) accepted step by step"""
    if v == 0 or depth > 22:
        return depth <= 22
    a, dg = divmod(v, 10)
    if not reach(d, a, line, depth + 1):
        return False
    for bk in d.lp.backs:
        c = char_at(bk.state, d, line)
        for s in pinned(bk.state, [(d.head, a), (c, 48 + dg)]):
            w = bk.state.store[d.loc]
            if s.equal(w, L(v * d.sign)) or s.can(cmp_('==', w, L(v * d.sign))):
                return True
    return False


def step(rep, I, lp, d, line, what, lo, hi):
    where = (lp.file, lp.line, strip(lp.fn))
    d.start = None
    d.sign = 1
    good = True
    e0 = lp.entrystate
    v0 = e0.store.get(d.loc) if e0 is not None else None
    if not isinstance(v0, Lin):
        rep.und('start', 'value before the digits')
        return False
    if v0.is_const() and v0.c != 0:
        rep.bad('start', *where, msg='the conversion to %s starts from %d' % (what, v0.c))
        return False
    if not v0.is_const():
        rep.und('start', 'value before the digits')
        return False
    for bk in lp.backs:
        st = bk.state
        r2 = st.store[d.loc]
        els = [q for q, k in r2.t if isel(q, line)]
        if not r2.t:
            els = []
        if len(els) != 1:
            rep.und('step', 'characters of the step')
            return False
        q = els[0]
        off = L(q.key[2]) - L(lp.K)
        if not off.is_const():
            rep.und('step', 'position of the character')
            return False
        if off.c not in (0, 1):
            rep.bad('start', *where, msg='the first %d characters are skipped when converting to %s' % (off.c, what))
            return False
        if d.start is not None and d.start != off.c:
            rep.und('start', 'start differs')
            return False
        d.start = off.c
        k = r2.coef(q)
        d.sign = 1 if k > 0 else -1
        want = d.head.scale(10) + (L(q) - L(48)).scale(d.sign)
        isd = and_(cmp_('>=', L(q), L(48)), cmp_('<=', L(q), L(57)))
        if st.entails(isd) and st.equal(r2, want):
            rep.ok('step')
            continue
        # concrete operands
        m = None
        for sg in (1, -1):
            for v in samples(lo, hi, sg):
                for c in list(range(48, 58)) + [47, 58, 32, 97, 65, 0, 43, 45, 46, -1]:
                    for s in pinned(st, [(d.head, v * d.sign), (L(q), c)]):
                        if c not in range(48, 58):
                            m = m or ('the character %s is taken for a digit when converting to %s' % (repr(chr(c & 255)), what), s)
                        elif not s.can(cmp_('==', r2, L((10 * v + c - 48) * d.sign))):
                            m = m or ('after the value %d the digit %d gives another value when converting to %s' % (v, c - 48, what), s)
        if m:
            rep.bad('step', *where, msg=m[0], path=trace(m[1]))
        else:
            rep.und('step', 'value of the step of %s' % what)
        good = False
    if good and d.start is not None:
        # where the digits start
        c0 = I.seq_at(e0.copy(), wholeseq(line), L(0), None)
        if d.start == 1:
            if not isinstance(c0, Lin):
                rep.und('start', 'first character')
                return False
            other = e0.copy().assume(and_(cmp_('!=', c0, L(PLUS)), cmp_('!=', c0, L(MINUS))))
            if other:
                rep.bad('start', *where, msg='a first character that is no sign is skipped when converting to %s' % what, path=trace(other[0]))
                return False
        rep.ok('start')
    return good


def path(rep, p, f, I, s, fl, sg, c0, info, line, what, lo, hi, signed, texts):
    n = L(line.len)
    where = (f['file'], f['l'], strip(f['n']))
    lits = literals(s, line)
    d = loopof(s, info)
    hit = [t for t, v in lits.items() if v]
    if fl is None:
        rep.und('accept', 'no value')
        return
    if fl[0] == 'throw':
        error(rep, I, f, s, fl, what)
        w = lastthrow(s, f)
        if hit and texts and hit[0] in texts:
            rep.bad('reject', *w, msg='the token %s is rejected' % hit[0], path=trace(s))
            return
        for t in texts or ():
            if lits.get(t) is None and s.can(cmp_('==', n, L(len(t)))) and d is None and not hit:
                rep.bad('text', *where, msg='the token %s is not accepted as %s' % (t, what), path=trace(s))
                return
            if lits.get(t) is None and d is not None and not hit:
                rep.bad('text', *where, msg='the token %s is not accepted as %s' % (t, what), path=trace(s))
                return
        if s.entails(cmp_('==', n, L(0))):
            rep.ok('reject')
            return
        if d is None:
            # only a token without digits may be rejected without looking at them
            if sg == -1 and not signed:
                rep.ok('reject')
            elif s.entails(cmp_('==', n, L(1))) and isinstance(c0, Lin) and s.entails(or_(cmp_('==', c0, L(PLUS)), cmp_('==', c0, L(MINUS)))):
                rep.ok('reject')
            elif isinstance(c0, Lin) and not s.can(and_(cmp_('>=', c0, L(48)), cmp_('<=', c0, L(57)))) and not s.can(cmp_('==', c0, L(PLUS))) and not (signed and s.can(cmp_('==', c0, L(MINUS)))):
                rep.ok('reject')
            elif not info and I.loops:
                rep.und('reject', 'a path of %s without a digit loop' % what)
            else:
                good = isinstance(c0, Lin) and (any(pinned(s, [(n, 1), (c0, 48 + x)]) for x in range(10)) or any(pinned(s, [(n, 2), (c0, x)]) for x in [PLUS] + ([MINUS] if signed else [])))
                if good:
                    rep.bad('reject', *w, msg='a token that denotes a value of %s may be rejected' % what, path=trace(s))
                else:
                    rep.und('reject', 'a path of %s without a digit loop' % what)
            return
        if not d.ok:
            rep.und('reject', 'digit loop')
            return
        if sg == -1 and not signed:
            rep.ok('reject')
            return
        st = d.start
        m = legal(lo, hi, sg)
        end = L(n) - L(st)
        if s.entails(cmp_('>=', L(d.lp.K), end)):
            # after the last digit
            if s.entails(cmp_('>', d.head.scale(d.sign), L(m))) or s.entails(cmp_('==', end, L(0))):
                rep.ok('reject')
                return
            if m <= 3 and not any(pinned(s, [(d.head, v * d.sign)]) for v in range(m + 1)):
                rep.ok('reject')
                return
            for v in samples(lo, hi, sg):
                if reach(d, v, line):
                    for x in pinned(s, [(d.head, v * d.sign)]):
                        if x.can(cmp_('>', end, L(0))):
                            rep.bad('reject', *w, msg='the value %s%d is rejected as %s' % ('-' if sg < 0 else '', v, what), path=trace(x))
                            return
            rep.und('reject', 'after the last digit of %s' % what)
            return
        c = I.seq_at(s.copy(), wholeseq(line), L(d.lp.K) + L(st), None)
        if not isinstance(c, Lin):
            rep.und('reject', 'the character rejected')
            return
        isd = and_(cmp_('>=', c, L(48)), cmp_('<=', c, L(57)))
        over = cmp_('>', d.head.scale(10 * d.sign) + c - L(48), L(m))
        if st == 0 and isinstance(c0, Lin):
            for sgn in [PLUS] + ([MINUS] if signed else []):
                # a sign is no digit but may come first
                t = [y for x in pinned(s, [(c0, sgn), (L(d.lp.K), 0)]) for y in [x]]
                if t and s.can(cmp_('==', c, L(sgn))):
                    rep.bad('reject', *w, msg='the sign %s is rejected as first character of %s' % (chr(sgn), what), path=trace(s))
                    return
        bad = False
        for x in s.copy().assume(isd):
            if x.entails(over):
                continue
            bad = None
            for v in samples(lo, hi, sg):
                for dg in range(10):
                    if 10 * v + dg <= m and pinned(x, [(d.head, v * d.sign), (c, 48 + dg)]) and reach(d, v, line):
                        rep.bad('reject', *w, msg='the value %s%d is rejected as %s' % ('-' if sg < 0 else '', 10 * v + dg, what), path=trace(x))
                        return
        if bad is None:
            rep.und('reject', 'at a digit of %s' % what)
        else:
            rep.ok('reject')
        return
    # accepted
    v = fl[1]
    vs = [(s, v)]
    if isinstance(v, tuple):
        a, b = s.copy().split(v)
        vs = [(x, L(1)) for x in a] + [(x, L(0)) for x in b]
    for s, v in vs:
        if not isinstance(v, Lin):
            rep.und('accept', 'value of %s' % what)
            continue
        if hit:
            if texts and hit[0] in texts and s.equal(v, L(texts[hit[0]])):
                rep.ok('text')
            else:
                rep.bad('text', *where, msg='the token %s is accepted as %s %r' % (hit[0], what, v), path=trace(s))
            continue
        if d is None:
            if not info:
                rep.und('accept', 'no digit loop in the conversion to %s' % what)
            else:
                rep.bad('accept', *where, msg='a token is accepted as %s without looking at its characters' % what, path=trace(s))
            continue
        if not d.ok:
            rep.und('accept', 'digit loop')
            continue
        st = d.start
        end = L(n) - L(st)
        if sg == -1 and not signed:
            if st == 1:
                rep.bad('accept', *where, msg='a negative number is accepted as %s' % what, path=trace(s))
            continue
        if not s.entails(cmp_('>=', L(d.lp.K), end)):
            rep.bad('accept', *where, msg='a value of %s is returned before the end of the token' % what, path=trace(s))
            continue
        if not s.entails(cmp_('>', end, L(0))):
            rep.bad('accept', *where, msg='a token without digits is accepted as %s' % what, path=trace(s))
            continue
        if st == 0 and sg == -1:
            # the sign would have been rejected as a digit
            continue
        m = legal(lo, hi, sg)
        want = d.head.scale(d.sign * sg)
        if s.equal(v, want) and s.entails(cmp_('<=', d.head.scale(d.sign), L(m))):
            rep.ok('accept')
            continue
        done = False
        for r in samples(lo, hi, sg) + [m + 1, m + 2, 2 * m, 2 * m + 1, 2 * m + 2, 10 * m] + [2 ** b + c for b in (8, 16, 32) for c in (0, 1)]:
            for x in pinned(s, [(d.head, r * d.sign)]):
                if r > m and not reach(d, r, line):
                    continue
                if r > m or not x.can(cmp_('==', v, L(r * sg))):
                    rep.bad('accept', *where, msg='the token denoting %s%d is accepted as %s%s' % ('-' if sg < 0 else '', r, what, '' if r <= m and not v.is_const() else ''), path=trace(x))
                    done = True
                    break
            if done:
                break
        if not done:
            rep.und('accept', 'value of %s' % what)


def onechar(rep, p, f):
    I, outs, line = run(rep, p, f)
    n = L(line.len)
    for s, fl in outs:
        w = lastthrow(s, f)
        if fl and fl[0] == 'throw':
            error(rep, I, f, s, fl, 'char')
            if s.entails(cmp_('!=', n, L(1))):
                rep.ok('text')
            else:
                rep.bad('text', *w, msg='a token of one character is rejected as char', path=trace(s))
        elif fl:
            c = I.seq_at(s.copy(), wholeseq(line), L(0), None)
            if s.can(cmp_('!=', n, L(1))):
                rep.bad('text', *w, msg='a token that is not one character is accepted as char', path=trace(s))
            elif isinstance(c, Lin) and isinstance(fl[1], Lin):
                if s.equal(c, fl[1]):
                    rep.ok('text')
                else:
                    rep.bad('text', *w, msg='another character than the token is passed', path=trace(s))
            else:
                rep.und('text', 'char')
    ubs(rep, I, 'char')


def ubs(rep, I, what):
    for kind, fn_, l, st, detail in I.ubs:
        if kind in UB:
            rep.bad('defined', fn_['file'], l, strip(fn_['n']), 'undefined behaviour (%s) when converting to %s' % (kind, what), trace(st))
    rep.ok('defined')


def string(rep, p, f):
    I, outs, line = run(rep, p, f)
    for s, fl in outs:
        w = (f['file'], f['l'], strip(f['n']))
        if fl and fl[0] == 'throw':
            rep.bad('text', *w, msg='a string is rejected', path=trace(s))
        elif fl and fl[1] == wholeseq(line):
            rep.ok('text')
        elif fl and isinstance(fl[1], V) and fl[1].k == 'seq':
            a, b = seqlen(fl[1].a[0]), L(line.len)
            if not s.can(cmp_('==', a, b)) or segtext(fl[1]) is not None:
                rep.bad('text', *w, msg='a string is passed changed', path=trace(s))
            elif s.can(cmp_('!=', a, b)):
                rep.bad('text', *w, msg='a string may be passed changed', path=trace(s))
            else:
                rep.und('text', 'string %r' % (fl[1],))
        else:
            rep.und('text', 'string')
    ubs(rep, I, 'string')
