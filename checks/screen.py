"""What a path writes on a stream, and what a terminal shows of it.

The screen is modelled from the place where the edited line begins: the cells shown there (a sequence of
slices of unknown texts) followed by blanks, and the cursor.  Every byte of a text that is not a
control character takes one cell; backspace moves the cursor; colour sequences take no cells."""
import itertools
from .lib import *

BLANK = L(32)


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


class Screen(object):
    __slots__ = ('segs', 'cur', 'at', 'esc', 'rows', 'cleared', 'low')

    def __init__(self, segs=(), cur=L(0), at=True):
        self.segs, self.cur, self.at = tuple(segs), cur, at
        self.esc = None
        self.rows = 0           # new rows begun
        self.cleared = 0
        self.low = False

    def copy(self):
        s = Screen(self.segs, self.cur, self.at)
        s.esc, s.rows, s.cleared, s.low = self.esc, self.rows, self.cleared, self.low
        return s

    def __repr__(self):
        return 'Screen(%s cur %s at %s rows %d cleared %d)' % (V('seq', self.segs), self.cur, self.at, self.rows, self.cleared)


def items(ev):
    """the segments an output event writes"""
    v = ev.args[0]
    if isinstance(v, V) and v.k == 'seq':
        return v.a[0]
    if isinstance(v, V) and v.k == 'term' and v.a[0] == 'num':
        return (('num', v.a[1]),)
    raise Unknown('the text written is not known')


def looptext(ev, mine):
    """the segments a loop writes: one template per iteration"""
    info = ev.x
    outs = []
    for b in info.backs:
        w = []
        for e in b.events:
            if e.kind == 'loop':
                w += looptext(e, mine)
            elif mine(e):
                if e.kind == 'out':
                    w += list(items(e))
                elif e.kind == 'manip':
                    raise Unknown('a manipulator in a loop')
        outs.append(tuple(w))
    if not any(outs):
        return []
    if len(set(outs)) != 1:
        raise Unknown('a loop writes different texts')
    w = outs[0]
    k = sym(('outiter', info.id), 0, 2 ** 62)
    w = tuple(x if x[0] == 'num' else subst(x, lambda y: L(k) if y is info.K else None) for x in w)
    if any(x[0] == 'num' for x in w):
        raise Unknown('a number in a loop')
    return list(normsegs((('c', k, w, L(info.K)),)))


def write(I, st, scr, segs):
    """[(state, screen)] cells written at the cursor"""
    segs = normsegs(segs)
    m = seqlen(segs)
    out = []
    inline(st, scr)
    n = seqlen(scr.segs)
    a, b = st.split(cmp_('<=', scr.cur, n))
    heads = [(s, scr.segs) for s in a]
    for s in b:
        heads.append((s, normsegs(scr.segs + (('r', BLANK, scr.cur - n),))))
    for s, old in heads:
        for s1, left, right in I.split_seq(s, old, scr.cur):
            nr = seqlen(right)
            c, d = s1.split(cmp_('<=', m, nr))
            for s2 in c:
                for s3, cut, rest in I.split_seq(s2, right, m):
                    x = scr.copy()
                    x.segs, x.cur = normsegs(left + segs + rest), scr.cur + m
                    out.append((s3, x))
            for s2 in d:
                x = scr.copy()
                x.segs, x.cur = normsegs(left + segs), scr.cur + m
                out.append((s2, x))
    return out


def inline(st, scr):
    c = cmp_('>=', scr.cur, L(0))
    if st.entails(c):
        return
    for t in st.copy().assume(neg(c)):
        for m in models(t, syms(scr.cur, scr.segs)):
            raise Wrong('the terminal is written before the line, %d cells over the prompt' % -m.num(scr.cur))
    raise Unknown('the cursor may be before the line')


def put(I, st, scr, g):
    """[(state, screen)] after one segment"""
    x = scr.copy()
    if x.esc is not None:
        if g[0] == 'num':
            x.esc += '0'
            return [(st, x)]
        c = const(g)
        if c is None:
            raise Unknown('an escape sequence is not known')
        ch = chr(c & 255)
        if ch == '[' and x.esc == '':
            x.esc = '['
        elif x.esc.startswith('[') and (ch.isdigit() or ch in ';?'):
            x.esc += ch
        elif x.esc.startswith('[') and ch == 'm':
            x.esc = None
        elif x.esc.startswith('[') and ch == 'H' and len(x.esc) == 1:
            x.esc, x.at, x.low = None, False, True
            x.segs, x.cur = (), L(0)
        elif x.esc.startswith('[') and ch == 'J' and x.esc in ('[', '[0', '[2') and (x.low or x.esc == '[2'):
            x.esc = None
            x.cleared += 1
            x.segs = ()
        elif x.esc.startswith('[') and ch in 'DC':
            n = int(x.esc[1:] or '1')
            if '0' in x.esc:
                raise Unknown('a cursor movement is not known')
            x.esc, x.cur = None, x.cur + (n if ch == 'C' else -n)
        elif x.esc.startswith('[') and ch == 'K' and x.esc in ('[', '[0'):
            x.esc = None
            return [(s, cutat(x, l)) for s, l, r in splitat(I, st, x)]
        else:
            raise Unknown('an escape sequence is not known')
        return [(st, x)]
    c = const(g)
    if g[0] == 'num':
        raise Unknown('a number')
    if c == 27:
        x.esc = ''
    elif c == 8:
        x.cur = x.cur - 1
    elif c == 7:
        pass
    elif c == 13:
        x.low = True            # the beginning of the row: only a new row follows
        x.at = False
    elif c == 10:
        x.rows += 1
        x.low, x.at = False, False
        x.segs, x.cur = (), L(0)
    elif g[0] == 'r' and const(('e', g[1])) == 8:
        if not st.entails(cmp_('>=', g[2], L(0))):
            raise Unknown('a number of backspaces may be negative')
        x.cur = x.cur - g[2]
    else:
        return write(I, st, x, (g,))
    return [(st, x)]


def splitat(I, st, x):
    inline(st, x)
    out = []
    a, b = st.split(cmp_('<=', x.cur, seqlen(x.segs)))
    for s in a:
        out += I.split_seq(s, x.segs, x.cur)
    return out + [(s, x.segs, ()) for s in b]


def cutat(x, l):
    y = x.copy()
    y.segs = l
    return y


def const(g):
    if g[0] == 'e' and isinstance(g[1], Lin) and g[1].is_const():
        return g[1].c
    return None


def play(I, st, scr, evs, mine):
    """[(state, screen, index of the first event not played)]: the outputs among the events, until one that is not an output"""
    work = [(st, scr)]
    for e in evs:
        if e.kind == 'loop':
            gs = looptext(e, mine)
        elif mine(e) and e.kind == 'out':
            gs = items(e)
        else:
            continue
        for g in gs:
            work = [y for s, x in work for y in put(I, s, x, g)]
    return work


# ---------------------------------------------------------------- concrete witnesses
class Model(object):
    """small values for the lengths and numbers of a state"""
    def __init__(self, st, vals):
        self.st, self.vals = st, vals
        self.letters = {}

    def num(self, v):
        c = v.c
        for q, k in v.t:
            if q not in self.vals:
                r = self.element(q)
                if r is None:
                    raise Unknown('no value for %s' % (q,))
                c += k * r
            else:
                c += k * self.vals[q]
        return c

    def element(self, q):
        if isinstance(q.key, tuple) and len(q.key) == 3 and q.key[0] == 'el':
            return self.letter(q.key[1], self.num(q.key[2]))
        return None

    def letter(self, base, i):
        k = (base, i)
        if k not in self.letters:
            self.letters[k] = 97 + len(self.letters) % 26
        return self.letters[k]

    def text(self, segs):
        out = []
        for s in segs:
            if s[0] == 'e':
                out.append(self.num(s[1]))
            elif s[0] == 's':
                out += [self.letter(s[1], i) for i in range(self.num(s[2]), self.num(s[3]))]
            elif s[0] == 'r':
                out += [self.num(s[1])] * self.num(s[2])
            else:
                raise Unknown('no value for a text')
        return bytes(c & 255 for c in out)


def syms(*xs):
    """the lengths and numbers values depend on"""
    out = []

    def go(x):
        if isinstance(x, Sym):
            if isinstance(x.key, tuple) and len(x.key) == 3 and x.key[0] == 'el' and isinstance(x.key[2], Lin):
                go(x.key[2])
            elif x not in out:
                out.append(x)
        elif isinstance(x, Lin):
            for q, k in x.t:
                go(q)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, V):
            for y in x.a:
                go(y)
    go(list(xs))
    return out


def models(st, qs, top=4, extra=()):
    """small models of a state, the symbols of the given list fixed"""
    qs = sorted(qs, key=repr)
    if len(qs) > 5:
        return
    n = 0

    def rec(ss, i, vals):
        nonlocal n
        if n > 3000:
            return
        if i == len(qs):
            yield Model(ss[0], dict(vals))
            return
        q = qs[i]
        dom = st.domof(q)
        cand = list(range(top)) if dom is None or 0 in dom else sorted(dom, key=lambda c: (not 97 <= c < 123, abs(c)))[:6]
        if isinstance(q.key, str) and 'CHAR' in q.key:
            cand = [120, 121, 9, 4]
        for c in cand:
            n += 1
            t = [y for x in ss for y in x.copy().assume(cmp_('==', L(q), L(c)))]
            if t:
                vals[q] = c
                for r in rec(t, i + 1, vals):
                    yield r
                del vals[q]
    for m in rec([st], 0, {}):
        yield m


def free(st, bases_):
    """no assumption of the path is about the characters of these texts"""
    for coll in (st.le, st.eq, st.ne):
        for r in coll:
            for q, k in r.t:
                if isinstance(q.key, tuple) and len(q.key) == 3 and q.key[0] == 'el' and q.key[1] in bases_:
                    return False
    for k in st.preds:
        if k and k[0] in ('seqeq', 'prefix', 'contains') and any(b in bases_ for b in bases(k)):
            return False
    return True


def tail(I, st, segs, n):
    """[(state, first n cells, the rest)]; the rest is None where there are fewer"""
    out = []
    a, b = st.split(cmp_('<=', n, seqlen(segs)))
    for s in a:
        out += I.split_seq(s, segs, n)
    return out + [(s, segs, None) for s in b]


def simplify(st, segs):
    """drops the empty segments, merges what the path makes adjacent"""
    out = []
    for g in segs:
        n = seglen(g)
        if st.equal(n, L(0)):
            continue
        if out and g[0] == 's' and out[-1][0] == 's' and out[-1][1] is g[1] and st.equal(out[-1][3], g[2]):
            out[-1] = ('s', g[1], out[-1][2], g[3])
            continue
        if out and g[0] == 's' and out[-1][0] == 'e':
            q = elemof(out[-1])
            if q and q[0] is g[1] and st.equal(q[1] + 1, g[2]):
                out[-1] = ('s', g[1], q[1], g[3])
                continue
        if out and g[0] == 'e' and out[-1][0] == 's':
            q = elemof(g)
            if q and q[0] is out[-1][1] and st.equal(q[1], out[-1][3]):
                out[-1] = ('s', q[0], out[-1][2], q[1] + 1)
                continue
        out.append(g)
    return tuple(out)


def samesegs(st, a, b):
    a, b = simplify(st, a), simplify(st, b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        if x[0] != y[0]:
            # a slice of one element
            for u, v in ((x, y), (y, x)):
                if u[0] == 's' and v[0] == 'e':
                    q = elemof(v)
                    if q and q[0] is u[1] and st.equal(q[1], u[2]) and st.equal(u[3], u[2] + 1):
                        break
            else:
                return False
            continue
        if x[0] == 'e':
            p, q = elemof(x), elemof(y)
            if isinstance(x[1], Lin) and isinstance(y[1], Lin) and st.equal(x[1], y[1]):
                continue
            if p and q and p[0] is q[0] and st.equal(p[1], q[1]):
                continue
            return False
        if x[0] in ('s', 'v'):
            if x[1] is y[1] and st.equal(x[2], y[2]) and st.equal(x[3], y[3]):
                continue
            return False
        if x[0] == 'r':
            if x[1] == y[1] and st.equal(x[2], y[2]):
                continue
            return False
        return False
    return True


def blank(segs):
    return all((g[0] == 'e' and const(g) == 32) or (g[0] == 'r' and const(('e', g[1])) == 32) for g in segs)


def shows(I, st, scr, line, cur):
    """[(state, True | message | None)]: does the screen show the line and the cursor the position"""
    out = []
    line = normsegs(line)
    n = seqlen(line)
    for s, head, rest in tail(I, st, scr.segs, n):
        ok = rest is not None and samesegs(s, head, line) and blank(simplify(s, rest)) and s.equal(scr.cur, cur)
        if ok:
            out.append((s, True))
            continue
        out.append((s, differs(s, scr, line, cur)))
    return out


def differs(s, scr, line, cur):
    bs = set(bases((scr.segs, line), True))
    if not free(s, bs):
        return None
    try:
        for m in models(s, syms(scr.segs, scr.cur, line, cur)):
            a = m.text(scr.segs).rstrip(b' ')
            b = m.text(line).rstrip(b' ')
            c, d = m.num(scr.cur), m.num(L(cur))
            if a != b:
                return 'the terminal shows %r where the line is %r' % (a.decode('latin1'), m.text(line).decode('latin1'))
            if c != d:
                return 'the cursor of the terminal is at %d where the cursor of the line is at %d' % (c, d)
    except Unknown:
        return None
    return None


def textdiffers(s, a, acur, b, bcur):
    """a concrete difference between two lines with cursors, or None"""
    bs = set(bases((a, b), True))
    if not free(s, bs):
        return None
    try:
        for m in models(s, syms(a, acur, b, bcur)):
            x, y = m.text(a), m.text(b)
            if x != y:
                return '%r instead of %r' % (x.decode('latin1'), y.decode('latin1'))
            c, d = m.num(L(acur)), m.num(L(bcur))
            if c != d:
                return 'the cursor is at %d instead of %d' % (c, d)
    except Unknown:
        return None
    return None
