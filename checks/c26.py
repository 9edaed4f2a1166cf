"""C26: everything a telnet session prints is encoded and sent completely."""
from .roles import *
from .screen import simplify
from .c23 import statesyms

META = {
    'technique': 'abstract execution of the stream buffer of a connection (blocks of any length and contents, every single character), the virtual encoding resolved to that of the session: the text handed to the complete write of the network library is compared with the data, element by element of the loop that encodes it, and exhaustively over the classes of characters for short blocks',
    'note': 'asio::write sends all of its buffer or reports an error.',
    'explanation': 'A block written to the stream is handed over once, as a whole, encoded: every newline preceded by a carriage return, every other byte unchanged; so is a single character; the stream is told that all was written. The stream given to the session is on this buffer.',
    'assumptions': ['asio::write with a buffer sends the whole buffer, in order, unless it reports an error'],
}
T0 = ('o', 'this')
DATA = sbase('DATA', 'char')
DL = ('o', 'DATA')


def check(rep, tier):
    rep.rule('block', 'a block of data is sent once, completely, encoded')
    rep.rule('short', 'so is every short block, for every combination of newlines, carriage returns and other bytes')
    rep.rule('char', 'so is every single character')
    rep.rule('reported', 'the data is reported as written')
    rep.rule('stream', 'the stream of the connection is on this buffer, without a buffer of its own')
    for n in ('boost', 'standalone'):
        Check(rep, prog(n), tier).run()


def buffers(p):
    """stream buffers that own a connection"""
    out = []
    for r in p.records.values():
        if not r.get('repo') or r.get('lam'):
            continue
        if any('basic_streambuf' in p.tk(b['t']).s for b in r['bases']) and any('socket' in p.tk(fd['t']).s for k, fd in p.allfields(r['id'])):
            out.append(r)
    return out


def derives(p, r, base, depth=0):
    if r['id'] == base['id']:
        return True
    return depth < 8 and any(derives(p, p.rec(to_rec(p.tk(b['t'])).a[0] if False else p.tk(b['t']).rec), base, depth + 1) for b in r['bases'] if p.tk(b['t']).rec is not None and p.rec(p.tk(b['t']).rec))


class Unsure(Exception):
    pass


class Check(object):
    def __init__(self, rep, p, tier):
        self.rep, self.p, self.tier = rep, p, tier

    def bad(self, rule, f, msg, st, ev=None):
        w = at(ev) if ev is not None else (f['file'], f['l'], strip(f['n']))
        self.rep.bad(rule, *w, msg=msg, path=trace(st))

    def run(self):
        p, rep = self.p, self.rep
        bs = buffers(p)
        if not bs:
            rep.und('stream', 'no stream buffer with a connection')
        for b in bs:
            tel = [r for r in p.records.values() if r.get('repo') and not r.get('lam') and r['id'] != b['id'] and derives(p, r, b)]
            leaf = [r for r in tel if not any(derives(p, q, r) for q in tel if q['id'] != r['id'])]
            self.stream(b, leaf)
            for r in leaf:
                self.write(b, r)

    # ------------------------------------------------------------
    def method(self, r, sn):
        """the override that runs for an object of class r"""
        p = self.p
        todo = [r]
        while todo:
            x = todo.pop(0)
            for f in p.functions.values():
                if f.get('rec') == x['id'] and f['sn'] == sn and f.get('body') is not None and f.get('virt'):
                    return f
            todo += [p.rec(p.tk(b['t']).rec) for b in x['bases'] if p.tk(b['t']).rec is not None and p.rec(p.tk(b['t']).rec)]
        return None

    def stream(self, b, leaf):
        p, rep = self.p, self.rep
        used = [f for f in p.functions.values() if f.get('rec') in [b['id']] + [r['id'] for r in leaf] and f.get('body') is not None and calls(f, ('setp', 'setbuf', 'pubsetbuf'))]
        if used:
            if self.method(leaf[0] if leaf else b, 'sync') is None or self.method(b, 'xsputn') is not None and not calls(self.method(b, 'xsputn'), ('sync', 'pubsync', 'pbase', 'pptr', 'sputc', 'sputn', 'overflow')):
                self.bad('stream', used[0], 'characters are kept in a buffer that is not sent with what is written afterwards', State())
            else:
                rep.und('stream', 'the buffer keeps characters')
            return
        # the stream given to the session
        os = [(k, fd) for k, fd in p.allfields(b['id']) if 'basic_ostream' in p.tk(fd['t']).s and p.tk(fd['t']).k != 'ref']
        cts = [f for f in p.functions.values() if f.get('rec') == b['id'] and f.get('kind') == 'ctor' and f.get('body') is not None]
        for f in cts:
            I, outs = runfn(rep, p, f, Policy(), State(), T0, [ptr(('o', 'A%d' % i)) if p.tk(a['t']).k in ('ref', 'rec', 'opq') else None for i, a in enumerate(f['ps'])])
            for s, fl in outs:
                for e in s.events:
                    if e.kind == 'ctor' and 'ostream' in e.name:
                        if any(a == ptr(T0) for a in e.args):
                            rep.ok('stream')
                        elif e.args and all(isinstance(a, V) and a.k in ('null', 'ptr') for a in e.args):
                            self.bad('stream', f, 'the stream of the session is not on this buffer', s, e)
                        else:
                            rep.und('stream', 'the buffer of the stream is not known')

    # ------------------------------------------------------------ what is written
    def write(self, b, r):
        p, rep = self.p, self.rep
        w = self.method(r, 'xsputn')
        o = self.method(r, 'overflow')
        enc = True              # leaf sessions are telnet sessions
        if o is None:
            f = [x for x in p.functions.values() if x.get('rec') == b['id'] and x.get('body') is not None][0]
            self.bad('char', f, 'single characters are never sent: the buffer has no overflow', State())
            return
        if w is not None:
            self.block(w, r)
            for n in range(0, 5 if self.tier == 'thorough' else 4):
                self.small(w, r, n)
        for c in range(256):
            st = State()
            st.dyn[T0] = r['id']
            I, outs = self.go(o, st, [L(c)])
            for s, fl in outs:
                ch = c - 256 if c > 127 else c
                self.judge('char', o, s, fl, bytes([c]), 'the character %d' % c)
                if fl and fl[0] == 'ret' and isinstance(fl[1], Lin):
                    if fl[1] == L(-1):
                        self.bad('reported', o, 'the character %d is reported as not written' % c, s)
                    elif num(fl[1]) is not None:
                        rep.ok('reported')
                    else:
                        rep.und('reported', 'the result of overflow is not known')
            if rep.enough():
                return

    def go(self, f, st, args, unroll=None):
        I = Interp(self.p, Policy())
        if unroll:
            I.pol.unroll = unroll
        outs = I.run(f, st=st, this=T0, args=args)
        self.rep.ran(I, outs)
        self.I = I
        return I, outs

    def block(self, w, r):
        rep = self.rep
        st = State()
        st.dyn[T0] = r['id']
        st.store[DL] = wholeseq(DATA)
        n = L(DATA.len)
        I, outs = self.go(w, st, [V('iter', DL, L(0), False), n], unroll=3)
        unsure = False
        for s, fl in outs:
            try:
                out = self.writes(s, s.events)
                self.gone(s, out)
                self.covers(s, out)
                rep.ok('block')
            except Unsure as x:
                rep.und('block', str(x))
                unsure = True
            except Bad as x:
                self.bad('block', w, x.msg, s, x.ev)
            self.reported(w, s, fl, n)
        if unsure:
            self.sizes(w, r)


    def sizes(self, w, r):
        """blocks as long as the constants the code mentions, give or take one"""
        rep = self.rep
        ks = set()
        seen, work = set(), [w] + [f for f in self.p.functions.values() if f.get('rec') is not None and f.get('repo') and f.get('body') is not None and derives(self.p, r, self.p.rec(f['rec']))]
        for f in work:
            ints(f.get('body'), ks)
        ks = sorted((k for k in ks if 4 <= k <= 4200), reverse=True)[:8]
        ks.sort()
        t0 = time.time()
        for n in sorted(set(m for k in ks for m in (k - 1, k, k + 1, 2 * k + 1))):
            if time.time() - t0 > 120 or rep.enough():
                return
            data = bytes(10 if i in (n // 2, n - 1) or i + 1 in ks else 65 + i % 26 for i in range(n))
            st = State()
            st.dyn[T0] = r['id']
            st.store[DL] = V('seq', tuple(('e', L(c)) for c in data))
            try:
                I, outs = self.go(w, st, [V('iter', DL, L(0), False), L(n)], unroll=2 * n + 8)
            except Budget as x:
                rep.und('short', 'a block of %d characters: %s' % (n, x))
                continue
            for s, fl in outs:
                self.judge('short', w, s, fl, data, 'a block of %d characters' % n)
                if fl and fl[0] == 'ret' and isinstance(fl[1], Lin) and num(fl[1]) is not None and num(fl[1]) != n:
                    self.bad('reported', w, 'of %d characters %s are reported as written' % (n, fl[1]), s)

    def reported(self, w, s, fl, n):
        rep = self.rep
        if not fl or fl[0] != 'ret' or not isinstance(fl[1], Lin):
            rep.und('reported', 'the result is not known')
        elif s.equal(fl[1], n):
            rep.ok('reported')
        elif approx(fl[1]):
            rep.und('reported', 'the result is not known')
        else:
            for m in range(0, 4):
                t = [y for x in s.copy().assume(cmp_('==', n, L(m))) for y in x.assume(cmp_('!=', fl[1], L(m)))]
                if t:
                    self.bad('reported', w, 'of a block of %d characters another number is reported as written' % m, t[0])
                    return
            rep.und('reported', 'the result is not known')

    # ------------------------------------------------------------ the text handed over
    def writes(self, st, evs):
        """[('text', segs, event) | ('loop', LoopInfo, [writes of a round], event)]"""
        out = []
        bufs = {}
        for e in evs:
            if e.kind == 'loop':
                subs = [(b, self.writes(b.state, b.events)) for b in e.x.backs]
                if any(w for b, w in subs):
                    out.append(('loop', e.x, subs, e))
            if e.kind != 'ext':
                continue
            sn = e.name.split('::')[-1]
            if sn == 'buffer':
                bufs[repr(e.res)] = e
            elif sn in ('transfer_at_least', 'transfer_exactly'):
                raise Bad('not all of the data need be sent (%s)' % sn, e)
            elif sn == 'write' and 'asio' in e.name:
                out.append(('text', self.text(st, e, bufs), e))
            elif sn in ('write_some', 'send'):
                raise Bad('%s need not send all of the data' % sn, e) if not any(x.kind == 'loop' and e in x.x.backs for x in evs) else Unsure('parts are sent')
            elif sn.startswith('async_write') or sn == 'async_send':
                raise Unsure('the data is sent later')
        return out

    def text(self, st, e, bufs):
        for a in e.args[1:]:
            if isinstance(a, V) and a.k == 'ptr':
                a = st.store.get(a.a[0], a)
            b = bufs.get(repr(a))
            if b is None:
                continue
            v = b.args[0]
            if isinstance(v, V) and v.k == 'ptr':
                v = st.store.get(v.a[0])
            if isinstance(v, V) and v.k == 'iter':
                v = st.store.get(v.a[0])
                if v is None or not b.args[0].a[1] == L(0) or len(b.args) < 2:
                    raise Unsure('what is sent is not known')
            if not (isinstance(v, V) and v.k == 'seq'):
                raise Unsure('what is sent is not known')
            segs = v.a[0]
            if len(b.args) > 1 and isinstance(b.args[1], Lin):
                n = b.args[1]
                if not st.equal(n, seqlen(segs)):
                    if st.can(cmp_('<', n, seqlen(segs))) and not approx(n):
                        raise Bad('only %s characters are sent' % (n,), e)
                    raise Unsure('how much is sent is not known')
            return segs
        raise Unsure('what is sent is not known')

    def gone(self, s, out):
        """nothing is handed over although the connection may be there"""
        if out:
            return
        if s.equal(L(DATA.len), L(0)):
            return
        if any(e.kind == 'ext' and e.name.split('::')[-1] in ('is_open', 'operator bool', 'good') for e in s.events):
            raise Unsure('nothing is sent without a connection')
        raise Bad('nothing is sent', None)

    def covers(self, s, out):
        """the texts, one after the other, are the encoded data"""
        pos = L(0)
        if len(out) == 1 and out[0][0] == 'text':
            self.encoded(s, out[0][1], out[0][2])
            return
        if len(out) == 1 and out[0][0] == 'loop':
            lp, subs = out[0][1], out[0][2]
            self.rounds(s, lp, out[0][3])
            for b, ws in subs:
                segs = ()
                for w in ws:
                    if w[0] != 'text':
                        raise Unsure('nested loops')
                    segs += tuple(w[1])
                self.parts(b.state, segs, lp, out[0][3])
                self.element(b.state, segs, L(lp.K), out[0][3])
            return
        if out:
            t = [x for x in out if x[0] == 'text']
            if len(t) == len(out) and len(t) > 1:
                n = [seqlen(x[1]) for x in t]
                # each holds all of the data
                ok = 0
                for x in t:
                    try:
                        self.encoded(s, x[1], x[2])
                        ok += 1
                    except (Unsure, Bad):
                        pass
                if ok > 1 and s.can(cmp_('>=', L(DATA.len), 1)):
                    raise Bad('the data is sent twice', t[-1][2])
            raise Unsure('the data is sent in parts')

    def rounds(self, s, lp, ev):
        """the loop has a round for every character"""
        if not s.equal(L(lp.K), L(DATA.len)):
            for b in lp.backs:
                for q in statesyms(b.state):
                    k = q.key
                    if isinstance(k, tuple) and len(k) == 3 and k[0] == 'el' and isinstance(k[1].key, tuple) and k[1].key[0] == 'cstr' and s.equal(L(lp.K), L(k[1].len)):
                        raise Bad('the data is taken to end at a zero character', ev)
            if s.entails(cmp_('<', L(lp.K), L(DATA.len))) and self.bychar(lp):
                raise Bad('not all of the characters are sent', ev)
            raise Unsure('not known how many characters are encoded')

    def bychar(self, lp):
        q = elemval(DATA, L(lp.K)).single()
        return all(q in b.state.dom or any(q in g.syms() for v in b.trans.values() for h in v[1:] if isinstance(h, V) and h.k == 'seq' for g in [z[1] for z in h.a[0] if z[0] == 'e'] if isinstance(g, Lin)) for b in lp.backs)

    def parts(self, st, segs, lp, ev):
        """each round sends a part of a text: the next round goes on where this one stops"""
        if len(segs) != 1 or segs[0][0] not in ('s', 'l') or not (segs[0][0] == 's'):
            return
        g = segs[0]
        nxt = subst(g[2], lambda y: L(lp.K) + 1 if y is lp.K else None)
        d = nxt - g[3]
        if not st.can(cmp_('<', nxt, L(g[1].len))):
            return
        for t in st.copy().assume(cmp_('<', nxt, L(g[1].len))):
            if t.entails(cmp_('>', d, L(0))):
                raise Bad('between two parts of the data something is left out', ev)
            if t.entails(cmp_('<', d, L(0))):
                raise Bad('a part of the data is sent twice', ev)

    def encoded(self, s, segs, ev):
        if s.equal(L(DATA.len), L(0)) and s.equal(seqlen(segs), L(0)):
            return
        if len(segs) == 1 and segs[0][0] == 's' and segs[0][1] is DATA:
            raise Bad('newlines are sent without a carriage return', ev)
        if len(segs) == 1 and segs[0][0] == 'l':
            lp = None
            for e in s.events:
                if e.kind == 'loop' and e.x.id == segs[0][1]:
                    lp = e.x
            if lp is None:
                raise Unsure('a loop is not known')
            self.rounds(s, lp, ev)
            for b in lp.backs:
                h, x = b.trans[segs[0][2]]
                r = x.a[0][len(h.a[0]):]
                if x.a[0][:len(h.a[0])] != h.a[0]:
                    raise Unsure('what a round of the encoding adds is not known')
                self.element(b.state, r, L(lp.K), ev)
            return
        raise Unsure('the text sent is not understood: %s' % (segs,))

    def element(self, st, segs, k, ev):
        """what is added for one character"""
        q = elemval(DATA, k)
        a, b = st.split(cmp_('==', q, L(10)))
        segs = simplify(st, segs)
        for t, want in [(x, (L(13), q)) for x in a] + [(x, (q,)) for x in b]:
            if any(g[0] != 'e' for g in segs):
                raise Unsure('what a character becomes is not known')
            if len(segs) != len(want) or not all(t.equal(g[1], w) for g, w in zip(segs, want)):
                if any(approx(g[1]) for g in segs):
                    raise Unsure('what a character becomes is not known')
                raise Bad('a newline is not sent as carriage return and newline' if len(want) == 2 else 'a character other than the newline is changed', ev)

    # ------------------------------------------------------------ short blocks
    def small(self, w, r, n):
        rep = self.rep
        import itertools
        for cls in itertools.product((10, 13, 65, 255), repeat=n):
            if n >= 4 and 65 not in cls:
                continue
            st = State()
            st.dyn[T0] = r['id']
            seq = V('seq', tuple(('e', L(c - 256 if c > 127 else c)) for c in cls))
            st.store[DL] = seq
            I, outs = self.go(w, st, [V('iter', DL, L(0), False), L(n)], unroll=40)
            for s, fl in outs:
                self.judge('short', w, s, fl, bytes(cls), 'the block %r' % bytes(cls))
                if fl and fl[0] == 'ret' and isinstance(fl[1], Lin) and num(fl[1]) is not None and num(fl[1]) != n:
                    self.bad('reported', w, 'of %d characters %s are reported as written' % (n, fl[1]), s)
            if rep.enough():
                return

    def judge(self, rule, f, s, fl, data, what):
        rep = self.rep
        want = data.replace(b'\n', b'\r\n')
        if fl is None or fl[0] == 'throw':
            rep.und(rule, 'an exception')
            return
        try:
            got = b''
            ws = self.writes(s, s.events)
            last = None
            for w in ws:
                if w[0] != 'text':
                    raise Unsure('sent in a loop')
                for g in w[1]:
                    if g[0] == 'e' and num(g[1]) is not None:
                        got += bytes([num(g[1]) & 255])
                    elif s.equal(seglen(g), L(0)):
                        pass
                    else:
                        raise Unsure('what is sent for %s is not known' % what)
                last = w[2]
            if got == want:
                rep.ok(rule)
            elif not ws and any(e.kind == 'ext' and e.name.split('::')[-1] in ('is_open', 'operator bool', 'good') for e in s.events):
                rep.und(rule, 'nothing is sent without a connection')
            else:
                self.bad(rule, f, '%s is sent as %s' % (what, repr(got) if len(got) < 30 else '%d characters%s' % (len(got), ', not %d' % len(want) if len(got) != len(want) else ', others')), s, last)
        except Unsure as x:
            rep.und(rule, str(x))
        except Bad as x:
            self.bad(rule, f, x.msg, s, x.ev)


class Bad(Exception):
    def __init__(self, msg, ev):
        self.msg, self.ev = msg, ev


def calls(f, names):
    """the body calls a function of that name"""
    def go(x):
        if isinstance(x, dict):
            if x.get('k') in ('mcall', 'call') and x.get('sn') in names:
                return True
            return any(go(y) for y in x.values())
        if isinstance(x, list):
            return any(go(y) for y in x)
        return False
    return go(f.get('body')) or go(f.get('inits'))


def ints(x, out):
    if isinstance(x, dict):
        v = x.get('v')
        if x.get('k') == 'int' and isinstance(v, int):
            out.add(v)
        for y in x.values():
            ints(y, out)
    elif isinstance(x, list):
        for y in x:
            ints(y, out)


def num(l):
    return l.c if isinstance(l, Lin) and not l.t else None
