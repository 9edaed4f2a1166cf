"""C28: a server serves every connection and survives every network error."""
from .roles import *
from .callgraph import calls, bodyof, lib
from .c26 import buffers, derives
from .c23 import statesyms

META = {
    'technique': 'typestate analysis of the asynchronous operations: abstract execution of the functions that start them and of their completion callbacks, partitioned by the result of the operation (success, every kind of error, connection still open), counts what each path starts; an exception-escape analysis over the call graph covers the throwing overloads of the socket operations',
    'note': 'Accepting, reading and sessions are recognised by the operations of the network library they use, through any helper function.',
    'explanation': 'Every constructor of a server starts one accept, and so does every completion of an accept; a successful one creates one session with the accepted socket and starts it once, a failed one none. Starting a session starts one read; the completion of a read hands over exactly the bytes received and starts the next read when it succeeded, and starts none after an error. '
                   'No throwing overload of a socket operation is reached outside a handler for it.',
    'assumptions': ['asio reports at most as many bytes as the buffer holds', 'the application does not call the protected functions of the session itself'],
}
T0 = ('o', 'this')
CLOSING = ('shutdown', 'close', 'cancel', 'available', 'remote_endpoint', 'local_endpoint', 'set_option', 'get_option', 'io_control', 'non_blocking', 'native_non_blocking', 'release',
           'send', 'receive', 'write_some', 'read_some', 'wait', 'assign', 'bind', 'connect', 'open', 'accept', 'listen')
FREE = ('write', 'read', 'read_until', 'connect')
SETUP = ('open', 'bind', 'listen', 'set_option', 'assign')


def check(rep, tier):
    rep.rule('accept', 'a server starts one accept when it is created and one after every accept, successful or not')
    rep.rule('session', 'one session is created with the accepted socket and started once; none after an error')
    rep.rule('create', 'creating a session makes one new session on the given socket')
    rep.rule('start', 'starting a session starts one read')
    rep.rule('read', 'one read is started after a successful read, none after an error')
    rep.rule('bytes', 'exactly the bytes received are handed over, and consumed')
    rep.rule('room', 'the buffer of a read is within its storage')
    rep.rule('nothrow', 'an error of the network does not throw out of the library')
    for n in ('boost', 'standalone'):
        Check(rep, prog(n)).run()


def asio(name):
    return name.startswith(('asio::', 'boost::asio::'))


class Net(Policy):
    """conditions on error codes, and what the network library gives"""
    def __init__(self, opaque=()):
        self.opaque = tuple(opaque)
        self.bufs = {}
        self.check = None

    def on_event(self, I, st, ev):
        # from here on the network may write in the buffer
        if aname(ev) in READ and self.check is not None:
            bx = self.check.buf(st, ev)
            loc = homes(bx.args[0]) if bx is not None and bx.args else None
            if isinstance(loc, tuple) and isinstance(bx.args[0], V) and bx.args[0].k == 'seq':
                sg = bx.args[0].a[0]
                if len(sg) == 1 and sg[0][0] == 's':
                    st.store[loc] = seq(('s', sbase(('ahead', loc), sg[0][1].ek)) + tuple(sg[0][2:]))
        return [st]

    def where(self, I, st, o):
        if isinstance(o, V) and o.k == 'ptr':
            o = o.a[0]
        return o

    def key(self, I, st, o):
        o = self.where(I, st, o)
        if isinstance(o, tuple):
            v = st.store.get(o)
            if isinstance(v, V) and v.k in ('term', 'psym') and v.a and v.a[0] in ('sym', 'obj'):
                return repr(v)
            return repr((o, st.ver.get(o, 0)))
        return repr(o) if isinstance(o, V) else None

    def const(self, I, st, o):
        """the constant an error code was made of"""
        o = self.where(I, st, o)
        v = st.store.get(o) if isinstance(o, tuple) else o
        for e in st.events:
            if e.kind == 'ctor' and 'error_code' in (e.name or '') and repr(e.res) == repr(v):
                if not e.args:
                    return 0
                a = e.args[0]
                return a.c if isinstance(a, Lin) and not a.t else None
        if isinstance(v, Lin) and not v.t:
            return v.c
        return None

    def ask(self, st, key, const=None):
        if const is None or const == 0:
            for k, v in st.preds.items():
                if k[0] == 'ecis' and k[1] == key and v is True:
                    return T if const is None else F
            c = pred('err', key)
            return c if const is None else neg(c)
        if st.preds.get(('err', key)) is False:
            return F
        for k, v in st.preds.items():
            if k[0] == 'ecis' and k[1] == key and v is True:
                return T if k[2] == const else F
        return pred('ecis', key, const)

    def hook(self, I, st, fr, name, e, obj, args):
        sn = name.split('::')[-1]
        if sn == 'buffer' and asio(name) and args:
            self.bufs[e.get('l')] = args[0]
        cls = strip(e.get('cls') or '')
        if cls.endswith('error_code') and sn in ('operator bool', 'failed') or cls.endswith('error_code') and sn == 'operator unspecified-bool-type':
            return [(st, self.ask(st, self.key(I, st, obj)))]
        if cls.endswith('error_code') and sn == 'operator!':
            return [(st, neg(self.ask(st, self.key(I, st, obj))))]
        if cls.endswith('error_code') and sn == 'value':
            k = self.key(I, st, obj)
            if st.preds.get(('err', k)) is False:
                return [(st, L(0))]
            return [(st, I.p.tk(e['t']).mk(('ecval', k)))]
        if sn in ('operator==', 'operator!='):
            xs = ([obj] if obj is not None else []) + list(args)
            es = [x for x in e['args']] if obj is None else [e.get('obj')] + list(e['args'])
            if len(xs) == 2 and any('error_code' in I.p.tk(y['t']).s for y in es if isinstance(y, dict) and y.get('t') is not None):
                c0, c1 = self.const(I, st, xs[0]), self.const(I, st, xs[1])
                if (c0 is None) == (c1 is None):
                    return None
                k = self.key(I, st, xs[0] if c0 is None else xs[1])
                r = self.ask(st, k, c1 if c0 is None else c0)
                return [(st, r if sn == 'operator==' else neg(r))]
        if sn == 'is_open' and asio(name):
            return [(st, pred('open', repr(self.where(I, st, obj))))]
        if asio(name) and sn == 'data' and 'streambuf' in name:
            return [(st, V('term', 'inbuf', self.where(I, st, obj), self.consumed(st, obj)))]
        if asio(name) and sn in ('buffers_begin',) and args:
            v = self.where(I, st, args[0])
            v = st.store.get(v) if isinstance(v, tuple) else v
            if isinstance(v, V) and v.k == 'term' and v.a[0] == 'inbuf':
                return [(st, V('iter', ('buf', ('inbuf', v.a[1], v.a[2])), L(0), False))]
        if asio(name) and sn in ('operator+', 'operator-') and len(args) == 2:
            v = self.where(I, st, args[0])
            v = st.store.get(v) if isinstance(v, tuple) else v
            if isinstance(v, V) and v.k == 'iter' and isinstance(args[1], Lin):
                return [(st, V('iter', v.a[0], v.a[1] + (args[1] if sn == 'operator+' else args[1].scale(-1)), False))]
        return None

    def consumed(self, st, obj):
        o = self.where(None, st, obj)
        return sum(1 for e in st.events if e.kind == 'ext' and (e.name or '').split('::')[-1] == 'consume' and self.where(None, st, e.obj) == o)


def aname(e):
    n = strip(e.name or '')
    return n.split('::')[-1] if e.kind == 'ext' and asio(n) else ''


ACCEPT = ('async_accept',)
READ = ('async_read_some', 'async_receive', 'async_read', 'async_read_until')


def iscond(v):
    return not isinstance(v, (Lin, V)) and v is not None


def later(s0, goods):
    """the states in which a callback that starts its own operation again can find the object: counters after any number of
    rounds, flags with any of the values they are given; nothing when other things change"""
    own = lambda l: isinstance(l, tuple) and l[:2] == T0 and len(l) == 3 and not isinstance(l[-1], tuple)
    changed = {}
    for s in goods:
        for l, v in s.store.items():
            if own(l) and repr(s0.store.get(l)) != repr(v):
                changed.setdefault(l, [])
    if not changed:
        return []
    for s in goods:
        for l in changed:
            v = s.store.get(l)
            if iscond(v) and not (v is T or v is F):
                v = T if s.entails(v) else F if s.entails(neg(v)) else v
                s.store[l] = v
            changed[l].append(v)
    counters = {}
    for l, vs in changed.items():
        v0 = s0.store.get(l)
        if all(v is T or v is F for v in vs) and (v0 is T or v0 is F):
            continue
        if not isinstance(v0, Lin) or not all(isinstance(v, Lin) for v in vs):
            return []
        ds = [v + v0.scale(-1) for v in vs]
        if not all(d.is_const() for d in ds):
            return []
        ds = set(d.c for d in ds if d.c)
        if len(ds) != 1:
            return []
        counters[l] = ds.pop()
    out, seen = [], set()
    for s in goods:
        s1 = s0.copy()
        for l in changed:
            if l in counters:
                s1.store[l] = s0.store[l] + L(sym(('rounds', l), 0, 2 ** 31 - 2)).scale(counters[l])
            else:
                s1.store[l] = s.store[l]
        k = repr([(l, s1.store[l]) for l in sorted(changed, key=repr)])
        if k not in seen:
            seen.add(k)
            out.append(s1)
    return out


class Check(object):
    def __init__(self, rep, p):
        self.rep, self.p = rep, p

    def bad(self, rule, f, msg, st, ev=None):
        w = at(ev) if ev is not None else (f['file'], f['l'], strip(f['n']))
        self.rep.bad(rule, *w, msg=msg, path=trace(st))

    def run(self):
        p = self.p
        self.servers()
        self.sessions()
        self.lines()
        Throws(self.rep, p).run()

    def owners(self, what):
        """classes with a member that ... """
        p = self.p
        return [r for r in p.records.values() if r.get('repo') and not r.get('lam') and any(what in p.tk(fd['t']).s for fd in r.get('fields') or [])]

    def go(self, f, pol, st=None, this=T0, args=None):
        pol.check = self
        return runfn(self.rep, self.p, f, pol, st if st is not None else State(), this, args, maxsteps=300000)

    def callback(self, s, e, pol):
        """the final states of a completion callback"""
        p = self.p
        for a in e.args:
            if isinstance(a, V) and a.k == 'ptr' and isinstance(a.a[0], tuple) and isinstance(s.store.get(a.a[0]), V) and s.store[a.a[0]].k == 'clo':
                a = s.store[a.a[0]]
            if isinstance(a, V) and a.k == 'clo':
                g = p.fn(a.a[0]) if a.a[0] is not None else None
                if g is None:
                    g = next((x for x in p.functions.values() if x.get('rec') == a.a[1] and x['sn'] == 'operator()' and x.get('body') is not None), None)
                if g is None:
                    return None
                st = s.copy()
                for k in [k for k, v in st.store.items() if isinstance(v, V) and v.k == 'seq' and ahead(v)]:
                    del st.store[k]
                for k in [k for k in st.preds if k and k[0] in ('expired', 'nonnull', 'err', 'open', 'ecis')]:
                    del st.preds[k]
                n = len(st.events)
                args, ec, ln, sk = [], None, None, None
                for i, ps in enumerate(g['ps']):
                    tk = p.tk(ps['t'])
                    if 'error_code' in tk.s:
                        ec = i
                    elif tk.k == 'int':
                        ln = i
                    elif 'socket' in tk.s:
                        sk = i
                I = Interp(p, pol)
                I.maxsteps = 300000
                if ln is not None:
                    y = p.tk(g['ps'][ln]['t']).mk(('arg', ln))
                    for x in st.assume(cmp_('<=', y, L(1 << 24))) if isinstance(y, Lin) else [st]:
                        st = x
                outs = I.run(g, st=st, args=None, clo=a)
                self.rep.ran(I, outs)
                return g, n, ec, ln, sk, outs
        return None

    def eckey(self, g, ec, s):
        return [k[1] for k in s.preds if k[0] in ('err', 'ecis') and ("'arg', %d" % ec in k[1] or '(arg,%d)' % ec in k[1])]

    def outcome(self, g, ec, ln, s):
        """('ok' | 'err' | None, the constants the error is known to be)"""
        res = None
        which = []
        for k, v in s.preds.items():
            if k[0] == 'err' and self.ofarg(k[1], ec):
                res = 'err' if v else 'ok'
        for k, v in s.preds.items():
            if k[0] == 'ecis' and self.ofarg(k[1], ec) and v is True:
                if res == 'ok':
                    return 'no', which
                res = 'err'
                which.append(k[2])
        for y in statesyms(s):
            if isinstance(getattr(y, 'key', None), tuple) and y.key[:1] == ('ecval',) and self.ofarg(y.key[1], ec):
                r = 'ok' if s.entails(cmp_('==', L(y), L(0))) else 'err' if s.entails(cmp_('!=', L(y), L(0))) else None
                if r is not None and res not in (None, r):
                    return 'no', which
                res = r or res
        if ln is not None:
            y = self.p.tk(g['ps'][ln]['t']).mk(('arg', ln))
            if res is None and isinstance(y, Lin):
                if s.entails(cmp_('>=', y, L(1))):
                    res = 'ok'
                elif s.entails(cmp_('==', y, L(0))):
                    res = 'err'
            elif res == 'ok' and isinstance(y, Lin) and s.entails(cmp_('==', y, L(0))):
                return 'no', which
        return res, which

    def ofarg(self, key, i):
        return '(arg,%d)' % i in key.replace(' ', '') or "('arg',%d)" % i in key.replace(' ', '')

    def gone(self, s, n):
        """the object is known not to exist any more"""
        return any(k[0] == 'expired' and v is True for k, v in s.preds.items()) or any(k[0] == 'nonnull' and v is False and 'weak' in repr(k) for k, v in s.preds.items())

    # ------------------------------------------------------------ accepting
    def servers(self):
        p, rep = self.p, self.rep
        rs = [r for r in p.records.values() if r.get('repo') and not r.get('lam') and any('acceptor' in p.tk(fd['t']).s for fd in r.get('fields') or [])]
        if not rs:
            rep.und('accept', 'no server')
        for r in rs:
            for f in p.functions.values():
                if f.get('rec') == r['id'] and f.get('kind') == 'ctor' and f.get('body') is not None and not f.get('defaulted'):
                    self.server(r, f)
            self.creates(r)

    def server(self, r, f):
        rep = self.rep
        pol = Net()
        try:
            I, outs = self.go(f, pol)
        except Exception as x:
            rep.und('accept', '%s: %s' % (strip(f['n']), x))
            return
        for s, fl in outs:
            if fl and fl[0] == 'throw':
                continue
            acc = [e for e in s.events if aname(e) in ACCEPT]
            if len(acc) != 1:
                self.few('accept', f, s, len(acc), 'accept', 'when the server is created')
                continue
            rep.ok('accept')
            cb = self.callback(s, acc[0], pol)
            if cb is None:
                rep.und('accept', 'the callback of an accept is not known')
                continue
            self.accepted(r, f, s, acc[0], cb, pol)

    def few(self, rule, f, s, n, what, when, ev=None):
        if approx(s) and n == 0:
            self.rep.und(rule, 'starting is not certain')
        elif n == 0:
            self.bad(rule, f, 'no %s is started %s' % (what, when), s, ev)
        else:
            self.bad(rule, f, '%d %ss are started %s' % (n, what, when), s, ev)

    def accepted(self, r, f, s0, e0, cb, pol=None):
        rep, p = self.rep, self.p
        g, n, ec, ln, sk, outs = cb
        if ec is None:
            rep.und('accept', 'the callback of an accept has no error code')
            return
        if pol is not None:
            for s1 in later(s0, [s for s, fl in outs if not (fl and fl[0] == 'throw') and len([e for e in s.events[n:] if aname(e) in ACCEPT]) == 1]):
                cb2 = self.callback(s1, e0, pol)
                if cb2 is not None:
                    self.accepted(r, f, s1, e0, cb2)
        for s, fl in outs:
            if self.gone(s, n) or fl and fl[0] == 'throw':
                continue
            res, which = self.outcome(g, ec, None, s)
            if res == 'no':
                continue
            evs = s.events[n:]
            acc = [e for e in evs if aname(e) in ACCEPT]
            made = [e for e in evs if e.kind == 'vcall' and isinstance(e.res, V) and e.res.k in ('psym', 'ptr') and self.makes(e)]
            failed = any(k[0] == 'nonnull' and v is False and any(repr(e.res) == repr(k[1]) for e in made) for k, v in s.preds.items() if len(k) > 1)
            when = 'after %s' % {'ok': 'a successful accept', 'err': 'a failed accept', None: 'an accept'}[res]
            if res == 'err' and which:
                when += ' (error %s)' % which[0]
            if len(acc) == 1:
                rep.ok('accept')
            else:
                self.few('accept', g, s, len(acc), 'accept', when, e0)
            if res != 'ok' and made:
                self.bad('session', g, 'a session is created %s' % ('after a failed accept' if res == 'err' else 'whatever the result of the accept'), s, made[0])
            elif res == 'err':
                rep.ok('session')
            if res == 'err':
                continue
            if len(made) != 1:
                if not made and res is None:
                    self.bad('session', g, 'no session is created for an accepted connection', s, e0)
                elif not made and approx(s):
                    rep.und('session', 'creating is not certain')
                elif not made:
                    self.bad('session', g, 'no session is created for an accepted connection', s, e0)
                else:
                    self.bad('session', g, '%d sessions are created for an accepted connection' % len(made), s, made[1])
                continue
            if sk is not None:
                x = [a for a in made[0].args]
                if any('(arg,%d)' % sk in repr(a).replace(' ', '') or "('arg',%d)" % sk in repr(a).replace(' ', '') for a in x):
                    rep.ok('session')
                elif all(isinstance(a, V) and a.k in ('term', 'ptr') for a in x):
                    self.bad('session', g, 'the session is created with another socket than the accepted one', s, made[0])
                else:
                    rep.und('session', 'the socket of the session is not known')
            if failed:
                continue
            st = [e for e in evs if e.kind in ('vcall', 'ext', 'user') and e.obj is not None and repr(e.obj) == repr(made[0].res)]
            starts = [e for e in st if self.starts(e)]
            if len(starts) == 1:
                rep.ok('session')
            elif not starts and st and approx(s):
                rep.und('session', 'starting is not certain')
            else:
                self.bad('session', g, 'the session of an accepted connection is %s' % ('not started' if not starts else 'started %d times' % len(starts)), s, made[0])

    def makes(self, e):
        """the function gives an owner of a session"""
        p = self.p
        for f in p.bystrip.get(strip(e.name), []):
            tk = p.tk(f['ret'])
            if tk.k == 'sptr' and tk.sub('to') is not None and tk.sub('to').rec is not None:
                r = p.rec(tk.sub('to').rec)
                return r is not None and any(derives(p, r, b) or derives(p, b, r) for b in buffers(p))
        return False

    def starts(self, e):
        """it leads to a read"""
        p = self.p
        seen, work = set(), [strip(e.name)]
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            for f in p.bystrip.get(n, []):
                if f.get('body') is None:
                    continue
                for c in calls(bodyof(f)):
                    if strip(c['n']).split('::')[-1] in READ:
                        return True
                    work.append(strip(c['n']))
        return False

    def creates(self, r):
        """the overrides that create sessions"""
        p, rep = self.p, self.rep
        bs = buffers(p)
        for f in p.functions.values():
            if not f.get('repo') or f.get('body') is None or not f.get('virt') or not lib(f) or f.get('rec') is None or not derives(p, p.rec(f['rec']), r):
                continue
            tk = p.tk(f['ret'])
            if tk.k != 'sptr' or tk.sub('to') is None or tk.sub('to').rec is None or not any(derives(p, b, p.rec(tk.sub('to').rec)) or derives(p, p.rec(tk.sub('to').rec), b) for b in bs):
                continue
            sk = next((i for i, a in enumerate(f['ps']) if 'socket' in p.tk(a['t']).s), None)
            try:
                I, outs = self.go(f, Net())
            except Exception as x:
                rep.und('create', str(x))
                continue
            for s, fl in outs:
                if not fl or fl[0] != 'ret':
                    continue
                v = fl[1]
                news = [e for e in s.events if e.kind == 'new' and any(derives(p, q, b) for b in bs for q in p.recbyname.get(e.name, []))]
                if isinstance(v, V) and v.k == 'null':
                    self.bad('create', f, 'no session is created for a connection', s)
                elif isinstance(v, V) and v.k == 'ptr' and len(news) == 1 and news[0].obj == v:
                    rep.ok('create')
                    sf = [val for loc, val in s.store.items() if loc[:len(v.a[0])] == v.a[0] and len(loc) == len(v.a[0]) + 1 and isinstance(loc[-1], str) and self.socketfield(loc[-1])]
                    if sk is not None and sf:
                        if any('(arg,%d)' % sk in repr(x).replace(' ', '') for x in sf):
                            rep.ok('create')
                        elif all(isinstance(x, V) and x.k == 'term' for x in sf):
                            self.bad('create', f, 'the session is not created on the accepted socket', s)
                elif isinstance(v, V) and v.k == 'ptr' and len(news) > 1:
                    self.bad('create', f, '%d sessions are created for one connection' % len(news), s)
                elif isinstance(v, V) and v.k == 'psym':
                    self.bad('create', f, 'the session of a connection is not a new one', s)
                else:
                    rep.und('create', 'the session created is not known')

    def socketfield(self, key):
        p = self.p
        for b in buffers(p):
            for k, fd in p.allfields(b['id']):
                if k == key:
                    return 'socket' in p.tk(fd['t']).s
        return False

    # ------------------------------------------------------------ reading
    def receivers(self, b):
        """the functions that are given the bytes received: virtual, with a text"""
        p = self.p
        out = set()
        for r in p.records.values():
            if r.get('repo') and not r.get('lam') and derives(p, r, b):
                for m in r.get('methods') or []:
                    f = p.fn(m)
                    if f is None or not f.get('virt') or not f.get('ps') or not lib(f):
                        continue
                    root = f
                    while root.get('ov'):
                        o = p.fn(root['ov'][0])
                        if o is None:
                            break
                        root = o
                    if root.get('pure') and root.get('repo') and len(root['ps']) == 1 and 'string' in p.tk(root['ps'][0]['t']).s:
                        out.add(strip(f['n']))
                        out.add(strip(root['n']))
        return out

    def sessions(self):
        p, rep = self.p, self.rep
        for b in buffers(p):
            der = [r for r in p.records.values() if r.get('repo') and not r.get('lam') and r['id'] != b['id'] and derives(p, r, b)]
            leaf = [r for r in der if not any(derives(p, q, r) for q in der if q['id'] != r['id'])] or [b]
            recv = self.receivers(b)
            if not recv:
                rep.und('bytes', 'what is given the bytes is not known')
            for r in leaf:
                self.session(b, r, recv)

    def session(self, b, r, recv):
        p, rep = self.p, self.rep
        # the public virtual functions that lead to a read
        roots = []
        for f in p.functions.values():
            if not f.get('repo') or f.get('body') is None or f.get('rec') is None or p.rec(f['rec']).get('lam'):
                continue
            if derives(p, r, p.rec(f['rec'])) and derives(p, p.rec(f['rec']), b) and not f.get('ps') and f.get('access') == 0 and f.get('kind') not in ('ctor', 'dtor') and self.leads(f, r):
                roots.append(f)
        if not roots:
            rep.und('start', 'no function starts a session')
        for f in roots:
            g = p.override_in(f, r['id']) if f.get('virt') else f
            if g is None or g['id'] != f['id']:
                continue
            pol = Net(recv)
            st = State()
            st.dyn[T0] = r['id']
            try:
                I, outs = self.go(f, pol, st)
            except Exception as x:
                rep.und('start', '%s: %s' % (strip(f['n']), x))
                continue
            done = set()
            for s, fl in outs:
                if fl and fl[0] == 'throw':
                    continue
                rd = [e for e in s.events if aname(e) in READ]
                if len(rd) != 1:
                    self.few('start', f, s, len(rd), 'read', 'when the session starts')
                    continue
                rep.ok('start')
                k = (rd[0].line, repr(rd[0].args))
                if k in done:
                    continue
                done.add(k)
                cb = self.callback(s, rd[0], pol)
                if cb is None:
                    rep.und('read', 'the callback of a read is not known')
                    continue
                self.room(f, s, rd[0], pol)
                self.received(f, s, rd[0], cb, recv, pol)

    def leads(self, f, r):
        """a read is started by the function itself, not only by what it calls on others"""
        p = self.p
        seen, work = set(), [f]
        while work:
            x = work.pop()
            if x['id'] in seen or x.get('body') is None:
                continue
            seen.add(x['id'])
            for c in calls(bodyof(x)):
                if strip(c['n']).split('::')[-1] in READ:
                    return True
                g = p.fn(c['f']) if c.get('f') is not None else None
                if g is not None and g.get('repo'):
                    work.append(p.override_in(g, r['id']) or g if c.get('virt') else g)
        return False

    def buf(self, s, e):
        """(event of asio::buffer, its first argument)"""
        for a in e.args:
            for x in s.events:
                if aname(x) == 'buffer' and (repr(x.res) == repr(a) or isinstance(a, V) and a.k == 'ptr' and isinstance(a.a[0], tuple) and repr(s.store.get(a.a[0])) == repr(x.res)):
                    return x
        return None

    def room(self, f, s, e, pol):
        x = self.buf(s, e)
        if x is None or not x.args:
            self.rep.und('room', 'the buffer of a read is not known')
            return
        v = x.args[0]
        if len(x.args) > 1 and isinstance(v, V) and v.k == 'seq' and isinstance(x.args[1], Lin):
            n = seqlen(v.a[0])
            if s.entails(cmp_('<=', x.args[1], n)):
                self.rep.ok('room')
            elif s.entails(cmp_('>', x.args[1], n)):
                self.bad('room', f, 'the buffer of a read is longer than its storage', s, x)
            else:
                self.rep.und('room', 'the size of a buffer')
        else:
            self.rep.ok('room')

    def received(self, f, s0, e0, cb, recv, pol):
        rep, p = self.rep, self.p
        g, n, ec, ln, sk, outs = cb
        if ec is None or ln is None:
            rep.und('read', 'the callback of a read has other parameters')
            return
        y = p.tk(g['ps'][ln]['t']).mk(('arg', ln))
        bx = self.buf(s0, e0)
        home = homes(bx.args[0]) if bx is not None and bx.args else None
        for s, fl in outs:
            if fl and fl[0] == 'throw' or self.gone(s, n):
                continue
            res, which = self.outcome(g, ec, ln, s)
            if res == 'no' or not s.can(T):
                continue
            closed = any(k[0] == 'open' and v is False for k, v in s.preds.items())
            evs = s.events[n:]
            rd = [e for e in evs if aname(e) in READ]
            got = [e for e in evs if e.kind in ('ext', 'vcall') and strip(e.name or '') in recv]
            if closed:
                continue
            if res != 'ok' and rd:
                self.bad('read', g, 'a read is started after an error' + (' (%s)' % which[0] if which else '') if res == 'err' else 'a read is started whatever the result of the previous one', s, rd[0])
                continue
            if res == 'err':
                rep.ok('read')
                if got and not s.entails(cmp_('==', y, L(0))):
                    pass
                continue
            if len(rd) != 1:
                self.few('read', g, s, len(rd), 'read', 'after a successful one', e0)
            else:
                rep.ok('read')
            if len(got) != 1:
                if got or not approx(s):
                    self.bad('bytes', g, 'the bytes received are handed over %s' % ('%d times' % len(got) if got else 'to nothing'), s, e0)
                else:
                    rep.und('bytes', 'handing over is not certain')
                continue
            t = asseq(got[0].args[0]) if got[0].args else None
            if t is None:
                rep.und('bytes', 'what is handed over is not known')
                continue
            sg = seqsegs(s, t)
            if ahead(t):
                self.bad('bytes', g, 'the bytes handed over are taken from the buffer after the next read has been started', s, got[0])
                continue
            l = seqlen(t.a[0])
            if not s.entails(cmp_('==', l, y)):
                if s.can(cmp_('!=', l, y)) and definite(t) and not approx(s):
                    self.bad('bytes', g, 'not exactly the bytes received are handed over: %r of them, not %r' % (l, y), s, got[0])
                else:
                    rep.und('bytes', 'the number of bytes handed over')
                continue
            if s.entails(cmp_('==', y, L(0))):
                rep.ok('bytes')
                continue
            if len(sg) == 1 and sg[0][0] == 's' and home is not None and homes1(sg[0][1]) == home:
                if s.entails(cmp_('==', sg[0][2], L(0))):
                    rep.ok('bytes')
                else:
                    self.bad('bytes', g, 'the bytes handed over do not start where those received do', s, got[0])
            elif all(q[0] in ('v', 'r', 'e') for q in sg) or len(sg) == 1 and sg[0][0] == 's' and home is not None and isinstance(homes1(sg[0][1]), tuple):
                self.bad('bytes', g, 'other bytes than those received are handed over', s, got[0])
            else:
                rep.und('bytes', 'what is handed over: %r' % (sg,))

    # ------------------------------------------------------------ line by line
    def lines(self):
        p, rep = self.p, self.rep
        for r in p.records.values():
            if not r.get('repo') or r.get('lam') or not any('descriptor' in p.tk(fd['t']).s for fd in r.get('fields') or []):
                continue
            if not any(strip(c['n']).split('::')[-1] == 'async_read_until' for f in p.functions.values() if f.get('rec') == r['id'] and f.get('body') is not None for c in calls(bodyof(f))):
                continue
            pol = Net(('cli::CliSession::Feed', 'cli::CliSession::Prompt'))
            for f in p.functions.values():
                if f.get('rec') != r['id'] or f.get('kind') != 'ctor' or f.get('body') is None or f.get('defaulted'):
                    continue
                # the base part is of no interest here
                pol2 = Net(('cli::CliSession::Feed', 'cli::CliSession::Prompt', 'cli::CliSession::CliSession'))
                try:
                    I, outs = self.go(f, pol2)
                except Exception as x:
                    rep.und('start', '%s: %s' % (strip(f['n']), x))
                    continue
                done = set()
                for s, fl in outs:
                    if fl and fl[0] == 'throw':
                        continue
                    rd = [e for e in s.events if aname(e) in READ]
                    if len(rd) != 1:
                        self.few('start', f, s, len(rd), 'read', 'when the session starts')
                        continue
                    rep.ok('start')
                    k = (rd[0].line, repr(rd[0].args)[:60])
                    if k in done:
                        continue
                    done.add(k)
                    cb = self.callback(s, rd[0], pol)
                    if cb is None:
                        rep.und('read', 'the callback of a read is not known')
                        continue
                    self.line(f, rd[0], cb)

    def line(self, f, e0, cb):
        rep, p = self.rep, self.p
        g, n, ec, ln, sk, outs = cb
        if ec is None or ln is None:
            rep.und('read', 'the callback of a read has other parameters')
            return
        y = p.tk(g['ps'][ln]['t']).mk(('arg', ln))
        for s, fl in outs:
            if fl and fl[0] == 'throw' or self.gone(s, n):
                continue
            res, which = self.outcome(g, ec, ln, s)
            if res == 'no' or which:
                continue
            if isinstance(y, Lin) and not s.can(and_(cmp_('>=', y, L(1)), cmp_('<=', y, L(1 << 24)))):
                continue
            evs = s.events[n:]
            rd = [e for e in evs if aname(e) in READ]
            feeds = [e for e in evs if e.kind in ('ext', 'vcall') and strip(e.name or '').endswith('::Feed')]
            cons = [e for e in evs if aname(e) == 'consume']
            gets = [e for e in evs if e.kind in ('getline', 'extract')]
            if res != 'ok' and rd:
                self.bad('read', g, 'a read is started after an error' if res == 'err' else 'a read is started whatever the result of the previous one', s, rd[0])
                continue
            if res == 'err':
                rep.ok('read')
                continue
            if len(rd) != 1:
                self.few('read', g, s, len(rd), 'read', 'after a successful one', e0)
            else:
                rep.ok('read')
            if len(feeds) != 1:
                if feeds or not approx(s):
                    self.bad('bytes', g, 'the line received is executed %d times' % len(feeds), s, e0)
                continue
            if gets:
                rep.und('bytes', 'the line is extracted from a stream')
                continue
            tot = L(0)
            known = True
            for c in cons:
                if c.args and isinstance(c.args[0], Lin):
                    tot = tot + c.args[0]
                else:
                    known = False
            if known and s.entails(cmp_('==', tot, y)):
                rep.ok('bytes')
            elif known and not approx(s):
                self.bad('bytes', g, 'not exactly the bytes of the line are removed from the buffer: %r, not %r' % (tot, y), s, cons[0] if cons else e0)
            else:
                rep.und('bytes', 'what is removed from the buffer')
            if rd and cons and evs.index(rd[0]) < max(evs.index(c) for c in cons):
                self.bad('bytes', g, 'bytes are removed from the buffer after the next read has been started', s, rd[0])
            t = asseq(feeds[0].args[0]) if feeds[0].args else None
            if t is None:
                rep.und('bytes', 'the line executed')
                continue
            sg = seqsegs(s, t)
            one = y - L(1)
            if s.entails(cmp_('==', seqlen(t.a[0]), L(0))) and s.entails(cmp_('==', one, L(0))):
                rep.ok('bytes')
            elif len(sg) == 1 and sg[0][0] == 's' and isinstance(sg[0][1].key, tuple) and sg[0][1].key[0] == 'buf':
                if sg[0][1].key[1][2] != 0:
                    self.bad('bytes', g, 'the line is taken from the buffer after it has been removed', s, feeds[0])
                elif s.entails(cmp_('==', sg[0][2], L(0))) and s.entails(cmp_('==', sg[0][3], one)):
                    rep.ok('bytes')
                elif not approx(s):
                    self.bad('bytes', g, 'the line executed is not the line received: from %r to %r' % (sg[0][2], sg[0][3]), s, feeds[0])
            else:
                rep.und('bytes', 'the line executed: %r' % (sg,))


def seqsegs(s, t):
    return list(normsegs(t.a[0]))


def asseq(v):
    return v if isinstance(v, V) and v.k == 'seq' else None


def definite(t):
    return all(q[0] in ('e', 's', 'v', 'r') for q in seqsegs(None, t))


def homes(v):
    """where the bytes of a sequence are"""
    if isinstance(v, V) and v.k == 'iter':
        v = v.a[0]
    if isinstance(v, V) and v.k == 'seq':
        for q in seqsegs(None, v):
            if q[0] == 's':
                return homes1(q[1])
    if isinstance(v, V) and v.k == 'ptr':
        return v.a[0]
    return None


def ahead(v):
    return any(q[0] == 's' and isinstance(q[1].key, tuple) and q[1].key[:1] == ('ahead',) for q in v.a[0])


def homes1(b):
    k = b.key
    if isinstance(k, tuple) and k and k[0] == 'init':
        return k[1]
    return None


class Throws(object):
    """the throwing overloads of socket operations and where they are handled"""
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.sites = {}

    def run(self):
        p, rep = self.p, self.rep
        fs = [f for f in p.functions.values() if f.get('repo') and f.get('body') is not None and lib(f)]
        open_ = {}              # function id -> (call, operation)
        self.callees = {}
        for f in fs:
            sites = []
            self.walk(f.get('body'), False, sites)
            for i in f.get('inits') or []:
                self.walk(i, False, sites)
            self.callees[f['id']] = sites
            for c, guarded in sites:
                op = self.throwing(c, f)
                if op is None:
                    continue
                if guarded:
                    rep.ok('nothrow')
                else:
                    open_.setdefault(f['id'], (c, op, f))
        for f in fs:
            n = sum(1 for c, g in self.callees[f['id']] if self.operation(c) and self.throwing(c, f) is None)
            for i in range(n):
                rep.ok('nothrow')
        # who calls it without a handler
        for fid, (c, op, f) in list(open_.items()):
            w = self.escapes(f, set())
            if w is None:
                rep.ok('nothrow')
                continue
            rep.bad('nothrow', f['file'], c.get('l') or f['l'], strip(f['n']), 'an error of %s throws out of %s' % (op, strip(w['n'])), path=['%s:%s %s' % (f['file'], c.get('l'), op)])

    def escapes(self, f, seen):
        """the function of the library out of which an exception of f gets, or None"""
        p = self.p
        if f['id'] in seen:
            return None
        seen.add(f['id'])
        if f.get('noexcept') and f.get('kind') != 'dtor':
            return f
        cs = []
        for x in p.functions.values():
            if x['id'] in self.callees:
                for c, guarded in self.callees[x['id']]:
                    if c.get('f') == f['id'] or p.fn(c['f']) is not None and f['id'] in [o for o in self.over(p.fn(c['f']))] if c.get('f') is not None else False:
                        cs.append((x, guarded))
        rec = p.rec(f['rec']) if f.get('rec') is not None else None
        if f.get('kind') == 'dtor' or rec is not None and rec.get('lam'):
            return f
        if not cs:
            return f if f.get('kind') != 'ctor' else None
        for x, guarded in cs:
            if guarded:
                continue
            w = self.escapes(x, seen)
            if w is not None:
                return w
        return None

    def over(self, g):
        return [x['id'] for x in self.p.overriders.get(g['id'], [])]

    def walk(self, n, guarded, out):
        if isinstance(n, list):
            for x in n:
                self.walk(x, guarded, out)
        elif isinstance(n, dict):
            if n.get('k') == 'try':
                self.walk(n.get('b'), guarded or self.handles(n), out)
                self.walk(n.get('h'), guarded, out)
                return
            if n.get('k') == 'lambda':
                return
            if n.get('k') in ('mcall', 'call', 'ctor') and 'n' in n:
                out.append((n, guarded))
            for x in n.values():
                if isinstance(x, (dict, list)):
                    self.walk(x, guarded, out)

    def handles(self, t):
        p = self.p
        for h in t.get('h') or []:
            v = h.get('v') or {}
            ty = v.get('t') if v.get('t') is not None else h.get('t')
            if ty is None:
                return not throws(h.get('b'))
            s = p.tk(ty).s
            if 'exception' in s or 'system_error' in s or 'runtime_error' in s:
                return not throws(h.get('b'))
        return False

    def operation(self, c):
        """a blocking operation of the network library on a socket"""
        p = self.p
        n = strip(c['n'])
        if not asio(n) or c['k'] == 'ctor':
            return None
        sn = n.split('::')[-1]
        if sn.startswith('async_'):
            return None
        if c['k'] == 'mcall':
            if sn in CLOSING and ('socket' in n or 'acceptor' in n):
                return sn
            return None
        if sn in FREE and c.get('args'):
            a = c['args'][0]
            if a.get('t') is not None and 'socket' in p.tk(a['t']).s:
                return sn
        return None

    def throwing(self, c, f):
        p = self.p
        op = self.operation(c)
        if op is None or 'acceptor' in strip(c['n']) and op in SETUP:
            return None
        for a in c.get('args') or []:
            if a.get('t') is not None and 'error_code' in p.tk(a['t']).s:
                return None
        g = p.fn(c['f']) if c.get('f') is not None else None
        if g is not None and g.get('noexcept'):
            return None
        return op


def throws(x):
    if isinstance(x, dict):
        if x.get('k') == 'throw':
            return True
        return any(throws(y) for y in x.values() if isinstance(y, (dict, list)))
    if isinstance(x, list):
        return any(throws(y) for y in x)
    return False
