"""C03: a handler runs only with exactly the parameters the user typed."""
from .cmds import *

META = {
    'technique': 'path-sensitive abstract interpretation of every instantiated command class against a relational contract',
    'note': 'All paths of Exec of the command classes (instantiated with 0 to 4 parameters of all kinds of types, lambdas and function pointers, and free form) '
            'and of the Insert overloads that build them. Values of conversions are uninterpreted (C08, C09). Trusts the clang front end, the extractor and the library models.',
    'explanation': 'Each path of a command\'s Exec is compared with the contract: the handler runs exactly when enabled, named, the number of tokens fits and all '
                   'conversions succeed; its arguments are the stream of the session and the converted tokens in order, each converted to the declared type. '
                   'The Insert overloads are checked to append exactly one enabled command with the given name, handler and descriptions.',
    'assumptions': ['from_string<T> returns a T or throws a std::bad_cast (C08, C09)'],
}


def check(rep, tier):
    p = prog()
    R = roles(p)
    rep.rule('runs-iff', 'the handler runs exactly when enabled, named, with the right number of convertible tokens; then the line is accepted')
    rep.rule('arguments', 'the handler gets the stream of the session and the values of the tokens 1..n in order, converted to the declared types')
    rep.rule('once', 'the handler runs at most once')
    rep.rule('registered', 'Insert appends one enabled command with the given name and handler')
    for f in commands(p, R):
        one(rep, p, R, f)
    for f in fns(p, 'cli::Menu::Insert'):
        insert(rep, p, R, f)


def is_handler(e):
    return e.kind == 'user'


def one(rep, p, R, f):
    if not application(f):
        return               # the commands of the session itself: their handlers are library code
    rec = p.rec(f['rec'])
    here = f['file'], f['l'], strip(f['n'])
    ts = param_types(p, f)
    I, outs = run_command(rep, p, R, f)
    free = len(ts) == 1 and ts[0].startswith('std::vector<')
    n = tokbase().len
    tokens = False
    for st, fl in outs:
        evs = [e for e, s, lp in all_events(st)]
        hs = [e for e in evs if is_handler(e)]
        convs = [e for e in evs if e.kind == 'conv']
        if len(hs) > 1:
            rep.bad('once', hs[1].file, hs[1].line, hs[1].fn, 'the handler runs more than once', trace(st))
            continue
        threw = fl and fl[0] == 'throw'
        ret = st.decide(fl[1]) if fl and fl[0] == 'ret' and isinstance(fl[1], tuple) else None
        if hs:
            rep.ok('once')
            h = hs[0]
            probs = []
            und = []
            en, nm = enabled_at(st, R), name_matches(st, R)
            if en is not True:
                probs.append('although the command is disabled')
            if nm is not True:
                (probs if nm is None or nm is False else und).append('although the first token is not the name of the command')
            if any(e.res == F for e in convs):
                probs.append('although a token could not be converted')
            if not free and not st.entails(cmp_('==', L(n), L(len(ts) + 1))):
                probs.append('with a wrong number of parameters')
            # arguments
            args = list(h.args)
            if not args or args[0] != ptr(R.OUT):
                probs.append('with another stream than the one of the session')
            args = args[1:]
            if free:
                want = seq(('s', tokbase(), L(1), L(n)))
                if args and args[0] == EMPTY:
                    if not st.entails(cmp_('==', L(n), L(1))):
                        probs.append('without the tokens typed')
                elif not args or args[0] != want:
                    if args and isinstance(args[0], V) and args[0].k == 'seq' and tokens_only(args[0]):
                        probs.append('with tokens that are not those typed')
                    else:
                        und.append('unrecognised tokens %r' % (args,))
                        tokens = True
            else:
                vals = {}
                for e in convs:
                    if e.res == T:
                        vals.setdefault(tokindex(e.args[0]), []).append(e)
                if len(args) != len(ts):
                    und.append('arity')
                for i, a in enumerate(args):
                    cs = vals.get(i + 1, [])
                    hit = [e for e in cs if same(e.args[1], a)]
                    if hit:
                        ct = bare(hit[0].x.t['s'])
                        if i < len(ts) and ct != ts[i]:
                            probs.append('with parameter %d converted to %s instead of %s' % (i + 1, ct, ts[i]))
                    elif any(same(e.args[1], a) for k in vals for e in vals[k]):
                        probs.append('with parameters out of order')
                    elif isinstance(a, V) and a.k == 'rec':
                        pass
                    else:
                        und.append('argument %d: %r' % (i + 1, a))
            if probs:
                rep.bad('arguments' if any(x.startswith('with') for x in probs) else 'runs-iff', h.file, h.line, h.fn, 'the handler of %s runs %s' % (short_rec(rec), ' and '.join(probs)), trace(st))
            elif und:
                rep.und('arguments', '; '.join(und))
            else:
                rep.ok('arguments')
                if ret is True or threw:
                    rep.ok('runs-iff')
                elif ret is False and not [e for e in evs if e.kind == 'throws']:
                    rep.bad('runs-iff', h.file, h.line, h.fn, 'a command that ran does not accept the line', trace(st))
        else:
            # did not run: some condition must fail, and the line is not accepted
            if ret is True:
                rep.bad('runs-iff', *here, '%s accepts a line without running the handler' % short_rec(rec), trace(st))
                continue
            if threw:
                rep.bad('runs-iff', *here, 'an exception leaves %s although the handler did not run' % short_rec(rec), trace(st))
                continue
            if enabled_at(st, R) is False or name_matches(st, R) is False or any(e.res == F for e in convs):
                rep.ok('runs-iff')
            elif not free and not st.can(cmp_('==', L(n), L(len(ts) + 1))):
                rep.ok('runs-iff')
            else:
                rep.bad('runs-iff', *here, '%s does not run its handler although the line fits' % short_rec(rec), trace(st))
    if tokens:
        concrete(rep, p, R, f, rec)


def concrete(rep, p, R, f, rec):
    """a freeform command on short lines: what its handler is given is what was typed"""
    import itertools
    txt = lambda s: V('seq', tuple(('e', L(ord(c))) for c in s))
    for n in range(0, 4):
        for ws in itertools.product(('', 'a', ' ', 'x', '-', '"b'), repeat=n):
            if n == 3 and '' not in ws and ' ' not in ws:
                continue
            st = State()
            line = V('seq', tuple(('e', txt(w)) for w in ('x',) + ws))
            st.store[('o', ('arg', 0))] = line
            st.store[('o', ('arg', 1), R.s_out)] = ptr(R.OUT)
            st.store[('o', 'C', R.c_name)] = txt('x')
            pol = CmdPolicy()
            pol.unroll = 8
            I, outs = runfn(rep, p, f, pol, st, ('o', 'C'))
            for s, fl in outs:
                for e, s1, lp in all_events(s):
                    if not is_handler(e) or lp is not None or len(e.args) < 2:
                        continue
                    a = e.args[1]
                    if isinstance(a, V) and a.k == 'ptr':
                        a = s.store.get(a.a[0])
                    want = line.a[0][1:]
                    if isinstance(a, V) and a.k == 'seq' and a.a[0] == want:
                        rep.ok('arguments')
                    elif isinstance(a, V) and a.k == 'seq' and all(g[0] == 'e' and isinstance(g[1], V) and g[1].k == 'seq' and all(c[0] == 'e' and isinstance(c[1], Lin) and c[1].is_const() for c in g[1].a[0]) for g in a.a[0]):
                        got = [''.join(chr(c[1].c & 255) for c in g[1].a[0]) for g in a.a[0]]
                        rep.bad('arguments', e.file, e.line, e.fn, 'the handler of %s is given %r when %r was typed' % (short_rec(rec), got, list(ws)), trace(s))
                        return
                    else:
                        rep.und('arguments', 'the tokens given to a freeform handler')


def tokens_only(v):
    return all(s[0] == 's' and s[1].key == 'TOKENS' or s[0] == 'e' and tokindex(s[1]) is not None for s in v.a[0])


def same(a, b):
    if a == b:
        return True
    return isinstance(a, tuple) and isinstance(b, tuple) and a == b


def short_rec(rec):
    return strip(rec['n'])


def insert(rep, p, R, f):
    """one new enabled command at the end of the commands of the menu, named as asked"""
    if f.get('access') == 'private' or len(f['ps']) < 1:
        return
    t0 = p.tk(f['ps'][0]['t'])
    st = State()
    M = ('o', 'M')
    st.store[M + (R.m_cmds,)] = ptr(('o', 'CMDS'))
    ctk = None
    for fk, fl in p.allfields(R.menu['id']):
        if fk == R.m_cmds:
            ctk = p.tk(fl['t']).sub('to')
    st.store[('o', 'CMDS')] = ctk.mk('OLDCMDS')
    old = st.store[('o', 'CMDS')]
    args = {}
    names = [q for q in f['ps']]
    I, outs = runfn(rep, p, f, CmdPolicy(), st, M)
    for s, fl in outs:
        if fl and fl[0] == 'throw':
            continue
        new = s.store.get(('o', 'CMDS'))
        if new is None or new.k != 'seq':
            rep.und('registered', 'commands of the menu unknown after %s' % f['n'])
            continue
        segs = new.a[0]
        if segs == old.a[0]:
            rep.bad('registered', f['file'], f['l'], strip(f['n']), 'inserting a command does not add it to the menu', trace(s))
            continue
        if not (len(segs) == 2 and segs[0] == old.a[0][0] and segs[1][0] == 'e'):
            if len(segs) == 2 and segs[1] == old.a[0][0]:
                rep.bad('registered', f['file'], f['l'], strip(f['n']), 'a new command is not inserted after the existing ones', trace(s))
            elif len(segs) > 2:
                rep.bad('registered', f['file'], f['l'], strip(f['n']), 'inserting a command changes the menu in another way than appending it', trace(s))
            else:
                rep.und('registered', 'commands %r' % (new,))
            continue
        c = segs[1][1]
        if not isinstance(c, V) or c.k != 'ptr':
            if t0.k in ('uptr', 'ref') and isinstance(c, V) and c.k == 'psym':
                rep.ok('registered')
            else:
                rep.und('registered', 'new command %r' % (c,))
            continue
        loc = c.a[0]
        en = s.store.get(loc + (R.c_enabled,))
        nm = s.store.get(loc + (R.c_name,))
        nref = s.store.get(('o', ('arg', 0)))
        if en is not None and en != T and t0.k != 'uptr' and s.decide(en) is False:
            rep.bad('registered', f['file'], f['l'], strip(f['n']), 'an inserted command is disabled', trace(s))
        elif nm is not None and isstr_arg(p, f) and nm != wholeseq(sbase(('init', ('o', ('arg', 0))), 'char')):
            if nm.k == 'seq' and not any(sg[0] == 's' and sg[1].key == ('init', ('o', ('arg', 0))) for sg in nm.a[0]):
                rep.bad('registered', f['file'], f['l'], strip(f['n']), 'an inserted command does not get the given name', trace(s))
            else:
                rep.und('registered', 'name %r' % (nm,))
        else:
            rep.ok('registered')


def isstr_arg(p, f):
    t = p.tk(f['ps'][0]['t'])
    t = t.sub('to') if t.k == 'ref' else t
    return t is not None and isstr(t)
