"""C09: floating point and streamed parameters consume the whole token."""
from .lib import *
from .c08 import run, error, ubs, lastthrow

META = {
    'technique': 'path-sensitive typestate analysis of every floating point and streamed conversion (abstract interpretation; the parsing functions and the stream are typestate objects)',
    'note': 'On every accepting path the facts established about the token are checked; the loop looking for white space is summarised inductively. Trusts the clang front end, the extractor and the models of std::stod and '
            'friends and of std::stringstream.',
    'explanation': 'Floating point: the token was handed whole to one parsing function, the number of characters consumed is known to equal its length and its first character is known not to be white space (parsing skips only '
                   'leading white space), and the value returned is the parsed one, not narrowed. Other types: the stream held exactly the token, the extraction was tested after it was done, and the end of the stream was '
                   'reached after it. Every failing path throws the bad conversion.',
    'assumptions': ['a user-defined extraction operator throws nothing'],
}
SPACES = (9, 10, 11, 12, 13, 32)
RANK = {'stof': 1, 'strtof': 1, 'stod': 2, 'strtod': 2, 'stold': 3, 'strtold': 3}
TRANK = {'float': 1, 'double': 2, 'long double': 3}


def check(rep, tier):
    p = prog()
    rep.rule('whole', 'a floating point value is returned only when the conversion consumed the whole token')
    rep.rule('blank', 'a floating point token with leading white space is never accepted')
    rep.rule('value', 'the value returned is the one parsed or extracted')
    rep.rule('tested', 'a streamed value is returned only when its extraction succeeded')
    rep.rule('rest', 'a streamed value is returned only when the end of the token has been reached')
    rep.rule('error', 'a failure is a bad conversion')
    rep.rule('defined', 'no undefined behaviour')
    n = m = 0
    for f in fns(p, 'cli::detail::from_string'):
        tk = p.tk(f['ret'])
        if tk.k == 'float':
            floating(rep, p, f, tk)
            n += 1
        elif tk.k in ('rec', 'enum') or (tk.k == 'int' and tk.t['s'] in ('wchar_t', 'char16_t', 'char32_t')):
            streamed(rep, p, f, tk)
            m += 1
    if n < 3 or m < 1:
        rep.und('whole', '%d floating point and %d streamed conversions are instantiated' % (n, m))


def covered(I, s, line):
    """(True, bad chars) when the path looked at the first character in a loop over the token: the
    characters with which the loop went on"""
    out = None
    for e in s.events:
        if e.kind != 'loop':
            continue
        lp = e.x
        els = set()
        st0 = None
        for bk in lp.backs:
            c = I.seq_at(bk.state.copy(), wholeseq(line), L(lp.K), None)
            if not isinstance(c, Lin):
                return None, True
            if not c.t or not s.can(cmp_('>=', L(lp.K), L(1))):
                continue
            st0 = True
            if not starts0(lp):
                continue
            els |= {v for v in SPACES if bk.state.can(cmp_('==', c, L(v)))}
        if st0 and starts0(lp):
            out = els if out is None else out & els
        elif st0:
            pass
    return out, bool([e for e in s.events if e.kind == 'loop' and not known(e.x)])


def starts0(lp):
    for c in lp.classes.values():
        if c[0] == 'ind':
            if L(c[1]) == L(0) and L(c[2]) == L(1):
                return True
        if c[0] == 'itind':
            return True
    return False


def known(lp):
    return bool(lp.backs)


def others(s, line, n):
    """does the path know anything else about the content of the token"""
    for k in s.preds:
        if line in bases(k, True) and not (isinstance(k, tuple) and k[0] in ('parsed',)):
            return True
    return False


def floating(rep, p, f, tk):
    I, outs, line = run(rep, p, f)
    where = (f['file'], f['l'], strip(f['n']))
    name = tk.t.get('s', 'float')
    n = L(line.len)
    for s, fl in outs:
        if fl and fl[0] == 'throw':
            error(rep, I, f, s, fl, name)
            continue
        if not fl:
            continue
        ps = [e for e in s.events if e.kind == 'parse']
        if not ps:
            if isinstance(fl[1], V) and fl[1].k == 'term':
                rep.und('whole', '%s: no parsing function on the path' % name)
            else:
                rep.bad('value', *where, msg='a %s is returned that was not parsed from the token' % name, path=trace(s))
            continue
        e = ps[-1]
        v = fl[1]
        ok = isinstance(v, V) and v.k == 'term' and v.a and v.a[0] == 'parsed' and v == term('parsed', e.name, e.args[0], e.res)
        if not ok and isinstance(v, V) and v.k == 'term' and v.a[0] in ('parsed',):
            ok = False
        if ok:
            if RANK.get(e.name, 9) > TRANK.get(name, 9):
                rep.bad('value', e.file, e.line, e.fn, 'the value parsed is narrowed to %s' % name, trace(s))
            else:
                rep.ok('value')
        elif isinstance(v, V) and v.k == 'term' and line in bases(v, True):
            rep.und('value', '%s %r' % (name, v))
        else:
            rep.bad('value', e.file, e.line, e.fn, 'the %s returned is not the value parsed' % name, trace(s))
            continue
        if e.args[0] != wholeseq(line):
            if isinstance(e.args[0], V) and e.args[0].k == 'seq' and s.entails(cmp_('==', seqlen(e.args[0].a[0]), n)):
                rep.und('whole', 'text parsed')
            else:
                rep.bad('whole', e.file, e.line, e.fn, 'the %s is parsed from another text than the token' % name, trace(s))
            continue
        used = L(sym(('parsed', e.args[0], e.res), 0, 2 ** 48))
        if s.entails(cmp_('==', used, n)):
            rep.ok('whole')
        else:
            rep.bad('whole', e.file, e.line, e.fn, 'a %s is accepted although the conversion may not have consumed the whole token' % name, trace(s))
        c0 = I.seq_at(s.copy(), wholeseq(line), L(0), None)
        free = {x for x in SPACES if isinstance(c0, Lin) and s.can(cmp_('==', c0, L(x)))}
        cov, odd = covered(I, s, line)
        if cov is not None:
            free &= cov
        if not free:
            rep.ok('blank')
        elif odd or others(s, line, n) or not isinstance(c0, Lin):
            rep.und('blank', '%s: what is known of the first character' % name)
        else:
            rep.bad('blank', *where, msg='a token starting with white space (code %s) is accepted as %s' % (', '.join(map(str, sorted(free))), name), path=trace(s))
    ubs(rep, I, name)


def streamed(rep, p, f, tk):
    I, outs, line = run(rep, p, f)
    where = (f['file'], f['l'], strip(f['n']))
    name = tk.t.get('n') or tk.t.get('s')
    for s, fl in outs:
        if fl and fl[0] == 'throw':
            error(rep, I, f, s, fl, name)
            continue
        if not fl:
            continue
        xs = [(i, e) for i, e in enumerate(s.events) if e.kind in ('ext', 'user', 'extract') and 'operator>>' in (e.name or '') and 'ws' not in (e.name or '')]
        if not xs:
            rep.bad('value', *where, msg='a value is returned without extracting it from the token', path=trace(s))
            continue
        if len(xs) > 1:
            rep.und('value', 'more than one extraction')
            continue
        i, x = xs[0]
        stream = x.args[0] if x.args else x.obj
        # a stream that is used for every token
        sl = stream.a[0] if isinstance(stream, V) and stream.k == 'ptr' else stream
        if isinstance(sl, tuple) and sl and sl[0] == 'g':
            before = {(e.name or '').split('::')[-1] for e in s.events[:i] if e.kind not in ('assume',) and e.obj in (stream, sl)}
            if not before & {'clear', 'operator='} and not before & {'swap', 'init', 'copyfmt'}:
                rep.bad('value', x.file, x.line, x.fn, 'the value is extracted from a stream still in the state the previous token left it in', trace(s))
                continue
        # the text in the stream
        txt = [e for e in s.events[:i] if e.kind == 'out' and e.obj == stream]
        ctor = [e for e in s.events[:i] if e.kind in ('ctor', 'ext') and line in bases(e.args)]
        if len(txt) == 1 and txt[0].args[0] == wholeseq(line) and not ctor:
            rep.ok('value')
        elif not txt and ctor:
            rep.ok('value')
        elif not txt and not ctor:
            rep.und('value', 'text in the stream')
        else:
            rep.bad('value', x.file, x.line, x.fn, 'the value is extracted from another text than the token', trace(s))
            continue
        tested = ended = False
        ver = None
        for k, e in enumerate(s.events):
            if k <= i:
                continue
            if e.kind == 'assume' and e.name == 'fail' and e.args and (e.args[0] == stream or e.args[0] == resptr(x)):
                if e.res is False:
                    tested = True
            if e.kind == 'assume' and e.name == 'eof' and e.args and e.args[0] in (stream, resptr(x)) and e.res is True:
                ended = True
        more = [e for e in s.events[i + 1:] if e.kind not in ('assume', 'destroy', 'init') and stream in ((e.obj,) + tuple(e.args or ()))]
        strange = [e for e in more if not (e.kind == 'manip' and e.name == 'std::ws')]
        # the number of characters left in a string buffer
        left = [e for e in strange if e.kind == 'ext' and (e.name or '').split('::')[-1] == 'in_avail' and isinstance(e.res, Lin)]
        bufs = {e.res for e in strange if e.kind == 'ext' and (e.name or '').split('::')[-1] == 'rdbuf'}
        avail = [e for e in s.events[i + 1:] if e.kind == 'ext' and (e.name or '').split('::')[-1] == 'in_avail' and e.obj in bufs and isinstance(e.res, Lin)]
        if avail and not left:
            strange = [e for e in strange if (e.name or '').split('::')[-1] != 'rdbuf']
            if any(s.entails(cmp_('<=', e.res, 0)) for e in avail):
                ended = True
        if tested:
            rep.ok('tested')
        elif strange:
            rep.und('tested', repr(strange[0])[:100])
        else:
            rep.bad('tested', x.file, x.line, x.fn, 'a value is returned although its extraction may have failed', trace(s))
        if ended:
            rep.ok('rest')
        elif strange:
            rep.und('rest', repr(strange[0])[:100])
        else:
            rep.bad('rest', x.file, x.line, x.fn, 'a value is accepted although the token may continue after it', trace(s))
        same(rep, p, I, s, fl, x, tk)
    ubs(rep, I, name)


def resptr(x):
    return ptr(x.res) if isinstance(x.res, tuple) else x.res


def same(rep, p, I, s, fl, x, tk):
    v = fl[1]
    arg = x.args[-1]
    if isinstance(v, V) and v.k == 'rec' and isinstance(arg, V) and arg.k == 'rec':
        a = {k[len(v.a[0]):]: w for k, w in s.store.items() if k[:len(v.a[0])] == v.a[0]}
        b = {k[len(arg.a[0]):]: w for k, w in s.store.items() if k[:len(arg.a[0])] == arg.a[0]}
        if a == b and a:
            rep.ok('value')
        else:
            k = [k for k in a if (k in b or True) and isinstance(a[k], Lin) and a[k].is_const() and a[k] != b.get(k)]
            if k:
                rep.bad('value', x.file, x.line, x.fn, 'a constant is returned instead of the value extracted', trace(s))
            else:
                rep.und('value', 'content of the value')
    else:
        rep.und('value', 'kind of the value')
