"""C32: the headers can be used alone, together, and in several translation units."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .lib import *
from engine.program import ToolError

META = {
    'technique': 'compile witnesses type-checked against the current headers (each header alone, with uses of what it offers, and every ordered combination), queries over the preprocessed tokens and over the compiler\'s intermediate representation (definitions with strong linkage, inline functions that refer to entities of one translation unit), lint on using directives over the syntax tree',
    'note': 'Nothing is run: witnesses are type-checked, the intermediate representation of a translation unit that includes and uses every header is searched.',
    'explanation': 'Every public header compiles alone, with uses of its classes, and twice, in C++14 to C++23; so do all of one flavour in every order checked. A header contributes the same tokens to every translation unit, defines nothing with strong linkage, and its inline functions refer to nothing that differs between translation units. No header has a using directive.',
    'assumptions': ['the headers of the two flavours of asio are not used together', 'Linux, the compilers and the asio libraries installed here'],
}
STDS = ('c++14', 'c++17', 'c++20', 'c++23')

USE = {
    'cli.h': '''void use(cli::Cli& c, std::ostream& o) {
  auto m = std::make_unique<cli::Menu>("m", "d"); m->Insert("a", [](std::ostream&, int, std::string, double, char, bool){}, "h", {"x","y","z","w","v"});
  m->Insert("b", [](std::ostream&, const std::vector<std::string>&){}); m->Insert("c", [](std::ostream&){}); auto h = m->Insert(std::make_unique<cli::Menu>("s")); h.Disable(); h.Enable(); h.Remove();
  cli::Cli k(std::move(m)); cli::CliSession s(c, o, 10); s.Feed("x"); s.Prompt(); s.Enter(); s.Exit(); s.ExitAction([](std::ostream&){}); (void)s.GetCompletions("x");
  c.ExitAction([](std::ostream&){}); c.EnterAction([](std::ostream&){}); c.StdExceptionHandler([](std::ostream&, const std::string&, const std::exception&){}); c.WrongCommandHandler([](std::ostream&, const std::string&){}); cli::Cli::cout() << 1; }''',
    'clifilesession.h': 'void use(cli::Cli& c, std::istream& i, std::ostream& o) { cli::CliFileSession s(c, i, o); s.Start(); }',
    'clilocalsession.h': 'void use(cli::Cli& c, cli::Scheduler& s, std::ostream& o) { cli::CliLocalTerminalSession t(c, s, o, 7); t.ExitAction([](std::ostream&){}); }',
    'loopscheduler.h': 'void use() { cli::LoopScheduler s; s.Post([](){}); s.Run(); s.Stop(); s.ExecOne(); s.PollOne(); }',
    'scheduler.h': 'void use(cli::Scheduler& s) { s.Post([](){}); }',
    'colorprofile.h': 'void use(std::ostream& o) { cli::SetColor(); cli::SetNoColor(); o << cli::beforePrompt << cli::afterPrompt << cli::beforeInput << cli::afterInput; }',
    'historystorage.h': 'void use(cli::HistoryStorage& h) { h.Store({"a"}); auto v = h.Commands(); h.Clear(); (void)v; }',
    'filehistorystorage.h': 'void use() { cli::FileHistoryStorage h("f", 3); h.Store({"a"}); auto v = h.Commands(); h.Clear(); (void)v; }',
    'volatilehistorystorage.h': 'void use() { cli::VolatileHistoryStorage h(3); h.Store({"a"}); auto v = h.Commands(); h.Clear(); (void)v; }',
}
for fl in ('boost', 'standalone'):
    F = fl.capitalize()
    USE[fl + 'asioscheduler.h'] = 'void use(cli::%sAsioScheduler::ContextType& c) { cli::%sAsioScheduler s, t(c); s.Run(); s.Stop(); (void)s.Stopped(); s.ExecOne(); s.PollOne(); s.Post([](){}); (void)s.AsioContext(); }' % (F, F)
    USE[fl + 'asioremotecli.h'] = '}\n#include <cli/%sasioscheduler.h>\nnamespace NS {\nvoid use(cli::Cli& c, cli::%sAsioScheduler& s) { cli::%sAsioCliTelnetServer t(c, s, 5000, 7), u(c, s, "127.0.0.1", 5000); t.ExitAction([](std::ostream&){}); t.EnterAction([](std::ostream&){}); }' % (fl, F, F)
    USE[fl + 'asiocliasyncsession.h'] = '}\n#include <cli/%sasioscheduler.h>\nnamespace NS {\nvoid use(cli::Cli& c, cli::%sAsioScheduler& s) { cli::%sAsioCliAsyncSession t(s, c); t.ExitAction([](std::ostream&){}); }' % (fl, F, F)


def wrap(ns, code):
    return 'namespace %s {\n%s\n}\n' % (ns, code.replace('NS', ns))


def check(rep, tier):
    rep.rule('alone', 'each public header compiles alone, and twice')
    rep.rule('uses', 'what a header offers can be used with that header alone')
    rep.rule('order', 'headers compile together in any order')
    rep.rule('tokens', 'a header contributes the same definitions whatever else is included')
    rep.rule('strong', 'no header defines anything with strong linkage')
    rep.rule('odr', 'inline functions refer to nothing that differs between translation units')
    rep.rule('using', 'no header opens a namespace for those who include it')
    Check(rep, tier).run()


CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'


def compiler(cc, args, code):
    with tempfile.TemporaryDirectory(prefix='verif-tu') as d:
        f = os.path.join(d, 'tu.cpp')
        with open(f, 'w') as h:
            h.write(code)
        r = subprocess.run([cc, '-I' + os.path.join(REPO, 'include')] + args + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')


class Check(object):
    def __init__(self, rep, tier):
        self.rep, self.tier = rep, tier
        self.inc = os.path.join(REPO, 'include', 'cli')
        hs = sorted(h for h in os.listdir(self.inc) if h.endswith('.h'))
        self.heads = hs
        self.flav = {'boost': [h for h in hs if not self.pulls(h, 'standaloneasio')], 'standalone': [h for h in hs if not self.pulls(h, 'boostasio')]}
        self.seen = set()

    def pulls(self, h, what):
        return h.startswith(what)

    def run(self):
        jobs = []
        for h in self.heads:
            one = '#include <cli/%s>\n#include <cli/%s>\n' % (h, h)
            for std in STDS:
                cc = CLANG if std in ('c++14', 'c++20') else 'g++'
                if h not in USE:
                    jobs.append(('alone', h, std, cc, one, []))
                if h in USE:
                    jobs.append(('uses', h, std, cc, one + wrap('witness', USE[h]), []))
                else:
                    self.rep.und('uses', 'what %s offers is not known' % h) if std == 'c++14' else None
            if h not in USE:
                jobs.append(('alone', h, 'c++14', 'g++', one, []))
            else:
                jobs.append(('uses', h, 'c++14', 'g++', one + wrap('witness', USE[h]), []))
        for fl, hs in self.flav.items():
            for h in hs:
                rest = [x for x in hs if x != h]
                for how, l in (('first', [h] + rest), ('last', rest[::-1] + [h])):
                    uses = ''.join(wrap('w%d' % i, USE[x]) for i, x in enumerate(l) if x in USE)
                    jobs.append(('order', '%s %s with the others' % (h, how), 'c++14', CLANG, ''.join('#include <cli/%s>\n' % x for x in l) + uses, [h]))
            if self.tier == 'thorough':
                for a in hs:
                    for b in hs:
                        if a != b:
                            jobs.append(('order', '%s before %s' % (a, b), 'c++14', CLANG, '#include <cli/%s>\n#include <cli/%s>\n' % (a, b), [a]))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(self.job, jobs))
            for fl, hs in self.flav.items():
                self.tokens(ex, fl, hs)
            irs = list(ex.map(self.ir, self.flav.items()))
        # a header or flavour whose library is not installed cannot be judged
        for (rule, what, std, cc, code, hs), (rc, out, err) in zip(jobs, res):
            if rc == 0:
                self.rep.ok(rule)
                if rule == 'uses':
                    self.rep.ok('alone')
                continue
            m = re.search(r'([^\s:]+):(\d+):\d+: (?:fatal )?error: (.*)', err)
            if not m:
                self.rep.und(rule, 'the compiler failed: ' + err[:200])
                continue
            file, line, msg = m.group(1), int(m.group(2)), m.group(3)
            if 'asio.hpp' in msg and 'not found' in msg or 'No such file' in msg and 'asio' in msg and 'cli/' not in msg:
                self.rep.und(rule, 'a library is missing: ' + msg)
                continue
            chain = re.findall(r'(?:In file included from|from) ([^\s:]+):(\d+)', err[:m.start()])
            k = (rule, what, file, line)
            if k in self.seen:
                continue
            self.seen.add(k)
            f = self.rel(file)
            if f is None and file.endswith('/tu.cpp'):
                # the witness uses something that is not there any more
                self.rep.und(rule, 'the witness for %s does not compile: %s' % (what, msg))
                continue
            if f is None:
                # an error in a library: charged to the header that includes it
                f, line = 'include/cli/' + what.split()[0], 1
            self.rep.bad(rule, f, line, what, '%s in %s (%s): %s' % ({'alone': 'included alone it does not compile', 'uses': 'included alone it cannot be used', 'order': 'included together they do not compile'}[rule], std, cc, msg),
                         [{'at': '%s:%s' % c} for c in chain[:6]])
        self.usings()
        for fl, ir in irs:
            self.strong(fl, ir)

    def job(self, j):
        rule, what, std, cc, code, hs = j
        return compiler(cc, ['-fsyntax-only', '-std=' + std, '-w'], code)

    def rel(self, f):
        i = f.find('/include/cli/')
        return f[i + 1:] if i >= 0 else None

    # ------------------------------------------------------------ same tokens everywhere
    def split(self, text):
        """{header of the library: its tokens} of preprocessed text"""
        out, cur, first = {}, None, set()
        for l in text.splitlines():
            if l.startswith('# '):
                m = re.match(r'# \d+ "([^"]*)"(.*)', l)
                if m:
                    cur = self.rel(m.group(1)) if '/include/cli/' in m.group(1) else None
                continue
            if cur is not None:
                out.setdefault(cur, []).extend(re.findall(r'\w+|[^\w\s]', l))
        return out

    def tokens(self, ex, fl, hs):
        def pre(l):
            rc, out, err = compiler(CLANG, ['-E', '-std=c++14', '-w'], ''.join('#include <cli/%s>\n' % x for x in l))
            return (l, self.split(out)) if rc == 0 else (l, None)
        orders = [[h] for h in hs] + [hs, hs[::-1]]
        base = {}
        for l, toks in ex.map(pre, orders):
            if toks is None:
                self.rep.und('tokens', 'preprocessing failed')
                continue
            for f, t in toks.items():
                if f not in base:
                    base[f] = (l, t)
                elif base[f][1] == t:
                    self.rep.ok('tokens')
                else:
                    a, b = base[f][1], t
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    k = ('tokens', f)
                    if k in self.seen:
                        continue
                    self.seen.add(k)
                    self.rep.bad('tokens', f, self.line(f, a, b, i), 'preprocessor', 'the definitions of this header depend on what else is included: "%s" with %s, "%s" with %s' % (
                        ' '.join(a[i:i + 8]), ', '.join(base[f][0][:3]), ' '.join(b[i:i + 8]), ', '.join(l[:3])))

    def line(self, f, a, b, i):
        want = (b[i:i + 4] or a[i:i + 4])
        try:
            with open(os.path.join(REPO, f)) as h:
                for n, l in enumerate(h, 1):
                    if want and all(w in l for w in want):
                        return n
        except OSError:
            pass
        return 1

    # ------------------------------------------------------------ using directives
    def usings(self):
        n = 0
        for name in ('core', 'boost', 'standalone'):
            p = prog(name)
            for u in p.usings:
                if u['scope'] != 'namespace' or not (u['file'].startswith('cli/') or '/include/cli/' in u['file']):
                    continue
                k = ('using', u['file'], u['l'])
                if k not in self.seen:
                    self.seen.add(k)
                    self.rep.bad('using', u['file'], u['l'], 'using namespace %s' % u['ns'], 'this directive takes effect in every file that includes the header')
            self.rep.ok('using')

    # ------------------------------------------------------------ intermediate representation
    def ir(self, x):
        fl, hs = x
        uses = ''.join(wrap('w%d' % i, USE[h]) for i, h in enumerate(hs) if h in USE)
        code = ''.join('#include <cli/%s>\n' % h for h in hs) + uses
        return fl, compiler(CLANG, ['-S', '-emit-llvm', '-O0', '-g1', '-std=c++14', '-w', '-o', '-', '-Xclang', '-disable-O0-optnone'], code)

    def strong(self, fl, ir):
        rc, out, err = ir
        if rc != 0:
            self.rep.und('strong', 'no intermediate representation: ' + err[:200])
            return
        WEAK = ('linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'available_externally', 'common', 'appending')
        LOCAL = ('internal', 'private')
        gl, fns = {}, {}
        sub = {}
        files = {}
        cur = None
        for l in out.splitlines():
            if l.startswith('@'):
                m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)', l)
                if not m:
                    continue
                words = m.group(2).split()
                link = next((w for w in words if w in WEAK + LOCAL + ('external', 'extern_weak')), None)
                kind = 'alias' if 'alias' in words[:6] else 'var'
                gl[m.group(1)] = (link, l)
            elif l.startswith('define '):
                m = re.match(r'define (.*?)@("[^"]*"|[\w.$]+)\(', l)
                if m:
                    link = next((w for w in m.group(1).split() if w in WEAK + LOCAL), None)
                    d = re.search(r'!dbg !(\d+)', l)
                    cur = m.group(2)
                    fns[cur] = [link, d.group(1) if d else None, set()]
            elif l.startswith('}'):
                cur = None
            elif cur is not None and '@' in l:
                fns[cur][2].update(re.findall(r'@("[^"]*"|[\w.$]+)', l))
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DISubprogram\((.*)', l)
                if m:
                    f = re.search(r'file: !(\d+)', m.group(2))
                    ln = re.search(r'line: (\d+)', m.group(2))
                    sub[m.group(1)] = (f.group(1) if f else None, int(ln.group(1)) if ln else 0)
                m = re.match(r'!(\d+) = !DIFile\(filename: "([^"]*)"', l)
                if m:
                    files[m.group(1)] = m.group(2)
        n = 0
        for name, (link, dbg, refs) in fns.items():
            f, ln = sub.get(dbg, (None, 0))
            file = self.rel(files.get(f, '')) if f else None
            if re.match(r'_ZN\d*w\d+', name):
                continue
            if link is None:
                if file is None:
                    continue
                k = ('strong', name)
                if k not in self.seen:
                    self.seen.add(k)
                    self.rep.bad('strong', file, ln, demangle(name), 'this function is defined in every translation unit that includes the header (it is not inline)')
            elif link in WEAK and file is not None:
                n += 1
                for r in refs:
                    if self.local(r, gl, fns):
                        k = ('odr', name, r)
                        if k not in self.seen:
                            self.seen.add(k)
                            self.rep.bad('odr', file, ln, demangle(name), 'this inline function refers to %s, of which every translation unit has its own' % demangle(r))
                    else:
                        self.rep.ok('odr')
        for name, (link, l) in gl.items():
            if link is None and '3cli' in name:
                k = ('strong', name)
                if k not in self.seen:
                    self.seen.add(k)
                    file, ln = self.declared(name)
                    self.rep.bad('strong', file, ln, demangle(name), 'this variable is defined in every translation unit that includes the header (it is neither inline nor constant)')
            elif link is None and not name.startswith(('_ZSt', '_ZNSt', '_ZTV', '_ZTI', 'llvm.', '"')) and self.declared(name)[1]:
                k = ('strong', name)
                if k not in self.seen:
                    self.seen.add(k)
                    file, ln = self.declared(name)
                    self.rep.bad('strong', file, ln, demangle(name), 'this variable is defined in every translation unit that includes the header')
        self.rep.ok('strong', max(n, 1))
        self.rep.sample('%s: %d inline functions of the library searched' % (fl, n))

    def local(self, r, gl, fns, depth=0):
        """mutable state of one translation unit only (or a function of internal linkage that uses such)"""
        if r in fns:
            if fns[r][0] not in ('internal', 'private') or not r.startswith('_Z') or depth > 4:
                return False
            return any(self.local(x, gl, fns, depth + 1) for x in fns[r][2] if x != r)
        if r not in gl or gl[r][0] not in ('internal', 'private') or not r.startswith('_Z') or r.startswith(('_ZGV', '_ZTV', '_ZTI', '_ZTS')):
            return False
        if ' constant ' in gl[r][1]:
            return False
        return not self.isconst(r) and self.declared(r)[1] > 0

    def isconst(self, r):
        d = demangle(r).split('[')[0]
        for name in ('core', 'boost', 'standalone'):
            p = prog(name)
            for v in p.vars.values():
                if v['n'] == d and p.tk(v['t']).const:
                    return True
        return False

    def declared(self, name):
        """(file, line) in the library of the declaration of a variable or function, by its last name"""
        base = demangle(name).replace('(anonymous namespace)::', '').split('(')[0].rsplit('::', 1)[-1].split('[')[0]
        if not re.match(r'\w+$', base):
            return ('include/cli', 0)
        for root, ds, fs in os.walk(self.inc):
            for f in sorted(fs):
                with open(os.path.join(root, f), errors='replace') as h:
                    for i, l in enumerate(h, 1):
                        if re.search(r'\b%s\b' % base, l.split('//')[0]) and not l.lstrip().startswith('#'):
                            return (self.rel(os.path.join(root, f)), i)
        return ('include/cli', 0)


def demangle(n):
    r = subprocess.run(['c++filt', n.strip('"')], stdout=subprocess.PIPE)
    return r.stdout.decode().strip() or n
