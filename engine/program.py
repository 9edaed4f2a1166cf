"""The extracted program (types, records, functions of one translation unit)."""
import hashlib
import json
import os
import re
import subprocess
import sys
from .lin import L, sym
from .domain import V, NULL, NOFN, ptr, psym, term, wholeseq, sbase, EMPTY, in_, strseq

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_strip = {}


def strip(n):
    """removes template arguments from a qualified name"""
    r = _strip.get(n)
    if r is None:
        m = re.search(r'operator(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>)', n)
        op = ''
        s = n
        if m and (m.end() == len(n) or n[m.end()] in '<('):
            op = m.group(1)
            s = n[:m.start()] + 'operator\x01' + n[m.end():]
        out, d = [], 0
        for c in s:
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif d == 0:
                out.append(c)
        r = ''.join(out).replace('\x01', op)
        _strip[n] = r
    return r


SEQS = {'std::vector', 'std::deque', 'std::queue', 'std::basic_string', 'std::list', 'std::initializer_list',
        'std::array', 'std::basic_string_view', 'std::stack'}
ITERS = {'__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::move_iterator', 'std::reverse_iterator',
         'std::_List_iterator', 'std::_List_const_iterator'}
SPTR = {'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::__uniq_ptr_impl'}
WPTR = {'std::weak_ptr', 'std::__weak_ptr'}
GUARDS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock'}


class TK(object):
    """kind of a type"""
    def __init__(self, prog, idx):
        self.prog, self.idx = prog, idx
        t = prog.types[idx]
        self.t = t
        self.s = t['s']
        self.const = bool(t.get('c'))
        k = t['k']
        self.rec = None
        self.elem = None
        self.to = None
        self.bits = t.get('b')
        self.uns = bool(t.get('u'))
        self.vals = None
        self.base = None
        self.atomic = False
        if k == 'rec':
            self.rec = t['r']
            b = strip(t['n'])
            self.base = b
            if b in SEQS:
                k = 'seq'
                if b == 'std::queue' or b == 'std::stack':
                    self._elem = t['a'][0]['t']
                else:
                    self._elem = t['a'][0]['t'] if t.get('a') else None
            elif b in ITERS:
                k = 'iter'
            elif b in SPTR:
                k = 'sptr'
                self._to = t['a'][0]['t'] if t.get('a') and 't' in t['a'][0] else None
            elif b in WPTR:
                k = 'wptr'
                self._to = t['a'][0]['t'] if t.get('a') and 't' in t['a'][0] else None
            elif b == 'std::function':
                k = 'func'
            elif b in GUARDS:
                k = 'guard'
            elif b in ('std::atomic', 'std::__atomic_base') and t.get('a') and 't' in t['a'][0]:
                # an atomic is its value; whether the accesses are ordered well is up to the checks
                i = prog.tk(t['a'][0]['t'])
                self.atomic, self.t, self.bits, self.uns, self.vals, self.rec, self._to = True, i.t, i.bits, i.uns, i.vals, i.rec, getattr(i, '_to', None)
                k = i.k
            elif b == 'std::pair' or prog.records.get(str(t['r']), {}).get('repo'):
                k = 'rec'
                if prog.records.get(str(t['r']), {}).get('lam'):
                    k = 'lam'
            else:
                k = 'opq'
        elif k == 'enum':
            vs = [v for _, v in t.get('v', [])]
            self.vals = frozenset(vs) if vs and len(vs) <= 64 else None
        elif k in ('ptr', 'ref'):
            self._to = t.get('to')
        elif k == 'array':
            self._elem = t.get('to')
            k = 'seq'
        elif k == 'nullptr':
            k = 'nullptr'
        self.k = k

    def sub(self, name):
        i = getattr(self, '_' + name, None)
        return None if i is None else self.prog.tk(i)

    def elemkind(self):
        e = self.sub('elem')
        if e is None:
            return None
        if e.k == 'int' and e.bits == 8:
            return 'uchar' if e.uns else 'char'
        return e

    def __repr__(self):
        return 'TK(%s)' % self.s

    def __lt__(self, o):
        return self.idx < o.idx

    def range(self):
        if self.k == 'bool':
            return 0, 1
        if self.k == 'enum':
            b = self.bits or 32
            u = self.uns
        else:
            b, u = self.bits, self.uns
        return (0, 2 ** b - 1) if u else (-2 ** (b - 1), 2 ** (b - 1) - 1)

    def mk(self, key):
        """the unknown value of this type called key"""
        k = self.k
        if k == 'bool':
            return in_(sym(key, fin=(0, 1)), frozenset((1,)))
        if k == 'int':
            lo, hi = self.range()
            if self.bits == 8:
                return L(sym(key, fin=range(lo, hi + 1)))
            if self.bits == 64 and self.uns and isinstance(key, tuple) and key[0] == 'init':
                hi = 2 ** 48
            return L(sym(key, lo, hi))
        if k == 'enum':
            if self.vals:
                return L(sym(key, fin=self.vals))
            lo, hi = self.range()
            return L(sym(key, lo, hi))
        if k == 'ptr':
            to = self.sub('to')
            if to is not None and to.k == 'int' and to.bits == 8:
                return V('iter', ('buf', key), L(0), False)
            if to is not None and to.k == 'func':
                return V('fsym', key)
            return psym(key)
        if k == 'ref':
            return ptr(('o', key))
        if k == 'seq':
            ek = self.elemkind()
            if self.t['k'] == 'array':
                return None
            return wholeseq(sbase(key, ek))
        if k == 'sptr':
            return psym(key)
        if k == 'wptr':
            return V('weak', psym(key))
        if k == 'func':
            return V('fsym', key)
        if k in ('rec', 'lam'):
            return V('rec', ('o', key), self.rec)
        if k == 'void':
            return V('void')
        return term('sym', key)

    def default(self):
        """value-initialised value"""
        k = self.k
        if k == 'bool':
            return ('F',)
        if k in ('int', 'enum'):
            return L(0)
        if k in ('ptr', 'sptr', 'nullptr'):
            return NULL
        if k == 'seq':
            return EMPTY
        if k == 'wptr':
            return V('weak', NULL)
        if k == 'func':
            return NOFN
        if k == 'float':
            return term('float', 0.0)
        return None


class Program(object):
    def __init__(self, data, name):
        self.name = name
        self.types = data['types']
        self.records = data['records']
        self.functions = data['functions']
        self.vars = data['vars']
        self.usings = data.get('usings', [])
        self._tk = {}
        self.byname = {}
        for fid, f in self.functions.items():
            f['id'] = int(fid)
            self.byname.setdefault(f['n'], []).append(f)
        self.bystrip = {}
        for f in self.functions.values():
            self.bystrip.setdefault(strip(f['n']), []).append(f)
        self.recbyname = {}
        for rid, r in self.records.items():
            r['id'] = int(rid)
            self.recbyname.setdefault(r['n'], []).append(r)
        self.rectk = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'rec' and not t.get('c'):
                self.rectk.setdefault(t['r'], i)
        for i, t in enumerate(self.types):
            if t['k'] == 'rec':
                self.rectk.setdefault(t['r'], i)
        # overriders: fid -> functions that override it (directly or not)
        self.overriders = {}
        for f in self.functions.values():
            seen, todo = set(), list(f.get('ov', []))
            while todo:
                o = todo.pop()
                if o in seen:
                    continue
                seen.add(o)
                self.overriders.setdefault(o, []).append(f)
                todo += self.functions.get(str(o), {}).get('ov', [])
        self._bases = {}

    def tk(self, i):
        t = self._tk.get(i)
        if t is None:
            t = self._tk[i] = TK(self, i)
        return t

    def fn(self, fid):
        return self.functions.get(str(fid))

    def rec(self, rid):
        return self.records.get(str(rid))

    def find(self, name, body=True):
        """functions whose qualified name without template arguments is name"""
        return [f for f in self.bystrip.get(name, []) if not body or f.get('body') is not None]

    def bases(self, rid):
        """ids of the record and its bases"""
        r = self._bases.get(rid)
        if r is None:
            r = [rid]
            rec = self.rec(rid)
            if rec:
                for b in rec.get('bases', []):
                    t = self.types[b['t']]
                    if t['k'] == 'rec':
                        for x in self.bases(t['r']):
                            if x not in r:
                                r.append(x)
            self._bases[rid] = r
        return r

    def allfields(self, rid):
        out = []
        for b in self.bases(rid):
            rec = self.rec(b)
            if rec:
                for f in rec.get('fields', []) or []:
                    out.append((fieldkey(rec, f['n'], None), f))
        return out

    def override_in(self, f, rid):
        """the function that a virtual call of f runs on an object of dynamic type rid"""
        cands = [f] + self.overriders.get(f['id'], [])
        best = None
        bs = self.bases(rid)
        for c in cands:
            r = c.get('rec')
            if r in bs:
                if best is None or r in self.derived_order(best['rec'], r):
                    best = c
        return best

    def derived_order(self, a, b):
        """[b] when b derives from a"""
        return [b] if a in self.bases(b) and a != b else []


def fieldkey(rec, name, fi):
    n = rec['n']
    i = n.rfind('(anonymous class)')
    return strip(n).split('::')[-1] + '::' + (name or '#%s' % fi)


# ---------------------------------------------------------------- loading

def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _files(d):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs]
    return out


class ToolError(Exception):
    pass


def extractor():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    exe = os.path.join(VERIF, 'build', 'extract')
    stamp = exe + '.' + _hash([src])
    if not os.path.exists(stamp):
        r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(exe):
            raise ToolError('cannot build the extractor: ' + r.stdout.decode()[-2000:])
        open(stamp, 'w').close()
    return exe


_loaded = {}


def load(name, std=None, defs=None):
    """the program of harness `name` (core, boost, standalone), extracted from the current source"""
    std = std or os.environ.get('VERIF_STD', 'c++14')
    defs = defs if defs is not None else tuple(d for d in os.environ.get('VERIF_DEFS', 'NDEBUG').split(',') if d)
    k = (name, std, defs)
    if k in _loaded:
        return _loaded[k]
    inc = os.path.join(REPO, 'include')
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    exe = extractor()
    hk = _hash(_files(inc) + [src, os.path.join(VERIF, 'tool', 'extract.cpp')])
    cache = os.path.join(VERIF, 'build', 'cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, '%s-%s-%s-%s.json' % (name, std, '.'.join(defs), hk))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        cmd = [exe, tmp, inc, os.path.join(VERIF, 'harness'), os.path.relpath(src, VERIF), '--', '-std=' + std, '-I' + inc,
               '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w'] + ['-D' + d for d in defs]
        r = subprocess.run(cmd, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise ToolError('extraction of %s failed: %s' % (name, r.stdout.decode()[-3000:]))
        os.rename(tmp, out)
        # keep the cache small
        def age(x):
            try:
                return os.path.getmtime(x)
            except OSError:
                return 0
        fs = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=age)
        for f in fs[:-24]:
            try:
                os.remove(f)
            except OSError:
                pass
    with open(out) as f:
        data = json.load(f)
    p = Program(data, name)
    _loaded[k] = p
    return p
