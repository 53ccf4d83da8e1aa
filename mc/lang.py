"""The IDL as its documentation defines it, independent of /repo: a recogniser of the grammar
(ordered choice, longest-match tokens, trivia rules) producing the declarations of mc/idl.py, and
the restrictions on a set of files. Used to decide what must be refused (C09) and accepted (C10),
what the gaps between tokens are (C14) and what includes resolve to (C12)."""
import os
import re
import sys
from .idl import *


sys.set_int_max_str_digits(0)


class Syntax(Exception):
    pass


WS = ' \t\n\r'
PRIM_RE = re.compile(r'u?int(?:8|16|32|64)|float(?:32|64)')
IDENT_RE = re.compile(r'[A-Za-z][A-Za-z0-9_]*')
VALUE_RE = re.compile(r'-?0x[0-9a-fA-F]+|-?[0-9]+(?:\.[0-9]+)?')
NL_RE = re.compile(r'\r\n|\n|\r')


class Parser:
    """Recursive descent with the semantics of the PEG: no backtracking into a choice once made."""

    def __init__(self, s):
        self.s, self.i = s, 0
        self.toks = []       # (start, end, kind) of the tokens consumed
        self.docs = []       # documentation blocks (start, end)

    # -- characters
    def ws1(self, i):
        """one WHITESPACE (CR LF counts as one)"""
        if i < len(self.s):
            if self.s.startswith('\r\n', i):
                return i + 2
            if self.s[i] in WS:
                return i + 1
        return None

    def comment(self, i):
        s = self.s
        if s.startswith('/*', i):
            j = s.find('*/', i + 2)
            if s.startswith('/**', i) and NL_RE.match(s, i + 3):
                k = s.find('*/', NL_RE.match(s, i + 3).end())
                if k >= 0:
                    self.docs.append((i, k + 2))
                    return k + 2
            return None if j < 0 else j + 2
        if s.startswith('//', i):
            m = NL_RE.search(s, i)
            return m.start() if m else len(s)
        return None

    def skip(self):
        while True:
            j = self.ws1(self.i)
            if j is None:
                j = self.comment(self.i)
            if j is None:
                return
            self.i = j

    def lit(self, t):
        if self.s.startswith(t, self.i):
            self.toks.append((self.i, self.i + len(t), t))
            self.i += len(t)
            return True
        return False

    def rx(self, r, kind):
        m = r.match(self.s, self.i)
        if m:
            self.toks.append((self.i, m.end(), kind))
            self.i = m.end()
            return m.group()
        return None

    def save(self):
        return self.i, len(self.toks), len(self.docs)

    def back(self, st):
        self.i = st[0]
        del self.toks[st[1]:]
        del self.docs[st[2]:]

    def want(self, x):
        if not x:
            raise Syntax(self.i)
        return x

    def seq(self, *fs):
        """non-atomic sequence: trivia between the parts"""
        r = []
        for k, f in enumerate(fs):
            if k:
                self.skip()
            r.append(f())
        return r

    def attempt(self, f):
        st = self.save()
        try:
            return f() or (True if f is None else ('ok',))
        except Syntax:
            self.back(st)
            return None

    def keyword(self, k):
        st = self.save()
        if self.lit(k):
            j = self.ws1(self.i)
            if j is not None:
                self.toks[-1] = (st[0], j, k + ' ')
                self.i = j
                return True
        self.back(st)
        raise Syntax(self.i)

    # -- rules
    def bounded(self):
        """bounded_array? -> count or None"""
        st = self.save()
        try:
            _, n, _ = self.seq(lambda: self.want(self.lit('[')), lambda: self.want(self.rx(re.compile('[0-9]+'), 'size')),
                               lambda: self.want(self.lit(']')))
            return int(n)
        except Syntax:
            self.back(st)
            return None

    def include(self):
        s, i = self.s, self.i
        if not s.startswith('include', i):
            raise Syntax(i)
        j = i + 7
        k = self.ws1(j)
        if k is None:
            raise Syntax(j)
        while k is not None:
            j, k = k, self.ws1(k)
        if not s.startswith('"', j):
            raise Syntax(j)
        e = s.find('.idl', j + 1)
        if e < 0 or e == j + 1 or not s.startswith('"', e + 4):
            raise Syntax(j)
        self.toks.append((i, e + 5, 'include'))
        self.i = e + 5
        return Include(s[j + 1:e + 4])

    def type_name(self, w):
        if w in PRIMS:
            return P(w)
        return O() if w == 'interface' else ('n', w)   # n: a name to be resolved

    def struct_field(self):
        def ty():
            return self.want(self.rx(PRIM_RE, 'prim') or self.rx(IDENT_RE, 'type'))
        t = ty()
        self.skip()
        n = self.bounded()
        self.skip()
        f = self.want(self.rx(IDENT_RE, 'ident'))
        self.skip()
        self.want(self.lit(';'))
        return f, self.type_name(t), 1 if n is None else n

    def struct(self):
        self.keyword('struct')
        self.skip()
        if self.s.startswith('interface', self.i):
            raise Syntax(self.i)
        name = self.want(self.rx(IDENT_RE, 'ident'))
        self.skip()
        self.want(self.lit('{'))
        self.skip()
        fs = [self.struct_field()]
        while True:
            st = self.save()
            self.skip()
            try:
                fs.append(self.struct_field())
            except Syntax:
                self.back(st)
                break
        self.skip()
        self.want(self.lit('};'))
        return Struct(name, tuple(fs))

    def const(self):
        self.keyword('const')
        self.skip()
        t = self.want(self.rx(PRIM_RE, 'prim'))
        self.skip()
        n = self.want(self.rx(IDENT_RE, 'ident'))
        self.skip()
        self.want(self.lit('='))
        self.skip()
        v = self.want(self.rx(VALUE_RE, 'value'))
        self.skip()
        self.want(self.lit(';'))
        return Const(t, n, v)

    def error(self):
        self.keyword('error')
        self.skip()
        n = self.want(self.rx(IDENT_RE, 'ident'))
        self.skip()
        self.want(self.lit(';'))
        return Error(n)

    def param_type(self):
        s0 = self.save()
        # 1: (ident | "interface") bounded_array
        w = self.rx(IDENT_RE, 'type')
        if w:
            self.skip()
            n = self.bounded()
            if n is not None:
                return self.type_name(w), n or 65536   # a literal size 0 is no array size
        self.back(s0)
        # 2: (primitive_type | !"interface" ident) unbounded_array
        w = self.rx(PRIM_RE, 'prim')
        if not w and not self.s.startswith('interface', self.i):
            w = self.rx(IDENT_RE, 'type')
        if w:
            self.skip()
            if self.lit('['):
                self.skip()
                if self.lit(']'):
                    return self.type_name(w), 0
        self.back(s0)
        w = self.rx(PRIM_RE, 'prim') or self.want(self.rx(IDENT_RE, 'type'))
        return self.type_name(w), None

    def param(self):
        d = 'in' if self.lit('in') else self.want(self.lit('out')) and 'out'
        self.skip()
        t, a = self.param_type()
        self.skip()
        n = self.want(self.rx(IDENT_RE, 'ident'))
        if t == ('n', 'buffer') and a is None:
            t = BUF
        return (d, t, a, n)

    def function(self):
        st = self.save()
        i, attrs = self.i, 0

        def wss(i):
            while self.ws1(i) is not None:
                i = self.ws1(i)
            return i
        while True:
            j = wss(i)
            if self.s.startswith('#[optional]', j) and self.ws1(j + 11) is not None:
                i = self.ws1(j + 11)
                attrs += 1
            else:
                break
        i = wss(i)
        if not self.s.startswith('method', i) or self.ws1(i + 6) is None:
            raise Syntax(self.i)
        self.toks.append((self.i, self.ws1(i + 6), 'method '))
        self.i = self.ws1(i + 6)
        try:
            self.skip()
            n = self.want(self.rx(IDENT_RE, 'ident'))
            self.skip()
            self.want(self.lit('('))
            self.skip()
            ps = []
            s1 = self.save()
            try:
                ps.append(self.param())
            except Syntax:
                self.back(s1)
            while True:
                s1 = self.save()
                self.skip()
                try:
                    self.want(self.lit(','))
                    self.skip()
                    ps.append(self.param())
                except Syntax:
                    self.back(s1)
                    break
            self.skip()
            self.want(self.lit(');'))
        except Syntax:
            self.back(st)
            raise
        return ('method', n, ps, attrs)

    def interface(self):
        self.keyword('interface')
        self.skip()
        n = self.want(self.rx(IDENT_RE, 'ident'))
        st = self.save()
        self.skip()
        base = None
        if self.lit(':'):
            self.skip()
            base = self.rx(IDENT_RE, 'type')
        if not base:
            self.back(st)
        self.skip()
        self.want(self.lit('{'))
        ms = []
        while True:
            st = self.save()
            self.skip()
            for f in (self.function, self.const, self.error):
                s1 = self.save()
                try:
                    ms.append(f())
                    break
                except Syntax:
                    self.back(s1)
            else:
                self.back(st)
                break
        self.skip()
        self.want(self.lit('};'))
        return ('interface', n, base, ms)

    def idl(self):
        ds = []
        for fs in ((self.include,), (self.const, self.struct, self.interface)):
            while True:
                st = self.save()
                self.skip()
                for f in fs:
                    s1 = self.save()
                    try:
                        ds.append(f())
                        break
                    except Syntax:
                        self.back(s1)
                else:
                    self.back(st)
                    break
        self.skip()
        if self.i != len(self.s):
            raise Syntax(self.i)
        return ds


def parse(text):
    """text or bytes -> raw declarations; raises Syntax"""
    if isinstance(text, bytes):
        try:
            text = text.decode('utf-8')
        except UnicodeDecodeError:
            raise Syntax(0)
    return Parser(text).idl()


# ------------------------------------------------------------------ validity of a file set

INT_RANGE = {p: (0 if p[0] == 'u' else -(1 << (8 * n - 1)), (1 << 8 * n) - 1 if p[0] == 'u' else (1 << (8 * n - 1)) - 1)
             for p, n in PRIMS.items() if 'int' in p}


# reserved words of the target languages (C11, C++17/20, Rust 2021, Java 17)
RESERVED = set('''
auto break case char const continue default do double else enum extern float for goto if inline int long register
restrict return short signed sizeof static struct switch typedef union unsigned void volatile while asm typeof
alignas alignof and and_eq bitand bitor bool catch char8_t char16_t char32_t class compl concept consteval constexpr
constinit const_cast co_await co_return co_yield decltype delete dynamic_cast explicit export false friend mutable
namespace new noexcept not not_eq nullptr operator or or_eq private protected public reinterpret_cast requires
static_assert static_cast template this thread_local throw true try typeid typename using virtual wchar_t xor xor_eq
as async await crate dyn fn impl in let loop match mod move mut pub ref self Self super trait type unsafe use where
abstract become box final macro override priv unsized yield gen union
assert boolean byte extends finally implements import instanceof interface long native null package protected
strictfp synchronized throws transient var record sealed permits _
'''.split())


class Verdict:
    def __init__(self):
        self.bad, self.gray, self.java_gray = [], [], False

    @property
    def ok(self):
        return not self.bad and not self.gray


def const_bad(t, lit):
    """None | reason; the range rule of integer constants"""
    if t not in INT_RANGE:
        return None
    if '.' in lit:
        return 'fraction'
    lo, hi = INT_RANGE[t]
    neg = lit[0] == '-'
    d = lit.lstrip('-')
    v = int(d[2:], 16) if d.startswith('0x') else int(d)
    v = -v if neg else v
    if not lo <= v <= hi or (t[0] == 'u' and neg):
        return 'range'
    return None


def resolve(inc, including, dirs, files, links={}):
    """Path of the file an include names. files: set of normalised existing paths; links: symbolic
    links to files (path -> path)."""
    if os.path.dirname(inc):
        p = os.path.normpath(os.path.join(os.path.dirname(including), inc))
        p = links.get(p, p)
        return p if p in files else None
    for d in dirs:
        p = os.path.normpath(os.path.join(d, inc))
        p = links.get(p, p)
        if p in files:
            return p
    return None


def load(files, main, dirs=(), links={}):
    """(reachable: {path: raw decls} in load order, problems)"""
    dirs = list(dirs) + [os.path.dirname(main)]
    got, bad, state = {}, [], {}

    def visit(p):
        stack = [(p, None)]
        # iterative DFS with colours
        state[p] = 1
        order = []
        work = [(p, iter(incs(p)))]
        while work:
            cur, it = work[-1]
            for inc in it:
                q = resolve(inc, cur, dirs, files, links)
                if q is None:
                    bad.append(f'unresolved include {inc}')
                    continue
                if state.get(q) == 1:
                    bad.append(f'include cycle through {q}')
                elif q not in state:
                    state[q] = 1
                    work.append((q, iter(incs(q))))
                    break
            else:
                state[cur] = 2
                work.pop()

    def incs(p):
        try:
            got[p] = parse(files[p])
        except Syntax as e:
            bad.append(f'syntax of {p} at {e}')
            got[p] = []
        return [d.path for d in got[p] if isinstance(d, Include)]
    visit(main)
    return got, bad


def judge(files, main, dirs=(), allow_ub=False):
    """Verdict on a file set ({normalised path: text})."""
    v = Verdict()
    got, bad = load(files, main, dirs)
    v.bad += bad
    if bad:
        return v
    for p in got:
        ps = Parser(files[p])
        ps.idl()
        for a, b, k in set(ps.toks):
            if k == 'ident' and files[p][a:b] in RESERVED:
                v.gray.append('reserved word ' + files[p][a:b])
    structs, ifaces, names = {}, {}, {}
    for p, ds in got.items():
        for d in ds:
            if isinstance(d, Include):
                continue
            kind = 'interface' if isinstance(d, tuple) else 'const' if isinstance(d, Const) else 'struct'
            name = d[1] if kind == 'interface' else d.name
            if name in names:
                v.bad.append(f'duplicate top-level name {name}')
            names[name] = kind
            if kind == 'struct':
                structs[name] = d
            elif kind == 'interface':
                ifaces[name] = d
            else:
                chk_const(v, d, allow_ub)
            if name == 'buffer' or name == 'interface':
                v.gray.append('name ' + name)
    if v.bad:
        return v
    # structs
    lay, doing = {}, set()

    def layout(n):
        """(size, align, align under the reading that objects are 16-aligned, objects) or None"""
        if n in lay:
            return lay[n]
        if n in doing:
            v.bad.append(f'struct cycle through {n}')
            return None
        doing.add(n)
        off, al, al16, objs, misaligned, gray = 0, 1, 1, False, False, False
        if len({f for f, _, _ in structs[n].fields}) != len(structs[n].fields):
            v.bad.append(f'duplicate field in {n}')
        for f, t, c in structs[n].fields:
            if not 1 <= c <= 65535:
                v.bad.append(f'array size {c}')
                c = 1
            if t[0] == 'p':
                s, a, a16 = PRIMS[t[1]], PRIMS[t[1]], PRIMS[t[1]]
            elif t[0] == 'o':
                s, a, a16, objs = 16, 8, 16, True
            elif t[1] in ifaces:
                s, a, a16, objs = 16, 8, 8, True
            elif t[1] in structs:
                r = layout(t[1])
                if r is None:
                    s, a, a16 = 1, 1, 1
                else:
                    s, a, a16 = r[0], r[1], r[2]
                    objs = objs or r[3]
            else:
                v.bad.append(f'undefined type {t[1]}')
                s, a, a16 = 1, 1, 1
            if off % a:
                misaligned = True
            if off % a16:
                gray = True
            off += s * c
            al, al16 = max(al, a), max(al16, a16)
        if off % al:
            misaligned = True
        if off % al16:
            gray = True
        if misaligned:
            v.bad.append(f'misaligned struct {n}')
        elif gray:
            v.gray.append(f'alignment of objects in {n}')
        if off >= 1 << 32:
            v.gray.append(f'huge struct {n}')
        if objs:
            v.java_gray = True
        doing.discard(n)
        lay[n] = (off, al, al16, objs)
        return lay[n]
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    for n in structs:
        layout(n)
    if v.bad:
        return v
    prog_structs = []
    for n, s in structs.items():
        prog_structs.append(Struct(n, tuple((f, rt(t, structs), c) for f, t, c in s.fields)))
    prog = Program({'x': prog_structs})
    # inheritance
    for n, d in ifaces.items():
        seen, b = [n], d[2]
        while b is not None:
            if b not in ifaces:
                v.bad.append(f'undefined base {b}')
                break
            if b in seen:
                v.bad.append(f'inheritance cycle through {b}')
                break
            seen.append(b)
            b = ifaces[b][2]
    if v.bad:
        return v
    for n, d in ifaces.items():
        chain, b = [], n
        while b is not None:
            chain.insert(0, ifaces[b])
            b = ifaces[b][2]
        ms, cs = [], []
        for i in chain:
            for m in i[3]:
                (ms if isinstance(m, tuple) else cs).append(m[1] if isinstance(m, tuple) else m.name)
        if len(set(ms)) != len(ms):
            v.bad.append(f'duplicate method in {n}')
        if len(set(cs)) != len(cs):
            v.bad.append(f'duplicate constant or error in {n}')
        if len(ms) > 0x4000:
            v.bad.append(f'too many methods in {n}')
        for m in d[3]:
            if isinstance(m, Const):
                chk_const(v, m, allow_ub)
            elif isinstance(m, tuple):
                chk_method(v, prog, ifaces, structs, n, m)
    return v


def rt(t, structs):
    return S(t[1]) if t[0] == 'n' and t[1] in structs else O(t[1]) if t[0] == 'n' else t


def chk_const(v, c, allow_ub):
    b = const_bad(c.type, c.lit)
    if b:
        (v.gray if allow_ub else v.bad).append(f'constant {c.name}: {b}')
    elif c.type not in INT_RANGE:
        d = c.lit.lstrip('-')
        x = int(d[2:], 16) if d.startswith('0x') else int(float(d) if len(d) < 300 else 1 << 2000)
        if x >= (1 << (127 if c.type == 'float32' else 1023)):
            v.gray.append('float range')


def chk_method(v, prog, ifaces, structs, iname, m):
    _, name, params, attrs = m
    if attrs > 1:
        v.bad.append(f'repeated attribute on {name}')
    if len({p[3] for p in params}) != len(params):
        v.bad.append(f'duplicate parameter in {name}')
    ps = []
    for d, t, a, n in params:
        if t[0] == 'n' and t[1] not in structs and t[1] not in ifaces:
            v.bad.append(f'undefined type {t[1]}')
            return
        if a is not None and a > 65535:
            v.bad.append('array size')
            return
        ps.append(Param(d, rt(t, structs), a, n))
    obj = lambda p: p.type[0] == 'o'
    for p, (d, t, a, n) in zip(ps, params):
        if a is None:
            continue
        if obj(p) and a == 0:
            v.bad.append('unbounded object array or size 0')
        if not obj(p) and a != 0:
            v.bad.append('bounded data array')
        if p.type[0] == 's' and prog.has_objects(p.type):
            v.bad.append('array of structs with objects')
    for d in ('in', 'out'):
        arrs = sum(1 for p in ps if p.dir == d and obj(p) and p.arr)
        one = sum(1 for p in ps if p.dir == d and obj(p) and p.arr is None)
        if arrs > 1:
            v.bad.append('two object arrays in one direction')
        if arrs and one:
            v.bad.append('object array and single object in one direction')
    if not v.bad:
        mm = Method(name, tuple(ps))
        if not prog.expressible(mm):
            v.bad.append('more than 15 arguments of a class')
