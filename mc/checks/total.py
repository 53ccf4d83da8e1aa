"""C16: debug and release compilers on exhaustively enumerated inputs: byte and token mutations of
base programs, token strings, boundary numerals and size products, sizes, encodings, flags."""
import itertools
import os
import re
import shutil
import subprocess
import time
from .. import common as K
from .. import front

LIB = 'interface B { method z(); };\nstruct L { uint64 q; };\n'
BASES = {
    'rich': '''include "l.idl"
const uint8 C=0x1f;
struct S{uint32[2] a;interface o; L l;};
// x
interface I:B{const int8 K=-5;error E;
#[optional]
method m(in S s,out buffer b,in interface[2] o);
/**
 d */
method n(out L[] p, in uint16 q);};
''',
    'small': '''struct S{uint8[3] a;};interface I{error E;
#[optional] method m(in S s);};
''',
}
# one byte of every class the grammar, the lexer, an encoder or a path can tell apart
BYTES = [bytes([b]) for b in b'\0\x01\x1b\t\n\r "#\'*+,-./09:;<=>@A[\\]_`abx{|}()~\x7f\x80\xbf\xc0\xc3\xe2\xed\xf0\xf8\xff']
SEQS = ['é'.encode(), ' '.encode(), '﻿'.encode(), '😀'.encode(), ' '.encode(), '٣'.encode(), 'ⅷ'.encode(), b'\xe2\x82', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\xaf',
        b'/*', b'*/', b'/**\n', b'//', b'\r\n', b'};', b');', b'"', b'[]', b'[0]', b'[65536]', b'[18446744073709551616]', b'#[optional]', b'0x', b'--', b'.', b'..', b'../', b'\\\n']

TOKENS = re.compile(rb'"[^"]*"|//[^\n]*|/\*.*?\*/|\w+|\s+|#\[|.', re.S)

WORDS = ['include "l.idl"\n', 'include ', '"l.idl"\n', 'const ', 'struct ', 'interface ', 'method ', 'error ', 'in ', 'out ', 'uint8 ', 'buffer ', 'X ', 'B ', 'L ', '1 ', '-1.5 ', '0x ', '[', ']', '[]', '{', '};', '}',
         '(', ');', ')', ';', ',', '=', ':', '#[optional]\n', '#[', '/** d */', '/*', '*/', '//', '\n']

NUMS = ['0', '1', '2', '00', '01', '15', '16', '255', '256', '32767', '32768', '65534', '65535', '65536', '65537', '131071', '131072', '4294967295', '4294967296', '4294967297', '9223372036854775807', '9223372036854775808',
        '18446744073709551615', '18446744073709551616', '18446744073709551617', '340282366920938463463374607431768211455', '340282366920938463463374607431768211456', '9' * 50, '0' * 50 + '1', '0' * 300,
        '-0', '-1', '+1', '1.0', '.5', '1.', '1e3', '0x0', '0x1', '0xffff', '0x10000', '0xffffffffffffffff', '0x10000000000000000', '0X1', '0x', '-0x1', '1_0', '1u', ' 1 ', '', 'X', '-', '--1', '-32768', '-32769', '-129', '-128', '-2147483649', '-9223372036854775808', '-9223372036854775809',
        '3.4028236e38', '1' + '0' * 400, '-1' + '0' * 400 + '.5', '0.' + '0' * 400 + '1', '1.7976931348623159' + '0' * 10]
PRIMS = ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'float32', 'float64')


def tokens(t):
    return [m.group(0) for m in TOKENS.finditer(t)]


def mutations(quick):
    """(description, bytes of main.idl)"""
    for name, text in BASES.items():
        b = text.encode()
        n = len(b)
        small = name == 'small'
        yield f'{name}', b
        alpha = [bytes([x]) for x in range(256)] if not quick else sorted({*BYTES, *[bytes([x]) for x in range(128)]}) if small else BYTES
        for i in range(n + 1):
            for x in alpha:
                yield f'{name}: {x!r} inserted at {i}', b[:i] + x + b[i:]
                if i < n and b[i:i + 1] != x:
                    yield f'{name}: byte {i} replaced with {x!r}', b[:i] + x + b[i + 1:]
            for x in SEQS:
                yield f'{name}: {x!r} inserted at {i}', b[:i] + x + b[i:]
        for i in range(n):
            for j in range(i + 1, n + 1):
                if j - i < 4 or j == n or (j - i) % (3 if quick else 1) == 0:
                    yield f'{name}: bytes {i}..{j} removed', b[:i] + b[j:]
        ts = tokens(b)
        for i in range(len(ts)):
            for j in range(i + 1, len(ts) + 1):
                p, q, r = b''.join(ts[:i]), b''.join(ts[i:j]), b''.join(ts[j:])
                yield f'{name}: tokens {i}..{j} doubled', p + q + q + r
                if j - i <= 6 or j == len(ts):
                    yield f'{name}: tokens {i}..{j} twice with a space', p + q + b' ' + q + r
                if not quick or j - i <= 2:
                    for k in range(j + 1, len(ts) + 1, 1 if not quick else 3):
                        yield f'{name}: tokens {i}..{j} moved to {k}', p + b''.join(ts[j:k]) + q + b''.join(ts[k:])
        for i in range(len(ts)):
            for w in WORDS:
                yield f'{name}: token {i} replaced with {w!r}', b''.join(ts[:i]) + w.encode() + b''.join(ts[i + 1:])
        if not quick and small:
            few = [bytes([c]) for c in b'\0 "/*;{}[]0\xff\n']
            for i in range(n):
                for j in range(i + 1, n):
                    for x in few:
                        for y in few:
                            yield f'{name}: bytes {i},{j} replaced with {x!r},{y!r}', b[:i] + x + b[i + 1:j] + y + b[j + 1:]


def strings(quick):
    for c in range(256):
        yield f'the byte {c}', bytes([c])
    for k in range(0, 4 if quick else 5):
        ws = WORDS if k < 3 or not quick else WORDS[::2]
        if k == 4:
            ws = WORDS[::3]
        for w in itertools.product(ws, repeat=k):
            yield f'words {"".join(w)!r}', ''.join(w).encode()
    if not quick:
        for c in itertools.product(BYTES, repeat=2):
            yield f'bytes {b"".join(c)!r}', b''.join(c)


def numerals(quick):
    ctx = ['struct S{uint8[%s] a;};interface I{method m(in S s);};', 'struct S{uint64[%s] a;};', 'struct S{interface[%s] a;};interface I{method m(out S s);};', 'struct S{uint8[%s] a;uint8[%s] b;};interface I{method m(in S[] s);};',
           'interface I{method m(in interface[%s] a);};', 'interface I{method m(out interface[%s] a);};', 'interface I{method m(in uint8[%s] a);};', 'interface I{method m(in buffer[%s] a);};',
           'struct T{uint16[3] z;};struct S{T[%s] t;};interface I{method m(out S s);};'] + [f'const {p} X=%s;' for p in PRIMS] + [f'interface I{{const {p} X=%s;}};' for p in PRIMS]
    for c in ctx:
        for n in NUMS:
            yield f'{c!r} with {n[:40]!r}', (c.replace('%s', n) + '\n').encode()


def products(quick):
    """nested arrays: sizes whose products and sums wrap 16, 32 and 64 bit counters"""
    counts = (1, 2, 255, 256, 257, 65535)
    for el in ('uint8', 'uint64') + (() if quick else ('interface', 'uint16')):
        for depth in range(1, 6):
            for ks in itertools.product(counts if depth < 5 and not (quick and depth > 3) else (256, 65535), repeat=depth):
                if el == 'interface' and eval('*'.join(map(str, ks))) > 2000:
                    continue
                t = f'struct S0{{{el}[{ks[0]}] a;}};' if ks[0] > 1 else f'struct S0{{{el} a;}};'
                for i, k in enumerate(ks[1:], 1):
                    t += f'struct S{i}{{S{i - 1}{"" if k == 1 else "[%d]" % k} a;}};'
                e = len(ks) - 1
                yield f'{el} x {ks}', (t + f'struct E{{S{e} a;S{e} b;}};interface I{{method m(in E e, out S{e}[] s, in uint8 p, in uint32 q);}};\n').encode()
    # sums: two fields whose sizes add up to about 2^64, from all pairs of such products
    big = [((65535,) * 4, 'uint64'), ((32768, 65535, 65535, 65535), 'uint64'), ((65535, 65535, 65535, 65535), 'uint8'), ((256,) * 5, 'uint64'), ((256,) * 7, 'uint64'), ((256,) * 7 + (128,), 'uint8'), ((256,) * 7 + (255,), 'uint8'), ((256,) * 7 + (32,), 'uint64'), ((256,) * 8, 'uint8'), ((256,) * 4, 'uint8'), ((256,) * 3 + (128,), 'uint8')]
    for x, y in itertools.product(range(len(big)), repeat=2):
        t = ''
        for tag, (ks, el) in (('A', big[x]), ('B', big[y])):
            t += f'struct {tag}0{{{el}[{ks[0]}] a;}};' + ''.join(f'struct {tag}{i}{{{tag}{i - 1}[{k}] a;}};' for i, k in enumerate(ks[1:], 1))
        yield f'sum of {big[x]} and {big[y]}', (t + f'struct Z{{A{len(big[x][0]) - 1} a;B{len(big[y][0]) - 1} b;}};interface I{{method m(in Z z, out Z y);}};\n').encode()


def sizes(quick):
    """(description, files): growth in every direction the grammar has, within the stated bounds"""
    s = 1 if quick else 4
    one = {
        'identifier': f'interface {"I" * 200000 * s} {{ method m(); }};\n', 'method name': f'interface I {{ method {"m" * 100000 * s}(in uint8 {"p" * 100000 * s}); }};\n',
        'numeral': f'const uint8 X = {"0" * 200000 * s}1;\n', 'hex numeral': f'const uint8 X = 0x{"0" * 200000 * s}1;\n', 'array size': f'struct S {{ uint8[{"0" * 100000 * s}7] a; }};\n', 'array size too large': f'struct S {{ uint8[{"9" * 100000 * s}] a; }};\n',
        'spaces': ' ' * 300000 * s + 'const uint8 X = 1;\n', 'newlines': '\n' * 300000 * s, 'comments': '/**/ ' * 40000 * s + '\n', 'open comments': '/*' * 100000 * s, 'line comments': '//\n' * 60000 * s, 'documentation': '/**\n' + 'x\n' * 50000 * s + '*/\ninterface I { method m(); };\n',
        'documentations': '/**\n*/' * 20000 * s + '\n', 'braces': '{' * 100000 * s, 'brackets': '[' * 100000 * s, 'parentheses': '(' * 100000 * s, 'quotes': 'include "' * 20000 * s, 'semicolons': ';' * 100000 * s, 'attributes': 'interface I { ' + '#[optional]\n' * 5000 * s + 'method m(); };\n', 'minus': 'const int8 X = ' + '-' * 50000 * s + '1;\n',
        'consts': ''.join(f'const uint8 X{i} = 1;\n' for i in range(4000 * s)), 'structs': ''.join(f'struct X{i} {{ uint8 a; }};\n' for i in range(2000 * s)), 'interfaces': ''.join(f'interface X{i} {{ method m(); }};\n' for i in range(300 * s)),
        'fields': 'struct S { ' + ''.join(f'uint8 f{i}; ' for i in range(4000 * s)) + '}; interface I { method m(in S s); };\n', 'methods': 'interface I { ' + ''.join(f'method m{i}(in uint8 a, out uint16 b); ' for i in range(600 * s)) + '};\n',
        'errors': 'interface I { ' + ''.join(f'error e{i}; ' for i in range(2000 * s)) + '};\n', 'params': 'interface I { method m(' + ', '.join(f'in uint8 p{i}' for i in range(400 * s)) + '); };\n', 'out params': 'interface I { method m(' + ', '.join(f'out uint64 p{i}' for i in range(400 * s)) + '); };\n',
        'too many params': 'interface I { method m(' + ', '.join(f'in buffer p{i}' for i in range(3000 * s)) + '); };\n',
        'struct chain': 'struct S0 { uint8 a; };\n' + ''.join(f'struct S{i} {{ S{i - 1} a; }};\n' for i in range(1, 120)) + 'interface I { method m(in S119 s); };\n', 'struct chain, reversed': ''.join(f'struct S{i} {{ S{i - 1} a; }};\n' for i in range(119, 0, -1)) + 'struct S0 { uint8 a; };\ninterface I { method m(in S119 s, out S5 t); };\n',
        'struct cycle': ''.join(f'struct S{i} {{ S{(i + 1) % 300} a; }};\n' for i in range(300)), 'doubling structs': 'struct S0 { uint8 a; };\n' + ''.join(f'struct S{i} {{ S{i - 1} a; S{i - 1} b; }};\n' for i in range(1, 10)) + 'interface I { method m(in S9 s); };\n',
        'inheritance': 'interface I0 { method m(); };\n' + ''.join(f'interface I{i} : I{i - 1} {{ error e{i}; }};\n' for i in range(1, 60)), 'inheritance, reversed': ''.join(f'interface I{i} : I{i - 1} {{ method m{i}(); }};\n' for i in range(59, 0, -1)) + 'interface I0 { };\n', 'inheritance cycle': ''.join(f'interface I{i} : I{(i + 1) % 300} {{ }};\n' for i in range(300)),
    }
    for k, v in one.items():
        yield k, {'main.idl': v.encode()}
    for k, n in (('include chain', 300), ('include cycle', 300)):
        fs = {f'f{i}.idl': f'include "f{i + 1}.idl"\nstruct S{i} {{ uint8 a; }};\n'.encode() for i in range(1, n)}
        fs[f'f{n}.idl'] = b'struct Z { uint8 a; };\n' if k == 'include chain' else b'include "main.idl"\n'
        yield k, {'main.idl': b'include "f1.idl"\ninterface I { method m(); };\n', **fs}
    n = 24
    fs = {f'f{i}{c}.idl': (f'include "f{i + 1}a.idl"\ninclude "f{i + 1}b.idl"\n' if i < n else '').encode() + f'struct S{i}{c} {{ uint8 a; }};\n'.encode() for i in range(1, n + 1) for c in 'ab'}
    yield 'include diamonds', {'main.idl': b'include "f1a.idl"\ninclude "f1b.idl"\ninterface I { method m(in S24a s); };\n', **fs}
    yield 'many includes', {'main.idl': ''.join(f'include "g{i}.idl"\n' for i in range(500)).encode(), **{f'g{i}.idl': f'const uint8 C{i} = 1;\n'.encode() for i in range(500)}}
    yield 'repeated include', {'main.idl': b'include "g.idl"\n' * 2000, 'g.idl': b'const uint8 C = 1;\n'}
    yield 'include path', {'main.idl': b'include "' + b'./' * 1500 + b'g.idl"\n', 'g.idl': b'const uint8 C = 1;\n'}
    yield 'include name', {'main.idl': b'include "' + b'g' * 100000 + b'.idl"\n'}


# ------------------------------------------------------------------ running

_exes = [None, None, None]       # debug, release, opt
_n = [2]      # how many of them run
ALLB = ('c', 'cs', 'cu', 'cus', 'p', 'ps', 'r', 'j')
TIMEOUT = 60


def launch(exe, cwd, argv, out, isdir):
    """-> (verdict, files): verdict 'ok' | 'reject' | fault text"""
    p = subprocess.Popen([exe, *argv], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=cwd, env=K.ENV)
    try:
        _, err = p.communicate(timeout=TIMEOUT)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return f'does not end within {TIMEOUT} s', {}
    files = collect(out)
    if p.returncode == -6 and exe == _exes[2] and err.strip():
        return 'reject', files      # a panic of the opt profile aborts, after its diagnostic
    if p.returncode < 0:
        return f'is ended by signal {-p.returncode}: {err[-200:]!r}', files
    if p.returncode:
        return ('reject' if err.strip() else f'exits with {p.returncode} without a diagnostic'), files
    return 'ok', files


def collect(out):
    fs = {}
    if os.path.isdir(out):
        for r, _, ns in os.walk(out):
            for n in ns:
                p = os.path.join(r, n)
                fs[os.path.relpath(p, out)] = open(p, 'rb').read()
        shutil.rmtree(out)
    elif os.path.exists(out):
        fs[''] = open(out, 'rb').read()
        os.unlink(out)
    return fs


def each(d, back, extra=(), seen=None):
    """run all builds with one backend -> (violation or None, accepted)"""
    flags, isdir = front.BACK[back]
    r = []
    for exe in _exes[:_n[0]]:
        out = os.path.join(d, 'out')
        if isdir:
            os.makedirs(out, exist_ok=True)
        r.append(launch(exe, d, ['main.idl', '-o', 'out', *flags, *extra], out, isdir))
    v, ok = judge(r, back, not isdir)
    if seen is not None and ok:
        h = hash(tuple(sorted(r[0][1].items())))
        if h in seen:      # the same C text: the same program for the other back ends
            return v, None
        seen.add(h)
    return v, ok


def judge(r, what, need):
    names = ('debug', 'release', 'opt')
    for n, (v, fs) in zip(names, r):
        if v not in ('ok', 'reject'):
            return f'{what}: the {n} build {v}', False
        if v == 'ok' and need and not any(fs.values()):
            return f'{what}: the {n} build exits 0 without output', False
    for n, (v, fs) in zip(names[1:], r[1:]):
        if r[0][0] != v:
            return f'{what}: debug {"accepts" if r[0][0] == "ok" else "rejects"}, {n} {"accepts" if v == "ok" else "rejects"}', False
        if v == 'ok' and r[0][1] != fs:
            return f'{what}: debug and {n} write different outputs ({[k for k in {**r[0][1], **fs} if r[0][1].get(k) != fs.get(k)]})', False
    return None, r[0][0] == 'ok'


_wd = {}
_seen = set()      # per worker


def workdir():
    k = os.getpid()
    if k not in _wd:
        _wd[k] = K.newdir('t')
        K.write(os.path.join(_wd[k], 'l.idl'), LIB)
    return _wd[k]


def texts(job):
    """a chunk of single-file inputs -> (runs, accepted, violations)"""
    d = workdir()
    runs = acc = 0
    bad = []
    for what, data in job:
        K.write(os.path.join(d, 'main.idl'), data)
        v, ok = each(d, 'c', seen=_seen)
        runs += _n[0]
        if v is None and ok is not False:
            acc += 1
        if v is None and ok:
            for b in ALLB[1:]:
                v, _ = each(d, b)
                runs += _n[0]
                if v:
                    break
        if v is None and ok is False and b'uint' in data and len(data) < 400 and hash(len(data)) % 5 == 0:
            v, _ = each(d, 'r')      # a front end that is entered differently
            runs += _n[0]
        if v:
            bad.append((what, v, {'main.idl': data}))
    return runs, acc, bad, len(job)


def sets(job):
    what, files = job
    d = K.newdir('z')
    try:
        front.put(d, files)
        runs, bad = 0, []
        for b in ALLB:
            v, ok = each(d, b)
            runs += _n[0]
            if v:
                bad.append((what, v, files if sum(map(len, files.values())) < 20000 else None))
                break
            if not ok and b != 'j':
                break
        return runs, 1, bad, 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


INPUTS = {'valid': ('v.idl', b'interface I { method m(in uint8 a); };\n'), 'invalid': ('x.idl', b'interface I { method m(in nothing a); };\n'), 'not idl': ('t.txt', b'interface I { method m(); };\n'),
          'empty': ('e.idl', b''), 'binary': ('b.idl', bytes(range(256))), 'ub': ('u.idl', b'interface I : U { };\ninterface U { method n(in uint16 big, in uint8[0] q); };\n'),
          'include': ('i.idl', b'include "deep.idl"\ninterface I : D { };\n')}


def flag_words(quick):
    ins = [v[0] for v in INPUTS.values()] + ['missing.idl', '.', '', 'no/such/dir.idl', 'dir.idl', '/dev/null', b'\xff.idl']
    backs = [(), ('--c',), ('--cpp',), ('--rust',), ('--java',), ('--c', '--cpp'), ('--rust', '--java'), ('--c', '--c')]
    outs = [('-o', 'out'), ('-o', 'outdir'), ('-o', 'nodir/out'), ('-o', ''), (), ('-o', '/dev/null/x')]
    mods = [m for k in range(4) for m in itertools.combinations(('--skel', '--no-typed-objects', '--allow-undefined-behavior'), k)]
    more = [(), ('-I', 'inc'), ('-I', 'missing'), ('-I', 'v.idl'), ('-I', ''), ('--marking', 'mark'), ('--marking', 'missing'), ('--marking', 'outdir'), ('--marking', 'bin'), ('--marking', 'emptymark'), ('--dump', 'pst'), ('--dump', 'ast'), ('--dump', 'mir'), ('--dump', 'no'), ('--nonsense',), ('extra',), ('-I',), ('--marking', 'mark', '-I', 'inc')]
    for i in ins:
        for b in backs:
            for o in outs:
                for x in more:
                    for m in mods if (not quick or (o == outs[0] and x in more[:2])) else [()]:
                        yield [i, *o, *b, *m, *x]


def flags(job):
    d = K.newdir('g')
    runs, bad, acc = 0, [], 0
    try:
        for n, t in INPUTS.values():
            K.write(os.path.join(d, n), t)
        K.write(os.path.join(d, 'inc', 'deep.idl'), b'interface D { method d(); };\n')
        os.makedirs(os.path.join(d, 'dir.idl'))
        for n, t in (('mark', b'M\nN\n'), ('bin', bytes(range(256))), ('emptymark', b'')):
            K.write(os.path.join(d, n), t)
        for argv in job:
            r = []
            for exe in _exes[:_n[0]]:
                os.makedirs(os.path.join(d, 'outdir'), exist_ok=True)
                if '--rust' in argv or '--java' in argv:
                    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
                v, _ = launch(exe, d, argv, os.path.join(d, 'nothing'), False)
                fs = {o: collect(os.path.join(d, o)) for o in ('out', 'outdir')}
                for n in os.listdir(d):    # an output named by default
                    if n not in ('inc', 'dir.idl', 'mark', 'bin', 'emptymark') and n not in [x[0] for x in INPUTS.values()]:
                        fs[n] = collect(os.path.join(d, n))
                r.append((v, {f'{k}/{n}': t for k, x in fs.items() for n, t in x.items()}))
                runs += 1
            v, ok = judge(r, 'idlc ' + ' '.join(map(repr, argv)), False)
            acc += ok
            if v:
                bad.append((f'arguments {argv}', v, None))
        return runs, acc, bad, len(job)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def marks(quick):
    return [b'\xff\xfe', b'\0', b'*/', b'\r', b'\\', b'a' * 100000, b'//', 'é'.encode(), b'\n' * 1000, b'/*', b'"', b'{', b'x\n*/\nint y;\n']


def known(job):
    """inputs on which the compiler is known not to end in time"""
    what, text, limit = job
    d = K.newdir('k')
    try:
        K.write(os.path.join(d, 'main.idl'), text)
        rc, so, se = K.sh([_exes[1], 'main.idl', '-o', 'o.h', '--c'], timeout=limit, cwd=d)
        return what, rc, limit
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dispatch(j):
    _n[0] = j[2] if len(j) > 2 else 2
    return {'t': texts, 's': sets, 'f': flags}[j[0]](j[1])


_jobs = []


def take(i):
    return i, dispatch(_jobs[i][1])


def spaces(quick):
    def chunked(it, n):
        it = iter(it)
        while True:
            c = list(itertools.islice(it, n))
            if not c:
                return
            yield c
    for x in sizes(quick):
        yield 'sizes', ('s', x, 3)
    for nm, g in (('numerals', numerals), ('products', products), ('mutations', mutations), ('strings', strings)):
        for c in chunked(g(quick), 60):
            yield nm, ('t', c, 3 if not quick or nm in ('numerals', 'products') else 2)
    for c in chunked(flag_words(quick), 40):
        yield 'flags', ('f', c, 2 if quick else 3)


def run(chk):
    _exes[0] = K.build_idlc()
    _exes[1] = K.build_idlc(release=True)
    _exes[2] = K.build_idlc(profile='opt')
    jobs = list(spaces(chk.quick))
    per, done, reported = {}, 0, set()

    _jobs[:] = jobs
    for i, r in K.pprocmap(take, range(len(jobs)), 1):
        if chk.late():
            break
        nm = jobs[i][0]
        runs, acc, bad, n = r
        p = per.setdefault(nm, [0, 0, 0])
        p[0] += n
        p[1] += acc
        p[2] += runs
        chk.add(states=n, transitions=runs, traces_validated_against_impl=n)
        for what, v, files in bad:
            k = re.sub(r'\d+', '#', v)
            if k in reported and len(reported) > 3:
                continue
            reported.add(k)
            chk.violation(f'{what}: {v}', key=f'{what[:200]} {v[:100]}', files={f: t.decode('latin-1') for f, t in (files or {}).items()}, argv=None if files else what)
    doubling = ('struct S0 { uint8 a; };\n' + ''.join(f'struct S{i} {{ S{i - 1} a; S{i - 1} b; }};\n' for i in range(1, 41)) + 'interface I { method m(in S40 s); };\n').encode()
    chain = ('struct S0 { uint8 a; };\n' + ''.join(f'struct S{i} {{ S{i - 1} a; }};\n' for i in range(1, 6001)) + 'interface I { method m(in S6000 s); };\n').encode()
    for what, rc, limit in K.pmap(known, [('40 structs each holding the previous one twice', doubling, 6), ('6000 structs each holding the previous one', chain, 15)]):
        if rc == 'timeout':
            chk.violation(f'{what}: the release build does not end within {limit} s', key=what)
    chk.notes['spaces'] = {k: {'inputs': v[0], 'accepted': v[1], 'compiler_runs': v[2]} for k, v in per.items()}
    if sum(v[1] for v in per.values()) < 100 and not chk.nviol:
        raise K.CheckError('almost nothing is accepted')
    for nm, j in jobs[::max(1, len(jobs) // 10)]:
        x = j[1][0]
        chk.sample(f'{nm}: {x[0] if isinstance(x, tuple) else x}'[:300])
    return ('debug and release builds (and, on the numerals, products and sizes, in the thorough tier on everything, the opt profile) run on every input of: byte insertions, replacements, removals of every range, token doublings, moves and replacements of base programs; all words over the token '
            'alphabet up to length 3; boundary numerals in every position; array size products and sums around 2^16, 2^32, 2^64; growth in every direction of the grammar; all combinations of flags, '
            'inputs and outputs. Each run must end within 60 s, without a signal, and either exit 0 with output or exit non-zero with a diagnostic; decisions and bytes of both builds must be equal')


def replay(rec):
    _exes[0] = K.build_idlc()
    _exes[1] = K.build_idlc(release=True)
    _exes[2] = K.build_idlc(profile='opt')
    if rec.get('files'):
        d = K.newdir('r')
        K.write(os.path.join(d, 'l.idl'), LIB)
        front.put(d, {f: t.encode('latin-1') for f, t in rec['files'].items()})
        _n[0] = 3
        vs = [each(d, b)[0] for b in ALLB]
        print([v for v in vs if v])
        return int(any(vs))
    print(rec['what'])
    return 2
