"""C09 / C10: every program of a bounded space is judged by the model (mc/lang.py) and compiled by
the command-line driver with every backend and by the library entry point."""
import itertools
import os
import re
from .. import common as K
from .. import front, lang
from ..idl import *

MAIN = '''include "inc.idl"
include "sub/leaf.idl"
const uint8 CA = 255;
struct SA { uint32 a; uint32[3] b; SB c; };
interface IA : IB {
  const int16 KA = -32768;
  error EA;
  #[optional]
  method ma(in SA s, out uint8[] d, in buffer b, in IC o, out IA[2] q);
  method mb(in interface[3] a, out interface z);
};
struct SC { IA o; interface p; };
interface ID { method mz(out SC x); };
'''
INC = '''const float32 CB = 1.5;
struct SB { uint64 a; };
struct SU { int16 a; SV[3] b; };
struct SV { int8 a; int8 b; };
interface IB { error EB; const uint64 KB = 0xff; method mc(in SU[] s); };
interface IC : IE { method md(in uint16 p, in float64 v); };
interface IE { method me(); };
'''
LEAF = '''struct SL { uint8[4] a; };
interface IL { method ml(out SL s); error EL; };
'''
BIG = {'main.idl': MAIN, 'inc.idl': INC, 'sub/leaf.idl': LEAF}
SMALL = {'main.idl': 'include "i.idl"\ninterface A : B { const int8 K = -1; error E; method m(in S s, out B[2] o); };\nstruct S { uint16 a; B b; };\n'.replace('uint16 a;', 'uint64 a;'),
         'i.idl': 'interface B { method n(in uint8[] d, in interface x); };\n'}
SOLO = {'main.idl': 'struct T { uint8 a; uint8[3] b; };\nconst uint16 C = 65535;\ninterface J { #[optional] method p(in T t, out buffer b); };\ninterface L : J { error Q; method r(); };\n'}

PUNCT = ['{', '}', '};', ';', '(', ')', ');', ',', '[', ']', ':', '=', 'in', 'out', '"', '#[optional] ', '-', '.', '//', '/*']
WORDS = ['struct', 'interface', 'const', 'method', 'error', 'include', 'buffer', 'uint8', 'int8', 'uint16', 'uint64', 'float32', 'float64', 'uint128', 'bool', '_x', '1x', 'x_1', 'zz', 'Zz9_', 'é']
SIZES = ['0', '1', '2', '3', '4', '5', '7', '8', '15', '16', '17', '65535', '65536', '00', '01', '4294967296', '18446744073709551617', '-1', '0x2', '1.0']
VALUES = ['0', '-0', '-1', '1', '127', '128', '-128', '-129', '255', '256', '-32768', '-32769', '32767', '65535', '65536', '0xff', '0x100', '-0x80', '-0x81', '0xFFFFFFFFFFFFFFFF', '0x10000000000000000', '1.5', '-1.5', '0x', '1.', '.5', '--1', '+1', '1e5', '0X1', 'x', '1 0', '- 1', "'a'", '0xg', '1_0', '10000000000000000000000']


def tokens(text):
    p = lang.Parser(text)
    p.idl()
    return sorted(set(p.toks))


def vocabulary(files):
    ids = []
    for t in files.values():
        for a, b, k in tokens(t):
            if k in ('ident', 'type') and t[a:b] not in ids:
                ids.append(t[a:b])
    return ids


def ranges(text):
    """Half-open ranges of whole declarations, members, fields and parameters."""
    r = []
    for m in re.finditer(r'^(?:struct|interface|const|include).*?(?:;\n(?=[a-z])|"\n|\Z)', text, re.M | re.S):
        r.append((m.start(), m.end()))
    for m in re.finditer(r'(?:#\[optional\]\s+)?method [^;]*;|error \w+;|const [^;]*;', text):
        r.append((m.start(), m.end()))
    for m in re.finditer(r'(?:in|out) [\w\[\]]+ \w+', text):
        r.append((m.start(), m.end()))
    for m in re.finditer(r'[\w]+(?:\[\d+\])? \w+;', text):
        r.append((m.start(), m.end()))
    return sorted(set(r))


def edits(files, vocab=None, light=False):
    """Every single edit of a file set -> (description, files)"""
    vocab = vocab or vocabulary(files)
    rep = vocab + WORDS
    for f, t in files.items():
        tk = tokens(t)

        def put(a, b, x):
            return {**files, f: t[:a] + x + t[b:]}
        for n, (a, b, k) in enumerate(tk):
            old = t[a:b]
            if k in ('ident', 'type', 'prim'):
                for w in rep:
                    if w != old:
                        yield f'{f}: {k} {old}@{a} -> {w}', put(a, b, w)
            elif k == 'size':
                for w in SIZES:
                    if w != old:
                        yield f'{f}: size {old}@{a} -> {w}', put(a, b, w)
            elif k == 'value':
                for w in VALUES:
                    if w != old:
                        yield f'{f}: value {old}@{a} -> {w}', put(a, b, w)
            elif k == 'include':
                for w in ('include "nope.idl"\n', 'include "main.idl"\n', 'include "./main.idl"', 'include "sub/../main.idl"', 'include "../x.idl"', 'include ""', 'include "inc"', "include 'inc.idl'", 'include <inc.idl>', 'include "inc.idl";', 'include"inc.idl"', 'include "inc.idl" include "inc.idl"', 'include "inc.IDL"'):
                    yield f'{f}: include@{a} -> {w!r}', put(a, b, w)
            if not light:
                for w in PUNCT:
                    if w != old:
                        yield f'{f}: token {old!r}@{a} -> {w!r}', put(a, b, w)
                    yield f'{f}: insert {w!r} before {old!r}@{a}', put(a, a, ' ' + w + ' ')
                if k in ('type', 'prim'):
                    for w in ('[]', '[2]', '[1]', '[0]', '[16]', '[65536]', '[a]', '[ ]', '[2][2]'):
                        yield f'{f}: {w} after {old}@{a}', put(b, b, w)
            yield f'{f}: delete {old!r}@{a}', put(a, b, ' ')
            yield f'{f}: duplicate {old!r}@{a}', put(b, b, ' ' + old)
            if n + 1 < len(tk):
                c, d, _ = tk[n + 1]
                if c >= b:
                    yield f'{f}: swap {old!r} {t[c:d]!r}@{a}', put(a, d, t[c:d] + t[b:c] + old)
        rs = ranges(t)
        for a, b in rs:
            yield f'{f}: delete range {t[a:b]!r}', put(a, b, '')
            yield f'{f}: duplicate range {t[a:b]!r}', put(b, b, ('' if t[b - 1] in ';\n' else ', ') + t[a:b])
            for c, d in rs:
                if b <= c and t[a:b] != t[c:d]:
                    yield f'{f}: exchange {t[a:b]!r} {t[c:d]!r}', put(a, d, t[c:d] + t[b:c] + t[a:b])
                if (c, d) != (a, b) and c >= a and d <= b and not light:
                    yield f'{f}: replace {t[a:b]!r} by its part {t[c:d]!r}', put(a, b, t[c:d])
            for g in files:
                if g != f and (a == 0 or t[a - 1] == '\n') and t[b - 1] == '\n' and not t.startswith('include', a):
                    yield f'{f}: move {t[a:b]!r} to {g}', {**files, f: t[:a] + t[b:], g: files[g] + t[a:b]}
        for g in list(files) + ['nope.idl']:
            inc = 'include "%s"\n' % (g if '/' not in g or '/' not in f else '../' + g)
            yield f'{f}: add {inc!r}', {**files, f: inc + t}
            yield f'{f}: add {inc!r} at the end', {**files, f: t + inc}
        for tail in ('x', '}', ';', '\0', '/* open', '\ufeff', 'include "a.idl"\n', 'é', '"'):
            yield f'{f}: append {tail!r}', {**files, f: t + tail}
            yield f'{f}: prepend {tail!r}', {**files, f: tail + t}
        for n in (1, 2):
            yield f'{f}: cut the last {n} characters', {**files, f: t.rstrip()[:-n]}


# ------------------------------------------------------------------ families

def cycles():
    """Cycles of include, containment and inheritance of every length up to 5, closed at every
    point, spread over files in every way up to rotation; with valid declarations around."""
    pad = ['', 'struct P0 { uint8 a; };\ninterface P1 { method m(in P0 p); };\n']
    for n in range(1, 6):
        for back in range(n):
            for kind in ('struct', 'interface'):
                decl = {}
                for i in range(n):
                    j = i + 1 if i + 1 < n else back
                    decl[i] = f'struct C{i} {{ uint64 a; C{j} b; }};\n' if kind == 'struct' else f'interface C{i} : C{j} {{ method m{i}(); }};\n'
                for spread in range(3):
                    for p in pad:
                        for order in (1, -1):
                            ds = [decl[i] for i in range(n)][::order]
                            if spread == 0:
                                fs = {'main.idl': p + ''.join(ds) + p.replace('P', 'Q')}
                            elif spread == 1:   # all in an include nobody refers to
                                fs = {'main.idl': 'include "a.idl"\ninterface M { method x(); };\n', 'a.idl': p + ''.join(ds)}
                            else:
                                fs = {'main.idl': 'include "a.idl"\n' + p + ''.join(ds[::2]), 'a.idl': ''.join(ds[1::2])}
                            yield f'{kind} cycle n={n} back={back} spread={spread} order={order} pad={bool(p)}', fs
                        if kind == 'struct':   # through an array, and through a valid chain
                            yield f'struct array cycle n={n} back={back}', {'main.idl': p + ''.join(decl[i].replace(' b;', '[2] b;') for i in range(n))}
                            yield f'chain into a struct cycle n={n} back={back}', {'main.idl': p + 'struct H { G g; };\nstruct G { C0 c; };\n' + ''.join(decl.values())}
            fs = {}
            for i in range(n):
                j = i + 1 if i + 1 < n else back
                fs['main.idl' if i == 0 else f'f{i}.idl'] = 'include "%s"\ninterface F%d { method m(); };\n' % ('main.idl' if j == 0 else f'f{j}.idl', i)
            yield f'include cycle n={n} back={back}', fs
            for sp in ('./', 'd/../'):
                g = {k: v.replace('include "', 'include "' + sp) for k, v in fs.items()}
                g['d/x.idl'] = 'const uint8 Z = 1;\n'
                yield f'include cycle n={n} back={back} spelled {sp}', g
            g = dict(fs)
            g['side.idl'] = 'struct Z { uint8 a; };\n'
            g['main.idl'] = 'include "side.idl"\n' + g['main.idl']
            yield f'include cycle n={n} back={back} next to a valid include', g


def duplicates():
    """Every pair of equal names at every pair of positions: kinds of top-level names over files,
    members over an inheritance chain of three, parameters, fields."""
    top = {'const': 'const uint8 %s = 1;\n', 'struct': 'struct %s { uint8 a; };\n', 'interface': 'interface %s { method m(); };\n'}
    for a, b in itertools.product(top, top):
        for i, j in itertools.combinations(range(4), 2):
            ds = [top['const'] % 'O0', top['struct'] % 'O1', top['interface'] % 'O2', top['struct'] % 'O3']
            ds[i], ds[j] = top[a] % 'X', top[b] % 'X'
            yield f'top {a}/{b} at {i},{j}', {'main.idl': ''.join(ds)}
            yield f'top {a}/{b} at {i},{j} over files', {'main.idl': 'include "a.idl"\n' + ''.join(ds[:j]), 'a.idl': ''.join(ds[j:])}
            yield f'top {a}/{b} at {i},{j} in sibling includes', {'main.idl': 'include "a.idl"\ninclude "b.idl"\n' + top['const'] % 'O9', 'a.idl': ''.join(ds[:j]), 'b.idl': ''.join(ds[j:])}
            yield f'top {a}/{b} at {i},{j} nested includes', {'main.idl': 'include "a.idl"\n' + top['const'] % 'O9', 'a.idl': 'include "b.idl"\n' + ''.join(ds[:j]), 'b.idl': ''.join(ds[j:])}
    mem = {'method': 'method %s(in uint8 a);', 'const': 'const uint8 %s = 1;', 'error': 'error %s;'}
    for a, b in itertools.product(mem, mem):
        for i, j in itertools.combinations_with_replacement(range(3), 2):
            for side in (0, 1):
                body = [['method o%d();' % k, 'error E%d;' % k, 'const int8 K%d = 1;' % k] for k in range(3)]
                body[i].insert(0 if side else 2, mem[a] % 'X')
                body[j].append(mem[b] % 'X')
                ifs = ['interface I%d%s { %s };\n' % (k, ' : I%d' % (k - 1) if k else '', ' '.join(body[k])) for k in range(3)]
                for rev in (1, -1):
                    yield f'member {a}/{b} in I{i},I{j} side={side} rev={rev}', {'main.idl': ''.join(ifs[::rev])}
                yield f'member {a}/{b} in I{i},I{j} side={side} over files', {'main.idl': 'include "a.idl"\n' + ifs[2], 'a.idl': ifs[1] + ifs[0]}
                yield f'member {a}/{b} in I{i},I{j} side={side} in an unused include', {'main.idl': 'include "a.idl"\ninterface Z { method z(); };\n', 'a.idl': ''.join(ifs)}
    for n in range(2, 5):
        for i, j in itertools.combinations(range(n), 2):
            for dirs in itertools.product(('in', 'out'), repeat=2):
                ps = [f'{"in" if k % 2 else "out"} uint{8 << (k % 3)} p{k}' for k in range(n)]
                ps[i], ps[j] = f'{dirs[0]} uint8 x', f'{dirs[1]} buffer x'
                for pos in range(3):
                    ms = ['method a(in uint8 x);', 'method b(out uint8 x);']
                    ms.insert(pos, f'method m({", ".join(ps)});')
                    src = 'interface I { %s };\n' % ' '.join(ms)
                    yield f'parameters {i},{j} of {n} {dirs} at {pos}', {'main.idl': src}
                    yield f'parameters {i},{j} of {n} {dirs} at {pos} of a base', {'main.idl': 'interface D : I { };\n' + src}
                    yield f'parameters {i},{j} of {n} {dirs} at {pos} included', {'main.idl': 'include "a.idl"\ninterface Z : I { method z(); };\n', 'a.idl': src}
            fs = [f'uint8 f{k};' for k in range(n)]
            fs[i], fs[j] = 'uint8 x;', 'uint8 x;'
            s = 'struct D { %s };\n' % ' '.join(fs)
            yield f'fields {i},{j} of {n}', {'main.idl': s}
            yield f'fields {i},{j} of {n} unused include', {'main.idl': 'include "a.idl"\nstruct Z { uint8 a; };\n', 'a.idl': s}
            yield f'fields {i},{j} of {n} nested', {'main.idl': 'struct W { D d; };\n' + s + 'interface I { method m(in W w); };\n'}


PTYPES = ['uint8', 'float64', 'buffer', 'interface', 'IQ', 'SQ', 'SO', 'SN', 'uint8[]', 'buffer[]', 'interface[]', 'IQ[]', 'SQ[]', 'SO[]', 'SN[]',
          'uint8[1]', 'uint8[2]', 'buffer[2]', 'interface[1]', 'interface[2]', 'IQ[3]', 'SQ[1]', 'SQ[2]', 'SO[2]', 'SN[2]', 'Nope', 'Nope[]', 'Nope[2]', 'interface[0]', 'uint8[0]', 'IQ[65536]', 'IQ[15]', 'IQ[16]']
PDECL = 'struct SQ { uint8 a; };\nstruct SO { interface o; };\nstruct SN { SO[2] s; };\ninterface IQ { method q(); };\n'


def methods(quick):
    """Every word of up to two (thorough: three over a smaller alphabet) parameters over all type
    spellings; declared alone, inherited, included."""
    dirs = [(d, t) for t in PTYPES for d in ('in', 'out')]
    gens = [((x,) for x in dirs), itertools.product(dirs, repeat=2)]
    small = [(d, t) for t in ('uint8', 'IQ', 'interface[2]', 'IQ[3]', 'SN', 'Nope', 'SO[]') for d in ('in', 'out')]
    gens.append(itertools.product(small[:10] if quick else small, repeat=3))
    for n, w in enumerate(itertools.chain(*gens)):
        ps = ', '.join(f'{d} {t} p{i}' for i, (d, t) in enumerate(w))
        m = f'method m({ps});'
        k = n % 4
        if k == 0:
            fs = {'main.idl': PDECL + 'interface I { method a(); %s method b(in uint8 a); };\n' % m}
        elif k == 1:
            fs = {'main.idl': 'interface D : I { method z(); };\ninterface I { #[optional]\n%s };\n' % m + PDECL}
        elif k == 2:
            fs = {'main.idl': 'include "a.idl"\ninterface D : I { method z(); };\n', 'a.idl': 'include "b.idl"\ninterface I { %s };\n' % m, 'b.idl': PDECL}
        else:
            fs = {'main.idl': 'include "a.idl"\ninclude "b.idl"\ninterface D { method z(); };\n', 'a.idl': 'include "b.idl"\ninterface J { %s };\ninterface I : J { method k(); };\n' % m, 'b.idl': PDECL}
        yield f'method({ps}) context {k}', fs


FT = ['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'float64', 'interface', 'IQ', 'S2', 'S4', 'SO', 'Nope', 'buffer', 'uint8[2]', 'uint16[3]', 'uint32[2]', 'uint8[0]', 'uint8[65536]', 'uint8[65535]', 'S2[3]', 'SO[2]', 'interface[2]', 'uint8[]']
FDECL = 'struct S2 { uint8 a; uint8 b; };\nstruct S4 { uint32 a; };\nstruct SO { interface o; uint64 a; };\ninterface IQ { method q(); };\n'


def structs(quick):
    base = FT if not quick else FT[:17]
    gens = [itertools.product(FT, repeat=1), itertools.product(FT, repeat=2), itertools.product(base[:8] + FT[13:16], repeat=3)]
    if not quick:
        gens.append(itertools.product(['uint8', 'uint16', 'uint32', 'uint64', 'S2', 'SO'], repeat=4))
    for n, w in enumerate(itertools.chain(*gens)):
        s = 'struct X { %s };\n' % ' '.join(f'{t} f{i};' for i, t in enumerate(w))
        k = n % 4
        if k == 0:
            fs = {'main.idl': FDECL + s}
        elif k == 1:
            fs = {'main.idl': 'interface I { method m(in X x); };\n' + s + FDECL}
        elif k == 2:
            fs = {'main.idl': 'include "a.idl"\ninterface I { method m(in X x); };\n', 'a.idl': s + FDECL}
        else:
            fs = {'main.idl': 'include "a.idl"\nstruct Q { uint8 a; };\n', 'a.idl': FDECL + 'struct W { X[2] x; };\n' + s}
        yield f'struct {{{" ".join(w)}}} context {k}', fs


def attributes():
    for n in range(0, 4):
        for sep in ('\n', ' ', '\n  '):
            a = ''.join('#[optional]' + sep for _ in range(n))
            for ctx in range(3):
                m = f'{a}method m(in uint8 a);'
                t = 'interface I { method a(); %s method b(); };\n' % m
                fs = {'main.idl': t} if ctx == 0 else {'main.idl': 'interface D : I { };\n' + t} if ctx == 1 else {'main.idl': 'include "a.idl"\ninterface D { };\n', 'a.idl': t}
                yield f'{n} attributes sep={sep!r} ctx={ctx}', fs
    for a in ('#[Optional]', '#[ optional]', '#[optional ]', '#[]', '#[required]', '# [optional]', '#optional', '[optional]', '#[optional,optional]', '#[optional] error E; #[optional]', '#[optional]#[optional]'):
        yield f'attribute {a}', {'main.idl': 'interface I { %s\n method m(); };\n' % a}
    for t in ('#[optional]\nconst uint8 X = 1;\n', '#[optional]\nstruct S { uint8 a; };\n', 'struct S { #[optional] uint8 a; };\n', 'interface I { #[optional] error E; };\n', '#[optional]\ninterface I { };\n', 'interface I { method m(#[optional] in uint8 a); };\n'):
        yield f'attribute elsewhere {t!r}', {'main.idl': t}


def orders():
    """All orders of the declarations of a program, and all distributions over a chain of files."""
    ds = ['struct A { B b; IX o; };\n', 'struct B { uint64 a; };\n', 'interface IX : IY { method x(in A a, out IZ z); };\n', 'interface IY { method y(in B b); };\n', 'interface IZ { method z(in IX x); };\n']
    for p in itertools.permutations(range(5)):
        yield f'order {p}', {'main.idl': ''.join(ds[i] for i in p)}
    for a in itertools.product(range(3), repeat=5):
        fs = {'main.idl': 'include "a.idl"\n', 'a.idl': 'include "b.idl"\n', 'b.idl': ''}
        for i, f in enumerate(a):
            fs[('main.idl', 'a.idl', 'b.idl')[f]] += ds[i]
        yield f'placement {a}', fs
    for a in itertools.product(range(2), repeat=5):
        fs = {'main.idl': 'include "a.idl"\ninclude "d/b.idl"\n', 'a.idl': '', 'd/b.idl': ''}
        for i, f in enumerate(a):
            fs[('a.idl', 'd/b.idl')[f]] += ds[i]
        yield f'siblings {a}', fs


def shapes():
    """Degenerate but admitted texts."""
    for t in ('', '\n', '//', '// x', '/* */', '/**/', 'include "a.idl"', 'include "a.idl"\n// end', 'interface I { };', 'interface I { error E; };', 'interface I { const uint8 C = 1; };',
              'const uint8 A = 1;const uint8 B = 2;', 'interface I { method m(, in uint8 a); };', 'interface I{method m(in uint8 a,in uint8 b);};', 'interface I { method m(inuint8 a, outuint8 b); };',
              'struct S{uint8[1]a;};', 'struct S { uint8 [ 1 ] a ; };', 'interface  I  :  J  {  };interface J{};', '/**\n doc\n*/interface I { /**\n doc\n*/ error E; /**\n d */ };', 'const uint8X=1;'.replace('uint8X', 'uint8 X'),
              'const uint8X=1;', 'interface I { method uint8(in uint8 uint16); };', 'interface I { method in(in uint8 inx, out uint8 outx); };', 'interface method_ { method method_(in uint8 method); };',
              'struct structure { uint8 field; };', 'interface constant { const uint8 const_ = 1; error error_; };', 'struct S { uint8 a ;\r\n };', 'struct\tS\t{\tuint8\ta;\t};', 'struct S\r{ uint8 a; };', '\r\nstruct S { uint8 a; };\r\n',
              'interface I { ' + 'method m%s(); ' * 1 % 0 + '};', 'interface I { method ' + 'm' * 300 + '(); };', 'struct ' + 'S' * 200 + ' { uint8 ' + 'f' * 200 + '; };'):
        yield f'text {t!r}'[:80], {'main.idl': t, 'a.idl': 'const uint8 ZZ = 3;\n'}


def limits():
    """Both sides of every limit: arguments per class reached in every way, methods per interface,
    depths and breadths."""
    decl = 'struct SQ { uint64[3] a; };\nstruct SO { IQ o; interface[2] p; };\ninterface IQ { method q(); };\n'
    for d in ('in', 'out'):
        for n in (14, 15, 16, 17, 18, 31, 32, 255, 256, 257):
            for kind, ps in (('objects', [f'{d} IQ p{i}' for i in range(n)]), ('object array', [f'{d} interface[{n}] p']),
                             ('buffers', [f'{d} buffer p{i}' for i in range(n)]), ('arrays', [f'{d} uint8[] p{i}' for i in range(n)]),
                             ('big structs', [f'{d} SQ p{i}' for i in range(n)]),
                             ('primitives', [f'{d} uint8 p{i}' for i in range(n)]),
                             ('primitives and buffers', [f'{d} uint8 p{i}' for i in range(3)] + [f'{d} buffer b{i}' for i in range(n - 1)]),
                             ('one primitive and buffers', [f'{d} uint8 p'] + [f'{d} buffer b{i}' for i in range(n - 1)]),
                             ('object structs', [f'{d} SO p{i}' for i in range(n // 3)] + [f'{d} IQ q{i}' for i in range(n % 3)]),
                             ('both directions', [f'in buffer p{i}' for i in range(n)] + [f'out IQ q{i}' for i in range(n - 1)])):
                yield f'{n} {d} {kind}', {'main.idl': decl + 'interface I { method m(%s); };\n' % ', '.join(ps)}
    for n in (0x3fff, 0x4000, 0x4001):
        ms = ['method m%d();' % i for i in range(n)]
        for k in (n, n // 2) if n != 0x3fff else (1,):
            yield f'{n} methods, {k} in the base', {'main.idl': 'interface D : B { %s };\ninterface B { %s };\n' % (' '.join(ms[k:]), ' '.join(ms[:k]))}
    for n in (3, 30, 100):
        yield f'{n} levels of inheritance', {'main.idl': ''.join('interface I%d%s { method m%d(); error E%d; const uint8 K%d = 1; };\n' % (i, ' : I%d' % (i + 1) if i < n else '', i, i, i) for i in range(n + 1))}
        yield f'{n} levels of structs', {'main.idl': ''.join('struct T%d { %s a; };\n' % (i, 'T%d' % (i + 1) if i < n else 'uint8') for i in range(n + 1)) + 'interface I { method m(in T0 a, out T0 b); };\n'}
        yield f'{n} levels of includes', {('main.idl' if i == 0 else f'f{i}.idl'): ('include "f%d.idl"\n' % (i + 1) if i < n else '') + 'struct T%d { uint8 a; };\n' % i for i in range(n + 1)}
        yield f'{n} sibling includes', {'main.idl': ''.join('include "f%d.idl"\n' % i for i in range(n)), **{f'f{i}.idl': ('include "f%d.idl"\n' % (i + 1) if i + 1 < n else '') + 'const uint8 T%d = 1;\n' % i for i in range(n)}}
        yield f'{n} fields', {'main.idl': 'struct T { %s };\n' % ' '.join('uint16 f%d;' % i for i in range(n))}
        yield f'{n} of everything', {'main.idl': ''.join('struct S%d { uint32 a; };\nconst int64 C%d = -1;\ninterface I%d { method m(in S%d a, in I%d b); };\n' % (i, i, i, n - 1 - i, n - 1 - i) for i in range(n))}


def pairs(quick):
    """Every pair of edits of the smallest program (thorough)."""
    if quick:
        return
    base = {'main.idl': 'struct S { uint8 a; };\ninterface I { method m(in S s); };\n'}
    for d1, f1 in edits(base, light=True):
        try:
            for d2, f2 in edits(f1, light=True):
                yield d1 + ' + ' + d2, f2
        except lang.Syntax:
            continue


def trivia(quick):
    """white space, comments and documentation between any two tokens"""
    from . import trivia as T
    tr = T.TRIVIA if not quick else ['', '\t', '\r\n', '\r', '// c\n', '/**/', '/***/', '/* " } */', '/**\n * d\n */', '/*', '//', '/** ']
    for base in ((SOLO, T.TINY) if quick else (SOLO, SMALL, T.TINY, BIG)):
        for f, t in base.items():
            for g in T.gaps(t)[0]:
                for x in tr:
                    yield f'gap {f}:{g} becomes {x!r}', {**base, f: t[:g[0]] + x + t[g[1]:]}
                    yield f'{x!r} after {f}:{g[0]}', {**base, f: t[:g[0]] + x + t[g[0]:]}
    for x in T.DOCS:
        for k in range(3):
            yield f'documentation {x!r} {k}', {'main.idl': 'interface I {\n' + (x + ' method a();', f'method a();\n{x}\nmethod b(in uint8 c);', f'{x} error E; {x} {x} const uint8 K = 1; {x}')[k] + '\n};\n'}


def programs(quick):
    for n, b in (('BIG', BIG), ('SMALL', SMALL), ('SOLO', SOLO)):
        if lang.judge(b, 'main.idl').bad:
            raise K.CheckError(f'base {n} is not valid: {lang.judge(b, "main.idl").bad}')
    yield 'base BIG', BIG
    yield 'base SMALL', SMALL
    yield 'base SOLO', SOLO
    for g in (edits(BIG, light=quick), edits(SMALL), edits(SOLO), cycles(), duplicates(), methods(quick), structs(quick), attributes(), orders(), shapes(), limits(), trivia(quick), pairs(quick)):
        yield from g


# ------------------------------------------------------------------ running

ACCEPT_BACKS = ('c', 'cs', 'cu', 'cus', 'p', 'ps', 'r', 'j')
REJECT_BACKS = ('c', 'ps', 'r', 'j')
_exe = [None]


def _go(job):
    pid, name, files, n, quick = job
    v = lang.judge({os.path.normpath(k): t for k, t in files.items()}, 'main.idl')
    if (pid == 'C09') != bool(v.bad):
        return name, None, None
    if v.gray:
        return name, 'gray', None
    bad = []
    d = K.newdir('v')
    runs = 0
    try:
        front.put(d, files)
        if pid == 'C09':
            for b in REJECT_BACKS if quick else ACCEPT_BACKS:
                o = front.one(_exe[0], d, 'main.idl', b)
                runs += 1
                if o.rc == 0:
                    bad.append((b, 'accepted (exit 0)'))
            if lang.judge({os.path.normpath(k): t for k, t in files.items()}, 'main.idl', allow_ub=True).bad:
                b = REJECT_BACKS[n % 4]
                ex = [('--allow-undefined-behavior',), ('--allow-undefined-behavior', '--no-typed-objects')][b == 'c']
                o = front.one(_exe[0], d, 'main.idl', b, ex)
                runs += 1
                if o.rc == 0:
                    bad.append((b, f'accepted (exit 0) with {ex}'))
            k, r = front.Lib.mine().generate(os.path.join(d, 'main.idl'), (d,))
            runs += 1
            if k == 'OK':
                bad.append(('library', 'accepted'))
        else:
            for i, b in enumerate(ACCEPT_BACKS):
                if b == 'j' and v.java_gray:
                    continue
                ex = [(), ('--allow-undefined-behavior',), ('--marking', 'mark')][(n + i) % 3]
                if ex and ex[0] == '--marking':
                    K.write(os.path.join(d, 'mark'), 'Copyright X\n')
                o = front.one(_exe[0], d, 'main.idl', b, ex)
                runs += 1
                if o.rc != 0:
                    bad.append((b, f'refused (exit {o.rc}) with {ex}: {o.err.strip()[-300:]}'))
                elif not o.files and (b != 'r' or re.search(r'\b(const|struct|interface)\b', lang_text(files['main.idl']))):
                    bad.append((b, f'exit 0 without output'))
            k, r = front.Lib.mine().generate(os.path.join(d, 'main.idl'), (d,))
            runs += 1
            if k != 'OK':
                bad.append(('library', f'{k} {r[:300]}'))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return name, (v.bad or ['valid'])[0], (runs, bad)


def lang_text(t):
    """text without trivia"""
    p = lang.Parser(t)
    p.idl()
    return ' '.join(t[a:b] for a, b, _ in sorted(set(p.toks)))


def run(chk):
    _exe[0] = K.build_idlc()
    front.build_lib()
    seen, jobs = set(), []
    for name, files in programs(chk.quick):
        key = tuple(sorted(files.items()))
        if key in seen:
            continue
        seen.add(key)
        jobs.append((chk.pid, name, files, len(jobs), chk.quick))
    kinds, gray, judged = {}, 0, 0
    byname = {}
    def results():
        heavy = [j for j in jobs if sum(map(len, j[2].values())) > 100000]
        yield from K.pprocmap(_go, heavy)
        yield from K.pprocmap(_go, [j for j in jobs if sum(map(len, j[2].values())) <= 100000], 16)
    for name, what, res in results():
        if what is None:
            continue
        if what == 'gray':
            gray += 1
            continue
        judged += 1
        w = re.sub(r' [A-Za-z_]\w*( at.*)?$| of \S+ at \d+| @.*', '', what)
        kinds[w] = kinds.get(w, 0) + 1
        chk.add(transitions=res[0])
        if judged % 997 == 1:
            chk.sample(f'{name} -> {what}')
        if res[1]:
            byname[name] = (what, res[1])
            if len(byname) > 40:
                break
    for name, (what, bad) in byname.items():
        files = next(j[2] for j in jobs if j[1] == name)
        for b, how in bad:
            chk.violation(f'{name}: the program is {"invalid (" + what + ")" if chk.pid == "C09" else "valid"} but {b}: {how}',
                          key=f'{name} {b}', files=files, backend=b, model=what)
            break
    if judged < 50:
        raise K.CheckError('nothing explored')
    chk.add(states=judged, traces_validated_against_impl=judged)
    chk.notes['programs_enumerated'] = len(jobs)
    chk.notes['programs_neither_required_nor_forbidden'] = gray
    chk.notes['verdicts'] = dict(sorted(kinds.items(), key=lambda x: -x[1])[:40])
    return ('every single edit (token replaced by every name/type/size/literal/punctuation of the vocabulary, deleted, doubled, swapped; '
            'declarations, members, fields, parameters deleted, doubled, exchanged, moved between files; includes added) of three base file sets, '
            'all cycles up to length 5, all pairs of equal names, all methods of up to 2-3 parameters over every type spelling, all structs of up to 3-4 fields, '
            'all orders and placements of five declarations; the model judges each, every backend and the library entry must agree')


def replay(rec):
    exe = K.build_idlc()
    bad = 0
    d = K.newdir('v')
    front.put(d, rec['files'])
    for b in ACCEPT_BACKS:
        o = front.one(exe, d, 'main.idl', b)
        print(b, o.rc, o.err.strip()[-200:])
        if b == rec['backend']:
            bad |= (o.rc == 0) == (rec['property'] == 'C09')
    r = front.Lib.mine().generate(os.path.join(d, 'main.idl'), (d,))
    print('library', r)
    if rec['backend'] == 'library':
        bad |= (r[0] == 'OK') == (rec['property'] == 'C09')
    return int(bool(bad))
