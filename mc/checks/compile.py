"""C11: the generated files of every enumerated program, compiled together with conforming users by the
compilers of the four languages, with warnings as errors."""
import itertools
import os
import re
import shutil
from .. import common as K
from .. import front, glue, jrt, lang, sigs, units
from ..idl import *

# mode -> (backends to generate, compiler)
MODES = ('c.gcc', 'c.clang', 'cs.gcc', 'cs.clang', 'cu.gcc', 'cu.clang', 'cus.gcc', 'cus.clang',
         'p.g++', 'p.clang++', 'ps.g++', 'ps.clang++', 'pn.g++', 'psn.g++', 'r.rustc', 'j.javac')
LANGUAGE = {'c': 'C', 'cs': 'C', 'cu': 'C', 'cus': 'C', 'p': 'C++', 'ps': 'C++', 'pn': 'C++', 'psn': 'C++', 'r': 'Rust', 'j': 'Java'}
CF = ['-O0', '-Wall', '-Wextra', '-Wno-unused-parameter', '-Werror']
CXF = CF + ['-Wno-missing-field-initializers']


# with one compiler each
FEW = ('c.gcc', 'cs.clang', 'cu.clang', 'cus.gcc', 'p.g++', 'ps.clang++', 'psn.g++', 'r.rustc', 'j.javac')

# where the outputs go: stubs beside skeletons
TREE = {'c': 'c', 'cs': 'c', 'cu': 'cu', 'cus': 'cu', 'p': 'p', 'ps': 'p', 'r': 'r', 'j': 'j'}


class Reject(Exception):
    pass


def objects_in_structs(prog):
    return any(prog.has_objects(S(s)) for s in prog.structs)


def generate(texts, d, back, exe, extra=()):
    """Output of one backend for every file of the set, in a tree of the same shape."""
    flags, isdir = front.BACK[back]
    tree = TREE[back]
    os.makedirs(os.path.join(d, tree), exist_ok=True)
    for f in texts:
        root = os.path.splitext(f)[0]
        o = tree if isdir else os.path.join(tree, root + {'c': '.h', 'cu': '.h', 'cs': '_invoke.h', 'cus': '_invoke.h', 'p': '.hpp', 'ps': '_invoke.hpp'}[back])
        os.makedirs(os.path.join(d, os.path.dirname(o)), exist_ok=True)
        rc, so, se = K.sh([exe, f, '-o', os.path.join('..', o), *flags, *extra], timeout=60, cwd=os.path.join(d, 'idl'))
        if rc != 0:
            raise Reject(f'{back} {f}: {se.strip()[-300:]}')


def headers(prog, suffix, order):
    hs = [os.path.splitext(f)[0] + suffix for f in prog.files]
    # a header brings those of the included files, but a skeleton's only their stubs
    return {0: hs[:1] if reaches_all(prog) and '_invoke' not in suffix else hs, 1: hs[1:] + hs[:1], 2: hs[::-1] * 2}[order]


def reaches_all(prog):
    return getattr(prog, 'closed', False)


def command(prog, d, mode, order):
    """Writes the user's translation unit of a mode; returns the compiler command."""
    back, cc = mode.split('.')
    rt = K.runtime()
    if back in ('c', 'cu', 'cs', 'cus'):
        typed, skel = back in ('c', 'cs'), back.endswith('s')
        hs = headers(prog, '_invoke.h' if skel else '.h', order)
        if skel and order == 2:
            hs += headers(prog, '.h', order)
        src = f'user_{back}_{order}.c'
        K.write(os.path.join(d, src), (units.c_skel if skel else units.c_stub)(prog, typed, hs))
        return [cc, *CF, '-I', 'c' if typed else 'cu', '-I', rt['c'], '-c', src, '-o', f'{mode}.{order}.o']
    if back in ('p', 'ps', 'pn', 'psn'):
        ns = 'cpp' if back.endswith('n') else None
        skel = back.startswith('ps')
        hs = headers(prog, '_invoke.hpp' if skel else '.hpp', order)
        if skel and order == 2:
            hs += headers(prog, '.hpp', order)
        src = f'user_{back}_{order}.cpp'
        K.write(os.path.join(d, src), (units.cpp_skel if skel else units.cpp_stub)(prog, hs, ns))
        return [cc, *CXF, '-I', 'p', '-I', rt['c'], '-I', rt['cpp'], '-c', src, '-o', f'{mode}.{order}.o']
    if back == 'r':
        mods = sorted((f[:-3], os.path.join(d, 'r', f)) for f in os.listdir(os.path.join(d, 'r')))
        K.write(os.path.join(d, 'lib.rs'), units.rs_unit(prog, mods, rt['rust']))
        return ['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'quser', '--cfg', 'feature="std"', '-C', 'debuginfo=0',
                '--emit', 'metadata', 'lib.rs', '-o', 'libquser.rmeta']
    for f, t in units.java_unit(prog).items():
        K.write(os.path.join(d, f), t)
    os.makedirs(os.path.join(d, 'classes'), exist_ok=True)
    return ['javac', '-Werror', '-encoding', 'UTF-8', '-proc:none', '-cp', jrt.runtime_classes(), '-d', os.path.join(d, 'classes'),
            *sorted(os.path.join(d, 'j', f) for f in os.listdir(os.path.join(d, 'j')) if f.endswith('.java')), os.path.join(d, 'user/Quser.java')]


def needs(mode):
    back = mode.split('.')[0]
    return {'c': 'c', 'cu': 'cu', 'cs': ('c', 'cs'), 'cus': ('cu', 'cus'), 'p': 'p', 'pn': 'p', 'ps': ('p', 'ps'), 'psn': ('p', 'ps'), 'r': 'r', 'j': 'j'}[back]


def compile_set(prog, modes, exe, orders=None, extra=()):
    """-> ({mode: diagnostics} of those which fail, number of compilations); raises Reject."""
    d = K.newdir('u')
    bad, n = {}, 0
    try:
        texts = prog.raw if hasattr(prog, 'raw') else prog.texts()
        for f, t in texts.items():
            K.write(os.path.join(d, 'idl', f), t)
        if objects_in_structs(prog):
            modes = [m for m in modes if m != 'j.javac']
        backs = []
        for m in modes:
            nb = needs(m)
            backs += [b for b in ((nb,) if isinstance(nb, str) else nb) if b not in backs]
        for b in backs:
            generate(texts, d, b, exe, extra)
        for m in modes:
            clang = 'clang' in m
            for order in (orders if orders and m[0] in 'cp' else (2 if clang else 0,)):
                cmd = command(prog, d, m, order)
                rc, so, se = K.sh(cmd, timeout=600, cwd=d) if cmd[0] != 'javac' else (lambda r: (r[0], r[1], ''))(jrt.compile_java(cmd[1:]))
                n += 1
                if rc != 0:
                    bad[m] = diag(se or so)
                    break
        return bad, n
    finally:
        shutil.rmtree(d, ignore_errors=True)


def diag(se):
    ls = se.splitlines()
    for i, l in enumerate(ls):
        if re.search(r'\b(error|warning)\b', l):
            return '\n'.join(ls[i:i + 8])[:1200]
    return se[-1200:]


# ------------------------------------------------------------------ builders of programs from items

class Space:
    """A set of items (label, data); build(list of data) makes one program of several items."""

    def __init__(self, name, build, items, batch=40, orders=None, modes=MODES, extra=(), clash=None):
        self.name, self.build, self.items, self.batch, self.orders, self.modes, self.extra = name, build, items, batch, orders, modes, extra
        self.clash = clash

    def batches(self, known):
        """-> (items, modes): items with known findings are compiled alone for the languages of those"""
        groups = {}
        for it in self.items:
            ls = frozenset(known(it[0]))
            groups.setdefault(ls, []).append(it)
            if ls:
                yield [it], [m for m in self.modes if LANGUAGE[m.split('.')[0]] in ls]
        for ls, its in groups.items():
            modes = [m for m in self.modes if LANGUAGE[m.split('.')[0]] not in ls]
            cur, keys = [], set()
            for it in its:
                ks = set(self.clash(it[1])) if self.clash else set()
                if cur and (len(cur) >= self.batch or ks & keys):
                    yield cur, modes
                    cur, keys = [], set()
                cur.append(it)
                keys |= ks
            if cur and modes:
                yield cur, modes


def b_methods(ms):
    h = len(ms) // 2
    ms = [replace_name(m, f'm{i}') for i, m in enumerate(ms)]
    p = Program({'main.idl': [Include('types.idl'), Iface('IT', 'IRoot', tuple(ms[h:]))],
                 'types.idl': TYPES + [Iface('IRoot', None, tuple(ms[:h]))]})
    p.closed = True
    return p


def replace_name(m, n):
    return Method(n, m.params, m.optional, m.doc)


JTYPES = [t for t in sigs.TYPES if not t.name.startswith('O')]
TYPES = list(sigs.TYPES) + [sigs.IOBJ]


def b_jmethods(ms):
    """as b_methods, without objects in structs"""
    h = len(ms) // 2
    ms = [replace_name(m, f'm{i}') for i, m in enumerate(ms)]
    p = Program({'main.idl': [Include('types.idl'), Iface('IT', 'IRoot', tuple(ms[h:]))],
                 'types.idl': JTYPES + [sigs.IOBJ, Iface('IRoot', None, tuple(ms[:h]))]})
    p.closed = True
    return p


def b_members(mss):
    """every item is the member list of an interface of its own, which has an empty descendant"""
    ds, es = [], []
    for i, ms in enumerate(mss):
        ds.append(Iface(f'QB{i}', None, tuple(ms)))
        es.append(Iface(f'QD{i}', f'QB{i}', (Method('last'),)))
        B, D = O(f'QB{i}'), O(f'QD{i}')
        es.append(Iface(f'QU{i}', None, (Method('quse', (Param('in', B, None, 'q1'), Param('out', B, None, 'q2'), Param('in', D, None, 'q3'), Param('out', D, None, 'q4'))),
                                         Method('qusearr', (Param('in', B, 2, 'q1'), Param('out', D, 2, 'q2'))))))
    p = Program({'main.idl': [Include('types.idl')] + es, 'types.idl': JTYPES + [sigs.IOBJ] + ds})
    p.closed = True
    return p


def b_decls(items):
    """every item is (declarations of the main file, declarations of an included one)"""
    p = Program({'main.idl': [Include('lib.idl')] + [d for a, _ in items for d in a],
                 'lib.idl': [d for _, b in items for d in b]})
    p.closed = True
    return p


def b_files(items):
    assert len(items) == 1
    files, closed = items[0]
    p = Program(files)
    p.closed = closed
    return p


def b_raw(items):
    """text given; the model is parsed from it"""
    assert len(items) == 1
    p = parsed(items[0])
    p.raw = items[0]
    return p


def parsed(texts):
    raw = {f: lang.parse(t) for f, t in texts.items()}
    structs = {d.name for ds in raw.values() for d in ds if isinstance(d, Struct)}
    files = {}
    for f, ds in raw.items():
        files[f] = out = []
        for d in ds:
            if isinstance(d, tuple):
                _, name, base, members = d
                out.append(Iface(name, base, tuple(Method(m[1], tuple(Param(p[0], lang.rt(p[1], structs), p[2], p[3]) for p in m[2]), bool(m[3])) if isinstance(m, tuple) else m for m in members)))
            elif isinstance(d, Struct):
                out.append(Struct(d.name, tuple((n, lang.rt(t, structs), c) for n, t, c in d.fields)))
            else:
                out.append(d)
    p = Program(files)
    p.closed = True
    return p


# ------------------------------------------------------------------ the names generated code uses

KINDS = [('in', P('uint32'), None), ('out', P('uint64'), None), ('in', P('uint16'), 0), ('out', P('uint16'), 0), ('in', BUF, None), ('out', BUF, None),
         ('in', S('S8'), None), ('out', S('S8'), None), ('in', S('B24'), None), ('out', S('B24'), None), ('in', S('S12'), 0), ('out', S('S12'), 0),
         ('in', O('IObj'), None), ('out', O('IObj'), None), ('in', O(), None), ('out', O(), None)]
KOARR = [('in', O('IObj'), 2), ('out', O('IObj'), 2), ('in', O(), 3), ('out', O(), 3)]
KOST = [('in', S('OB2'), None), ('out', S('OB2'), None)]


def kname(k):
    return k[0] + ' ' + tname(k[1]) + ('' if k[2] is None else f'[{k[2] or ""}]')


REF = '''include "zlib.idl"
const uint32 ZCONST = 1;
struct ZStruct { uint32 zfielda; uint32[3] zfieldb; ZInner zfieldc; };
interface ZIface : ZBase {
  const int32 ZMEMBER = -4;
  error ZERROR;
  method zmetha(in uint32 za, in uint64 zb, out uint8 zc, out uint16 zd, in buffer ze, out buffer zf, in ZStruct zg, out ZStruct zh, in uint16[] zi, out uint32[] zj);
  method zmethb(in ZIface zk, in interface zl, out ZIface zm, out interface zn, in ZStruct[] zo, out ZStruct[] zp, in ZInner zq, out ZInner zr, in ZInner zs);
  method zmethc(in ZIface[2] zt, out ZIface[3] zu);
  #[optional]
  method zmethd(in interface[2] zv, out interface[3] zw);
  method zmethe(in ZInner zg, in ZInner zh, out ZInner zi, out ZInner zj);
%s};
'''
REFO = '  method zmethf(in ZObjs zg, out ZObjs zh, in ZObjs zi, out ZObjs zj, in interface zk, out interface zl);\n  method zmethg(in ZObjs zg, out ZObjs zh);\n'
REFLIB = 'struct ZInner { uint16 zx; uint16[3] zy; };\ninterface ZBase { error ZBERROR; const float64 ZBMEMBER = 1.5; method zbm(in ZInner zp, out ZInner zq); };\n'
REFOLIB = 'struct ZObjs { ZIn zin; interface[2] zobj; ZIn[2] zobjs; };\nstruct ZIn { interface zobja; };\n'


def identifiers(exe):
    """identifiers of the output of every backend on a program which uses every construct"""
    out = {}
    for b in front.BACK:
        obj = b != 'j'
        files = {'zmain.idl': REF % (REFO if obj else ''), 'zlib.idl': REFLIB + (REFOLIB if obj else '')}
        r = {}
        for main in files:
            o = front.run_set(exe, files, main, [b])[b]
            if o.rc != 0:
                raise K.CheckError(f'reference program refused: {o.err[-500:]}')
            r.update({main + f: t for f, t in o.files.items()})
        for t in r.values():
            t = re.sub(rb'/\*.*?\*/|//[^\n]*|"[^"\n]*"', b' ', t, flags=re.S).decode()
            for w in re.findall(r'[A-Za-z_]\w*', t):
                if not re.search(r'(?i)z(const|struct|field|inner|iface|base|member|error|meth|berr|bmem|bm|objs?|in|main|lib|[a-w])\b|z[a-w]_|_z[a-w]\b|z(iface|base|inner|objs|struct)', w):
                    out.setdefault(w, set()).add(b[0])
                else:
                    # what generated code puts around the user's names
                    for pre, suf in re.findall(r'^(.*?)z[a-z]+(_[A-Za-z_]\w*|)$', w):
                        for x in (pre, suf):
                            if x.strip('_'):
                                out.setdefault(x, set()).add(b[0])
    return {w: bs for w, bs in out.items() if w not in lang.RESERVED and w not in IDLWORDS and re.fullmatch(r'[A-Za-z_]\w*', w)}


IDLWORDS = set('include struct interface const error method in out buffer uint8 uint16 uint32 uint64 int8 int16 int32 int64 float32 float64'.split())
COMMON = ['x', 'X', 'i', 'n', 'op', 'k', 'h', 'ctx', 'context', 'me', 'obj', 'self_', 'this_', 'a', 'args', 'data', 'size', 'len', 'ptr', 'val', 'ref_', 'result', 'ret', 'bi', 'bo', 'oi',
          'oo', 'buffer_', 'tmp', 'val_', 'value', 'input', 'output', 'invoke', 'retain', 'release', 'get', 'extract', 'consume', 'Error', 'error_', 'Ok', 'Some', 'None_', 'Self_', 'T', 'U',
          'e', 'o', 'r', 'c', 'b', 's', 'u8', 'i32', 'usize', 'ARGS', 'OP', 'Box_', 'id', 'name', 'type_', 'cnt', 'count', 'new_', 'make', 'from', 'into', 'drop', 'clone', 'p0', 'eq', 'hash', 'equals', 'toString', 'getClass', 'notify', 'wait', 'close', 'v', 'w',
          'std', 'core', 'crate_', 'result_', 'err', 'status', 'ptr_', 'len_', 'out_', 'in_', 'bundle', 'toString_', 'x1', 'x_', 'x__']


JAVALANG = set('Object String Integer Long Byte Character Float Double Math Override Exception Error System Thread Class Iterable Void Number Short Boolean Record Process Package'.split())
# types and macros of the runtimes the generated code is written against: they are not the program's to declare
RUNTIME = re.compile(r'^(Object\w*|ImplBase|ProxyBase|IMinkObject|JMinkObject|MinkProxy|ByteBuffer|ByteOrder|InvokeException|NULL|u?int\d+_t|U?INT\d+_C|size_t|__\w+|std|define|ifdef|endif|pragma|main|object|'
                     r'Box|Option|Some|None|Ok|Err|Result|Clone|Copy|Send|Sync|From|Into|Drop|Debug|Eq|PartialEq|FnMut|AsRef|Deref|u8|u16|u32|u64|i8|i16|i32|i64|f32|f64|usize|core|java|com|r)$')

# what the C headers and the Rust prelude give meaning to wherever it stands
ENV = re.compile(r'^(NULL|Object|Object[A-Z_]\w*|ProxyBase|ImplBase|u?int\d+_t|U?INT\d+_C|size_t|define|Err|None|Ok|Some)$')


def token_names(exe):
    t = identifiers(exe)
    r = [w for w in sorted(t) if not re.search('(?i)^(OP_)?z[a-z]+[a-z]$', w) or w.lower() == 'zeroed']
    return [n for n in r if n[0] != '_'] + [c for c in COMMON if c not in t and c not in lang.RESERVED and c[0] != '_']


def space_methods(quick):
    ws = list(sigs.valid_words(quick))
    # singles and pairs first, then longer ones (every signature once)
    yield Space('signatures', b_methods, [('method' + sigs.wtext(w), sigs.mk('m', w, i % 3 == 2)) for i, w in enumerate(ws)], 60, modes=[m for m in MODES if m != 'j.javac'])
    from . import javawire
    js = list(javawire.valid_words(quick))
    yield Space('signatures', b_jw, [('method' + sigs.wtext(w), w) for w in js], 20, modes=('j.javac',))


def b_jw(ws):
    from . import javawire
    p = javawire.program(ws, len(ws) % 3)
    p.closed = True
    return p


def flat(build):
    """items which are lists of methods each"""
    return lambda its: build([m for ms in its for m in ms])


CLASSES = {'prim': KINDS[0:1], 'out prim': KINDS[1:2], 'array': [KINDS[2], KINDS[4], KINDS[10]], 'out array': [KINDS[3], KINDS[5], KINDS[11]], 'struct': [KINDS[6], KINDS[8]],
           'out struct': [KINDS[7], KINDS[9]], 'object': [KINDS[12], KINDS[14]], 'out object': [KINDS[13], KINDS[15]], 'object array': [KOARR[0], KOARR[2]], 'out object array': [KOARR[1], KOARR[3]]}


def space_params(exe, quick):
    ns = [n for n in token_names(exe) if not ENV.match(n)]
    items, oitems = [], []
    for n in ns:
        ms = []
        for k in KINDS + KOARR:
            # alone, and beside parameters of every class so that all locals of that direction exist
            others = [Param('in', P('uint32'), None, 'q1'), Param('in', P('uint16'), None, 'q2'), Param('out', P('uint32'), None, 'q3'), Param('out', P('uint64'), None, 'q4'),
                      Param('in', BUF, None, 'q5'), Param('out', P('uint32'), 0, 'q6'), Param('in', S('B24'), None, 'q7'), Param('out', S('B24'), None, 'q8')]
            if k[1][0] != 'o' or k[2] is None:
                others += [Param('in', O('IObj'), None, 'q9'), Param('out', O(), None, 'q10')]
            ms.append(Method('m', tuple(others[:5] + [Param(*k, n)] + others[5:]), len(ms) % 2 == 1))
        items.append((f'parameters named {n}', ms))
        ms = []
        for k in KOST + ([('in', O('IObj'), None), ('out', O('IObj'), None)]):
            others = [Param('in', S('OB2'), None, 'q1'), Param('out', S('OB2'), None, 'q2'), Param('in', S('OB3'), None, 'q3'), Param('out', O('IObj'), None, 'q4')]
            ms.append(Method('m', tuple(others[:2] + [Param(*k, n)] + others[2:])))
        oitems.append((f'parameters named {n} beside objects in structs', ms))
    yield Space('parameter names', flat(b_jmethods), items, 3, modes=FEW if quick else MODES)
    yield Space('parameter names beside objects in structs', flat(b_methods), oitems, 15, modes=FEW if quick else MODES)
    # two parameters, one named as what is made of the other
    pairs = []
    tp = Program({'t': TYPES})
    for c, ks in CLASSES.items():
        for suf in ('_val', '_ptr', '_len', '_lenout', '_ref', '_', '_of_val'):
            for c2, ks2 in CLASSES.items():
                ms = []
                for k, k2 in itertools.product(ks, ks2):
                    o = (Param(*k, 'q1'), Param(*k2, 'q1' + suf))
                    ms += [m for m in (Method('m', o), Method('m', o[::-1], True)) if tp.method_ok(m)]
                if ms:
                    pairs.append((f'{c} q1 beside {c2} q1{suf}', ms))
    yield Space('pairs of parameter names', flat(b_jmethods), pairs, 12, modes=FEW if quick else MODES)
    # equal to names of the program itself
    own = ['IT', 'IRoot', 'IObj', 'S8', 'B24', 'm0', 'm1', 'main', 'types', 'IIT', 'IIObj', 'ITImplBase', 'IT_m0', 'it', 'iobj', 's8', 'OP_m0', 'IT_OP_m0']
    items = []
    for n in own:
        ms = []
        for k in KINDS + KOARR:
            for first in (0, 1):
                rest = (() if k[1][0] == 'o' and k[2] else (Param('in', O('IObj'), None, 'q1'), Param('out', O('IObj'), None, 'q4'))) + (Param('in', S('S8'), None, 'q2'), Param('out', S('B24'), None, 'q3'))
                ms.append(Method('m', (Param(*k, n),) + rest if first else rest + (Param(*k, n),)))
        items.append((f'parameters named {n} as a declaration', ms))
    yield Space('parameters named like declarations', flat(b_jmethods), items, 1, modes=FEW if quick else MODES)
    items = []
    for n in ('KON', 'Kon', 'kon'):
        ps = [Method(f'm{i}', (Param(*k, n), Param('in', P('uint32'), None, 'q1'), Param('out', P('uint32'), 0, 'q2'))) for i, k in enumerate(KINDS + KOARR)]
        for what, d in (('constant', Const('uint32', n, '5')), ('error', Error(n)), ('method', Method(n, (Param('in', P('uint32'), None, 'q1'),)))):
            items.append((f'parameters named {n} as a {what} of the interface', {'main.idl': [Include('types.idl'), Iface('QI', None, (d, *ps))], 'types.idl': JTYPES + [sigs.IOBJ]}))
            items.append((f'parameters named {n} as a {what} of the base', {'main.idl': [Include('types.idl'), Iface('QI', 'QB', tuple(ps))], 'types.idl': JTYPES + [sigs.IOBJ, Iface('QB', None, (d,))]}))
            items.append((f'parameters named {n} as a {what} of a descendant', {'main.idl': [Include('types.idl'), Iface('QI', 'QB', (d,))], 'types.idl': JTYPES + [sigs.IOBJ, Iface('QB', None, tuple(ps))]}))
        for f, g in (('the file', 'main.idl'), ('an included file', 'types.idl')):
            fs = {'main.idl': [Include('types.idl'), Iface('QI', None, tuple(ps))], 'types.idl': JTYPES + [sigs.IOBJ]}
            fs[g] = fs[g][:1] + [Const('uint32', n, '5')] + fs[g][1:]
            items.append((f'parameters named {n} as a constant of {f}', fs))
    yield Space('parameters named like constants, errors, methods', b_files, [(l, (f, True)) for l, f in items], 1, modes=('c.gcc', 'cs.gcc', 'cus.clang', 'p.g++', 'ps.g++', 'r.rustc', 'j.javac'))


def space_members(exe, quick):
    ns = [n for n in token_names(exe) if not ENV.match(n)] + ['IObj', 'S8', 'types']
    body = (Param('in', P('uint32'), None, 'q1'), Param('in', O('IObj'), None, 'q2'), Param('out', P('uint32'), 0, 'q3'), Param('out', S('S8'), None, 'q4'))
    items = []
    for n in ns:
        items.append((f'method named {n}', [Method('first', body), Method(n, body), Method('second', (Param('in', P('uint8'), None, 'q1'),), True)]))
        items.append((f'optional method named {n}', [Method('first', body), Method(n, body, True), Method('second', ())]))
        items.append((f'member constant named {n}', [Method('first', body), Const('int32', n, '-5'), Method('second', ())]))
        items.append((f'error named {n}', [Method('first', body), Error(n), Method('second', ())]))
    yield Space('member names', b_members, items, 40, modes=FEW if quick else MODES)
    items = []
    for n in ('QB0', 'IQB0', 'QD0', 'IQD0', 'QB0ImplBase', 'qb0', 'QU0'):
        for w, m in (('method', Method(n, body)), ('optional method', Method(n, body, True)), ('constant', Const('int32', n, '-5')), ('error', Error(n))):
            items.append((f'{w} named {n} in QB0, base of QD0', [Method('first', body), m, Method('second', ())]))
    yield Space('members named like their interface', b_members, items, 1, modes=FEW if quick else MODES)
    # one name in several roles of an interface
    mk = {'m': lambda n: Method(n, body), 'k': lambda n: Const('uint16', n, '7'), 'e': lambda n: Error(n)}
    roles = []
    for n in ('foo',):
        for n2 in ('foo', 'FOO', 'OP_foo', 'foo_'):
            for a, b in itertools.product('mke', repeat=2):
                roles.append((f'{a} {n} and {b} {n2} in one interface', [Method('first', body), mk[a](n), mk[b](n2)]))
    yield Space('one name, several roles', b_members, [r for r in roles if ok_members(r[1])], 40, modes=FEW if quick else MODES)


def ok_members(ms):
    seen = set()
    for m in ms:
        k = (isinstance(m, Method), m.name)
        if k in seen or (not k[0] and (False, m.name) in seen):
            return False
        seen.add(k)
    return True


def space_decls(exe, quick):
    ns = [n for n in token_names(exe) + ['IObj2', 'Iface'] if not RUNTIME.match(n) and n not in JAVALANG]
    met = lambda i, t: Iface(f'QI{i}', None, (Method('qmeth', (Param('in', t, None, 'q1'), Param('out', t, None, 'q2'))), Method('qarr', (Param('in', t, 0, 'q1'), Param('out', t, 0, 'q2'))) if t[0] != 'o' else Method('qarr', (Param('in', t, 2, 'q1'), Param('out', t, 2, 'q2')))))
    items, fields = [], []
    for i, n in enumerate(ns):
        items.append((f'interface named {n}', ([Iface(f'QE{i}', n, (Method('own', ()),)), met(i, O(n))], [Iface(n, None, (Const('uint8', 'KA', '1'), Error('EA'), Method('ma', (Param('in', P('uint8'), None, 'q1'),)), Method('mb', (), True)))])))
        items.append((f'struct named {n}', ([met(f'S{i}', S(n)), Struct(f'QW{i}', (('qw', S(n), 2),))], [Struct(n, (('x', P('uint32'), 1), ('y', P('uint32'), 1)))])))
    yield Space('declaration names', b_decls, items, 30, modes=FEW if quick else MODES, clash=lambda d: [x.name.lower() for y in d for x in y])
    # constants of a file, beside methods of every kind
    ms = [Method(f'qm{i}', (Param(*k, 'q1'), Param('in', P('uint8'), None, 'q2'), Param('out', P('uint32'), 0, 'q3')), i % 2 == 1) for i, k in enumerate(KINDS + KOARR)]

    def b_consts(names):
        half = len(names) // 2
        p = Program({'main.idl': [Include('types.idl')] + [Const('uint32', n, str(i)) for i, n in enumerate(names[half:])] + [Iface('QD', 'QI', tuple(replace_name(m, 'qd' + m.name) for m in ms))],
                     'types.idl': [Const('uint32', n, str(i)) for i, n in enumerate(names[:half])] +
                                  [Struct(t.name, tuple(('q' + f, ft, c) for f, ft, c in t.fields)) for t in JTYPES if isinstance(t, Struct)] + [sigs.IOBJ, Iface('QI', None, tuple(ms))]})
        p.closed = True
        return p
    yield Space('constant names', b_consts, [(f'constant named {n}', n) for n in ns], 60, modes=FEW if quick else MODES, clash=lambda n: [n.upper()])
    for i, n in enumerate(n for n in token_names(exe) if not ENV.match(n)):
        fields.append((f'field named {n}', ([met(i, S(f'QS{i}'))], [Struct(f'QS{i}', ((n, P('uint32'), 1), ('q2', P('uint16'), 2), ('q3', S(f'QN{i}'), 1))), Struct(f'QN{i}', ((n, P('uint16'), 4),))])))
        fields.append((f'object field named {n}', ([Iface(f'QX{i}', None, (Method('m', (Param('in', S(f'QO{i}'), None, 'q1'), Param('out', S(f'QO{i}'), None, 'q2'))),)), Iface(f'QJ{i}', None, ())],
                                                  [Iface(f'QK{i}', None, ()), Struct(f'QO{i}', ((n, O(f'QK{i}'), 1), ('q2', P('uint16'), 8), ('q3', S(f'QM{i}'), 1))), Struct(f'QM{i}', ((n, O(), 2),))])))
    yield Space('field names', b_decls, fields, 30, modes=FEW if quick else MODES)
    # names put together from the names of two declarations
    pl = lambda *m: tuple(m)
    K1, M1, E1 = Const('uint8', 'B', '1'), Method('B', ()), Error('B')
    cross = []
    for sep in ('_', '_OP_', '', '_B', 'I'):
        for mem in (K1, M1, E1):
            for top in ('const', 'struct', 'iface', 'kiface'):
                for nm in ({'_': 'A_B', '_OP_': 'A_OP_B', '': 'AB', '_B': 'A_B_B', 'I': 'IA'}[sep],):
                    d = {'const': Const('uint16', nm, '2'), 'struct': Struct(nm, (('x', P('uint8'), 1),)), 'iface': Iface(nm, None, (Method('x', ()),)), 'kiface': Iface(nm, 'A', (Method('x', ()), Error('E2')))}[top]
                    cross.append((f'{type(mem).__name__} A.B beside {top} {nm}', {'main.idl': [Iface('A', None, (mem, Method('last', ()))), d]}))
    for a, b in (('m', 'm'), ('k', 'k'), ('e', 'e'), ('m', 'k'), ('k', 'e'), ('m', 'e')):
        mkm = {'m': lambda n: Method(n, ()), 'k': lambda n: Const('uint8', n, '1'), 'e': lambda n: Error(n)}
        cross.append((f'{a} A.B_C beside {b} A_B.C', {'main.idl': [Iface('A', None, (mkm[a]('B_C'),)), Iface('A_B', None, (mkm[b]('C'),))]}))
    for nm in ('IA', 'AImplBase', 'A_invoke', 'A_DEFINE_INVOKE', 'A_retain', 'A_release', 'A_OP_m', 'Object_A'):
        for d in (Iface(nm, None, (Method('x', ()),)), Struct(nm, (('x', P('uint8'), 1),)), Const('uint8', nm, '3')):
            cross.append((f'interface A beside {type(d).__name__} {nm}', {'main.idl': [Iface('A', None, (Method('m', ()),)), d]}))
    # names which differ by case only, names like the file
    for a, b in (('Foo', 'foo'), ('FOO', 'foo')):
        for k1, k2 in itertools.combinations_with_replacement(('const', 'struct', 'iface'), 2):
            mkd = lambda k, n: {'const': Const('uint16', n, '2'), 'struct': Struct(n, (('x', P('uint8'), 1),)), 'iface': Iface(n, None, (Method('x', ()),))}[k]
            for x, y in ((a, b), (b, a)):
                cross.append((f'{k1} {x} beside {k2} {y}', {'main.idl': [mkd(k1, x), mkd(k2, y)]}))
    for st in ('Foo', 'IFoo', 'foo', 'FOO'):
        for nm in ('Foo', 'IFoo', 'foo'):
            for k in ('const', 'struct', 'iface', 'diface'):
                d = {'const': [Const('uint16', nm, '2')], 'struct': [Struct(nm, (('x', P('uint32'), 1), ('y', P('float32'), 1))), Iface('QU', None, (Method('m', (Param('in', S(nm), None, 'q1'), Param('out', S(nm), None, 'q2'))),))],
                     'iface': [Struct('QS', (('x', P('uint8'), 1),)), Const('uint8', 'QK', '1'), Iface(nm, None, (Method('m', (Param('in', S('QS'), None, 'q1'), Param('out', O(nm), None, 'q2'))),))],
                     'diface': [Iface('QB', None, (Method('m', ()),)), Iface(nm, 'QB', (Error('E'), Method('n', ())))]}[k]
                cross.append((f'{k} {nm} in {st}.idl', {st + '.idl': d}))
                cross.append((f'{k} {nm} in {st}.idl, included', {'top.idl': [Include(st + '.idl'), Iface('QTOP', nm if 'iface' in k else None, (Method('z', ()),))], st + '.idl': d}))
    yield Space('composed names', b_files, [(l, (f, True)) for l, f in cross], 1, modes=('c.gcc', 'cs.gcc', 'p.g++', 'ps.g++', 'r.rustc', 'j.javac'))


# ------------------------------------------------------------------ constants, structs, hierarchies, files

def space_consts(quick):
    R = {p: ((0 if p[0] == 'u' else -(1 << 8 * n - 1)), (1 << 8 * n) - 1 if p[0] == 'u' else (1 << 8 * n - 1) - 1) for p, n in PRIMS.items() if 'int' in p}
    vals = {}
    for p, (lo, hi) in R.items():
        vs = {lo, hi, 0, 1, hi // 2, hi // 2 + 1, hi - 1, 127, 9, 8}
        for b in (7, 8, 15, 16, 31, 32, 63, 64):
            vs |= {(1 << b) - 1, 1 << b, -(1 << b), -(1 << b) - 1, -(1 << b) + 1}
        ls = []
        for v in sorted(x for x in vs if lo <= x <= hi):
            s, a = ('-' if v < 0 else ''), abs(v)
            ls += [f'{s}{a}', f'{s}0x{a:x}', f'{s}0x{a:X}', f'{s}0x000{a:x}'] + ([f'{s}0{a}', f'{s}000{a}'] if quick is False or a in (8, 9, 0, 127) else [])
        if lo <= 0:
            ls += ['-0', '-0x0'] if p[0] == 'i' else []
        vals[p] = list(dict.fromkeys(ls))
    fl = ['0.0', '-0.0', '1.0', '-1.0', '0.5', '1.5', '3.14159265358979323846264338327950288', '-2.718281828459045', '0.1', '16777217.0', '123456789.125', '00.5', '340282346638528859811704183484516925440.0',
          '0.' + '0' * 40 + '1', '0.' + '0' * 44 + '14', '1' + '0' * 38 + '.0', '0.000001', '4503599627370497.5', '9007199254740993.0']
    vals['float32'] = fl + ['0.' + '0' * 100 + '1']
    vals['float64'] = fl + ['1' + '0' * 300 + '.0', '0.' + '0' * 300 + '5', '179769313486231570814527423731704356798070' + '0' * 267 + '.0', '0.' + '0' * 322 + '5', '0.' + '0' * 400 + '1']
    top, mem = [], []
    i = 0
    for t, ls in vals.items():
        for l in ls:
            sh = re.sub('0{30,}', lambda m: f'({len(m[0])} zeros)', l)
            top.append((f'const {t} = {sh}', ([Const(t, f'KC{i}', l)], [])))
            mem.append((f'member const {t} = {sh}', [Const(t, f'KM{i}', l), Method('m', ())]))
            i += 1
    yield Space('file constants', b_decls, top, 120)
    yield Space('member constants', b_members, mem, 60)


def space_structs(quick):
    from . import layout
    base = [layout.IOBJ] + list(layout.SUBS)
    items, jitems = [], []
    sizes = {}
    tp = Program({'t': base})
    for i, w in enumerate(layout.words(True)):
        if len(w) > 3 and i % (3 if quick else 1):
            continue
        # only those without padding, within 2**16 bytes by the model
        off, ok = 0, True
        for t, n in w:
            ok &= off % tp.align(t) == 0 and 1 <= n <= 65535
            off += tp.size(t) * n
        al = max(tp.align(t) for t, _ in w)
        if not ok or off % al or off > 600000 or any(t[0] == 'o' or tp.has_objects(t) for t, _ in w) and sum(n * max(1, len(tp.objects(t))) if t[0] == 's' else n if t[0] == 'o' else 0 for t, n in w) > 12:
            continue
        objs = any(t[0] == 'o' or tp.has_objects(t) for t, _ in w)
        x = Struct(f'X{i}', tuple((f'f{j}', t, n) for j, (t, n) in enumerate(w)))
        m = [Method(f'v{i}', (Param('in', S(x.name), None, 'q1'), Param('out', S(x.name), None, 'q2')))]
        if not objs:
            m.append(Method(f'w{i}', (Param('in', S(x.name), 0, 'q1'), Param('out', S(x.name), 0, 'q2'), Param('in', P('uint8'), None, 'q3'), Param('out', P('uint8'), None, 'q4'))))
        lbl = 'struct { ' + ' '.join(f'{tname(t)}{"" if n == 1 else "[%d]" % n};' for t, n in w) + ' }'
        (items if objs else jitems).append((lbl, ([Iface(f'QI{i}', None, tuple(m))], [x])))

    def b(its):
        p = Program({'main.idl': [Include('lib.idl')] + [d for a, _ in its for d in a], 'lib.idl': [Include('base.idl')] + [d for _, bb in its for d in bb], 'base.idl': base})
        p.closed = True
        return p

    def bj(its):
        p = Program({'main.idl': [Include('lib.idl')] + [d for a, _ in its for d in a], 'lib.idl': [Include('base.idl')] + [d for _, bb in its for d in bb], 'base.idl': [d for d in base if d.name not in ('TO', 'TP')]})
        p.closed = True
        return p
    m = ('c.gcc', 'c.clang', 'cs.gcc', 'p.g++', 'ps.clang++', 'r.rustc')
    if not quick:
        m = MODES
    yield Space('structs with objects', b, items, 60, modes=[x for x in m if x != 'j.javac'])
    yield Space('structs', bj, jitems, 60, modes=list(m) + [x for x in ('j.javac',) if x not in m])


LEVEL = {
    '0': (),
    'm': (('m', 0),), 'o': (('m', 1),), 'k': (('k',),), 'e': (('e',),),
    'x': (('m', 0), ('e',), ('k',), ('m', 1), ('e',), ('k',), ('m', 0)),
}


def level(word, c, d):
    ms = []
    for i, x in enumerate(LEVEL[word]):
        n = f'{x[0]}{c}l{d}n{i}'
        ms.append(Method(n, (Param('in', P('uint32'), None, 'q1'), Param('out', O(), None, 'q2')), bool(x[1])) if x[0] == 'm' else
                  Const('float32' if d % 2 else 'uint64', n.upper(), '1.5' if d % 2 else '0x1ff') if x[0] == 'k' else Error(n.upper()))
    return tuple(ms)


def space_hierarchies(quick):
    ws = [w for n in (1, 2, 3) for w in itertools.product('0mokex' if n < 3 or not quick else '0mkx', repeat=n)]
    ws += [w for n in (4, 5) for w in itertools.product('0x' if quick else '0mx', repeat=n)] + [('x',) * 8, ('0',) * 8, ('m',) * 12]

    def build(place):
        def b(its):
            files = {}
            for c, w in its:
                base = None
                for d, l in enumerate(w):
                    f = 'main.idl' if place == 0 or d == len(w) - 1 else f'l{d}.idl' if place == 1 else f'l{d // 2}.idl'
                    nm = f'H{c}L{d}'
                    files.setdefault(f, []).append(Iface(nm, base, level(l, c, d)))
                    base = nm
            fs = {'main.idl': []}
            lv = sorted(f for f in files if f != 'main.idl')
            lv.sort(key=lambda f: int(f[1:-4]))
            for f in ['main.idl'] + lv[::-1]:
                lower = lv[:lv.index(f)] if f in lv else lv
                # place 1: only the file of the base; place 2: all lower ones
                inc = lower[-1:] if place == 1 else lower
                ds = files.get(f, [])
                if place == 0:
                    ds = ds[::-1]   # derived before base
                fs[f] = ([Include(x) for x in (lower if f == 'main.idl' else inc)]) + ds
            p = Program(fs)
            p.closed = True
            return p
        return b
    for place in (0, 1, 2):
        items = [('hierarchy ' + '/'.join(w), (i, w)) for i, w in enumerate(ws) if place == 0 or len(w) > 1]
        yield Space(f'hierarchies, placement {place}', build(place), items, 25, modes=FEW if quick else MODES, orders=(0, 2) if quick else (0, 1, 2))


ORD = {
    'S': 'struct S { uint16 a; uint16[3] b; };\n',
    'T': 'struct T { S[2] s; interface o; };\n',
    'U': 'struct U { T t; A a; };\n',
    'A': 'interface A : B { error EA; method ma(in S s, out B b); };\n',
    'B': 'interface B { const float32 KB = 2.5; method mb(in S[] q1, in interface q2, out S q3); };\n',
    'C': 'interface C { method mc(in U u, out T t, in A a, out B b); method md(in C c, out C d); };\n',
    'K': 'const int64 K = -1;\n',
}


def space_orders(quick):
    items = []
    for o in (itertools.permutations('STUABC') if not quick else [p for i, p in enumerate(itertools.permutations('STUABC')) if i % 9 == 0 or i in (719,)]):
        items.append((f'declarations in order {"".join(o)}', {'main.idl': ''.join(ORD[x] for x in o)}))
    jord = dict(ORD, T='struct T { S[2] s; uint64 o; };\n', U='struct U { T t; S[3] a; };\n')
    for o in [p for i, p in enumerate(itertools.permutations('STUABCK')) if i % (97 if quick else 11) == 0]:
        items.append((f'declarations without objects in structs in order {"".join(o)}', {'main.idl': ''.join(jord[x] for x in o)}))
    # split over two and three files in every way which keeps users after what they use
    for cut in range(1, 6):
        for base in ('SBATUC', 'BSTAUC', 'SBTAUC'):
            items.append((f'declarations {base[:cut]} included by {base[cut:]}', {'main.idl': 'include "i.idl"\n' + ''.join(ORD[x] for x in base[cut:]), 'i.idl': ''.join(ORD[x] for x in base[:cut])}))
    # mutual and self reference
    ref = {'self': 'interface A { method m(in A a, out A b); method n(in A[2] a, out A[2] b); };\n',
           'descendant': 'interface A { method m(in B b, out B c); };\ninterface B : A { method n(in A a, out A c); };\n',
           'mutual': 'interface A { method m(in B b, out B c); };\ninterface B { method n(in A a, out A c); };\n',
           'mutual through arrays': 'interface A { method m(in B[2] b, out B[2] c); };\ninterface B { method n(in A[2] a, out A[2] c); };\n',
           'mutual through a struct': 'struct S { B b; };\ninterface A { method m(in S b, out S c); };\ninterface B { method n(in A a, out A c); };\n',
           'self through a struct': 'struct S { A b; };\ninterface A { method m(in S b, out S c); };\n',
           'later sibling': 'interface A { method m(in B b, out B c); };\ninterface B { method n(); };\n'}
    for n, t in ref.items():
        items.append((f'reference: {n}', {'main.idl': t}))
        items.append((f'reference: {n}, included', {'main.idl': 'include "i.idl"\ninterface Z : A { method z(in A a); };\n', 'i.idl': t}))
    yield Space('orders and references', b_raw, items, 1, modes=('c.gcc', 'cs.gcc', 'cus.clang', 'p.g++', 'ps.g++', 'r.rustc', 'j.javac'), orders=(0,))


def space_includes(quick):
    """all directed acyclic include graphs on four files (main first), with names of files in subdirectories"""
    items = []
    nodes = ['main.idl', 'IOne.idl', 'dir/two.idl', 'dir/IThree.idl']
    edges = [(i, j) for i in range(4) for j in range(i + 1, 4)]
    for mask in range(1 << len(edges)):
        g = [e for b, e in enumerate(edges) if mask >> b & 1]
        reach = {0}
        for i, j in sorted(g):
            if i in reach:
                reach.add(j)
        if reach != {0, 1, 2, 3}:
            continue
        files = {}
        for i, n in enumerate(nodes):
            down = [j for a, j in g if a == i]
            ds = [Include((('./' + os.path.basename(nodes[j])) if mask % 4 > 1 else '../' + nodes[j]) if n.startswith('dir') else nodes[j]) for j in (down if mask % 2 else down[::-1])]
            seen, todo = set(), [i]
            while todo:
                x = todo.pop()
                for a, j in g:
                    if a == x and j not in seen:
                        seen.add(j)
                        todo.append(j)
            vis = sorted(seen)
            nm = {0: 'IMain', 1: 'IOne', 2: 'ITwo', 3: 'IThree'}
            flds = (('a', P('uint64'), 1),) + tuple((f's{j}', S(f'St{j}'), 1) for j in vis)
            ds += [Const('uint32', f'K{i}', str(i)), Struct(f'St{i}', flds),
                   Iface(nm[i], nm[vis[0]] if vis else None,
                         (Error(f'E{i}'), Method(f'm{i}', tuple(Param('in', S(f'St{j}'), None, f'q{j}') for j in vis) + tuple(Param('out', O(nm[j]), None, f'r{j}') for j in vis) + (Param('in', S(f'St{i}'), 0, 'q'), Param('out', P('uint8'), None, 'z')))))]
            files[n] = ds
        items.append((f'include graph {" ".join(f"{i}>{j}" for i, j in g)}', (files, True)))
    yield Space('include graphs', b_files, items, 1, modes=('c.gcc', 'cs.gcc', 'cus.clang', 'p.g++', 'ps.g++', 'psn.g++', 'r.rustc', 'j.javac'), orders=(0, 1, 2))
    # many small arrangements
    more = {
        'empty file': {'main.idl': ''},
        'only a comment': {'main.idl': '// nothing\n'},
        'only an include of an empty file': {'main.idl': 'include "e.idl"\n', 'e.idl': ''},
        'only an include': {'main.idl': 'include "e.idl"\n', 'e.idl': 'struct E { uint8 a; };\ninterface IE { method m(in E e); };\n'},
        'only a constant': {'main.idl': 'const uint8 K = 1;\n'},
        'only a struct': {'main.idl': 'struct E { uint8 a; };\n'},
        'empty interface': {'main.idl': 'interface A { };\n'},
        'interface with constants only': {'main.idl': 'interface A { const uint8 K = 1; const float64 F = -0.5; };\n'},
        'interface with errors only': {'main.idl': 'interface A { error E; error F; };\n'},
        'empty descendant': {'main.idl': 'interface A { method m(); };\ninterface B : A { };\ninterface C : B { };\n'},
        'descendant of an empty interface': {'main.idl': 'interface A { };\ninterface B : A { method m(); };\ninterface C : B { #[optional] method n(out uint8 a); };\n'},
        'only optional methods': {'main.idl': 'interface A { #[optional] method m(in buffer b); #[optional] method n(out buffer b); };\n'},
        'file name with digits': {'main2.idl': 'interface A { method m(); };\n'},
        'file name with underscore': {'my_main.idl': 'struct S { uint8 x; };\ninterface A { method m(in S s); };\n'},
        'file name in capitals': {'MAIN.idl': 'struct S { uint8 x; };\nconst uint8 K = 2;\ninterface A { method m(in S s, out S t); };\n'},
        'same struct through two paths': {'main.idl': 'include "a.idl"\ninclude "b.idl"\ninterface M { method m(in S s, in A a, in B b); };\n', 'a.idl': 'include "s.idl"\ninterface A { method a(in S s); };\n',
                                          'b.idl': 'include "s.idl"\ninterface B { method b(out S s); };\n', 's.idl': 'struct S { uint64 x; };\n'},
        'include twice': {'main.idl': 'include "a.idl"\ninclude "a.idl"\ninterface M : A { method m(); };\n', 'a.idl': 'interface A { method a(); };\n'},
        'base in a sibling directory': {'x/main.idl': 'include "../y/a.idl"\ninterface M : A { method m(in S s); };\n', 'y/a.idl': 'include "./s.idl"\ninterface A { method a(in S s); };\n', 'y/s.idl': 'struct S { uint8 b; };\n'},
        'interface of 300 methods': {'main.idl': 'interface A {' + ''.join(f' method m{i}(in uint32 a, in buffer b, out uint64 c, out A d);' for i in range(300)) + ' };\n'},
        'interface of 60 methods with 24 outputs each': {'main.idl': 'struct S { uint64 x; uint64 y; uint64 z; };\ninterface A {' + ''.join(f' method m{i}(' + ', '.join(f'out S s{j}, out uint16 u{j}' for j in range(12)) + ');' for i in range(60)) + ' };\n'},
        'names with trailing underscores': {'main.idl': 'struct S_ { uint8 b_; };\ninterface A_ { const uint8 K_ = 1; error E_; method m_(in S_ s_, out A_ a_); };\n'},
        'names in capitals': {'main.idl': 'struct SS { uint8 BB; };\ninterface AA { const uint8 KK = 1; error EE; method MM(in SS XX, out AA YY, in buffer BUF, out buffer OUT); };\n'},
        'names with digits': {'main.idl': 'struct S1 { uint8 b2; };\ninterface A3 { const uint8 K4 = 1; error E5; method m6(in S1 s7, out A3 a8, in uint8 x9, in uint8 x10); };\n'},
        'long names': {'main.idl': 'struct S%s { uint8 %s; };\ninterface A%s { error E%s; method m%s(in S%s x%s, out A%s y%s); };\n' % (('l' * 200,) * 9)},
    }
    yield Space('arrangements', b_raw, [(l, t) for l, t in more.items()], 1, orders=(0, 1, 2))


TEXTS = ['', ' ', ' text ', '/', ' /* ', ' // ', ' \\', ' \\u0041 ', ' \\user ', ' \\uu000a ', ' "quoted ', " 'a ", ' #if 0 ', ' ??/', ' ??/\n x ', ' a\\\n b ', '\n a\n b\n', '\n * a\n * b\n ', ' # define X ', ' @param x y ', ' {@link ',
         ' <b> & ', ' ``` ', ' [x] ', ' %s %d {} {0} {{ }} ', ' $crate ', '*', '**', ' é ü 中 ', '\t', '\r\n a\r\n b\r\n', ' a\r b ', ' r#"', ' */ ', ' \x0b\x0c ', ' a \n\n\n b ', ' !', '!', '/ x']


def space_docs(exe, quick):
    base = {'include': 'include "%s"\n', 'none': ''}
    items = []
    for i, t in enumerate(TEXTS):
        t2 = t.replace('*/', '* /') if t != ' */ ' else t
        doc = f'/**\n{t2}*/\n'
        txt = f'{doc}struct S {{ uint8 a; }};\n{doc}const uint8 K = 1;\n{doc}interface A {{\n{doc}  const uint8 C = 2;\n{doc} error E;\n{doc}  method m(in S s, in buffer b);\n{doc}#[optional]\n method n();\n{doc}}};\n{doc}interface B : A {{\n{doc}method o(out S s); }};\n'
        items.append((f'documentation {t!r}', {'main.idl': txt}))
        ln = t.replace('\n', ' ')
        txt2 = f'//{ln}\nstruct S {{ uint8 a; }}; //{ln}\ninterface A {{ //{ln}\n  method m(in S s); //{ln}\n/*{t2}*/ error E; }};\n'
        items.append((f'comment {t!r}', {'main.idl': txt2}))

    def b(its):
        assert len(its) == 1
        if any(not lang_ok(its[0], f) for f in its[0]):
            raise Reject('not valid')
        return b_raw(its)
    yield Space('documentation', b, items, 1, modes=('c.gcc', 'c.clang', 'cs.gcc', 'p.g++', 'p.clang++', 'ps.g++', 'r.rustc', 'j.javac'), orders=(0,))


def lang_ok(files, f):
    v = lang.judge(files, f)
    return not v.bad


def space_marking(exe, quick):
    src = {'main.idl': 'include "i.idl"\nstruct S { uint8 a; };\ninterface A : B { const uint8 K = 1; error E; method m(in S s, out interface o); };\n', 'i.idl': 'interface B { method b(); };\n'}
    src['main.idl'] = src['main.idl'].replace(', out interface o', ', out B o')
    for i, t in enumerate(TEXTS):
        p = os.path.join(K.newdir('mark'), 'mark.txt')
        K.write(p, t.replace('\n', '\n') + ('' if i % 2 else '\n'))
        yield Space(f'marking', b_raw, [(f'marking {t!r}', src)], 1, modes=('c.gcc', 'c.clang', 'cs.clang', 'p.g++', 'p.clang++', 'ps.g++', 'r.rustc', 'j.javac'), orders=(0,), extra=('--marking', p))


def spaces(exe, quick):
    yield from space_includes(quick)
    yield from space_hierarchies(quick)
    yield from space_orders(quick)
    yield from space_members(exe, quick)
    yield from space_decls(exe, quick)
    yield from space_params(exe, quick)
    yield from space_docs(exe, quick)
    yield from space_marking(exe, quick)
    yield from space_consts(quick)
    yield from space_structs(quick)
    yield from space_methods(quick)


# ------------------------------------------------------------------ exploration

_ctx = {}


def run_items(sp, items, modes):
    """-> list of (items, {mode: diagnostics}), number of compilations, rejected labels"""
    exe = _ctx['exe']
    try:
        bad, n = compile_set(sp.build([x for _, x in items]), modes, exe, sp.orders, sp.extra)
    except Reject as e:
        if len(items) == 1:
            return [], 0, [(items[0][0], str(e))]
        out, n, rej = [], 0, []
        for part in (items[:len(items) // 2], items[len(items) // 2:]):
            o, k, r = run_items(sp, part, modes)
            out += o
            n += k
            rej += r
        return out, n, rej
    if not bad:
        return [], n, []
    if len(items) == 1:
        return [(items, bad)], n, []
    # look for the items responsible, with one mode per language first
    out, rej = [], []
    for part in (items[:len(items) // 2], items[len(items) // 2:]):
        o, k, r = run_items(sp, part, list(bad))
        out += o
        n += k
        rej += r
        if len(out) > _ctx['enough']:
            return out, n, rej
    left = {m: t for m, t in bad.items() if not any(m in b for _, b in out)}
    if left:
        out.append((items, left))
    return out, n, rej


def go(job):
    si, items, modes = job
    sp = _ctx['spaces'][si]
    if _ctx['chk'].late():
        return None
    out, n, rej = run_items(sp, items, list(modes))
    return si, items, out, n, rej


def run(chk):
    exe = K.build_idlc()
    jrt.runtime_classes()
    _ctx.update(exe=exe, chk=chk, enough=chk_enough(), spaces=list(spaces(exe, chk.quick)))
    langs = {}
    for k in chk.known:
        m = re.fullmatch(r'(.*) \[(C|C\+\+|Rust|Java)\]', k)
        if m:
            langs.setdefault(m[1], set()).add(m[2])
    only = os.environ.get('C11_SPACE')
    jobs = []
    for si, sp in enumerate(_ctx['spaces']):
        if only and not re.search(only, sp.name):
            continue
        for its, modes in sp.batches(lambda l: langs.get(l, ())):
            jobs.append((si, its, modes))
    per = {}
    seen, done = set(), set()
    for r in K.pmap(go, jobs):
        if r is None:
            continue
        si, items, out, n, rej = r
        sp = _ctx['spaces'][si]
        p = per.setdefault(sp.name, [0, 0, 0])
        new = [l for l, _ in items if (si, l) not in done]
        done.update((si, l) for l in new)
        p[0] += len(new)
        p[1] += n
        p[2] += len(rej)
        chk.add(states=max(0, len(new) - len(rej)), transitions=n, traces_validated_against_impl=max(0, len(new) - len(rej)))
        if new and len(chk.samples) < 14 and p[0] == len(new):
            chk.sample(f'{sp.name}: {items[0][0]}')
        for lbl, why in rej:
            chk.notes.setdefault('rejected_by_idlc', [])
            if len(chk.notes['rejected_by_idlc']) < 100:
                chk.notes['rejected_by_idlc'].append(f'{lbl}: {why[-160:]}')
        for its, bad in out:
            for m, text in bad.items():
                lg = LANGUAGE[m.split('.')[0]]
                lbl = its[0][0] if len(its) == 1 else f'{len(its)} items together: {its[0][0]} .. {its[-1][0]}'
                key = f'{lbl} [{lg}]'
                if (sp.name, key) in seen:
                    continue
                seen.add((sp.name, key))
                try:
                    pr = sp.build([x for _, x in its])
                    src = getattr(pr, 'raw', None) or pr.texts()
                except Exception:
                    src = None
                chk.violation(f'{sp.name}: {lbl}: output for {lg} ({m}) does not build without warnings:\n{text}', key=key,
                              mode=m, idl=src, extra=[open(x).read() if os.path.exists(x) else x for x in sp.extra], diagnostics=text)
    chk.notes['items_compilations_rejected_per_space'] = per
    chk.notes['modes'] = list(MODES)
    return ('every item of every space is generated with each backend (stub and skeleton, typed and untyped) and compiled with a generated conforming user; a diagnostic of any compiler is a violation')


def chk_enough():
    return int(os.environ.get('C11_ENOUGH', '12'))


def replay(rec):
    exe = K.build_idlc()
    jrt.runtime_classes()
    extra = rec.get('extra') or []
    if extra:
        p = os.path.join(K.newdir('mark'), 'mark.txt')
        K.write(p, extra[1])
        extra = ['--marking', p]
    try:
        bad, n = compile_set(b_raw([rec['idl']]), [rec['mode']], exe, (0, 1, 2), extra)
    except Reject as e:
        print('rejected:', e)
        return 0
    for m, t in bad.items():
        print(m, t)
    return int(bool(bad))
