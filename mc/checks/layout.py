"""C06: every struct within bounds that the compiler accepts, laid out by five compilers."""
import itertools
import os
import re
import shutil
from .. import common as K
from .. import front, glue
from ..idl import *

SUBS = (
    Struct('T1', (('a', P('uint8'), 1),)),
    Struct('T2', (('a', P('int16'), 1),)),
    Struct('T3', (('a', P('int8'), 3),)),
    Struct('T6', (('a', P('uint16'), 3),)),
    Struct('T8', (('a', P('float32'), 1), ('b', P('uint8'), 4))),
    Struct('T12', (('a', P('uint32'), 3),)),
    Struct('T16', (('a', P('uint64'), 1), ('b', S('T8'), 1))),
    Struct('TO', (('a', O('IObj'), 1),)),
    Struct('TN', (('a', S('T2'), 2), ('b', S('T1'), 2))),
    Struct('TM', (('a', S('T6'), 2), ('b', S('TN'), 2))),
    Struct('TP', (('o', O('IObj'), 1), ('p', P('float64'), 1))),
)
IOBJ = Iface('IObj', None, (Method('ping'),))


def F(t, n=1):
    return (S(t) if t in {s.name for s in SUBS} else O() if t == 'any' else O('IObj') if t == 'obj' else P(t), n)


A1 = [F(p) for p in PRIMS] + [F(s.name) for s in SUBS] + [F('any'), F('obj')] + \
     [F(t, n) for t in ('uint8', 'uint16', 'uint32', 'float64', 'T1', 'T3', 'T6', 'T12', 'T16', 'TM', 'any', 'obj', 'TO', 'TP') for n in (2, 3, 4, 16, 17)] + [F('uint8', 65535), F('uint64', 65535), F('T3', 4096)]
A2 = [F(p) for p in ('uint8', 'int16', 'uint32', 'float64', 'T1', 'T2', 'T3', 'T6', 'T8', 'T12', 'T16', 'TO', 'TN', 'TM', 'TP', 'any', 'obj')] + \
     [F('uint8', 2), F('uint8', 7), F('int16', 3), F('float32', 2), F('T3', 5), F('T6', 2), F('any', 2), F('T2', 2), F('TO', 2)]
A3 = [F(p) for p in ('uint8', 'int16', 'float32', 'uint64', 'T3', 'T6', 'T12', 'TO', 'any')] + [F('uint8', 3), F('uint16', 3), F('uint64', 2)]
A4 = [F(p) for p in ('int8', 'uint16', 'uint32', 'int64', 'T2', 'obj')]


def words(quick):
    gens = [itertools.product(A1, repeat=1), itertools.product(A2, repeat=2), itertools.product(A3 + ([] if quick else [F('T2'), F('T16'), F('obj'), F('T6', 2)]), repeat=3), itertools.product(A4, repeat=4)]
    if not quick:
        gens += [itertools.product(A2, repeat=3), itertools.product(A4, repeat=5)]
    # long words: every field of one size after a run of smaller ones
    gens.append([tuple(F('uint8') for _ in range(n)) + (x,) * k for n in (1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 24, 32) for k in (1, 2, 3) for x in (F('uint16'), F('uint32'), F('uint64'), F('T6'), F('T16'), F('any'), F('TP'))])
    gens.append([(x,) * k + tuple(F('uint8') for _ in range(n)) for n in (1, 2, 3, 4, 7, 8, 16) for k in (1, 2, 3) for x in (F('uint16'), F('uint32'), F('uint64'), F('T6'), F('T16'), F('any'), F('TP'))])
    seen = set()
    for g in gens:
        for w in g:
            w = tuple(w)
            if w not in seen:
                seen.add(w)
                yield w


def mk(i, w):
    return Struct(f'X{i}', tuple((f'f{j}', t, n) for j, (t, n) in enumerate(w)))


def single(i, w):
    x = mk(i, w)
    k = i % 3
    if k == 0:
        return {'main.idl': [IOBJ] + list(SUBS) + [x]}
    if k == 1:
        return {'main.idl': [x] + list(reversed(SUBS)) + [IOBJ]}
    return {'main.idl': [Include('lib.idl'), Struct('Z', (('x', S(x.name), 1),))], 'lib.idl': [x, IOBJ] + list(SUBS)}


_exe = [None]


def accepted(job):
    i, w = job
    prog = Program(single(i, w))
    out = front.run_set(_exe[0], prog.texts(), 'main.idl', ('c', 'p', 'r'))
    return i, w, [b for b, o in out.items() if o.rc == 0]


def batch_program(batch):
    """accepted structs over two files, plus a struct containing each, and methods taking them"""
    xs = [mk(i, w) for i, w in batch]
    wrap = [Struct(f'W{i}', (('a', S(f'X{i}'), 1), ('b', S(f'X{i}'), 2))) for i, w in batch if not any(n > 4000 for _, n in w)]
    h = len(xs) // 2
    lib = list(SUBS) + [IOBJ] + xs[:h]
    main = xs[h:] + wrap
    if batch[0][0] % 2:
        lib, main = lib[::-1], main[::-1]
    return Program({'main.idl': [Include('lib.idl')] + main, 'lib.idl': lib})


def measure(batch, chk):
    """-> list of (index, text)"""
    prog = batch_program(batch)
    d = K.newdir('s')
    bad = []
    try:
        try:
            glue.gen(prog, d, ('C', 'CPP', 'RS'), exe=_exe[0])
        except glue.BuildFail as e:
            # wrappers of accepted structs are not necessarily accepted: drop them
            prog = Program({f: [x for x in ds if not getattr(x, 'name', '').startswith('W')] for f, ds in prog.files.items()})
            shutil.rmtree(d)
            os.makedirs(d)
            glue.gen(prog, d, ('C', 'CPP', 'RS'), exe=_exe[0])
        rt = K.runtime()
        structs = list(prog.structs.values())
        body = '\n'.join(f'printf("{s.name} %zu' + ' %zu' * len(s.fields) + f'\\n", sizeof({s.name})' + ''.join(f', offsetof({s.name}, {f})' for f, _, _ in s.fields) + ');' for s in structs)
        for cpp in (0, 1):
            K.write(os.path.join(d, f'p.{"cpp" if cpp else "c"}'), '#include <stdio.h>\n#include <stddef.h>\n' + f'#include "main.{"hpp" if cpp else "h"}"\n#include "lib.{"hpp" if cpp else "h"}"\nint main(void) {{ {body} return 0; }}\n')
        mods = sorted((f[:-3], os.path.join(d, 'RS', f)) for f in os.listdir(os.path.join(d, 'RS')))
        rb = []
        for s in structs:
            T = f'interfaces::{glue.rs_mod_of(prog, s.name)}::{s.name}'
            rb.append(f'println!("{s.name} {{}}' + ' {}' * len(s.fields) + f'", std::mem::size_of::<{T}>()' + ''.join(f', std::mem::offset_of!({T}, r#{f})' for f, _, _ in s.fields) + ');')
        K.write(os.path.join(d, 'p.rs'), '\n'.join(['#![allow(warnings)]', f'#[path = "{rt["rust"]}/mod.rs"] pub mod object;', 'pub mod interfaces {'] +
                [f'#[path = "{p}"] pub mod {m};' for m, p in mods] + ['}', 'fn main() {'] + rb + ['}']))
        got = {}
        for lang, cmd in (('gcc', ['gcc', '-w', '-I', 'C', '-I', rt['c'], 'p.c']), ('clang', ['clang', '-w', '-I', 'C', '-I', rt['c'], 'p.c']),
                          ('g++', ['g++', '-w', '-I', 'CPP', '-I', rt['c'], '-I', rt['cpp'], 'p.cpp']), ('clang++', ['clang++', '-w', '-I', 'CPP', '-I', rt['c'], '-I', rt['cpp'], 'p.cpp']),
                          ('rustc', ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-C', 'debuginfo=0', '-A', 'warnings', 'p.rs'])):
            rc, so, se = K.sh(cmd + ['-o', 'p_' + lang], cwd=d, timeout=300)
            if rc != 0:
                raise glue.BuildFail(lang, glue.first_errors(se))
            rc, so, se = K.sh(['./p_' + lang], cwd=d)
            for l in so.splitlines():
                n, *v = l.split()
                s = prog.structs[n]
                want = [prog.size(S(n))] + [o for _, o in prog.offsets(S(n))]
                chk.add(transitions=len(v))
                if list(map(int, v)) != want:
                    bad.append((n, f'{lang}: struct {n} {{ ' + ' '.join(f'{tname(t)}[{k}] {f};' for f, t, k in s.fields) + f' }} has size {v[0]} and offsets {v[1:]}, the sums of the field sizes are {want[0]} and {want[1:]}'))
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def skeletons(batch, chk):
    """sizes transmitted, accepted and classified, by driving stubs and skeletons"""
    prog0 = batch_program(batch)
    ms = []
    for i, w in batch:
        if prog0.size(S(f'X{i}')) > 2000 or len(prog0.objects(S(f'X{i}'))) > 7:
            continue
        t = S(f'X{i}')
        ms += [Method(f'a{i}', (Param('in', t, None, 'p0'),)), Method(f'b{i}', (Param('out', t, None, 'p0'),)),
               Method(f'c{i}', (Param('in', t, None, 'p0'), Param('in', P('uint16'), None, 'p1'))),
               Method(f'd{i}', (Param('out', P('uint16'), None, 'p0'), Param('out', t, None, 'p1')))]
        if not prog0.has_objects(t):
            ms.append(Method(f'e{i}', (Param('in', t, 0, 'p0'), Param('out', t, 0, 'p1'))))
    if not ms:
        return []
    prog = Program({'main.idl': [Include('lib.idl')] + [x for x in prog0.files['main.idl'][1:] if not x.name.startswith('W')] + [Iface('IT', None, tuple(ms))], 'lib.idl': prog0.files['lib.idl']})
    d = K.newdir('k')
    out = []
    try:
        ex = glue.build(prog, ['IT'], d, exe=_exe[0])
        for mode in ('call', 'perturb'):
            rc, so, se = K.sh([ex, mode, 'cap=12'], timeout=300, cwd=d)
            for l in so.splitlines():
                if l.startswith('V ') or l.startswith('CRASH'):
                    m = re.search(r'method=[a-e](\d+)\b', l)
                    out.append((f'X{m.group(1)}' if m else '', mode + ': ' + l))
                elif l.startswith('DONE'):
                    chk.add(transitions=sum(int(x) for x in re.findall(r'(?:calls|perturbations)=(\d+)', l)))
                elif l.startswith('HARNESS'):
                    raise K.CheckError(l)
            if rc not in (0, 1) and not out:
                raise K.CheckError(f'explorer ended with {rc} {se[-300:]}')
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(batch, chk, fn):
    try:
        return fn(batch, chk), []
    except glue.BuildFail as e:
        if len(batch) == 1:
            return [], [(batch[0], str(e))]
        h = len(batch) // 2
        a, b = go(batch[:h], chk, fn), go(batch[h:], chk, fn)
        return a[0] + b[0], a[1] + b[1]


def run(chk):
    _exe[0] = K.build_idlc()
    glue.driver_obj()
    ws = list(enumerate(words(chk.quick)))
    acc, disagree = [], 0
    for i, w, bs in K.pprocmap(accepted, ws, 32):
        if bs:
            acc.append((i, w))
        if bs and len(bs) < 3:
            disagree += 1
    if len(acc) < 20:
        raise K.CheckError('almost no struct is accepted')
    jobs = [(acc[i:i + 60], measure) for i in range(0, len(acc), 60)]
    jobs += [(acc[i:i + 12], skeletons) for i in range(0, len(acc), 12)]
    n = 0

    def one(j):
        if chk.late():
            return None
        return (j, *go(j[0], chk, j[1]))
    seen = set()
    for r in K.pmap(one, jobs):
        if r is None:
            continue
        j, bad, unbuilt = r
        n += len(j[0])
        for name, text in bad:
            if name in seen:
                continue
            seen.add(name)
            w = dict(j[0]).get(int(name[1:])) if name[1:].isdigit() else None
            chk.violation(text, key=f'{name_of(w)} {text.split(":")[0]}', word=w, idl=Program(single(0, w)).texts() if w else None)
        for (i, w), msg in unbuilt:
            chk.notes.setdefault('not_buildable', []).append(f'{name_of(w)}: {msg[:200]}')
    chk.add(states=len(ws), traces_validated_against_impl=len(acc))
    chk.notes.update(structs_enumerated=len(ws), structs_accepted=len(acc), accepted_by_some_backends_only=disagree,
                     compilers=['gcc', 'clang', 'g++', 'clang++', 'rustc'])
    if len(chk.notes.get('not_buildable', [])) > len(acc):
        raise K.CheckError('generated structs do not build: ' + chk.notes['not_buildable'][0])
    for i, w in acc[::max(1, len(acc) // 8)]:
        chk.sample(name_of(w))
    return ('every struct over the alphabets of mc/checks/layout.py (all single fields, all pairs and triples and quadruples of fields, arrays, nesting, objects, long runs), each '
            'offered to the compiler; every accepted one is measured (sizeof and every offsetof) with gcc, clang, g++, clang++ and rustc against the packed sum, and the '
            'generated stubs and skeletons are driven with it alone, next to a primitive (bundle classification) and as array elements, at the right and all perturbed sizes')


def name_of(w):
    return '{' + ' '.join(f'{tname(t)}{"" if n == 1 else "[%d]" % n}' for t, n in w or ()) + '}'


def replay(rec):
    w = tuple((tuple(t), n) for t, n in rec['word'])
    _exe[0] = K.build_idlc()
    chk = K.Check('C06')
    i, w, bs = accepted((0, w))
    print('accepted by', bs)
    bad = go([(0, w)], chk, measure)[0] + go([(0, w)], chk, skeletons)[0] if bs else []
    for x in bad:
        print(x)
    return int(bool(bad))
