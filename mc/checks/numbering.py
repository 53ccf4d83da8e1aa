"""C07 / C08: op-codes and error values of every interface hierarchy within bounds, in every
backend: the constants, what stubs put on the wire, what skeletons dispatch."""
import itertools
import os
import re
import shutil
from .. import common as K
from .. import glue, jrt
from ..idl import *

SIG = [(), (Param('in', P('uint32'), None, 'pz'),), (Param('out', P('uint32'), None, 'pz'),), (Param('in', BUF, None, 'pz'),), (Param('in', O('IObj'), None, 'pz'),)]


def level(word, tag, n):
    """members of one level of a hierarchy; m method, o optional method, e error, c constant"""
    r = []
    for i, x in enumerate(word):
        if x in 'mo':
            r.append(Method(f'{tag}{"mX" if i % 2 else "m"}{i}', SIG[(n + i) % len(SIG)], x == 'o'))
        elif x == 'e':
            r.append(Error(('E', 'e', 'Err_')[(n + i) % 3] + f'{tag}{i}'))
        else:
            r.append(Const('uint16', f'K{tag}{i}', str(i)))
    return tuple(r)


def W(alpha, n):
    return [''.join(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]


def shapes(quick):
    """tuples of level words, root first"""
    seen = set()
    gens = [((w,) for w in W('moec', 3 if quick else 5)), itertools.product(W('me', 3 if quick else 4), repeat=1),
            itertools.product(W('me', 2) + ['o', 'c', 'om', 'ec', 'cm', 'mme', 'eme'], repeat=2),
            itertools.product(W('me', 1) + ['me', 'em', 'mm'] + ([] if quick else ['ee', 'o', 'c', 'mem']), repeat=3),
            itertools.product(W('me', 1) + ([] if quick else ['me', 'em']), repeat=4)]
    if not quick:
        gens.append(itertools.product(W('me', 1), repeat=6))
    gens += [[('m' * 40 + 'e' * 40, 'e' * 7 + 'm' * 9)], [('me' * 20, 'em' * 20, 'mme' * 10)], [tuple('me' for _ in range(12))], [tuple(('m', 'e')[i % 2] for i in range(16))]]
    for g in gens:
        for s in g:
            if s not in seen and ''.join(s) and all(len(x) or len(s) > 1 for x in s):
                seen.add(s)
                yield s


PLACES = {n: [p for p in itertools.product(range(3), repeat=n) if list(p) == sorted(p, reverse=True)] for n in range(1, 5)}
FILES = ('main.idl', 'liba.idl', 'libb.idl')


def batch_program(batch):
    """[(index, shape)] -> Program; each level is placed in one of three files (bases never above
    their derived interfaces), base first or derived first; some bases get a second child."""
    fs = {f: [] for f in FILES}
    fs['libb.idl'].append(Iface('IObj', None, (Method('ping'),)))
    for n, shape in batch:
        pl = PLACES.get(len(shape))
        pl = pl[n % len(pl)] if pl else tuple(2 if i < len(shape) // 3 else 1 if i < len(shape) // 2 else 0 for i in range(len(shape)))
        for i, w in enumerate(shape):
            d = Iface(f'I{n}L{i}', f'I{n}L{i - 1}' if i else None, level(w, f'q{n}L{i}x', n + i))
            f = fs[FILES[pl[i]]]
            f.insert(0, d) if n % 2 else f.append(d)
            if i and n % 5 == 0:     # a sibling repeating the names of this level
                s = Iface(f'J{n}L{i}', f'I{n}L{i - 1}', tuple(reversed(d.members)))
                f.append(s) if n % 2 else f.insert(0, s)
    files = {'main.idl': [Include('liba.idl')] + fs['main.idl'], 'liba.idl': [Include('libb.idl')] + fs['liba.idl'], 'libb.idl': fs['libb.idl']}
    return Program(files)


# ------------------------------------------------------------------ constants

def const_probe(prog, lang):
    """program text printing 'I kind name value' lines"""
    L = []
    if lang == 'rust':
        for I in prog.ifaces.values():
            for m in I.members:
                if isinstance(m, Error):
                    L.append(f'println!("{I.name} e {m.name} {{}}", i32::from(object::Error::from(interfaces::{I.name.lower()}::{m.name.upper()})));')
        return ['fn probe() { ' + '\n'.join(L) + ' }']
    o = ['#include <stdio.h>'] + [f'#include "{os.path.splitext(f)[0]}_invoke.{"hpp" if lang == "cpp" else "h"}"' for f in prog.files]
    if lang == 'cpp':
        o.insert(1, '#include <cstdint>\n#include <atomic>')
    for I in prog.ifaces.values():
        if lang == 'c':
            for _, e, v in prog.errors(I.name):
                L.append(f'printf("{I.name} e {e} %ld\\n", (long)({I.name}_{e}));')
            for m in I.members:
                if isinstance(m, Method):
                    L.append(f'printf("{I.name} m {m.name} %ld\\n", (long)({I.name}_OP_{m.name}));')
        else:
            o.append(f'struct X{I.name} : public I{I.name} {{ static void p() {{ ' + ' '.join(
                [f'printf("{I.name} m {m} %ld\\n", (long)(OP_{m}));' for m in (x.name for _, x, _ in prog.methods(I.name))]) + ' } };')
            o.append(f'struct Y{I.name} : public {I.name}ImplBase {{ static void p() {{ ' + ' '.join(
                [f'printf("{I.name} m {m} %ld\\n", (long)(OP_{m}));' for m in (x.name for _, x, _ in prog.methods(I.name))]) + ' } };')
            L.append(f'X{I.name}::p(); Y{I.name}::p();')
            for _, e, v in prog.errors(I.name):
                L.append(f'printf("{I.name} e {e} %ld\\n", (long)({I.name}::{e}));')
                L.append(f'printf("{I.name} e {e} %ld\\n", (long)(I{I.name}::{e}));')
    return o + ['int main(void) {'] + L + ['return 0; }']


def expect(prog):
    r = {}
    for I in prog.ifaces:
        for _, e, v in prog.errors(I):
            r[I, 'e', e] = v
        for _, m, op in prog.methods(I):
            r[I, 'm', m.name] = op
    return r


class Bad(Exception):
    pass


def run_batch(batch, pid, langs=None, ops=True, prog=None):
    """-> (violations [(text, key)], transitions)"""
    prog = prog or batch_program(batch)
    viol, trans = [], 0
    d = K.newdir('n')
    try:
        exe = K.build_idlc()
        rt = K.runtime()
        try:
            if pid == 'C07' and ops:
                ex = glue.build(prog, list(prog.ifaces), d)
                rc, so, se = K.sh([ex, 'ops'], timeout=300, cwd=d)
                for l in so.splitlines():
                    if l.startswith('V C07'):
                        viol.append((l[2:], l.split(' :: ')[0]))
                    elif l.startswith('CRASH') or l.startswith('HARNESS'):
                        viol.append((l, l))
                    elif l.startswith('DONE'):
                        trans += int(re.search(r'calls=(\d+)', l).group(1))
                if rc not in (0, 1) and not viol:
                    raise K.CheckError(f'explorer ended with {rc} {se[-300:]}')
            else:
                glue.gen(prog, d, [l for l in langs or ('C', 'CPP', 'RS') if l != 'J'])
        except glue.BuildFail as e:
            raise Bad(str(e))
        exp = expect(prog)
        got = []

        def consts(lang):
            if lang == 'c':
                K.write(os.path.join(d, 'pc.c'), '\n'.join(const_probe(prog, 'c')))
                cmd = ['gcc', '-O0', '-w', '-I', 'C', '-I', rt['c'], 'pc.c', '-o', 'pc']
            elif lang == 'cpp':
                K.write(os.path.join(d, 'pp.cpp'), '\n'.join(const_probe(prog, 'cpp')))
                cmd = ['g++', '-O0', '-w', '-I', 'CPP', '-I', rt['c'], '-I', rt['cpp'], 'pp.cpp', '-o', 'pp']
            elif lang == 'rust':
                mods = sorted((f[:-3], os.path.join(d, 'RS', f)) for f in os.listdir(os.path.join(d, 'RS')))
                K.write(os.path.join(d, 'pr.rs'), '\n'.join(['#![allow(warnings)]', f'#[path = "{rt["rust"]}/mod.rs"] pub mod object;', 'pub mod interfaces {'] +
                        [f'#[path = "{p}"] pub mod {m};' for m, p in mods] + ['}'] + const_probe(prog, 'rust') + ['fn main() { probe() }']))
                cmd = ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-C', 'debuginfo=0', '-A', 'warnings', 'pr.rs', '-o', 'pr']
            rc, so, se = K.sh(cmd, cwd=d, timeout=300)
            if rc != 0:
                return lang, None, glue.first_errors(se)
            rc, so, se = K.sh(['./' + cmd[-1]], cwd=d)
            return lang, so, se
        for lang in ('c', 'cpp', 'rust'):
            if langs is None or {'c': 'C', 'cpp': 'CPP', 'rust': 'RS'}[lang] in langs:
                _, so, se = consts(lang)
                if so is None:
                    raise Bad(f'{lang}: {se}')
                for l in so.splitlines():
                    i, k, n, v = l.split()
                    got.append((lang, i, k, n, int(v)))
        # Java
        jbad = None
        if langs is None or 'J' in langs:
            os.makedirs(os.path.join(d, 'J'), exist_ok=True)
            for f in prog.files:
                rc, err = K.idlc(os.path.join('idl', f), 'J', '--java', cwd=d)
                if rc != 0:
                    raise Bad(f'java: idlc {f}: {err[-300:]}')
            js = sorted(os.path.join('J', f) for f in os.listdir(os.path.join(d, 'J')))
            rc, so, se = jrt.javac([*js, os.path.join(K.VERIF, 'mc', 'javaprobe', 'Ops.java')], 'JO', cwd=d, werror=False)
            if rc != 0:
                raise Bad('javac: ' + glue.first_errors(se))
            rc, so, se = jrt.java('Ops', os.path.join(d, 'JO'), *(f'{i}={len(prog.methods(i)) + 3}' for i in prog.ifaces), cwd=d)
            if rc != 0:
                raise Bad('java probe: ' + se[-400:])
            for l in so.splitlines():
                w = l.split(' ')
                if w[0] == 'F':
                    i, name, ty, v = w[1:5]
                    if name.startswith(i + '_OP_'):
                        got.append(('java', i, 'm', name[len(i) + 4:], int(v)))
                    else:
                        for _, e, _ in prog.errors(i):
                            if name in (f'{i}_{e}', f'{i}_{e.upper()}'):
                                got.append(('java', i, 'e', e, int(v)))
                elif w[0] == 'P':
                    got.append(('java-proxy', w[1], 'm', w[2], int(w[3])))
                    if len(w) > 4:
                        viol.append((f'java proxy {w[1]}.{w[2]} ended with {" ".join(w[4:])}', l)) if pid == 'C07' else None
                elif w[0] == 'S' and pid == 'C07':
                    op, hit = int(w[2]), w[4]
                    want = {o: m.name for _, m, o in prog.methods(w[1])}.get(op, '')
                    trans += 1
                    if hit != want or (not want and w[3] == 'ok'):
                        viol.append((f'java skeleton {w[1]}: op {op} reaches {hit or "nothing"} ({w[3]}), expected {want or "an error"}', f'java {w[1]} {op}'))
        kind = 'm' if pid == 'C07' else 'e'
        seen = {}
        for lang, i, k, n, v in got:
            if k != kind:
                continue
            trans += 1
            seen.setdefault((lang, i), set()).add(n)
            if exp.get((i, k, n)) != v:
                viol.append((f'{lang}: {"op-code" if k == "m" else "error value"} of {n} in {i} is {v}, expected {exp.get((i, k, n))}', f'{lang} {i} {k} {n}'))
        # every backend mentions what it must
        for lang in ('java',) if langs is None or 'J' in langs else ():
            for (i, k, n), v in exp.items():
                if k == kind and n not in seen.get((lang, i), ()):
                    viol.append((f'{lang}: no {"op-code" if k == "m" else "error"} constant for {n} in {i}', f'{lang} missing {i} {k} {n}'))
        return viol, trans
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(batch, pid):
    try:
        v, t = run_batch(batch, pid)
        return v, t, []
    except Bad as e:
        if len(batch) == 1:
            if pid == 'C07' and 'duplicate case' in str(e):
                return [(f'two methods have the same op-code: I{batch[0][0]}L0.. {e}', 'duplicate case')], 0, []
            return [], 0, [(batch[0], str(e))]
        h = len(batch) // 2
        a = go(batch[:h], pid)
        b = go(batch[h:], pid) if not a[0] else ([], 0, [])
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]


def large(quick):
    """(name, program, backends, execute): more members than any narrow counter holds"""
    for n, split in ((300, 140), (300, 299)):
        ms = [Method(f'm{i}', SIG[i % 4]) for i in range(n)]
        es = [Error(f'E{i}') for i in range(n)]
        a, b = [], []
        for i in range(n):
            (a if i < split else b).extend((es[i], ms[i]) if i % 3 else (ms[i], es[i]))
        yield f'{n} methods and errors, {split} in the base', Program({'main.idl': [Include('liba.idl'), Iface('IT', 'IR', tuple(b))], 'liba.idl': [Iface('IR', None, tuple(a)), Iface('IObj', None, (Method('ping'),))]}), None, True
    n = 0x4000
    ms = [Method(f'm{i}') for i in range(n)]
    yield f'{n} methods', Program({'main.idl': [Include('liba.idl'), Iface('IT', 'IR', tuple(ms[100:]))], 'liba.idl': [Iface('IR', None, tuple(ms[:100]))]}), ('C',), False
    ms = ms[:1200 if quick else 4200]
    yield f'{len(ms)} methods', Program({'main.idl': [Include('liba.idl'), Iface('IT', 'IR', tuple(ms[100:]))], 'liba.idl': [Iface('IR', None, tuple(ms[:100]))]}), ('CPP', 'J'), False
    es = [Error(f'E{i}') for i in range(5000 if quick else 70000)]
    yield f'{len(es)} errors', Program({'main.idl': [Include('liba.idl'), Iface('IT', 'IR', tuple(es[100:]))], 'liba.idl': [Iface('IR', None, tuple(es[:100]))]}), ('C', 'CPP', 'RS') + (('J',) if quick else ()), False


def run(chk):
    K.build_idlc()
    glue.driver_obj()
    jrt.runtime_classes()
    shp = list(enumerate(shapes(chk.quick)))
    size = 40
    jobs = [('big', x) for x in large(chk.quick)] + [('batch', shp[i:i + size]) for i in range(0, len(shp), size)]
    states = sum(len(s) for _, s in shp)

    def one(j):
        if chk.late():
            return None
        if j[0] == 'big':
            name, prog, langs, ops = j[1]
            try:
                v, t = run_batch(None, chk.pid, langs, ops, prog)
                return j, v, t, []
            except Bad as e:
                return j, [], 0, [((name, ''), str(e))]
        return (j, *go(j[1], chk.pid))
    n = 0
    for r in K.pmap(one, jobs):
        if r is None:
            continue
        j, viol, trans, bad = r
        n += len(j[1]) if j[0] == 'batch' else 1
        chk.add(transitions=trans)
        for text, key in viol:
            idx = re.search(r'\bI(\d+)L\d', text)
            shape = [s for i, s in j[1] if idx and i == int(idx.group(1))] if j[0] == 'batch' else [j[1][0]]
            chk.violation(f'{text}   (hierarchy {shape}, levels root first: m method, o optional, e error, c constant)', key=f'{key}',
                          batch=j[1] if j[0] == 'batch' else None,
                          idl=batch_program([x for x in j[1] if x[1] in shape] or j[1]).texts() if j[0] == 'batch' else None)
        for (i, shape), msg in bad:
            chk.notes.setdefault('not_buildable', []).append(f'{shape}: {msg[:300]}')
            n -= 1
    if n < len(jobs):
        raise K.CheckError('generated code of most hierarchies does not build: ' + str(chk.notes.get('not_buildable', [])[:2]))
    chk.add(states=states, traces_validated_against_impl=n)
    chk.notes['hierarchies'] = len(shp)
    for i, s in shp[::max(1, len(shp) // 6)]:
        chk.sample('levels root first: ' + ' | '.join(s))
    return ('every interface hierarchy within the bounds of mc/checks/numbering.py (levels as words over method/optional method/error/constant, placed in one of three '
            'files, either declaration order, siblings), plus 300, 5000 and 0x4000 members; oracle: numbering model; compared: constants in C, C++, Rust, Java, '
            'op-codes stubs put on the wire, the method every op-code reaches in every skeleton')


def replay(rec):
    if not rec.get('batch'):
        print(rec['what'])
        return 2
    v, t, bad = go([(i, tuple(s)) for i, s in rec['batch']], rec['property'])
    for x in v + bad:
        print(x)
    return int(bool(v))
