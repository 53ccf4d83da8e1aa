"""Exhaustive space of method signatures and the exploration of the closed system
stub x transport x skeleton x implementation on every one of them (C01..C05)."""
import itertools
import json
import os
import shutil
from . import common as K
from . import glue
from .idl import *

TYPES = (
    Struct('S3', (('a', P('uint8'), 3),)),
    Struct('S8', (('a', P('uint32'), 1), ('b', P('float32'), 1))),
    Struct('S12', (('a', P('int32'), 3),)),
    Struct('S16', (('a', P('uint8'), 1), ('b', P('int8'), 1), ('c', P('uint16'), 1), ('d', P('uint32'), 1), ('e', P('float64'), 1))),
    Struct('B17', (('a', P('uint8'), 17),)),
    Struct('B24', (('a', S('S16'), 1), ('b', P('uint64'), 1))),
    Struct('B40', (('a', S('S8'), 2), ('b', S('S12'), 2))),
    Struct('OB1', (('o', O(), 1),)),
    Struct('OB2', (('o', O('IObj'), 1), ('p', P('uint64'), 2))),
    Struct('OB3', (('x', S('OB2'), 1), ('o', O(), 1), ('y', S('OB2'), 1))),
    Struct('OA', (('a', O(), 2), ('b', S('OB1'), 2), ('c', P('uint8'), 16))),
    Struct('S1', (('a', P('int8'), 1),)),
    Struct('S15', (('a', P('uint8'), 15),)),
    Struct('N16', (('a', S('S8'), 1), ('b', P('uint16'), 2), ('c', S('S1'), 4))),
    Struct('B18', (('a', P('uint16'), 9),)),
    Struct('B120', (('a', S('B40'), 2), ('b', S('B24'), 1), ('c', S('S16'), 1))),
    Struct('OD', (('p', P('uint64'), 1), ('q', P('uint32'), 2), ('a', S('OB3'), 2), ('b', S('OA'), 1), ('c', O('IObj'), 1))),
)
IOBJ = Iface('IObj', None, (Method('ping'),))

_k = {}


def kind(name):
    """'u8', 'S3', 'S12[]', 'obj', 'any', 'obj2', 'any3', 'buf' -> (type, arr)"""
    short = {'u8': 'uint8', 'u16': 'uint16', 'u32': 'uint32', 'u64': 'uint64', 'i8': 'int8', 'i16': 'int16',
             'i32': 'int32', 'i64': 'int64', 'f32': 'float32', 'f64': 'float64'}
    if name == 'buf':
        return BUF, None
    if name.startswith('obj') or name.startswith('any'):
        n = name[3:]
        return O('IObj' if name[0] == 'o' else None), int(n) if n else None
    arr = None
    if name.endswith('[]'):
        name, arr = name[:-2], 0
    return (P(short[name]) if name in short else S(name)), arr


PR = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64']
ALL1 = PR + ['S3', 'S8', 'S12', 'S16', 'B17', 'B24', 'B40', 'OB1', 'OB2', 'OB3', 'OA', 'S1', 'S15', 'N16', 'B18', 'B120', 'OD', 'buf'] + [p + '[]' for p in PR] + \
    ['S3[]', 'S8[]', 'S12[]', 'S16[]', 'B17[]', 'B24[]', 'B40[]', 'S1[]', 'N16[]', 'B120[]', 'obj', 'any', 'obj1', 'any1', 'obj2', 'any3', 'obj15']
ALL2 = ['u8', 'u16', 'u32', 'u64', 'f64', 'S3', 'S12', 'S16', 'B17', 'B24', 'OB1', 'OB2', 'OB3', 'OA', 'buf', 'u16[]',
        'S12[]', 'B24[]', 'obj', 'any', 'obj2', 'any3']
ALL3Q = ['u8', 'u32', 'S3', 'OB2', 'buf', 'obj', 'any2']
ALL3T = ['u8', 'u32', 'S3', 'B24', 'OB1', 'OB2', 'buf', 'obj', 'any2', 'u16[]']
ALL4T = ['u16', 'S3', 'OB2', 'buf', 'obj']


def dirs(ks):
    return [(d, k) for k in ks for d in ('in', 'out')]


def mk(name, word, optional=False):
    return Method(name, tuple(Param(d, *kind(k), f'p{i}') for i, (d, k) in enumerate(word)), optional)


TP = Program({'types.idl': list(TYPES) + [IOBJ]})


def words(quick):
    """The enumerated words over (direction, kind), shortest first; valid and expressible only."""
    seen = set()
    gens = [[()], itertools.product(dirs(ALL1), repeat=1), itertools.product(dirs(ALL2), repeat=2),
            itertools.product(dirs(ALL3Q if quick else ALL3T), repeat=3)]
    if not quick:
        gens.append(itertools.product(dirs(ALL4T), repeat=4))
    gens.append(long_words(quick))
    for g in gens:
        for w in g:
            w = tuple(w)
            if w in seen:
                continue
            seen.add(w)
            yield w


def long_words(quick):
    """Multiplicities up to the limit, and long periodic words (beyond the small-sort cutoff)."""
    one = {'BI': ('in', 'buf'), 'BO': ('out', 'buf'), 'OI': ('in', 'obj'), 'OO': ('out', 'obj')}
    for c, x in one.items():
        for n in (14, 15):
            yield (x,) * n
    for n in (15,):
        yield tuple(one[c] for _ in range(n) for c in ('OO', 'BI', 'OI', 'BO'))
        yield tuple(one[c] for c in ('OO', 'OI', 'BO', 'BI') for _ in range(n))
    yield tuple([('in', 'u8')] * 16 + [('in', 'u64')] * 16)
    yield tuple([('out', 'u8'), ('in', 'u16'), ('out', 'S3')] * 8 + [('in', 'buf')] * 14 + [('out', 'buf')] * 14)
    yield tuple([('in', 'OB2')] * 15)
    yield tuple([('out', 'OB2')] * 15)
    ks = [('in', 'obj'), ('out', 'obj'), ('in', 'u8'), ('out', 'S3'), ('in', 'buf'), ('out', 'buf'), ('in', 'OB2'), ('out', 'OB2')]
    for a, b in itertools.permutations(ks, 2):
        yield (a, b) * 12
    for t in itertools.permutations(ks, 3) if not quick else itertools.permutations(ks[:5], 3):
        yield t * 8
    # long bundles: beyond every small-size special case of a sort
    ps = ['u8', 'u16', 'u32', 'u64', 'S3', 'S12', 'S16']
    for d in ('in', 'out'):
        for t in itertools.permutations(ps, 2):
            yield tuple((d, k) for k in t) * 12
            yield ((d, t[0]),) * 21 + ((d, t[1]),) * 12
        for t in itertools.permutations(ps[1:5] if quick else ps, 3):
            yield tuple((d, k) for k in t) * 11
        yield tuple((d, k) for k in ps + PR) * 3
    for t in itertools.permutations(ps[:4], 2):
        yield tuple(x for k in t for x in (('in', k), ('out', k))) * 12
    if not quick:
        for t in itertools.permutations(ks, 4):
            yield t * 6
        for t in itertools.permutations(ps, 4):
            yield tuple(('out', k) for k in t) * 8


def valid_words(quick):
    for w in words(quick):
        m = mk('m', w)
        if TP.method_ok(m):
            yield w


def program(ws, names=None):
    """One file set for a batch: half of the methods on an inherited interface of an included
    file, every third method optional."""
    ms = [mk(f'm{i}', w, i % 3 == 2) for i, w in enumerate(ws)]
    h = len(ms) // 2
    return Program({
        'main.idl': [Include('types.idl'), Iface('IT', 'IRoot', tuple(ms[h:]))],
        'types.idl': list(TYPES) + [IOBJ, Iface('IRoot', None, tuple(ms[:h]))],
    })


def wtext(w):
    return '(' + ', '.join(f'{d} {k}' for d, k in w) + ')'


class Result:
    def __init__(self, ws):
        self.ws, self.viol, self.done, self.skipped, self.buildfail = ws, [], {}, [], []


def run_batch(ws, mode, cap=400, depth=0):
    """Build and explore one batch of signatures; on a rejection or build failure, bisect."""
    r = Result(ws)
    d = K.newdir('b')
    try:
        try:
            prog = program(ws)
            exe = glue.build(prog, ['IT'], d)
        except glue.BuildFail as e:
            if len(ws) == 1:
                (r.skipped if e.stage == 'idlc' else r.buildfail).append((ws[0], str(e)))
                return r
            for part in (ws[:len(ws) // 2], ws[len(ws) // 2:]):
                q = run_batch(part, mode, cap, depth + 1)
                r.viol += q.viol
                r.skipped += q.skipped
                r.buildfail += q.buildfail
                for k, v in q.done.items():
                    r.done[k] = r.done.get(k, 0) + v
                if len(r.viol) + len(r.buildfail) > 6:
                    break
            return r
        rc, so, se = K.sh([exe, *mode.split(), f'cap={cap}'], timeout=600, cwd=d)
        for l in so.splitlines():
            if l.startswith('V '):
                _, prop, rest = l.split(' ', 2)
                r.viol.append((prop, rest, meth(ws, rest)))
            elif l.startswith('CRASH'):
                r.viol.append(('CRASH', l + ' ' + ' '.join(se.split())[-400:], meth(ws, l)))
            elif l.startswith('DONE'):
                for kv in l.split()[1:]:
                    k, v = kv.split('=')
                    r.done[k] = r.done.get(k, 0) + int(v)
            elif l.startswith('HARNESS'):
                raise K.CheckError(l)
        if rc not in (0, 1) and not r.viol:
            raise K.CheckError(f'explorer ended with {rc}: {so[-500:]} {se[-500:]}')
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def meth(ws, text):
    import re
    m = re.search(r'method=m(\d+)\b', text)
    return ws[int(m.group(1))] if m and int(m.group(1)) < len(ws) else None


def explore(chk, mode, props, batch=40, report_build=False, cap=None):
    """Explore every enumerated signature; report violations of the given oracles."""
    K.build_idlc()
    glue.driver_obj()
    ws = list(valid_words(chk.quick))
    nodes = set()  # nodes of the trie of signatures = states of the exploration
    for w in ws:
        nodes.update(w[:i] for i in range(len(w) + 1))
    cap = cap or (120 if chk.quick else 1500)
    batches = [ws[i:i + batch] for i in range(0, len(ws), batch)]
    langs = len(glue.LANGS) + 1
    seen = set()

    def go(b):
        if chk.late():
            return None
        return run_batch(b, mode, cap)
    n = 0
    for r in K.pmap(go, batches):
        if r is None:
            continue
        n += len(r.ws) - len(r.skipped) - len(r.buildfail)
        chk.add(transitions=r.done.get('calls', 0) + r.done.get('perturbations', 0))
        for w, msg in r.skipped:
            chk.notes.setdefault('rejected_by_idlc', []).append(wtext(w))
        for w, msg in r.buildfail:
            if report_build:
                chk.violation(f'generated code for method{wtext(w)} does not build, so no call can be made: {msg}',
                              key='build ' + wtext(w), signature=wtext(w), word=w, idl=program([w]).texts())
            else:
                chk.notes.setdefault('not_buildable', []).append(wtext(w))
        for prop, text, w in r.viol:
            if prop not in props and prop != 'CRASH':
                continue
            kk = (prop, text.split(' :: ')[-1], w)
            if kk in seen:
                continue
            seen.add(kk)
            chk.violation(f'method{wtext(w) if w else ""}: {text}', key=f'{wtext(w) if w else ""} {text.split(" :: ")[-1]}',
                          signature=wtext(w) if w else None, word=w, observation=text,
                          idl=program([w]).texts() if w else None,
                          how='build the idl with every backend, link glue + driver (mc/glue.py build), run explore ' + mode)
    chk.add(states=len(nodes), traces_validated_against_impl=n)
    chk.notes['backends'] = list(glue.LANGS) + ['reference']
    chk.notes['stub_skeleton_pairs'] = langs * langs
    for w in ws[:2] + ws[len(ws) // 2:len(ws) // 2 + 3] + ws[-2:]:
        chk.sample('method' + wtext(w)[:300])
    return n
