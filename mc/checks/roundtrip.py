"""C01..C05: the closed system stub | transport | skeleton | implementation, explored on the
generated code of every enumerated signature."""
import itertools
import os
import shutil
from .. import common as K
from .. import glue, sigs
from ..idl import *

MODE = {'C01': 'call', 'C02': 'call envelope', 'C03': 'call', 'C04': 'perturb', 'C05': 'call'}


def run(chk):
    sigs.explore(chk, MODE[chk.pid], (chk.pid,), report_build=chk.pid == 'C01')
    if chk.pid == 'C02':
        limits(chk)
    return ('every signature over the alphabet of (direction, kind) up to the bounds of mc/sigs.py; each is compiled by '
            'every backend and every stub x skeleton pair is run on every valuation (call) or every perturbed envelope (perturb, envelope)')


# ------------------------------------------------------------------ limits (C02)

def limit_words(quick):
    """(word, class counts) around the limit of 15 per class, reached in every way, and around
    the wrap-around points of 4-bit and 8-bit counters."""
    out = []
    totals = [15, 16, 17, 31, 32, 255, 256, 257, 271, 272] + ([] if quick else [14, 18, 33, 64, 127, 128, 258, 511, 512, 513])
    for d in ('in', 'out'):
        for n in totals:
            out.append(((d, 'buf'),) * n)
            out.append(((d, 'B24'),) * n)
            out.append(((d, 'u8[]'),) * n)
            out.append(((d, 'u8'), (d, 'u16')) + ((d, 'buf'),) * (n - 1))
            out.append(((d, 'buf'),) * (n - 1) + ((d, 'u8'),))
            out.append(((d, 'OB2'),) * n)
            out.append(((d, 'obj'),) * n)
            out.append(((d, 'OB2'),) * (n - 1) + ((d, 'any'),))
            if n % 3 == 0:
                out.append(((d, 'OB3'),) * (n // 3))
            if n >= 15:
                out.append(((d, 'obj%d' % n),))
                out.append(((d, 'any%d' % (n - 3)), (d, 'OB3')))
                out.append(((d, 'any%d' % (n - 1)), (d, 'OB1')))
    for n in (65535, 65520, 4096):
        out += [(('in', 'obj%d' % n),), (('out', 'obj%d' % n),)]
    out.append((('in', 'buf'),) * 16 + (('out', 'buf'),) * 16 + (('in', 'obj'),) * 16 + (('out', 'obj'),) * 16)
    for a, b in itertools.permutations([('in', 'buf'), ('out', 'buf'), ('in', 'obj'), ('out', 'obj')], 2):
        out.append((a,) * 16 + (b,) * 2)
        out.append((a,) * 15 + (b,) * 15)
    return out


def limits(chk):
    """A method beyond the limits is rejected by every backend, wherever it is declared; one at the
    limit is accepted."""
    cases = []
    for w in limit_words(chk.quick):
        prog = Program({'main.idl': [Include('types.idl'), Iface('IT', None, (sigs.mk('m', w),))],
                        'types.idl': list(sigs.TYPES) + [sigs.IOBJ]})
        cases.append((w, prog, 'own'))
        if len(w) <= 20:
            cases.append((w, Program({'main.idl': [Include('types.idl'), Iface('IX', None, (Method('a'),)), Iface('IT', 'IRoot', (Method('z'),))],
                                      'types.idl': list(sigs.TYPES) + [sigs.IOBJ, Iface('IRoot', None, (Method('b'), sigs.mk('m', w)))]}), 'inherited'))

    def go(c):
        w, prog, how = c
        d = K.newdir('l')
        r = []
        for f, t in prog.texts().items():
            K.write(os.path.join(d, f), t)
        for be, out in (('--c', 'o.h'), ('--cpp', 'o.hpp'), ('--rust', 'rs')):
            for skel in ((), ('--skel',)):
                if be == '--rust':
                    os.makedirs(os.path.join(d, 'rs'), exist_ok=True)
                rc, err = K.idlc('main.idl', out, be, *skel, cwd=d)
                r.append((be + ' ' + ' '.join(skel), rc))
        shutil.rmtree(d, ignore_errors=True)
        return c, r
    n = 0
    for (w, prog, how), res in K.pmap(go, cases):
        m = sigs.mk('m', w)
        cnt, ok = prog.counts(m), prog.expressible(m)
        for be, rc in res:
            n += 1
            if not ok and rc == 0:
                chk.violation(f'{how} method with counts BI={cnt[0]} BO={cnt[1]} OI={cnt[2]} OO={cnt[3]} is accepted by idlc {be}',
                              key=f'limit {how} {be} {sigs.wtext(w)[:200]}', idl=prog.texts())
            # whether a method at the limit is accepted is what C10 decides
    chk.add(states=len(cases), transitions=n)
    chk.notes['limit_cases'] = len(cases)
    chk.notes['limit_cases_inexpressible'] = sum(1 for w, p, h in cases if not p.expressible(sigs.mk('m', w)))


def replay(rec):
    w = rec.get('word')
    if not w:
        print(rec['what'])
        for f, t in (rec.get('idl') or {}).items():
            print(f'--- {f}\n{t}')
        return 2
    w = tuple(tuple(x) for x in w)
    r = sigs.run_batch([w], MODE[rec['property']], 100000)
    for x in r.viol + r.buildfail:
        print(x)
    return 1 if [v for v in r.viol if v[0] in (rec['property'], 'CRASH')] or r.buildfail else 0
