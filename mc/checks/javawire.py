"""C18: the generated Java proxies and skeletons, explored against the wire model, on every enumerated
signature over the constructs the Java backend supports."""
import os
import shutil
from .. import common as K
from .. import jrt, sigs
from ..idl import *

TYPES = tuple(t for t in sigs.TYPES if not t.name.startswith('O')) + (
    Struct('A1', (('a', P('uint16'), 1), ('b', P('int16'), 3))),
    Struct('A6', (('a', P('int64'), 2), ('i', P('uint32'), 2), ('i0', P('float32'), 2), ('d', P('float64'), 1))),
    Struct('AN', (('x', S('A6'), 2), ('i', S('N16'), 1), ('y', S('A1'), 3))),
    Struct('ANN', (('i', S('AN'), 2), ('b', S('B40'), 3))),
)
EXTRA = ['A1', 'A6', 'AN', 'ANN', 'A1[]', 'A6[]', 'AN[]', 'ANN[]']
TP = Program({'types.idl': list(TYPES) + [sigs.IOBJ]})


def is_java(k):
    return not k.startswith('O')


def words(quick):
    seen = set()

    def fresh(w):
        if w in seen or not all(is_java(k) for _, k in w):
            return False
        seen.add(w)
        return True
    for w in sigs.words(quick):
        if fresh(w):
            yield w
    for w in ([(x,) for x in sigs.dirs(EXTRA)] + [(x, y) for x in sigs.dirs(EXTRA) for y in sigs.dirs(sigs.ALL2 + EXTRA)] +
              [(y, x) for x in sigs.dirs(EXTRA) for y in sigs.dirs(sigs.ALL2)]):
        if fresh(w):
            yield w


def valid_words(quick):
    for w in words(quick):
        if TP.method_ok(sigs.mk('m', w)):
            yield w


# ------------------------------------------------------------------ programs

def program(ws, shape):
    """Shapes: where the methods and structs live and whether interfaces are named after their files."""
    ms = [sigs.mk(f'm{i}', w, i % 3 == 2) for i, w in enumerate(ws)]
    h = len(ms) // 2
    if shape == 0:    # structs in a file of their own kind; root included
        return Program({'main.idl': [Include('types.idl'), Iface('IT', 'IRoot', tuple(ms[h:]))],
                        'types.idl': list(TYPES) + [sigs.IOBJ, Iface('IRoot', None, tuple(ms[:h]))]})
    if shape == 1:    # files named after the interface they define, structs beside the root
        return Program({'IT.idl': [Include('IRoot.idl'), Const('uint8', 'KT', '1'), Iface('IT', 'IRoot', tuple(ms[h:]))],
                        'IRoot.idl': list(TYPES) + [sigs.IOBJ, Iface('IRoot', None, tuple(ms[:h]))]})
    # everything in one file named after the derived interface
    return Program({'IT.idl': list(TYPES) + [sigs.IOBJ, Iface('IRoot', None, tuple(ms[:h])), Iface('IT', 'IRoot', tuple(ms[h:]))]})


def leaves(prog, t, pre='', off=0):
    r = []
    for f, ft, n in prog.structs[t[1]].fields:
        for i in range(n):
            path = pre + f + (f'[{i}]' if n > 1 else '')
            if ft[0] == 'p':
                r.append(f'{path}:{ft[1]}:{off}')
            else:
                r += leaves(prog, ft, path + '.', off)
            off += prog.size(ft)
    return r


def plan(prog, iface):
    out = []
    for _, m, op in prog.methods(iface):
        t = [iface, m.name, op, len(m.params)]
        for p in m.params:
            lv = leaves(prog, p.type) if p.type[0] == 's' else []
            t += [p.dir, prog.pkind(p), 'uint8' if p.type[0] == 'b' else p.type[1] if p.type[0] == 'p' else '-',
                  16 if p.type[0] == 'o' else prog.elsize(p), p.arr or 0, len(lv), *lv]
        w = prog.wire(m)
        for d in ('BI', 'BO'):
            t.append(len(w[d]))
            for s in w[d]:
                if s[0] == 'bundle':
                    t += ['B', s[1], len(s[2])] + [x for e in s[2] for x in e]
                else:
                    t += ['P', s[1]]
        for d in ('OI', 'OO'):
            t.append(len(w[d]))
            for i, o in w[d]:
                t += [i, o // 16]
        out.append(' '.join(map(str, t)))
    return out


_drv = {}


def driver():
    if 'd' not in _drv:
        d = K.newdir('jdrv')
        rc, so, se = jrt.javac([os.path.join(K.VERIF, 'mc', 'javadrive', 'Drive.java')], d, werror=False)
        if rc != 0:
            raise K.CheckError('Drive.java: ' + se[-2000:])
        _drv['d'] = d
    return _drv['d']


class R:
    def __init__(self):
        self.viol, self.build, self.runs, self.vals, self.methods = [], [], 0, 0, 0


def run_batch(item):
    ws, shape, wide, pairs = item
    r = R()
    d = K.newdir('jw')
    try:
        prog = program(ws, shape)
        for f, t in prog.texts().items():
            K.write(os.path.join(d, f), t)
        os.makedirs(os.path.join(d, 'J'))
        err = None
        for f in prog.files:
            rc, e = K.idlc(f, 'J', '--java', cwd=d)
            if rc != 0:
                err = f'idlc {f} exit {rc}: {e.strip()[-500:]}'
        if not err:
            js = [os.path.join('J', x) for x in sorted(os.listdir(os.path.join(d, 'J')))]
            rc, so, se = jrt.javac(js, 'O', cwd=d)
            if rc != 0:
                err = 'javac: ' + ' '.join(se.split())[:600]
        if err:
            if len(ws) == 1:
                r.build.append((ws[0], err, shape))
                return r
            for part in (ws[:len(ws) // 2], ws[len(ws) // 2:]):
                q = run_batch((part, shape, wide, pairs))
                r.viol += q.viol
                r.build += q.build
                r.runs += q.runs
                r.vals += q.vals
                r.methods += q.methods
                if len(r.build) > 2:
                    break
            return r
        K.write(os.path.join(d, 'plan'), '\n'.join(plan(prog, 'IT')) + '\n')
        rc, so, se = jrt.java('Drive', driver() + ':' + os.path.join(d, 'O'), 'plan', 'wide' if wide else 'narrow', str(pairs), cwd=d, timeout=600)
        done = False
        for l in so.splitlines():
            if l.startswith('V '):
                mi = int(l.split()[2][1:])
                r.viol.append((ws[mi], l, shape))
            elif l.startswith('DONE'):
                kv = dict(x.split('=') for x in l.split()[1:])
                r.runs, r.vals, done = int(kv['runs']), int(kv['valuations']), True
        r.methods = len(ws)
        if not done:
            raise K.CheckError(f'Java driver ended with {rc}: {so[-300:]} {se[-1500:]}')
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(chk):
    K.build_idlc()
    jrt.runtime_classes()
    driver()
    ws = list(valid_words(chk.quick))
    nodes = set()
    for w in ws:
        nodes.update(w[:i] for i in range(len(w) + 1))
    items, n = [], 60
    parts = [ws[i:i + n] for i in range(0, len(ws), n)]
    for i, b in enumerate(parts):
        for s in ((i % 3,) if chk.quick else (0, 1, 2)):
            items.append((b, s, not chk.quick or max(map(len, b)) <= 1, 3 if chk.quick else 8))

    def go(it):
        return None if chk.late() or chk.nviol > 12 else run_batch(it)
    methods = 0
    for r in K.pmap(go, items):
        if r is None:
            continue
        methods += r.methods
        chk.add(transitions=r.runs)
        chk.notes['valuations'] = chk.notes.get('valuations', 0) + r.vals
        for w, msg, s in r.build:
            # what does not compile at all is judged by C11; here it only means that no call can be made
            chk.violation(f'generated Java for method{sigs.wtext(w)} cannot be used: {msg}', key='build ' + sigs.wtext(w), word=w, shape=s, idl=program([w], s).texts())
        for w, l, s in r.viol:
            chk.violation(f'method{sigs.wtext(w)}: {l[2:]}', key=f'{sigs.wtext(w)} {l.split(" :: ")[-1]}', word=w, shape=s, observation=l, idl=program([w], s).texts())
    chk.add(states=len(nodes), traces_validated_against_impl=methods)
    chk.notes['signatures'] = len(ws)
    for w in ws[:2] + ws[len(ws) // 2:len(ws) // 2 + 3] + ws[-2:]:
        chk.sample('method' + sigs.wtext(w)[:300])
    return ('every signature of the enumerated alphabet (mc/checks/javawire.py) without objects in structs, in three arrangements of files; '
            'each valuation (every choice of every parameter, all pairs of choices, all at once) is driven through the generated Proxy alone, '
            'the generated MinkObject alone, and both together, and compared with the wire model; errors in both directions')


def replay(rec):
    w = rec.get('word')
    if not w:
        print(rec['what'])
        return 2
    w = tuple(tuple(x) for x in w)
    K.build_idlc()
    r = run_batch(([w], rec['shape'], True, 8))
    for x in r.viol + r.build:
        print(x)
    return 1 if r.viol or r.build else 0
