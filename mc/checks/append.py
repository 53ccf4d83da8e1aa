"""C15: every append-only history within bounds. States are revisions of a file set, transitions
append a member to the end of an interface or a declaration anywhere at file level. On every edge
the generated code of the old methods is compared, and the stubs and skeletons of the two
revisions are run against each other."""
import itertools
import os
import re
import shutil
from .. import common as K
from .. import front, glue
from ..idl import *

SA = Struct('SA', (('x', P('uint32'), 1), ('y', P('uint32'), 1)))
SB = Struct('SB', (('z', P('uint64'), 3),))
SO = Struct('SO', (('o', O(), 1), ('w', P('uint64'), 2)))
IOBJ = Iface('IObj', None, (Method('ping'),))


def pr(*xs):
    r = []
    for i, x in enumerate(xs):
        d, k = x.split(' ')
        arr = None
        if '[' in k:
            k, a = k[:-1].split('[')
            arr = int(a or 0)
        t = BUF if k == 'buffer' else O() if k == 'interface' else O('IObj') if k == 'IObj' else P(k) if k in PRIMS else S(k)
        r.append(Param(d, t, arr, f'p{i}'))
    return tuple(r)


ALPHA = Method('alpha', pr('in uint8', 'in uint32', 'out uint16', 'out SA'))
BETA = Method('beta', pr('in buffer', 'out uint32[]'), True)
GAMMA = Method('gamma', pr('out IObj'))
DELTA = Method('delta', pr('in SO', 'out interface', 'in SB', 'in uint16', 'in uint64'))
DELTA2 = Method('delta', pr('in SB', 'out interface', 'in SA', 'in uint16', 'in uint64', 'out SB[]', 'out buffer'))
EPSI = Method('epsi', (), True)
ZETA = Method('zeta', pr('in interface[2]', 'out SB[]', 'out SO', 'out uint8'))
ETA = Method('eta', pr('in float64', 'out float32', 'out int64', 'out uint8', 'in IObj'))
THETA = Method('theta', pr('in SB', 'in SA', 'in uint16[]', 'out IObj[3]'), True)

BASES = {
    'one file': {'main.idl': (Const('uint8', 'FC', '3'), SA, SB, SO, IOBJ,
                              Iface('IRoot', None, (Const('uint32', 'RC', '7'), ALPHA, Error('RA'), BETA, GAMMA)),
                              Iface('ILeaf', 'IRoot', (Error('LA'), DELTA, EPSI, Const('int16', 'LC', '-7'), ZETA)),
                              Iface('IAlone', None, (ETA,)))},
    'two files, three levels': {'main.idl': (Include('lib.idl'), Iface('IMid', 'IRoot', (Error('MA'),)), Iface('ILeaf', 'IMid', (ETA, Error('LA'), THETA))),
                                'lib.idl': (SA, IOBJ, Iface('IRoot', None, (ALPHA, EPSI)), SO, SB)},
    'derived first, ends in optional': {'main.idl': (Iface('ILeaf', 'IRoot', (ZETA, BETA)), Iface('IErr', None, (Error('EA'), Error('EB'))),
                                                     Iface('IRoot', None, (GAMMA, THETA)), IOBJ, SO, SB, SA)},
    'no objects in structs': {'main.idl': (Include('lib.idl'), Iface('IRoot', None, (Error('RA'), DELTA2, BETA)), Iface('ILeaf', 'IRoot', (ETA, Error('LA'), ALPHA, THETA))),
                              'lib.idl': (SA, IOBJ, SB)},
}

MEMBERS = {
    'method()': lambda n: Method(f'nw{n}'),
    'method(many)': lambda n: Method(f'nw{n}', pr('in uint64', 'in uint8', 'out SA', 'out uint16', 'in buffer', 'out interface')),
    'optional method': lambda n: Method(f'nw{n}', pr('out buffer'), True),
    'method(objects)': lambda n: Method(f'nw{n}', pr('in SO', 'in IObj', 'out IObj[2]', 'in SB')),
    'error': lambda n: Error(f'NwErr{n}'),
    'const': lambda n: Const('uint32', f'NWC{n}', str(n)),
}


def decls(n, bases):
    yield 'const', Const('uint64', f'AAC{n}', '9'), ()
    yield 'struct', Struct(f'AA{n}', (('a', P('uint8'), 5),)), ()
    yield 'struct with object', Struct(f'ZZ{n}', (('b', S('SO'), 1), ('a', O(), 1))), ()
    yield 'interface', Iface(f'IAaa{n}', None, (Method('zeta', pr('in uint8')), Error('RA'), Method('alpha', pr('out buffer')), Method('eta', ()), Error('LA'))), ()
    for b in bases:
        yield f'interface : {b}', Iface(f'IZder{n}', b, (Method(f'nw{n}', pr('in SB', 'out uint8')), Error(f'NwErr{n}'))), ()
    yield 'include', Include(f'inc{n}.idl'), ((f'inc{n}.idl', (Struct(f'AI{n}', (('a', P('int16'), 3),)), Iface(f'IInc{n}', None, (Error('EA'), Method('gamma', pr('in AI' + str(n))))))),)


def actions(st, n):
    """the appends possible in a state: (name, new state, interface appended to or None, kind)"""
    for f, ds in st.items():
        if f.startswith('inc'):
            continue
        for i, d in enumerate(ds):
            if isinstance(d, Iface) and not d.name.startswith(('IAaa', 'IZder')) and d.name != 'IObj':
                for k, mk in MEMBERS.items():
                    m = mk(n)
                    if k == 'method(objects)' and not any(isinstance(x, Struct) and x.name == 'SO' for y in st.values() for x in y):
                        m = Method(m.name, m.params[1:])
                    yield f'{k} at the end of {d.name}', {**st, f: ds[:i] + (Iface(d.name, d.base, d.members + (m,)),) + ds[i + 1:]}, d.name, k
        ifs = [d.name for d in ds if isinstance(d, Iface) and d.name in ('IRoot', 'ILeaf', 'IErr')]
        for what, x, new in decls(n, ifs):
            if what == 'struct with object' and not any(isinstance(x, Struct) and x.name == 'SO' for y in st.values() for x in y):
                continue
            k = sum(isinstance(x, Include) for x in ds)    # includes come first
            for pos in sorted({0, k}) if what == 'include' else sorted({k, (k + len(ds)) // 2, len(ds)}):
                if what.startswith('interface :') and pos == (k + len(ds)) // 2:
                    continue
                yield f'{what} in {f} at {pos}', {**st, f: ds[:pos] + (x,) + ds[pos:], **dict(new)}, None, what


def growth(a, b):
    """the interfaces of revision a which have gained a method / an error in revision b"""
    r = []
    for T in (Method, Error):
        r.append({n for n, i in a.ifaces.items() if sum(isinstance(x, T) for x in i.members) != sum(isinstance(x, T) for x in b.ifaces[n].members)})
    return r


def unprotected(a, b):
    """methods and errors of a whose numbers may move: those of descendants of a grown interface"""
    gm, ge = growth(a, b)
    free_m, free_e, desc = set(), set(), set()
    for n in a.ifaces:
        up = {x.name for x in a.chain(n)[:-1]}
        if up & gm:
            free_m |= {m.name for m in a.ifaces[n].members if isinstance(m, Method)}
            desc.add(n)
        if up & ge:
            free_e |= {m.name for m in a.ifaces[n].members if isinstance(m, Error)}
    return free_m, free_e, desc


# ------------------------------------------------------------------ generated text

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'[^\'\n]{1,4}\'|r#\w+|\w+|\\\n|\n|\s+|.', re.S)


def chunks(text, names):
    """{name: [normalised definition]}: the innermost-enclosing definitions - a header and its braces,
    a statement, a #define - whose header names a method or error"""
    toks = []
    pp = False
    for m in TOK.finditer(text):
        t = m.group(0)
        if t == '\n':
            if pp:
                toks.append('\n')
                pp = False
        elif t.isspace() or t.startswith(('//', '/*', '\\')):
            pass
        else:
            if t == '#' and not pp and (not toks or toks[-1] == '\n' or '\n' in text[max(0, m.start() - 1):m.start()]):
                pp = True
                toks.append('\n')
            toks.append(t)
    out = {}

    def owner(h):
        r = {own[t] for t in h if t in own}
        return r.pop() if len(r) == 1 else None
    own = {}
    for t in set(toks):
        b = t[2:] if t.startswith('r#') else t
        for n in names:
            if b == n or b.endswith('_' + n) or b.lower() == n.lower() or b.lower().endswith('_' + n.lower()):
                own[t] = n
    i = 0
    stack = []
    head = []
    while i < len(toks):
        t = toks[i]
        if t == '{':
            o = owner(head)
            if o:
                depth, j = 0, i
                while j < len(toks):
                    depth += (toks[j] == '{') - (toks[j] == '}')
                    if depth == 0:
                        break
                    j += 1
                out.setdefault(o, []).append(norm(head + toks[i:j + 1]))
                i = j + 1
            else:
                i += 1
            head = []
            continue
        if t in ('}', ';', '\n'):
            o = owner(head) if t != '}' else None
            if o:
                out.setdefault(o, []).append(norm(head))
            head = []
        else:
            head.append(t)
        i += 1
    return out


def norm(ts):
    ts = [t for t in ts if t != '\n']
    while ts and (ts[0] in ',:)' or ts[0].startswith('__') and ts[1:2] != ['('] or ts[0] in ('public', 'protected', 'private', 'virtual')):
        ts = ts[1:]
    return ' '.join(ts)


_exe = [None]
BACKS = ('c', 'cs', 'cus', 'p', 'ps', 'r', 'j')


def outputs(prog, backs=BACKS):
    """{(source file, backend, output): text} or (None, why)"""
    d = K.newdir('o')
    try:
        front.put(d, prog.texts())
        r = {}
        for f in prog.files:
            for b in backs:
                o = front.one(_exe[0], d, f, b)
                if o.rc != 0 and b == 'j' and any(prog.has_objects(S(n)) for n in prog.structs):
                    continue      # not supported there
                if o.rc != 0:
                    return None, f'{b} {f}: {o.err[-200:]}'
                for n, t in o.files.items():
                    r[f, b, n] = t.decode('utf-8', 'replace')
        return r, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def names_of(prog):
    return {m.name for i in prog.ifaces.values() for m in i.members if isinstance(m, (Method, Error))} - {'ping'}


def compare(a, oa, b, ob):
    """violations on the edge a -> b"""
    fm, fe, _ = unprotected(a, b)
    keep = names_of(a) - fm - fe
    bad, n = [], 0
    for key, ta in oa.items():
        if key not in ob:
            if key[1] == 'j' and any(b.has_objects(S(n)) for n in b.structs):
                continue
            bad.append((f'{key[1]}: {key[2]} of {key[0]} is no longer generated', f'{key[1]} {key[2]} missing'))
            continue
        if ta == ob[key]:
            n += len(keep)
            continue
        ca, cb = chunks(ta, keep), chunks(ob[key], keep)
        for name, xs in ca.items():
            have = list(cb.get(name, ()))
            for x in xs:
                n += 1
                if x in have:
                    have.remove(x)
                else:
                    bad.append((f'{key[1]}: generated code of {name} in {key[0]}{"" if key[2] == "out" else " (" + key[2] + ")"} changed: `{x[:700]}` is now '
                                f'`{min(have or [""], key=lambda y: -common(x, y))[:700]}`', f'{key[1]} {name}'))
    return bad, n


def common(x, y):
    n = 0
    for p, q in zip(x.split(), y.split()):
        n += p == q
    return n


def expand(job):
    """one state of the text exploration: its children, compared with it"""
    path, st, depth = job
    a = Program(st)
    oa, why = outputs(a)
    if oa is None:
        return path, [], [], [(path, why)], 0
    kids, bad, rej, trans = [], [], [], 0
    for what, sb, ifc, kind in actions(st, depth):
        b = Program(sb)
        ob, why = outputs(b)
        p = path + (what,)
        if ob is None:
            rej.append((p, why))
            continue
        v, n = compare(a, oa, b, ob)
        trans += n
        bad += [(p, x, k, st, sb) for x, k in v[:3]]
        kids.append((p, sb, ifc, kind))
    return path, kids, bad, rej, trans


# ------------------------------------------------------------------ behaviour across revisions

LANGS_C = '''#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
struct L { const char *n; void *stub, *skel; } h_langs[%d]; int h_nlangs = %d;
static const char *names[] = {%s};
static char nm[32][8];
__attribute__((constructor)) static void init(void) {
  int k = 0;
  for (int r = 0; r < 2; r++) {
    char v[8]; snprintf(v, sizeof v, "LIB%%d", r);
    void *h = dlopen(getenv(v), RTLD_NOW | RTLD_LOCAL);
    if (!h) { printf("HARNESS %%s\\n", dlerror()); exit(9); }
    for (int i = 0; i < %d; i++, k++) { char s[32];
      snprintf(nm[k], 8, "%%s%%d", names[i], r); h_langs[k].n = nm[k];
      snprintf(s, sizeof s, "stub_%%s", names[i]); h_langs[k].stub = dlsym(h, s);
      snprintf(s, sizeof s, "skel_%%s", names[i]); h_langs[k].skel = dlsym(h, s);
      if (!h_langs[k].stub || !h_langs[k].skel) { printf("HARNESS %%s\\n", s); exit(9); } } }
}
'''


class Rev:
    """the generated code of one revision: a library of its stubs and skeletons, and the explorer
    with the reference tables of that revision"""

    def __init__(self, st, ifaces):
        self.prog = prog = Program(st)
        self.ifaces = ifaces
        self.d = d = K.newdir('v')
        rt = K.runtime()
        H = glue.HARN
        glue.gen(prog, d, glue.LANGS, exe=_exe[0])
        stems = [os.path.splitext(os.path.basename(f))[0] for f in prog.files]
        fl = [*glue.CFLAGS, '-fPIC', '-I', H, '-I', rt['c'], '-I', '.']
        exp = '\n__attribute__((visibility("default"))) '
        jobs, objs = [], []
        for l in glue.LANGS:
            if l in ('C', 'CU'):
                K.write(os.path.join(d, f'glue_{l}.c'), glue.c_glue(prog, ifaces, l, l == 'C', [f'{l}/{s}_invoke.h' for s in stems]))
                jobs.append(['clang', *fl, '-I', l, '-c', f'glue_{l}.c', '-o', f'{l}.o'])
                objs.append(f'{l}.o')
            elif l == 'CPP':
                K.write(os.path.join(d, 'glue_CPP.cpp'), glue.cpp_glue(prog, ifaces, l, [f'{l}/{s}_invoke.hpp' for s in stems]))
                jobs.append(['clang++', *fl, '-fno-exceptions', '-I', rt['cpp'], '-I', l, '-c', 'glue_CPP.cpp', '-o', 'CPP.o'])
                objs.append('CPP.o')
            else:
                mods = sorted((f[:-3], os.path.join(d, 'RS', f)) for f in os.listdir(os.path.join(d, 'RS')))
                K.write(os.path.join(d, 'glue_RS.rs'), glue.rs_glue(prog, ifaces, l, mods, rt['rust']))
                jobs.append(['rustc', '--edition', '2021', '--crate-type', 'staticlib', '--crate-name', 'glue', '--cfg', 'feature="std"',
                             '--cap-lints', 'allow', '-C', 'debuginfo=0', '-C', 'panic=abort', '-C', 'codegen-units=1', '-C', 'debug-assertions=on', 'glue_RS.rs', '-o', 'libglue.a'])
                objs += ['-Wl,-u,stub_RS', '-Wl,-u,skel_RS', 'libglue.a']
        K.write(os.path.join(d, 'v.map'), '{ global: stub_*; skel_*; local: *; };')
        K.write(os.path.join(d, 'tables.c'), glue.tables(prog, ifaces, ()).split('const Lang h_langs[]')[0])
        n = len(glue.LANGS)
        K.write(os.path.join(d, 'langs.c'), LANGS_C % (2 * n, 2 * n, ','.join(f'"{l}"' for l in glue.LANGS), n))
        jobs.append(['clang', *glue.CFLAGS, '-I', H, '-I', rt['c'], '-rdynamic', 'tables.c', 'langs.c', glue.driver_obj(), '-o', 'explore', '-ldl'])
        jobs.append(['clang++', '-shared', '-Wl,-Bsymbolic', '-Wl,--version-script=v.map', '-Wl,--gc-sections', '-o', 'lib.so', *objs, '-lpthread', '-ldl', '-lm'])
        for j in jobs:
            rc, so, se = K.sh(j, timeout=300, cwd=d)
            if rc != 0:
                raise glue.BuildFail('compile', ' '.join(j[:1] + j[-3:]) + '\n' + glue.first_errors(se))
        for x in os.listdir(d):
            if x not in ('explore', 'lib.so'):
                p = os.path.join(d, x)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)

    def drop(self):
        shutil.rmtree(self.d, ignore_errors=True)


def interoperate(a, b):
    """stubs of each revision on skeletons of the other -> (violations, transitions)"""
    _, _, desc = unprotected(a.prog, b.prog)
    env = {**K.ENV, 'LIB0': os.path.join(a.d, 'lib.so'), 'LIB1': os.path.join(b.d, 'lib.so')}
    skip = 'skip=' + ','.join(desc)
    bad, n = [], 0
    old = 'old=' + ','.join(str(len(a.prog.methods(i))) for i in a.ifaces)
    for cmd in ([os.path.join(a.d, 'explore'), 'call', 'mixed', 'cap=24', skip], [os.path.join(b.d, 'explore'), 'unknown', old, skip]):
        rc, so, se = K.sh(cmd, timeout=300, cwd=a.d, env=env)
        for l in so.splitlines():
            if l.startswith('V ') or l.startswith('CRASH'):
                bad.append((l, cmd[1] + ' ' + l.split(' :: ')[-1]))
            elif l.startswith('DONE'):
                n += int(re.search(r'calls=(\d+)', l).group(1))
            elif l.startswith('HARNESS'):
                raise K.CheckError(l)
        if rc not in (0, 1) and not bad:
            raise K.CheckError(f'explorer ended with {rc} {so[-300:]} {se[-300:]}')
    return bad, n


def names_in(st):
    return [d.name for ds in st.values() for d in ds if isinstance(d, Iface)]


def family(job):
    """one base revision and the revisions reachable from it: build each once, run every edge given"""
    base, root, kids, grand = job
    ifs = names_in(root)
    bad, n, fails, edges = [], 0, [], 0
    try:
        a = Rev(root, ifs)
    except glue.BuildFail as e:
        return base, [], 0, [(('base',), str(e))], 0
    try:
        for path, st in kids:
            try:
                b = Rev(st, ifs)
            except glue.BuildFail as e:
                fails.append((path, str(e)))
                continue
            try:
                v, k = interoperate(a, b)
                edges += 1
                n += k
                bad += [(path, x, key, root, st) for x, key in v[:3]]
                for p2, st2 in grand.get(path, ()):
                    try:
                        c = Rev(st2, ifs)
                    except glue.BuildFail as e:
                        fails.append((p2, str(e)))
                        continue
                    try:
                        for x, y, xs in ((a, c, root), (b, c, st)):
                            v, k = interoperate(x, y)
                            edges += 1
                            n += k
                            bad += [(p2, t, key, xs, st2) for t, key in v[:3]]
                    finally:
                        c.drop()
            finally:
                b.drop()
            if len(bad) > 20:
                break
    finally:
        a.drop()
    return base, bad, n, fails, edges


def run(chk):
    _exe[0] = K.build_idlc()
    glue.driver_obj()
    seen, edges, trans, rejected = set(), 0, 0, []
    reported = set()

    def report(path, text, key, sa, sb):
        k = key + ' after ' + ' | '.join(path[-1:])
        if (key, path[-1]) in reported:
            return
        reported.add((key, path[-1]))
        chk.violation(f'base "{path[0]}", appended: {" | ".join(path[1:])}\n{text}', key=f'{" | ".join(path)} {key}',
                      old=Program(sa).texts(), new=Program(sb).texts(), base=path[0], path=path[1:])
    # text, breadth first
    level = [((b,), st, 1) for b, st in BASES.items()]
    kids1 = {b: [] for b in BASES}
    kids2 = {}
    for depth in range(1, 3 if chk.quick else 4):
        nxt = []
        for path, kids, bad, rej, t in K.pprocmap(expand, level, 1):
            seen.add(path)
            trans += t
            for r in rej:
                rejected.append(r)
            for p, x, k, sa, sb in bad:
                report(p, x, k, sa, sb)
            for p, sb, ifc, kind in kids:
                edges += 1
                seen.add(p)
                if depth == 1:
                    kids1[p[0]].append((p, sb))
                elif depth == 2:
                    kids2.setdefault(p[:-1], []).append((p, sb, ifc, kind))
                nxt.append((p, sb, depth + 1, ifc))
            if chk.late():
                break
        if depth == 2:   # third appends: after two appends to one interface or file-level ones at the very end
            nxt = [x for x in nxt if x[0][1].split(' at ')[0] in ('method(many)', 'optional method', 'error', 'interface in main.idl', 'struct in main.idl')]
        level = [(p, sb, d) for p, sb, d, i in nxt] if not chk.late() else []
    chk.add(states=len(seen), transitions=trans)
    chk.notes.update(revisions=len(seen), edges_compared=edges)
    if edges < 100 and not chk.nviol:
        raise K.CheckError('almost no revision is accepted: ' + str(rejected[:2]))
    # behaviour
    jobs = []
    for b, root in BASES.items():
        ks = kids1[b]
        grand = {}
        for p, st in ks:
            g = []
            for p2, st2, ifc, kind in kids2.get(p, ()):
                m1, m2 = p[1], p2[2]
                leaf = ifc == 'ILeaf' and m1.endswith(' of ILeaf')
                if leaf and (not chk.quick or b == 'one file' and 'method' in m1 + m2) or not chk.quick and ifc == 'IRoot' and m1.endswith(' of IRoot'):
                    g.append((p2, st2))
            grand[p] = g
        size = 6
        for i in range(0, len(ks), size):
            part = ks[i:i + size]
            for j in range(0, len(part), size):
                jobs.append((b, root, part[j:j + size], {p: grand[p] for p, _ in part[j:j + size]}))
    jobs.sort(key=lambda j: -sum(len(g) for g in j[3].values()))
    ran = 0

    def one(j):
        return None if chk.late() else family(j)
    for r in K.pmap(one, jobs):
        if r is None:
            continue
        b, bad, n, fails, e = r
        chk.add(transitions=n)
        ran += e
        for p, x, k, sa, sb in bad:
            report(p, x, k, sa, sb)
        for p, why in fails:
            chk.notes.setdefault('not_buildable', []).append(f'{" | ".join(p)}: {why[:200]}')
    if not ran and not chk.nviol:
        raise K.CheckError('no revision builds: ' + str(chk.notes.get('not_buildable', [])[:1]))
    chk.add(traces_validated_against_impl=ran)
    chk.notes.update(revision_pairs_run=ran, revisions_rejected=[f'{" | ".join(p)}: {w}' for p, w in rejected[:20]])
    for p in sorted(seen)[::max(1, len(seen) // 8)]:
        chk.sample(' | '.join(p))
    return ('breadth-first exploration of append-only histories from the bases of mc/checks/append.py: every member kind at the end of every interface, every declaration kind at the '
            'start, middle and end of every file; on every edge the definitions of the old methods and errors in every backend must reappear unchanged (except in descendants of the '
            'interface which grew), and stubs of either revision are run on skeletons of the other (all values within the cap, C, untyped C, C++, Rust and the reference), including '
            'new methods on old skeletons, which must fail without entering the implementation')


def replay(rec):
    _exe[0] = K.build_idlc()
    glue.driver_obj()
    root = BASES[rec['base']]
    sts, path = [root], rec['path']
    for n, what in enumerate(path, 1):
        sts.append({w: s for w, s, _, _ in actions(sts[-1], n)}[what])
    rc = 0
    for i in range(len(sts)):
        for j in range(i + 1, len(sts)):
            a, b = Program(sts[i]), Program(sts[j])
            for x in compare(a, outputs(a)[0], b, outputs(b)[0])[0]:
                print(x[0])
                rc = 1
            ra, rb = Rev(sts[i], names_in(root)), Rev(sts[j], names_in(root))
            for x in interoperate(ra, rb)[0]:
                print(x[0])
                rc = 1
    return rc
