"""C12: include graphs and search paths, all of them within bounds, against a resolution model."""
import itertools
import os
import shutil
from .. import common as K
from .. import front, lang

BACKS = ('c', 'ps', 'r', 'j')


def unit(tag, incs=(), extra=''):
    """a file declaring one struct named after itself"""
    return ''.join(f'include "{i}"\n' for i in incs) + f'struct U_{tag} {{ uint8 x; }};\n' + extra


class Case:
    __slots__ = ('name', 'files', 'links', 'main', 'dirs', 'cwd', 'mk', 'spell', 'tags')

    def __init__(self, name, files, main, dirs=(), links=None, cwd='.', mk=(), spell=None, tags=None):
        self.name, self.files, self.main, self.dirs = name, files, main, tuple(dirs)
        self.links, self.cwd, self.mk, self.spell = links or {}, cwd, mk, spell
        # types whose visibility is probed
        self.tags = tags if tags is not None else [t.split('struct U_', 1)[1].split(' ', 1)[0] for p, t in files.items() if p != main and 'struct U_' in t]


# ------------------------------------------------------------------ families

def search_order(quick):
    """One or two bare includes; every subset of directories holding the file; every -I list;
    every spelling of the main file."""
    lists = [x for k in range(0, 4) for x in itertools.product(('d0', 'd1', 'd2'), repeat=k)]
    if quick:
        lists = [x for x in lists if len(x) < 3 or len(set(x)) == 3]
    for have in itertools.product((0, 1), repeat=3):
        fs = {f'd{i}/a.idl': unit(f'a{i}') for i in range(3) if have[i]}
        for ls in lists:
            for sp in ((0, 1, 2) if len(ls) < 2 or not quick else ((len(ls) + sum(have)) % 3,)):
                c = Case(f'bare include, present in {have}, -I {ls}, spelling {sp}', {'d0/main.idl': unit('main', ['a.idl']), **fs}, 'd0/main.idl', ls, mk=('d1', 'd2'), spell=sp)
                yield c


def shadow(quick):
    """main includes a (bare or by path), every copy of a includes b (bare or by path); every
    placement of both in three directories."""
    lists = [(), ('d1',), ('d2',), ('d1', 'd2'), ('d2', 'd1'), ('d2', 'd0')]
    for ha in itertools.product((0, 1), repeat=3):
        for hb in itertools.product((0, 1), repeat=3):
            if not any(ha):
                continue
            for fa in ('a.idl', './a.idl', '../d1/a.idl', '../d2/../d1/a.idl'):
                for fb in ('b.idl', './b.idl', '../d2/b.idl'):
                    fs = {'d0/main.idl': unit('main', [fa])}
                    for i in range(3):
                        if ha[i]:
                            fs[f'd{i}/a.idl'] = unit(f'a{i}', [fb])
                        if hb[i]:
                            fs[f'd{i}/b.idl'] = unit(f'b{i}')
                    for ls in lists:
                        yield Case(f'a in {ha} as {fa}, b in {hb} as {fb}, -I {ls}', fs, 'd0/main.idl', ls, mk=('d1', 'd2'))


def graphs(n, loops=True, orders=(1,), maxedges=99):
    """every digraph over n files of one directory"""
    names = ['main'] + [chr(97 + i) for i in range(n - 1)]
    edges = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for bits in range(1 << len(edges)):
        if bin(bits).count('1') > maxedges:
            continue
        es = [e for k, e in enumerate(edges) if bits >> k & 1]
        for o in orders:
            fs = {}
            for i in range(n):
                inc = [names[j] + '.idl' for a, j in es if a == i][::o]
                fs[names[i] + '.idl'] = unit(names[i], inc)
            # probing one type per graph is enough to see a reachable file missing; all for small n
            tags = names[1:] if n <= 3 else [names[1 + bits % (n - 1)]]
            yield Case(f'graph {[(names[a], names[b]) for a, b in es]} order {o}', fs, 'main.idl', tags=tags)


def spelled(quick):
    """three files in three directories; every edge absent, bare, by relative path or by symlink"""
    names = ['main', 'a', 'b']
    where = {'main': 'd0', 'a': 'd1', 'b': 'd2'}
    edges = [(i, j) for i in range(3) for j in range(3) if i != j]
    loops = [(i, i) for i in range(3)]
    for w in itertools.product(range(3 if quick else 4), repeat=len(edges)):
        for lp in [None] + (loops if sum(w) % 5 == 0 or not quick else []):
            fs, links = {}, {}
            for i in range(3):
                inc = []
                for (a, b), how in list(zip(edges, w)) + ([(lp, 2)] if lp else []):
                    if a != i or not how:
                        continue
                    t = names[b]
                    if how == 1:
                        inc.append(f'{t}.idl')
                    elif how == 2:
                        inc.append(f'../{where[t]}/{t}.idl')
                    else:
                        links[f'{where[names[i]]}/ln_{t}.idl'] = f'{where[t]}/{t}.idl'
                        inc.append(f'./ln_{t}.idl')
                fs[f'{where[names[i]]}/{names[i]}.idl'] = unit(names[i], inc)
            yield Case(f'edges {w} loop {lp}', fs, 'd0/main.idl', ('d1', 'd2'), links, tags=('a', 'b'))


def once():
    """one file reached by many spellings"""
    sp = ['a.idl', './a.idl', 'sub/../a.idl', '../d0/a.idl', 'ln.idl', 'sub/ln2.idl', './ln.idl', './/a.idl', 'sub/.././a.idl']
    links = {'d0/ln.idl': 'd0/a.idl', 'd0/sub/ln2.idl': 'd0/a.idl'}
    for x, y in itertools.product(sp, repeat=2):
        yield Case(f'{x} and {y} name one file', {'d0/main.idl': unit('main', [x, y]), 'd0/a.idl': unit('a'), 'd0/sub/z.idl': unit('z')}, 'd0/main.idl', (), links)
        yield Case(f'{x} and, through b, {y} name one file', {'d0/main.idl': unit('main', [x, 'b.idl']), 'd0/b.idl': unit('b', [y]), 'd0/a.idl': unit('a'), 'd0/sub/z.idl': unit('z')}, 'd0/main.idl', (), links)
        back = {'d0/main.idl': unit('main', [x]), 'd0/a.idl': unit('a', [y.replace('a.idl', 'main.idl').replace('ln.idl', 'lm.idl').replace('ln2.idl', 'lm2.idl')]), 'd0/sub/z.idl': unit('z')}
        yield Case(f'{x}, and back by {y}', back, 'd0/main.idl', (), {**links, 'd0/lm.idl': 'd0/main.idl', 'd0/sub/lm2.idl': 'd0/main.idl'})


def odd():
    m = 'd0/main.idl'
    a = {'d1/a.idl': unit('a1'), 'd2/a.idl': unit('a2')}
    yield Case('directory of that name in an earlier include directory', {m: unit('main', ['a.idl']), **a}, m, ('d3', 'd1'), mk=('d3/a.idl',))
    yield Case('directory of that name in the directory of main', {m: unit('main', ['a.idl'])}, m, (), mk=('d0/a.idl',))
    yield Case('directory of that name beside a file found later', {m: unit('main', ['a.idl']), **a}, m, ('d3', 'd2', 'd1'), mk=('d3/a.idl', 'd0/a.idl'))
    yield Case('directory reached by a path', {m: unit('main', ['./a.idl'])}, m, ('d1',), mk=('d0/a.idl',))
    yield Case('nonexistent include directory first', {m: unit('main', ['a.idl']), **a}, m, ('nope', 'd2', 'd1'))
    yield Case('dangling link earlier', {m: unit('main', ['a.idl']), **a}, m, ('d3', 'd2'), {'d3/a.idl': 'd3/none.idl'}, mk=('d3',))
    yield Case('include directory with slash', {m: unit('main', ['a.idl']), **a}, m, ('d2/', 'd1'))
    yield Case('include directory with dots', {m: unit('main', ['a.idl']), **a}, m, ('d1/../d2', 'd1'))
    yield Case('same directory twice', {m: unit('main', ['a.idl']), **a}, m, ('d1', 'd1', 'd2'))
    yield Case('path include not searched', {m: unit('main', ['sub/a.idl']), 'd1/sub/a.idl': unit('a1')}, m, ('d1',))
    yield Case('path include relative to including file only', {m: unit('main', ['../d1/x.idl']), 'd1/x.idl': unit('x', ['sub/a.idl']), 'd1/sub/a.idl': unit('a1'), 'd0/sub/a.idl': unit('a0')}, m, ('d0',))
    yield Case('path include relative to including file only, absent', {m: unit('main', ['../d1/x.idl']), 'd1/x.idl': unit('x', ['sub/a.idl']), 'd0/sub/a.idl': unit('a0')}, m, ('d0',))
    yield Case('bare include of an included file, beside it only', {m: unit('main', ['../d1/x.idl']), 'd1/x.idl': unit('x', ['a.idl']), 'd1/a.idl': unit('a1')}, m, ())
    yield Case('bare include of an included file, beside main', {m: unit('main', ['../d1/x.idl']), 'd1/x.idl': unit('x', ['a.idl']), 'd1/a.idl': unit('a1'), 'd0/a.idl': unit('a0')}, m, ())
    yield Case('broken file nobody includes', {m: unit('main', ['a.idl']), 'd0/a.idl': unit('a'), 'd0/b.idl': 'struct {'}, m, (), tags=('a',))
    yield Case('broken file shadowed', {m: unit('main', ['a.idl']), 'd1/a.idl': unit('a'), 'd2/a.idl': 'struct {', 'd0/a.idl': 'struct {'}, m, ('d1', 'd2'), tags=('a',))
    yield Case('broken file first', {m: unit('main', ['a.idl']), 'd1/a.idl': unit('a'), 'd2/a.idl': 'struct {'}, m, ('d2', 'd1'), tags=('a',))
    yield Case('cycle nobody reaches', {m: unit('main', ['a.idl']), 'd0/a.idl': unit('a'), 'd0/b.idl': unit('b', ['c.idl']), 'd0/c.idl': unit('c', ['b.idl'])}, m)
    yield Case('cycle shadowed', {m: unit('main', ['a.idl']), 'd1/a.idl': unit('a'), 'd0/a.idl': unit('a0', ['main.idl'])}, m, ('d1',))
    yield Case('missing include nobody reaches', {m: unit('main', ['a.idl']), 'd0/a.idl': unit('a'), 'd0/b.idl': unit('b', ['nope.idl'])}, m)
    yield Case('file named like main in an include directory', {m: unit('main', ['a.idl']), 'd1/main.idl': unit('m1'), 'd1/a.idl': unit('a', ['main.idl'])}, m, ('d1',))
    yield Case('file named like main included by main', {m: unit('main', ['main.idl']), 'd1/main.idl': unit('m1')}, m, ('d1',))
    yield Case('file named like main included by main, no -I', {m: unit('main', ['main.idl']), 'd1/main.idl': unit('m1')}, m, ())
    yield Case('same name in two directories, both used', {m: unit('main', ['a.idl', './a.idl']), 'd1/a.idl': unit('a1'), 'd0/a.idl': unit('a0')}, m, ('d1',))
    yield Case('same name nested', {m: unit('main', ['a.idl']), 'd1/a.idl': unit('a1', ['../d2/a.idl']), 'd2/a.idl': unit('a2', ['../d0/a.idl']), 'd0/a.idl': unit('a0')}, m, ('d1',))
    yield Case('same name nested and closed', {m: unit('main', ['a.idl']), 'd1/a.idl': unit('a1', ['../d2/a.idl']), 'd2/a.idl': unit('a2', ['a.idl'])}, m, ('d1',))
    yield Case('name with a blank', {m: unit('main', ['a b.idl']), 'd0/a b.idl': unit('a')}, m)
    yield Case('name with dots', {m: unit('main', ['a.b.idl', '..a.idl', 'x.idl.idl']), 'd0/a.b.idl': unit('a'), 'd0/..a.idl': unit('b'), 'd0/x.idl.idl': unit('c')}, m)
    yield Case('case matters', {m: unit('main', ['A.idl']), 'd0/a.idl': unit('a')}, m)
    yield Case('case matters 2', {m: unit('main', ['A.idl', 'a.idl']), 'd0/a.idl': unit('a'), 'd0/A.idl': unit('A')}, m)
    for n in (2, 20, 120, 400):
        fs = {('d0/main.idl' if i == 0 else f'd0/f{i}.idl'): unit(f'f{i}', [f'f{i + 1}.idl'] if i < n else []) for i in range(n + 1)}
        yield Case(f'chain of {n}', fs, m, tags=(f'f{n}',))
        g = dict(fs)
        g[f'd0/f{n}.idl'] = unit(f'f{n}', ['main.idl'])
        yield Case(f'cycle of {n}', g, m, tags=())
        g[f'd0/f{n}.idl'] = unit(f'f{n}', ['f%d.idl' % max(1, n // 2)])
        yield Case(f'chain of {n} into a cycle', g, m, tags=())
        if n <= 120:   # 2^n paths
            g = {'d0/main.idl': unit('main', ['l1.idl', 'r1.idl'])}
            for i in range(1, n + 1):
                for s in 'lr':
                    g[f'd0/{s}{i}.idl'] = unit(f'{s}{i}', [f'l{i + 1}.idl', f'r{i + 1}.idl'] if i < n else [])
            yield Case(f'ladder of {n}', g, m, tags=(f'l{n}', f'r{n}'))
            g = dict(g)
            g[f'd0/r{n}.idl'] = unit(f'r{n}', ['r1.idl'])
            yield Case(f'ladder of {n} with a cycle', g, m, tags=())
    fs = {m: unit('main', [f'f{i}.idl' for i in range(200)]), **{f'd0/f{i}.idl': unit(f'f{i}', [f'f{j}.idl' for j in range(i)][-3:]) for i in range(200)}}
    yield Case('200 siblings including each other backwards', fs, m, tags=('f0', 'f199'))
    fs = {m: unit('main', ['a.idl'] * 50), 'd0/a.idl': unit('a')}
    yield Case('the same include 50 times', fs, m)


def cases(quick):
    yield from search_order(quick)
    yield from shadow(quick)
    yield from graphs(1)
    yield from graphs(2, orders=(1, -1))
    yield from graphs(3, orders=(1, -1))
    yield from graphs(4, loops=False, orders=(1,) if quick else (1, -1), maxedges=99)
    yield from graphs(4, loops=True, maxedges=5 if quick else 99)
    if not quick:
        yield from graphs(5, loops=False, maxedges=6)
    yield from spelled(quick)
    yield from once()
    yield from odd()


# ------------------------------------------------------------------ running

_exe = [None]


def expect(c, probe=None):
    files = {os.path.normpath(p): t for p, t in c.files.items()}
    if probe:
        files[c.main] += f'interface PZ {{ method pz(in U_{probe} u); }};\n'
    dirs = [os.path.normpath(d) for d in c.dirs]
    v = lang.load(files, c.main, dirs, {k: t for k, t in c.links.items()})
    got, bad = v
    vis = {t.split('struct U_', 1)[1].split(' ', 1)[0] for p in got for t in [files[p]] if 'struct U_' in t}
    return bad, vis


def go(job):
    n, c = job
    d = K.newdir('i')
    bad, runs = [], 0
    try:
        for m in ('d1', 'd2') if c.mk == ('d1', 'd2') else c.mk:
            os.makedirs(os.path.join(d, m), exist_ok=True)
        front.put(d, c.files)
        for l, t in c.links.items():
            os.makedirs(os.path.dirname(os.path.join(d, l)), exist_ok=True)
            os.symlink(os.path.relpath(t, os.path.dirname(l)), os.path.join(d, l))
        problems, vis = expect(c)
        arg, cwd, dirs = c.main, d, list(c.dirs)
        if c.spell == 1:
            arg, cwd = os.path.basename(c.main), os.path.join(d, os.path.dirname(c.main))
            dirs = [os.path.relpath(os.path.join(d, x), cwd) for x in dirs]
        elif c.spell == 2:
            arg, dirs = os.path.join(d, c.main), [os.path.join(d, x) for x in dirs]
        ex = [a for i in dirs for a in ('-I', i)]
        text = c.files[c.main]
        for k, probe in enumerate([None] + list(c.tags)):
            if probe:
                if problems:
                    break
                K.write(os.path.join(d, c.main), text + f'interface PZ {{ method pz(in U_{probe} u); }};\n')
            b = BACKS[(n + k) % 4]
            o = front.one(_exe[0], cwd, arg, b, ex, timeout=60)
            runs += 1
            want = not problems and (probe is None or probe in vis)
            if o.rc == 'timeout' or (isinstance(o.rc, int) and o.rc < 0):
                bad.append((b, probe, f'ended with {o.rc}'))
            elif (o.rc == 0) != want:
                bad.append((b, probe, f'exit {o.rc}, expected {"success" if want else "failure"} (' + ('; '.join(problems[:2]) or (f'U_{probe} is {"" if probe in vis else "not "}visible' if probe else 'everything resolves')) + f'): {o.err.strip()[-200:]}'))
            elif o.rc != 0 and not o.err.strip():
                bad.append((b, probe, 'failed without a diagnostic'))
        if n % 3 == 0 or len(c.files) > 6:
            K.write(os.path.join(d, c.main), text)
            k, r = front.Lib.mine().generate(os.path.join(d, c.main), [os.path.join(d, x) for x in c.dirs] + [os.path.dirname(os.path.join(d, c.main))])
            runs += 1
            if k == 'CRASH' or (k == 'OK') != (not problems):
                bad.append(('library', None, f'{k} {r[:200]}, expected {"success" if not problems else "failure"} ({problems[:2]})'))
        return n, runs, bad, bool(problems)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(chk):
    _exe[0] = K.build_idlc()
    front.build_lib()
    seen, jobs = set(), []
    for c in cases(chk.quick):
        k = (tuple(sorted(c.files.items())), tuple(sorted(c.links.items())), c.main, c.dirs, c.mk, c.spell)
        if k not in seen:
            seen.add(k)
            jobs.append((len(jobs), c))
    nbad = fail = edges = 0
    for n, runs, bad, failing in K.pprocmap(go, jobs, 16):
        c = jobs[n][1]
        chk.add(transitions=runs)
        fail += failing
        edges += sum(t.count('include "') for t in c.files.values())
        for b, probe, how in bad[:1]:
            nbad += 1
            chk.violation(f'{c.name}' + (f', referring to U_{probe}' if probe else '') + f' [{b}]: {how}', key=c.name + (f' {probe}' if probe else ''),
                          case={k: getattr(c, k) for k in Case.__slots__}, backend=b, probe=probe)
        if nbad > 40:
            break
        if n % (len(jobs) // 8) == 0:
            chk.sample(c.name)
    chk.add(states=len(jobs), traces_validated_against_impl=len(jobs))
    chk.notes.update(include_configurations=len(jobs), configurations_that_must_fail=fail, include_edges=edges)
    return ('every include graph over up to 3 files (4 without self-loops, and with them up to 5 edges; thorough: all), in both orders, every spelling (bare, relative, link) of every edge over three directories, '
            'every placement of shadowing copies x -I list x spelling of the main file, every pair of spellings of one file, chains, cycles and 2^n ladders; the resolution model says '
            'whether it must fail and which declarations are visible; visibility is probed by referring to each')


def replay(rec):
    _exe[0] = K.build_idlc()
    c = Case(**{k: v for k, v in rec['case'].items()})
    c.dirs, c.mk = tuple(c.dirs), tuple(c.mk)
    for n in range(4):
        _, _, bad, _ = go((n, c))
        for b in bad:
            print(b)
        if bad:
            return 1
    return 0
