"""C14: edits without interface meaning. Every gap between two tokens (as the model of the grammar
sees them) receives every piece of trivia; documentation is added, changed, removed everywhere;
every short marking; the untyped-objects flag on every signature. Outputs are compared byte by byte
or, where comments may differ, as sequences of code and comments by a lexer of the target language."""
import itertools
import os
import re
import shutil
from .. import common as K
from .. import front, lang
from . import validity

BACKS = tuple(front.BACK)
_exe = []

# ------------------------------------------------------------------ target language lexers

LANG = {'c': 'c', 'cs': 'c', 'cu': 'c', 'cus': 'c', 'p': 'c', 'ps': 'c', 'r': 'r', 'j': 'j'}


def segments(text, lg):
    """[(is comment, text)] in order"""
    if lg == 'c':
        text = re.sub(r'\?\?/', r'\\', text)
        text = re.sub(r'\\[ \t]*(\r\n|\n|\r)', '', text)
        text = re.sub(r'\r\n?', '\n', text)
    if lg == 'j':
        text = re.sub(r'(?<!\\)((?:\\\\)*)\\u+([0-9a-fA-F]{4})', lambda m: m.group(1) + chr(int(m.group(2), 16)), text)
        if re.search(r'(?<!\\)(?:\\\\)*\\u', text):
            text = text + '\nILLEGAL UNICODE ESCAPE'
        text = re.sub(r'\r\n?', '\n', text)
    out, i, n, code = [], 0, len(text), []
    while i < n:
        if text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            code.append(text[i:j + 1])
            i = j + 1
        elif text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
            out += [(False, ''.join(code)), (True, text[i:j])]
            code = []
            i = j
        elif text.startswith('/*', i):
            depth, j = 1, i + 2
            while depth and j < n:
                if text.startswith('*/', j):
                    depth -= 1
                    j += 2
                elif lg == 'r' and text.startswith('/*', j):
                    depth += 1
                    j += 2
                else:
                    j += 1
            if depth:
                code.append(' UNTERMINATED COMMENT ')
            out += [(False, ''.join(code)), (True, text[i:j])]
            code = []
            i = j
        else:
            code.append(text[i])
            i += 1
    out.append((False, ''.join(code)))
    return out


def code_of(text, lg):
    return ' '.join(' '.join(t for c, t in segments(text, lg) if not c).split())


NEXT = re.compile(r'[^(;{}]*?\b(?:r#)?(\w+)\s*\(')


def doc_pairs(text, lg):
    """[(name before the first parenthesis after the comment, comment text)]"""
    segs = segments(text, lg)
    r = []
    cur = None
    for k, (c, t) in enumerate(segs):
        if c:
            cur = (cur or '') + t.strip() + '\n'
        elif t.strip() and cur is not None:
            m = NEXT.match(t)
            r.append((m.group(1) if m else None, cur))
            cur = None
    return r


# ------------------------------------------------------------------ programs

TINY = {'main.idl': 'include "i.idl"\nstruct S{B b;uint8[16] a;};interface A:B{#[optional] method m(in S s,out uint8[] d,in B[2] o);error E;const int8 K=-1;};\n', 'i.idl': 'interface B{method n(out buffer x);};\n'}
DOCD = {'main.idl': '''include "i.idl"
/**
 * above
 */
const uint8 CC = 1;
interface A : B {
/**
 * first DOC1
 */
method m1(in uint8 a, out S s);
method m2();
/**
  text DOC2
*/
#[optional]
method m3(in A[2] q);
error E;
/**
 * DOC3
 */
const uint8 K = 2;
method m4(out buffer x, in interface y);
};
struct S { uint32 a; };
interface Z { method z1(); /**
 * DOC4 */ method z2(); };
''', 'i.idl': '''interface B {
/**
 * based DOC5
 */
method b1(in uint16 v);
method b2();
};
'''}
PROGS = {'tiny': TINY, 'solo': validity.SOLO, 'small': validity.SMALL, 'big': validity.BIG, 'docd': DOCD}
TRIVIA = ['', ' ', '\t', '\n', '\r\n', '\r', ' \n\t \n', '// c\n', '//\r\n', '//c\r', '//;};{\n', '/**/', '/***/', '/* x */', '/*\n*/', '/* " */', '/*};interface X{};*/', '// /* \n', '/* // */', '/** d */', '/*/ */', '/* é漢 */', '//a\n//b\n', '/****\n*/', '/* /* */', '#'][:-1]


def toks_of(text):
    p = lang.Parser(text)
    d = p.idl()
    # overlapping entries (a keyword consumed in two ways) collapse to the outermost
    ts, last = [], -1
    for a, b, k in sorted(set(p.toks), key=lambda x: (x[0], -x[1])):
        if a >= last:
            ts.append((a, b, k))
            last = b
    return ts, d, sorted(set(p.docs))


def gaps(text):
    """[(start, end)] of the text between tokens, before the first and after the last"""
    ts, d, _ = toks_of(text)
    e = [0] + [b for a, b, k in ts]
    s = [a for a, b, k in ts] + [len(text)]
    return list(zip(e, s)), d


def same(text, decls):
    try:
        return lang.parse(text) == decls
    except lang.Syntax:
        return False


def insert_points(text, g):
    """positions inside a gap where trivia can go without splitting documentation or a comment"""
    p = [g[0], g[1]]
    for m in re.finditer(r'/\*.*?\*/|//[^\n\r]*[\n\r]', text[g[0]:g[1]], re.S):
        p += [g[0] + m.start(), g[0] + m.end()]
    return sorted(set(p))


def trivia_edits(files, quick, tiny):
    """(description, file, new text)"""
    for f, t in files.items():
        gs, d = gaps(t)
        for n, g in enumerate(gs):
            has_doc = '/*' in t[g[0]:g[1]]
            for x in TRIVIA:
                for p in insert_points(t, g):
                    yield f'{x!r} inserted at {f}:{p}', f, t[:p] + x + t[p:]
                if not has_doc:
                    yield f'gap {f}:{g} becomes {x!r}', f, t[:g[0]] + x + t[g[1]:]
            if tiny:
                for x, y in itertools.product(TRIVIA, repeat=2):
                    if x and y:
                        yield f'gap {f}:{g} becomes {x + y!r}', f, t[:g[0]] + x + y + t[g[1]:]
        if tiny:
            some = ['', '\r\n', '/* x */', '//c\n', '/***/ ']
            for (n, g), (m, h) in itertools.combinations(list(enumerate(gs)), 2):
                for x, y in itertools.product(some, repeat=2):
                    yield f'gaps {f}:{g},{h} become {x!r},{y!r}', f, t[:g[0]] + x + t[g[1]:h[0]] + y + t[h[1]:]
        # everywhere at once
        for x in TRIVIA:
            for keep in (0, 1):
                r, last = '', 0
                for g in gs:
                    r += t[last:g[0]] + (t[g[0]:g[1]] if keep or '/**\n' in t[g[0]:g[1]] else ' ' if g[0] < g[1] and not x.strip() and x == '' else '') + x
                    last = g[1]
                yield f'{x!r} in every gap of {f} ({"added" if keep else "instead"})', f, r + t[last:]
        for k, v in (('CRLF', t.replace('\n', '\r\n')), ('no final line break', t.rstrip('\n')), ('ten more lines', '\n' * 10 + t + '\n' * 10), ('a comment at the end of the file', t + '// end'), ('100 kB of comment', '/*' + 'x' * 100000 + '*/' + t), ('tabs', t.replace('  ', '\t'))):
            if k == 'CRLF' and '/**\n' in t:
                continue
            yield f'{f}: {k}', f, v


def compile1(d, main, b, extra=()):
    return front.one(_exe[0], d, main, b, extra)


def go_trivia(job):
    prog, batch, backs = job
    files = PROGS[prog]
    bad, runs, skipped = [], 0, 0
    d = K.newdir('t')
    try:
        front.put(d, files)
        refs = {b: compile1(d, 'main.idl', b) for b in BACKS}
        decls = {f: lang.parse(t) for f, t in files.items()}
        for n, (what, f, text) in batch:
            # the documentation must be the same too: it is output
            if not same(text, decls[f]) or docs_text(text) != docs_text(files[f]):
                skipped += 1
                continue
            K.write(os.path.join(d, f), text)
            for k in range(backs):
                b = BACKS[(n + k) % 8] if backs < 8 else BACKS[k]
                if refs[b].rc != 0:
                    continue
                o = compile1(d, 'main.idl', b)
                runs += 1
                if o.rc == 0 and o.files != refs[b].files:
                    bad.append((b, what, diff(refs[b].files, o.files), {**files, f: text}))
                if o.rc != 0:
                    skipped += 1
            K.write(os.path.join(d, f), files[f])
        return prog, runs, skipped, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def docs_text(t):
    return [t[a:b] for a, b in toks_of(t)[2]]


def diff(a, b):
    if set(a) != set(b):
        return f'files {sorted(b)} instead of {sorted(a)}'
    for n in a:
        if a[n] != b[n]:
            i = next((i for i, (x, y) in enumerate(zip(a[n], b[n])) if x != y), min(len(a[n]), len(b[n])))
            return f'{n} differs at byte {i}: {a[n][max(0, i - 60):i + 40]!r} became {b[n][max(0, i - 60):i + 40]!r}'


# ------------------------------------------------------------------ documentation

DOCS = ['/**\n * DMARK plain\n */', '/**\nDMARK\n*/', '/**\n*/', '/**\n\n\n*/', '/**\n * DMARK /* nested // and\n */', '/**\n * DMARK "quoted" \' { } ; ( ) # \\\n */', '/**\n * DMARK \\u002a/ void x(); /* \\u000a y \\uzzzz\n */', '/**\n * DMARK ??/\n * z\n */',
        '/**\n          * DMARK é漢字\n é DMARK\n */', '/**\r\n * DMARK crlf\r\n */', '/**\r * DMARK cr\r */', '/**\n * DMARK a\r * int x;\n */', '/**\n * DMARK {} {0} {ident} %s %d $x ${y}\n */', '/**\n *** DMARK ** * /\n **/', '/**\n' + ' * DMARK line\n' * 60 + '*/',
        '/**\n};interface DMARK{method q();};\n*/', '/**\n#define DMARK 1\n#pragma once\n*/', '/**\n * DMARK // \n * //\\\n */', '/**\n * DMARK\n * /\n */', '/**\n\tDMARK\n\t*/', '/**\n * <b>DMARK</b> {@code x} @param a @deprecated\n */', '/**\n * DMARK ```\n * ```rust\n * fn x() {}\n */']


def doc_edits(files):
    """(description, file, text, target methods): documentation put at every gap; every existing one replaced or removed"""
    for f, t in files.items():
        ts, decls, docs = toks_of(t)
        meth = [(a, t[ts[i + 1][0]:ts[i + 1][1]]) for i, (a, b, k) in enumerate(ts) if k == 'method ']

        def target(p):
            return next((n for a, n in meth if a >= p), None)
        gs, _ = gaps(t)
        for g in gs:
            for p in insert_points(t, g):
                for x in DOCS:
                    yield f'documentation {x[:40]!r} at {f}:{p}', f, t[:p] + ' ' + x + ' ' + t[p:], target(p)
        for a, b in docs:
            yield f'documentation at {f}:{a} removed', f, t[:a] + t[b:], target(a)
            for x in DOCS:
                yield f'documentation at {f}:{a} becomes {x[:40]!r}', f, t[:a] + x + t[b:], target(a)


def go_doc(job):
    prog, batch, backs = job
    files = PROGS[prog]
    bad, runs, skipped = [], 0, 0
    d = K.newdir('t')
    try:
        front.put(d, files)
        refs = {b: compile1(d, 'main.idl', b) for b in BACKS}
        code = {b: {n: code_of(x.decode(), LANG[b]) for n, x in refs[b].files.items()} for b in BACKS}
        pairs = {b: {n: doc_pairs(x.decode(), LANG[b]) for n, x in refs[b].files.items()} for b in BACKS}
        decls = {f: lang.parse(t) for f, t in files.items()}
        for n, (what, f, text, target) in batch:
            if not same(text, decls[f]):
                skipped += 1
                continue
            K.write(os.path.join(d, f), text)
            for k in range(backs):
                b = BACKS[(n + k) % 8] if backs < 8 else BACKS[k]
                if refs[b].rc != 0:
                    continue
                o = compile1(d, 'main.idl', b)
                runs += 1
                if o.rc != 0:
                    skipped += 1
                    continue
                if set(o.files) != set(refs[b].files):
                    bad.append((b, what, f'files {sorted(o.files)} instead of {sorted(refs[b].files)}', {**files, f: text}))
                    continue
                for fn, x in o.files.items():
                    x = x.decode()
                    if x.encode() == refs[b].files[fn]:
                        continue
                    c = code_of(x, LANG[b])
                    if c != code[b][fn]:
                        i = next((i for i, (p, q) in enumerate(zip(c, code[b][fn])) if p != q), min(len(c), len(code[b][fn])))
                        bad.append((b, what, f'{fn}: the code changed: {code[b][fn][max(0, i - 50):i + 50]!r} became {c[max(0, i - 50):i + 50]!r}', {**files, f: text}))
                        break
                    hit = lambda m: m is not None and target is not None and (m == target or m.endswith('_' + target))
                    keep = [p for p in doc_pairs(x, LANG[b]) if not hit(p[0])]
                    want = [p for p in pairs[b][fn] if not hit(p[0])]
                    if keep != want:
                        e = [p for p in keep if p not in want] or [p for p in want if p not in keep]
                        bad.append((b, what, f'{fn}: a comment changed that does not belong to method {target}: {e[:1]}', {**files, f: text}))
                        break
            K.write(os.path.join(d, f), files[f])
        return prog, runs, skipped, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ marking

MALPHA = ['a', '\n', '\r', '*', '/', '\\', ' ', '"', '}', 'u', 'é', '?']


def markings(quick):
    for k in range(1, 4 if quick else 5):
        for x in itertools.product(MALPHA, repeat=k):
            yield ''.join(x)
    yield from ('*/ int x; /*', '\\u002a/ int x; /*', '\\u002A\\u002F int x;', '\\\\u002a/', '\\uzzzz', '??/\nint x;', 'a\\\n', 'a\\\n\n', 'a\\', 'a\\ \nb\\\t', 'a\rint x;', '\r\nint x;\r\n', '/*', '/**', '*/*/', '*\n/', '//', '///', '//!', '/*!', '"', "'", "#error", '#define x', '\n\n\n', '\n\nint x;',
                '\ttab\n', 'x' * 5000, 'line\n' * 500, '\u2028int x;', '\u0085int x;', '\x0bint x;', '\x0cint x;', '<!--', '%s{}', '*/*', '**/', '* /', '\\\r\nb')


def go_mark(job):
    files = PROGS['solo']
    bad, runs = [], 0
    d = K.newdir('t')
    try:
        front.put(d, files)
        refs = {b: compile1(d, 'main.idl', b) for b in BACKS}
        code = {b: {n: code_of(x.decode(), LANG[b]) for n, x in refs[b].files.items()} for b in BACKS}
        for n, m in job:
            K.write(d + '/mark', m)
            for b in ('c', 'r', 'j', ('cs', 'p', 'ps', 'cu', 'cus')[n % 5]):
                o = compile1(d, 'main.idl', b, ('--marking', 'mark'))
                runs += 1
                if o.rc != 0:
                    bad.append((b, f'marking {m!r}', f'refused (exit {o.rc}): {o.err.strip()[-200:]}', m))
                    continue
                if set(o.files) != set(refs[b].files):
                    bad.append((b, f'marking {m!r}', f'files {sorted(o.files)}', m))
                    continue
                for fn, x in o.files.items():
                    r = refs[b].files[fn]
                    if not x.endswith(r):
                        bad.append((b, f'marking {m!r}', f'{fn} does not end with the output made without marking', m))
                        break
                    pre = x[:len(x) - len(r)].decode()
                    if code_of(pre, LANG[b]) or code_of(x.decode(), LANG[b]) != code[b][fn]:
                        bad.append((b, f'marking {m!r}', f'{fn}: what is prepended is not a comment block: {pre[:200]!r}', m))
                        break
                    if m.strip() and not pre.strip():
                        bad.append((b, f'marking {m!r}', f'{fn}: nothing prepended', m))
                        break
        return 'marking', runs, 0, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ untyped objects

# the names the typed spelling needs
NAMES = re.compile(r'\btypedef Object \w+;')
TOK = re.compile(r'[A-Za-z_]\w*|\d\w*|\S')


def go_untyped(job):
    bad, runs = [], 0
    for name, files in job:
        ifaces = set()
        for t in files.values():
            ifaces |= {x[1] for x in lang.parse(t) if type(x) is tuple and x[0] == 'interface'}
        d = K.newdir('t')
        try:
            front.put(d, files)
            for a, b in (('c', 'cu'), ('cs', 'cus')):
                x, y = compile1(d, 'main.idl', a), compile1(d, 'main.idl', b)
                runs += 2
                if x.rc != 0 or y.rc != 0:
                    if x.rc != y.rc:
                        bad.append((b, name, f'exit {x.rc} typed, {y.rc} untyped', files))
                    continue
                if [t for c, t in segments(x.files['out'].decode(), 'c') if c] != [t for c, t in segments(y.files['out'].decode(), 'c') if c]:
                    bad.append((b, name, 'comments differ', files))
                p, q = (TOK.findall(NAMES.sub('', code_of(z.files['out'].decode(), 'c'))) for z in (x, y))
                e = None
                if len(p) != len(q):
                    e = f'{len(p)} tokens typed, {len(q)} untyped'
                    i = next((i for i, (u, v) in enumerate(zip(p, q)) if u != v and not (u in ifaces and v == 'Object')), 0)
                    e += f' near {" ".join(p[max(0, i - 8):i + 8])} / {" ".join(q[max(0, i - 8):i + 8])}'
                else:
                    for i, (u, v) in enumerate(zip(p, q)):
                        if u != v and not (u in ifaces and v == 'Object'):
                            e = f'{" ".join(p[max(0, i - 8):i + 8])} became {" ".join(q[max(0, i - 8):i + 8])}'
                            break
                if e:
                    bad.append((b, name, e, files))
            for b in ('p', 'ps', 'r', 'j')[:4 if hash(name) % 7 == 0 else 2]:
                x, y = compile1(d, 'main.idl', b), compile1(d, 'main.idl', b, ('--no-typed-objects',))
                runs += 2
                if x.rc != y.rc or x.files != y.files:
                    bad.append((b, name, 'the flag changes the output of another backend', files))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return 'untyped', runs, 0, bad


def go(job):
    return (job[0],) + {'t': go_trivia, 'd': go_doc, 'm': go_mark, 'u': go_untyped}[job[0]](job[1])


def chunks(it, n):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b


def jobs(quick):
    for p, fs in PROGS.items():
        nb = (1 if p == 'tiny' else 2) if quick else 8
        seen = set()

        def uniq(it):
            for e in it:
                if (e[1], e[2]) not in seen and e[2] != fs[e[1]]:
                    seen.add((e[1], e[2]))
                    yield e
        for ch in chunks(enumerate(uniq(trivia_edits(fs, quick, p == 'tiny'))), 300):
            yield 't', (p, ch, nb)
    for p in ('docd', 'solo', 'tiny') if quick else PROGS:
        for ch in chunks(enumerate(doc_edits(PROGS[p])), 150):
            yield 'd', (p, ch, 2 if quick else 8)
    for ch in chunks(enumerate(markings(quick)), 100):
        yield 'm', ch
    progs = []
    for k, (n, fs) in enumerate(itertools.chain([('BIG', validity.BIG), ('SMALL', validity.SMALL), ('docd', DOCD), ('tiny', TINY)], validity.methods(True))):
        if not lang.judge({os.path.normpath(a): t for a, t in fs.items()}, 'main.idl').bad:
            progs.append((n, fs))
    for ch in chunks(progs, 20):
        yield 'u', ch


def setup():
    _exe[:] = [K.build_idlc()]


def run(chk):
    setup()
    js = list(jobs(chk.quick))
    per, nbad, skip = {}, 0, 0
    for kind, prog, runs, skipped, bad in K.pprocmap(go, js):
        chk.add(transitions=runs, states=runs, traces_validated_against_impl=runs)
        nm = {'t': 'trivia', 'd': 'documentation', 'm': 'marking', 'u': 'untyped objects'}[kind]
        per[nm] = per.get(nm, 0) + runs
        skip += skipped
        for b, what, how, fs in bad[:2]:
            nbad += 1
            chk.violation(f'{prog} [{b}], {what}: {how}', key=f'{prog} {b} {what}', kind=kind, backend=b, files=fs, base=PROGS.get(prog))
        if nbad > 12:
            break
    for nm in ('trivia', 'documentation', 'marking', 'untyped objects'):
        if per.get(nm, 0) < 100 and not nbad:
            raise K.CheckError(f'nothing explored for {nm}')
    chk.notes.update(compilations_by_family=per, edits_not_comparable=skip, trivia=len(TRIVIA), documentation_texts=len(DOCS))
    chk.sample('trivia: ' + ' '.join(map(repr, TRIVIA[:14])))
    chk.sample('documentation: ' + ' '.join(repr(x[:30]) for x in DOCS[:8]))
    return ('every piece of trivia inserted at every point of every gap between tokens of five file sets and replacing the gap, every pair of pieces and every pair of gaps of the smallest, and everywhere at once: same bytes; '
            'every documentation text at every gap, and every existing one replaced or removed: same code, other comments unchanged; every marking up to length 3 (thorough: 4) over an alphabet of 12 characters: '
            'the old output with a comment block in front; the untyped flag on every method of the validity alphabet: only interface names become Object, other backends unchanged')


def replay(rec):
    setup()
    d = K.newdir('t')
    if rec['kind'] == 'm':
        r = go_mark([(0, rec['files']), (1, rec['files']), (2, rec['files'])])
        print(r[3][:3])
        return 1 if r[3] else 0
    if rec['kind'] == 'u':
        r = go_untyped([('replay', rec['files'])])
        print(r[3][:3])
        return 1 if r[3] else 0
    if rec['kind'] in 'td':
        PROGS['replay'] = rec['base']
        ed = [(f, t) for f, t in rec['files'].items() if rec['base'][f] != t]
        tg = None
        m = re.search(r'belong to method (\w+)', rec['what'])
        r = (go_trivia(('replay', [(0, ('replay', f, t)) for f, t in ed], 8)) if rec['kind'] == 't' else go_doc(('replay', [(0, ('replay', f, t, m and m.group(1))) for f, t in ed], 8)))
        for b in r[3]:
            print(b[:3])
        return 1 if r[3] else 0
