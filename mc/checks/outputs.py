"""C19: what a run leaves on disk. The whole scratch tree is compared before and after every run:
refused input changes nothing, accepted input yields exactly the files the model names, each
complete, under every prior state of the output path and every enumerated fault."""
import hashlib
import itertools
import os
import re
import shutil
from .. import common as K
from .. import front, lang
from . import validity

BACKS = tuple(front.BACK)
BANNER = re.compile(rb'// AUTOGENERATED FILE: DO NOT EDIT \(idlc v[0-9][0-9A-Za-z.+-]*\)\n')
_exe = []


def snap(top):
    """path -> what is there, links not followed"""
    r = {}
    st = [top]
    while st:
        d = st.pop()
        for e in os.scandir(d):
            s = e.stat(follow_symlinks=False)
            n = e.path[len(top) + 1:]
            if e.is_symlink():
                r[n] = ('link', os.readlink(e.path), s.st_ino)
            elif e.is_dir():
                r[n] = ('dir', s.st_mode, s.st_ino)
                st.append(e.path)
            else:
                r[n] = ('file', s.st_mode, s.st_ino, s.st_size, s.st_mtime_ns, hashlib.md5(open(e.path, 'rb').read()).digest())
    return r


def changes(a, b):
    return sorted(n for n in a.keys() | b.keys() if a.get(n) != b.get(n))


# ------------------------------------------------------------------ which files are expected

def marked(back, text):
    """the comment block a marking becomes"""
    if not text:
        return b''
    ls = re.split(r'\r?\n', text)
    if ls[-1] == '':
        ls.pop()
    if back == 'j':
        return ('/*\n' + ''.join(f'* {l}\n' for l in ls) + '*/\n\n').encode()
    return (''.join(f'// {l}\n' for l in ls) + '\n').encode()


def expected(files, main, back):
    """names (required, optional) of the files a run writes, from the declarations of the main file"""
    if back not in 'rj':
        return {'out'}, set()
    decls = lang.parse(files[main])
    stem = os.path.basename(main)[:-4] if main.endswith('.idl') else os.path.basename(main)
    kinds = [type(d).__name__ for d in decls]
    names = [d[1] for d in decls if type(d) is tuple and d[0] == 'interface']
    content = any(k in ('Struct', 'Const') for k in kinds)
    if back == 'r':
        req = {n.lower() + '.rs' for n in names} | ({stem.lower() + '.rs'} if content else set())
        return req, set()
    # the interface named after the file is what the generated interfaces extend: always content
    return {n + '.java' for n in names} | ({stem + '.java'} if content or 'Include' in kinds else set()), {stem + '.java'}


def complete(text, back):
    """every bracket closed, something after the last line's end is no half line"""
    s = text.decode()
    s = re.sub(r'/\*.*?\*/|//[^\n]*', '', s, flags=re.S)
    return all(s.count(a) == s.count(b) for a, b in ('{}', '()', '[]'))


# ------------------------------------------------------------------ prior states of the output path

SINGLE = ['absent', 'longer', 'shorter', 'empty', 'symlink', 'dangling', 'hardlink', 'is a directory', 'parent missing', 'no -o', 'trailing slash', 'full device', 'readonly', 'sub.idl', 'below a file']
MULTI = ['empty dir', 'stale longer', 'stale shorter', 'unrelated files', 'dir link', 'absent', 'is a file', 'no -o', 'directory in the way', 'trailing slash', 'full device in the way', 'readonly', 'symlinks inside', 'dangling inside', 'parent missing']
# states in which nothing can be written
CANNOT = {'is a directory', 'parent missing', 'trailing slash*', 'full device', 'below a file', 'absent*', 'is a file', 'directory in the way', 'full device in the way', 'no -o*'}


def prepare_out(d, back, state, names, content):
    """creates the state below d/out; returns (arguments, directory of the outputs, paths where outputs land, may it succeed)"""
    o = os.path.join(d, 'out')
    long = lambda n: (content.get(n, b'') + b'\n/* previous content */' * 400)
    if front.BACK[back][1]:
        if state == 'parent missing':
            return ['-o', o + '/no/dir'], {}, False if names else None
        if state == 'absent':
            return ['-o', o], {}, False if names else None
        if state == 'is a file':
            K.write(o, b'here')
            return ['-o', o], {}, False if names else None
        if state == 'no -o':
            return [], {n: n for n in names}, True
        real = o
        if state == 'dir link':
            real = os.path.join(d, 'elsewhere')
            os.makedirs(real)
            os.symlink('elsewhere', o)
        else:
            os.makedirs(o)
        rel = os.path.relpath(real, d)
        land = {n: os.path.join(rel, n) for n in names}
        ok = True
        for k, n in enumerate(sorted(names)):
            p = os.path.join(real, n)
            if state == 'stale longer':
                K.write(p, long(n))
            elif state == 'stale shorter':
                K.write(p, b'x')
            elif state == 'readonly':
                K.write(p, long(n))
                os.chmod(p, 0o444)
            elif state == 'directory in the way' and k == len(names) // 2:
                os.makedirs(p)
                ok = False
            elif state == 'full device in the way' and k == len(names) // 2:
                os.symlink('/dev/full', p)
                ok = False
            elif state in ('symlinks inside', 'dangling inside'):
                t = os.path.join(d, 'store', n)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                if state[0] == 's':
                    K.write(t, long(n))
                os.symlink(t, p)
                land[n] = 'store/' + n
        if state == 'unrelated files':
            for n in ('zz.rs', 'zz.java', 'mod.rs', 'out', 'notes.txt', '.hidden', 'sub/a.rs', 'i', 'main', 'main.idl'):
                if n not in names:
                    K.write(os.path.join(real, n), 'keep me')
        return ['-o', o + '/' * (state == 'trailing slash')], land, ok
    land = {'out': 'out'}
    if state == 'absent':
        pass
    elif state == 'longer':
        K.write(o, long('out'))
    elif state == 'shorter':
        K.write(o, b'x')
    elif state == 'empty':
        K.write(o, b'')
    elif state == 'readonly':
        K.write(o, long('out'))
        os.chmod(o, 0o444)
    elif state in ('symlink', 'dangling'):
        os.makedirs(d + '/store')
        if state == 'symlink':
            K.write(d + '/store/t', long('out'))
        os.symlink('store/t', o)
        land = {'out': 'store/t'}
    elif state == 'hardlink':
        K.write(o, long('out'))
        os.link(o, d + '/twin')
        land = {'out': 'out', 'twin:out': 'twin'}
    elif state == 'is a directory':
        os.makedirs(o)
        K.write(o + '/main.h', 'keep me')
        return ['-o', o], {}, False
    elif state == 'parent missing':
        return ['-o', o + '/x.h'], {}, False
    elif state == 'below a file':
        K.write(o, b'file')
        return ['-o', o + '/x.h'], {}, False
    elif state == 'no -o':
        return [], {}, False
    elif state == 'trailing slash':
        return ['-o', o + '/'], {}, False
    elif state == 'full device':
        return ['-o', '/dev/full'], {}, False
    elif state == 'sub.idl':
        os.makedirs(d + '/sub.x')
        return ['-o', d + '/sub.x/main.idl'], {'out': 'sub.x/main.idl'}, True
    return ['-o', o], land, True


def states(back):
    return MULTI if front.BACK[back][1] else SINGLE


# ------------------------------------------------------------------ one run

def run1(d, back, main, args, flags=(), env=None):
    """(rc, err, changed paths with their new content)"""
    a = snap(d)
    rc, so, se = K.sh([_exe[0], main, *args, *front.BACK[back][0], *flags], cwd=d, timeout=60, env=env)
    b = snap(d)
    return rc, so + se, changes(a, b), a, b


def judge_ok(d, back, land, ch, before, after, names, opt, content, mark, ref_only=False):
    """problems of an accepted run"""
    bad = []
    okp = set(land.values())
    extra = [p for p in ch if p not in okp and not (after.get(p, ('',))[0] == 'dir' and before.get(p, ('',))[0] == 'dir')]
    optional = {os.path.join(os.path.dirname(next(iter(land.values()), 'out/x')), n) for n in opt} if land else {'out/' + n for n in opt}
    extra = [p for p in extra if p not in optional]
    if extra:
        bad.append(f'also touched {extra[:5]}')
    for n, p in land.items():
        n = n.split(':')[-1]
        t = os.path.join(d, p)
        if p not in after:
            if n in opt:
                continue
            bad.append(f'{n} was not written')
            continue
        x = open(t, 'rb').read()
        if not x.startswith(mark):
            bad.append(f'{n} does not start with the marking: {x[:80]!r}')
            continue
        if not BANNER.match(x[len(mark):]):
            bad.append(f'{n} does not start with the banner: {x[len(mark):len(mark) + 80]!r}')
        if n in content and x != mark + content[n]:
            bad.append(f'{n} is not what a run into an empty place gives: {len(x)} bytes instead of {len(mark + content[n])}, ends {x[-60:]!r}')
        if not complete(x[len(mark):], back):
            bad.append(f'{n} has unbalanced brackets, ends {x[-60:]!r}')
    return bad


def reference(files, main, back, flags=()):
    d = K.newdir('o')
    try:
        front.put(d, files)
        o = front.one(_exe[0], d, main, back, flags)
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ jobs

def go_invalid(job):
    """a refused program with several backends and prior states: nothing changes"""
    name, files, n, some = job
    bad, runs = [], 0
    d = K.newdir('o')
    try:
        front.put(d, files)
        K.write(d + '/mark', 'M\n')
        for k, b in enumerate(('c', 'ps', 'r', 'j', 'cu', 'cs', 'p', 'cus')):
            ss = states(b)
            if some and k != n % 8:
                continue
            for m, s in enumerate(ss):
                if some and m != (n // 8) % len(ss):
                    continue
                shutil.rmtree(d + '/out', ignore_errors=True)
                for x in ('elsewhere', 'store', 'sub.x'):
                    shutil.rmtree(d + '/' + x, ignore_errors=True)
                for x in ('out', 'twin'):
                    if os.path.lexists(d + '/' + x):
                        os.unlink(d + '/' + x)
                names = {'out'} if not front.BACK[b][1] else {'main.rs', 'ia.rs', 'i.rs', 'main.java', 'IA.java', 'I.java', 'j.rs', 'J.java'}
                args, _, _ = prepare_out(d, b, s, names, {})
                fl = [(), ('--marking', 'mark'), ('--no-typed-objects',)][(n + k + m) % 3]
                rc, err, ch, _, _ = run1(d, b, 'main.idl', args, fl)
                runs += 1
                if rc != 0 and ch:
                    bad.append((b, s, f'refused (exit {rc}) but touched {ch[:4]}'))
                if rc == 0:      # whether it may accept is C09's question; what it writes is judged elsewhere
                    pass
                elif not err.strip():
                    bad.append((b, s, f'exit {rc} without a diagnostic'))
        return job, runs, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go_valid(job):
    """an accepted program: exact file set and content, for the states asked for"""
    name, files, n, some, main = job
    bad, runs = [], 0
    v = lang.judge({os.path.normpath(k): t for k, t in files.items()}, main)
    for k, b in enumerate(BACKS):
        if some and k not in (n % 6, 6 + n % 2):
            continue
        ref = reference(files, main, b)
        runs += 1
        if ref.rc != 0:
            # refusal: C10's question
            continue
        names, opt = expected(files, main, b)
        if not names <= set(ref.files) or not set(ref.files) <= names | opt:
            bad.append((b, 'fresh', f'wrote {sorted(ref.files)} instead of {sorted(names)}'))
        ifs = [d[1] for d in lang.parse(files[main]) if type(d) is tuple and d[0] == 'interface']
        if b == 'r' and len({n.lower() for n in ifs}) < len(ifs):
            bad.append((b, 'fresh', f'interfaces {ifs} share a file: {sorted(ref.files)}'))
            continue
        names = names | (opt & set(ref.files))
        for m, s in enumerate(states(b)):
            if some and m != (n // 12) % len(states(b)):
                continue
            for mk in (('', 'x', 'One line\nand "another" – ünï\n\n  third') if not some else (('', 'x')[n % 2],)):
                d = K.newdir('o')
                try:
                    front.put(d, files)
                    fl = []
                    if mk:
                        K.write(d + '/mark', mk)
                        fl = ['--marking', 'mark']
                    args, land, ok = prepare_out(d, b, s, names, ref.files)
                    rc, err, ch, before, after = run1(d, b, main, args, fl)
                    runs += 1
                    if rc == 0:
                        if ok is False:
                            bad.append((b, s, f'exit 0 although nothing can be written there'))
                        bad += [(b, s, x) for x in judge_ok(d, b, land, ch, before, after, names, opt, ref.files, marked(b, mk))]
                    elif ok:
                        bad.append((b, s, f'refused (exit {rc}) with the output {s}: {err.strip()[-200:]}'))
                    elif not err.strip():
                        bad.append((b, s, f'exit {rc} without a diagnostic'))
                    else:        # output could not be written: what is there is old or complete
                        for p in ch:
                            if after.get(p, ('',))[0] == 'file':
                                x = open(os.path.join(d, p), 'rb').read()
                                if x not in [marked(b, mk) + t for t in ref.files.values()]:
                                    bad.append((b, s, f'exit {rc} leaves {p} neither old nor complete ({len(x)} bytes)'))
                            elif p not in after or p not in before:
                                bad.append((b, s, f'exit {rc} and {p} appeared or disappeared'))
                finally:
                    for r, ds, fs in os.walk(d):
                        for x in fs:
                            pass
                    shutil.rmtree(d, ignore_errors=True)
    return job, runs, bad


FAULTS = {'openw': ('eintr', 'eacces', 'enospc'), 'write': ('one', 'half', 'butone', 'eintr', 'zero', 'enospc', 'eio'), 'openr': ('eintr', 'eacces', 'enoent', 'emfile'), 'read': ('one', 'half', 'eintr', 'eio'), 'resolve': ('eacces', 'enoent')}
HARMLESS = {'one', 'half', 'butone', 'eintr'}


def go_fault(job):
    """every fault at every point of one run"""
    name, files, main, b, pre = job
    bad, runs = [], 0
    mk = 'A marking\n'
    mark = marked(b, mk)
    ref = reference(files, main, b)
    names, opt = expected(files, main, b) if ref.rc == 0 else ({'out', 'main.rs', 'i.rs', 'I.java'}, set())
    names = names | (opt & set(ref.files))

    def fresh():
        d = K.newdir('o')
        front.put(d, files)
        K.write(d + '/mark', mk)
        args, land, _ = prepare_out(d, b, ('stale longer' if front.BACK[b][1] else 'longer') if pre else 'empty dir' if front.BACK[b][1] else 'absent', names, ref.files)
        return d, args, land
    d, args, land = fresh()
    cnt = K.scratch() + f'/cnt{os.getpid()}'
    run1(d, b, main, args, ('--marking', 'mark'), env=dict(K.ENV, LD_PRELOAD=_exe[1], MC_COUNT=cnt))
    shutil.rmtree(d, ignore_errors=True)
    counts = dict((l.split()[0], int(l.split()[1])) for l in open(cnt))
    if not counts['write'] and ref.files or not counts['read']:
        raise K.CheckError(f'the fault shim sees nothing in {name} [{b}]: {counts}')
    for kind, n in counts.items():
        for k in range(n):
            for mode in FAULTS[kind]:
                d, args, land = fresh()
                try:
                    rc, err, ch, before, after = run1(d, b, main, args, ('--marking', 'mark'), env=dict(K.ENV, LD_PRELOAD=_exe[1], MC_FAULT=f'{kind}:{k}:{mode}'))
                    runs += 1
                    what = f'fault {mode} at {kind} {k}' + (' over existing output' if pre else '')
                    if rc == 0:
                        if ref.rc != 0:
                            if ch:
                                bad.append((b, what, 'accepted although it refuses without the fault'))
                            continue
                        if mode not in HARMLESS and kind in ('openw', 'write'):
                            bad.append((b, what, 'exit 0 although the output could not be written'))
                        bad += [(b, what, x) for x in judge_ok(d, b, land, ch, before, after, names, opt, ref.files, mark)]
                    else:
                        if isinstance(rc, int) and rc < 0 or rc == 'timeout':
                            bad.append((b, what, f'ended with {rc}'))
                        if mode in HARMLESS and ref.rc == 0:
                            bad.append((b, what, f'refused (exit {rc}): {err.strip()[-200:]}'))
                        if not err.strip():
                            bad.append((b, what, f'exit {rc} without a diagnostic'))
                        if kind in ('openr', 'read', 'resolve') and ch:
                            bad.append((b, what, f'input could not be read (exit {rc}) but {ch[:4]} touched'))
                finally:
                    shutil.rmtree(d, ignore_errors=True)
    return job, runs, bad


def go_misc(job):
    """runs that must write nothing: dumps, help, contradictory flags, bad inputs and markings"""
    name, files, main = job
    bad, runs = [], 0
    combos = [('--dump', x) + y for x in ('pst', 'ast', 'mir') for y in ((), ('--rust',), ('--java',), ('--cpp',), ('--skel',), ('--marking', 'mark'))]
    combos += [('--help',), ('-h',), ('--version',), ('-V',), ('--rust', '--java'), ('--cpp', '--java'), ('--cpp', '--rust'), ('--c', '--cpp'), ('--skel', '--rust'), ('--skel', '--java'), ('--dump', 'nope'), ('--nope',),
               ('--marking', 'nofile'), ('--marking', 'nofile', '--rust'), ('--marking', 'nofile', '--java'), ('--marking', 'nofile', '--cpp'), ('--marking', 'bin'), ('--marking', 'bin', '--rust'), ('--marking', 'bin', '--java'), ('--marking', '.'), ('--marking', '.', '--java'), ('--marking',), ('-I',), ('extra', 'words'), ('-o', 'out2', '-o', 'out3')]
    for fl in combos:
        for o in ('file', 'dir', 'absent', 'none'):
            d = K.newdir('o')
            try:
                front.put(d, files)
                K.write(d + '/mark', 'M')
                K.write(d + '/bin', b'\xff\xfe\x00binary')
                if o == 'file':
                    K.write(d + '/out', 'old')
                elif o == 'dir':
                    K.write(d + '/out/main.rs', 'old')
                    K.write(d + '/out/main.java', 'old')
                a = snap(d)
                rc, so, se = K.sh([_exe[0], main, *(['-o', 'out'] if o != 'none' else []), *fl], cwd=d, timeout=60)
                ch = changes(a, snap(d))
                runs += 1
                writes_ok = fl == ('--c', '--cpp')      # not contradictory for this tool: judged by exit status
                if ch and not (rc == 0 and writes_ok):
                    bad.append(('cli', f'{fl} output {o}', f'exit {rc} and {ch[:4]} touched'))
                if rc != 0 and not (so + se).strip():
                    bad.append(('cli', f'{fl} output {o}', f'exit {rc} without a diagnostic'))
            finally:
                shutil.rmtree(d, ignore_errors=True)
    for mn, content in (('absent.idl', None), ('.', None), ('bin.idl', b'\xff\xfe'), ('nul.idl', b'struct S { uint8 a; };\0'), ('empty', b''), ('half.idl', b'interface I { method m('), ('bom.idl', '\ufeffstruct S { uint8 a; };'.encode()), ('loop.idl', 'link'), ('dangling.idl', 'nolink')):
        for b in BACKS:
            d = K.newdir('o')
            try:
                if content == 'link':
                    os.symlink(mn, d + '/' + mn)
                elif content == 'nolink':
                    os.symlink('nowhere', d + '/' + mn)
                elif content is not None:
                    K.write(d + '/' + mn, content)
                args, _, _ = prepare_out(d, b, 'stale longer' if front.BACK[b][1] else 'longer', {'main.rs', 'main.java', 'absent.rs', 'bin.rs', 'nul.java', 'half.rs', 'half.java'}, {})
                rc, err, ch, _, after = run1(d, b, mn, args)
                runs += 1
                if mn == 'empty':
                    if rc == 0 and (b == 'r' and ch or b not in 'rj' and ch != ['out']):
                        bad.append((b, mn, f'touched {ch}'))
                elif rc == 0 or ch:
                    bad.append((b, mn, f'exit {rc}, touched {ch[:4]}'))
            finally:
                shutil.rmtree(d, ignore_errors=True)
    lib = front.Lib()
    for fs in (files, {'main.idl': 'interface I {'}, {'main.idl': 'struct S { uint8 a; };'}):
        d = K.newdir('o')
        front.put(d, fs)
        a = snap(d)
        lib.generate(d + '/main.idl', [d])
        runs += 1
        if changes(a, snap(d)):
            bad.append(('library', 'generate', f'touched {changes(a, snap(d))}'))
        shutil.rmtree(d, ignore_errors=True)
    lib.p.kill()
    return job, runs, bad


def curated():
    yield 'plain', {'main.idl': 'include "i.idl"\nconst uint8 K = 1;\nstruct S { uint32 a; };\ninterface IA : IB { error E; method m(in S s, out uint8[] d); };\ninterface Zed { method z(); };\n', 'i.idl': 'interface IB { method b(); };\nstruct T { uint8 a; };\nconst uint8 Q = 2;\n'}, 'main.idl'
    yield 'only interfaces', {'main.idl': 'interface A {};\ninterface B : A { method m(); };\n'}, 'main.idl'
    yield 'only a struct', {'main.idl': 'struct S { uint8 a; };\n'}, 'main.idl'
    yield 'only a constant', {'main.idl': 'const float32 S = 1.5;\n'}, 'main.idl'
    yield 'only an include', {'main.idl': 'include "x.idl"\n', 'x.idl': 'struct S { uint8 a; };\ninterface I {};\n'}, 'main.idl'
    yield 'nothing', {'main.idl': '\n// nothing\n'}, 'main.idl'
    yield 'interface named as the file', {'IFoo.idl': 'struct S { uint8 a; };\nconst uint8 K = 1;\ninterface IFoo { method m(in S s); };\ninterface IBar : IFoo {};\n'}, 'IFoo.idl'
    yield 'interface named as the file, nothing else', {'IFoo.idl': 'interface IFoo { method m(); };\n'}, 'IFoo.idl'
    yield 'interface named as the file but for case', {'main.idl': 'interface Main { method m(); };\nstruct S { uint8 a; };\n'}, 'main.idl'
    yield 'mixed case', {'MiXed.idl': 'interface IFooBAR { method m(); };\ninterface iq9_Z {};\nconst uint8 K = 1;\n'}, 'MiXed.idl'
    yield 'file name with dots', {'a.b.c.idl': 'interface I {};\nstruct S { uint8 a; };\n'}, 'a.b.c.idl'
    yield 'no extension', {'decls': 'interface I {};\nstruct S { uint8 a; };\n'}, 'decls'
    yield 'large', {'main.idl': ''.join(f'struct S{i} {{ uint64[{i + 1}] a; }};\ninterface I{i} {{ method m(in S{i} s); error E; const uint8 K = 1; }};\n' for i in range(120))}, 'main.idl'
    yield 'in a directory', {'d/e/main.idl': 'include "i.idl"\ninterface A : B {};\nconst uint8 K = 1;\n', 'd/e/i.idl': 'interface B {};\n'}, 'd/e/main.idl'
    yield 'two names equal but for case', {'main.idl': 'interface IA { method m(); };\ninterface Ia { method n(); };\n'}, 'main.idl'


def refused():
    yield 'syntax', {'main.idl': 'interface I { method m( };\n'}
    yield 'syntax at the end', {'main.idl': 'interface I { method m(); };\nstruct S { uint8 a; }\n'}
    yield 'missing include', {'main.idl': 'include "no.idl"\ninterface I {};\n'}
    yield 'include cycle', {'main.idl': 'include "i.idl"\ninterface I {};\n', 'i.idl': 'include "main.idl"\n'}
    yield 'syntax in an include', {'main.idl': 'include "i.idl"\ninterface I {};\n', 'i.idl': 'struct {\n'}
    yield 'duplicate parameter', {'main.idl': 'interface I { method m(in uint8 a, in uint8 a); };\n'}
    yield 'struct cycle', {'main.idl': 'struct A { B b; };\nstruct B { A a; };\ninterface I {};\n'}
    yield 'interface cycle', {'main.idl': 'interface I : J {};\ninterface J : I {};\n'}
    yield 'padding', {'main.idl': 'struct A { uint8 a; uint16 b; };\ninterface I {};\n'}
    yield 'padding in an include', {'main.idl': 'include "i.idl"\ninterface I {};\n', 'i.idl': 'struct A { uint8 a; uint16 b; };\n'}
    yield 'unknown type', {'main.idl': 'interface I { method m(in X a); };\n'}
    yield 'unknown base', {'main.idl': 'interface I : X {};\n'}
    yield 'constant range', {'main.idl': 'const uint8 K = 256;\ninterface I {};\n'}
    yield 'member constant range', {'main.idl': 'interface J {};\ninterface I { const int8 K = 128; };\n'}
    yield 'duplicate method', {'main.idl': 'interface J {};\ninterface I { method m(); method m(); };\n'}
    yield 'duplicate inherited', {'main.idl': 'interface J { method m(); };\ninterface I : J { method m(); };\n'}
    yield 'duplicate error', {'main.idl': 'interface J {};\ninterface I { error E; error E; };\n'}
    yield 'duplicate interface', {'main.idl': 'interface J {};\ninterface J { method m(); };\n'}
    yield 'too many buffers', {'main.idl': 'interface J {};\ninterface I { method m(%s); };\n' % ', '.join(f'in buffer b{i}' for i in range(16))}
    yield 'too many objects', {'main.idl': 'interface J {};\ninterface I { method m(%s); };\n' % ', '.join(f'out interface b{i}' for i in range(16))}
    yield 'too many in an include', {'main.idl': 'include "i.idl"\ninterface J {};\n', 'i.idl': 'interface I { method m(%s); };\n' % ', '.join(f'in buffer b{i}' for i in range(16))}
    yield 'objects in a struct (Java)', {'main.idl': 'interface J {};\nstruct S { interface a; };\ninterface I { method m(in S s); };\n'}


def go(job):
    return {'i': go_invalid, 'v': go_valid, 'f': go_fault, 'm': go_misc}[job[0]](job[1:])


def setup():
    _exe[:] = [K.build_idlc()]
    front.build_lib()
    so = K.newdir('shim') + '/faults.so'
    rc, _, se = K.sh(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(K.VERIF, 'mc', 'shim', 'faults.c'), '-ldl'])
    if rc:
        raise K.CheckError('fault shim: ' + se)
    _exe.append(so)


def run(chk):
    setup()
    jobs = []
    cur = list(curated())
    for n, (name, fs, main) in enumerate(cur):
        jobs.append(('v', name, fs, n, False, main))
        for b in BACKS:
            if (len(fs) > 1 or name.startswith('interface named')) and name != 'large' or not chk.quick and name != 'large':
                for pre in (0, 1):
                    jobs.append(('f', name, fs, main, b, pre))
    jobs.append(('m', 'misc', cur[0][1], 'main.idl'))
    for n, (name, fs) in enumerate(refused()):
        jobs.append(('i', name, fs, n, False))
        for b in ('c', 'ps', 'r', 'j'):
            if not chk.quick or n % 3 == 0:
                jobs.append(('f', 'refused: ' + name, fs, 'main.idl', b, 1))
    seen = set()
    ni = nv = 0
    for name, files in validity.programs(True):
        key = tuple(sorted(files.items()))
        if key in seen or sum(map(len, files.values())) > 40000:
            continue
        seen.add(key)
        v = lang.judge({os.path.normpath(k): t for k, t in files.items()}, 'main.idl')
        if v.bad:
            ni += 1
            if not chk.quick or ni % 2 == 0:
                jobs.append(('i', name, files, ni // 2, True))
        elif not v.gray:
            nv += 1
            jobs.append(('v', name, files, nv, True, 'main.idl'))
    nbad = 0
    per = {}
    for job, runs, bad in K.pprocmap(go, jobs, 4):
        chk.add(transitions=runs, states=1, traces_validated_against_impl=runs)
    # pprocmap strips the kind; count by shape
        for b, s, how in bad:
            nbad += 1
            chk.violation(f'{job[0]} [{b}], {s}: {how}', key=f'{job[0]} [{b}]', job=job, backend=b)
        if nbad > 40:
            break
    for j in jobs:
        per[j[0]] = per.get(j[0], 0) + 1
    chk.notes.update(refused_programs=per.get('i'), accepted_programs=per.get('v'), fault_enumerations=per.get('f'),
                     prior_states_single=len(SINGLE), prior_states_directory=len(MULTI), fault_modes=sum(map(len, FAULTS.values())))
    for n in cur[:6]:
        chk.sample(n[0])
    return ('the whole tree is compared before and after every run: every curated refused and accepted program x backend x prior state of the output path (x marking); every program of the C09/C10 space once with rotating '
            'backend and state; every single fault (short, interrupted or failing open, write, read, path resolution) at every point of runs of the curated programs; dumps and contradictory command lines')


def replay(rec):
    setup()
    job = rec['job']
    kind = 'f' if len(job) == 5 and isinstance(job[2], str) and isinstance(job[4], int) and not isinstance(job[3], bool) and isinstance(job[3], str) else 'm' if len(job) == 3 else 'v' if len(job) == 5 and isinstance(job[4], str) else 'i'
    _, _, bad = go((kind, *job))
    for b in bad:
        print(b)
    return 1 if bad else 0
