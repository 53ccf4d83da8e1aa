"""Running the compiler on file sets: the command-line driver with every backend, and the library
entry point in one long-lived process."""
import os
import shutil
import subprocess
import threading
from . import common as K

# backend tag -> (flags, is the output a directory)
BACK = {'c': (('--c',), 0), 'cs': (('--c', '--skel'), 0), 'cu': (('--c', '--no-typed-objects'), 0),
        'cus': (('--c', '--skel', '--no-typed-objects'), 0), 'p': (('--cpp',), 0), 'ps': (('--cpp', '--skel'), 0),
        'r': (('--rust',), 1), 'j': (('--java',), 1)}


class Out:
    __slots__ = ('rc', 'err', 'files')

    def __init__(self, rc, err, files):
        self.rc, self.err, self.files = rc, err, files


def put(d, files):
    for p, t in files.items():
        K.write(os.path.join(d, p), t)


def one(exe, cwd, main, back, extra=(), tag='', timeout=60, keep=True, env=None):
    """One run; returns Out. The output goes to a fresh name and is read back and removed."""
    flags, isdir = BACK[back]
    o = os.path.join(cwd, f'out.{back}{tag}')
    if isdir:
        os.makedirs(o, exist_ok=True)
    rc, so, se = K.sh([exe, main, '-o', o, *flags, *extra], timeout=timeout, cwd=cwd, env=env)
    fs = {}
    if isdir:
        for r, _, ns in os.walk(o):
            for n in ns:
                fs[os.path.relpath(os.path.join(r, n), o)] = open(os.path.join(r, n), 'rb').read()
        shutil.rmtree(o)
    elif os.path.exists(o):
        fs['out'] = open(o, 'rb').read()
        os.unlink(o)
    return Out(rc, so + se, fs)


def run_set(exe, files, main, backs, extra=(), dirs=(), timeout=60):
    """Compile a file set with the given backends in a scratch directory -> {back: Out}"""
    d = K.newdir('f')
    try:
        put(d, files)
        ex = list(extra)
        for i in dirs:
            ex += ['-I', i]
        return {b: one(exe, d, main, b, ex, timeout=timeout) for b in backs}
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ library entry

_lib = {}


def build_lib():
    """The library driver, built against the working tree."""
    if 'exe' in _lib:
        return _lib['exe']
    K.build_idlc()
    import fcntl
    with open(os.path.join(K.BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(K.BUILD, 'libentry')
        src = os.path.join(K.VERIF, 'mc', 'libentry')
        def upd(p, t):
            try:
                if open(p).read() == t:
                    return
            except OSError:
                pass
            K.write(p, t)
        upd(os.path.join(d, 'Cargo.toml'), open(os.path.join(src, 'Cargo.toml.in')).read().replace('@SRC@', K.SRC))
        upd(os.path.join(d, 'src', 'main.rs'), open(os.path.join(src, 'src', 'main.rs')).read())
        if not os.path.exists(os.path.join(d, 'Cargo.lock')):
            shutil.copy(os.path.join(K.SRC, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
        cmd = ['cargo', 'build', '--offline', '--target-dir', os.path.join(K.BUILD, 'target-lib')]
        rc, so, se = K.sh(cmd, timeout=800, cwd=d)
        if rc != 0:
            shutil.copy(os.path.join(K.SRC, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
            rc, so, se = K.sh(cmd, timeout=800, cwd=d)
        if rc != 0:
            raise K.CheckError('library driver: ' + se[-3000:])
        exe = os.path.join(K.BUILD, 'target-lib', 'debug', 'libentry')
        priv = os.path.join(K.scratch(), 'libentry')
        shutil.copy(exe, priv)
    _lib['exe'] = priv
    return priv


class Lib:
    """One library process; generate() returns ('OK'|'ERR'|'PANIC'|'CRASH', text)."""
    _tl = threading.local()

    def __init__(self):
        self.p = None

    @classmethod
    def mine(cls):
        if not hasattr(cls._tl, 'v'):
            cls._tl.v = cls()
        return cls._tl.v

    def generate(self, path, dirs=(), cwd=None):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([build_lib()], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, env=K.ENV, text=True)
        try:
            self.p.stdin.write('\t'.join([path, *dirs]) + '\n')
            self.p.stdin.flush()
            t = threading.Timer(60, self.p.kill)
            t.start()
            l = self.p.stdout.readline()
            t.cancel()
        except BrokenPipeError:
            l = ''
        if not l:
            self.p.kill()
            rc = self.p.wait()
            self.p = None
            return 'CRASH', f'process ended with {rc}'
        k, _, r = l.rstrip('\n').partition(' ')
        return k, r


def fnv(b):
    h = 0xcbf29ce484222325
    for c in b:
        h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    return h
