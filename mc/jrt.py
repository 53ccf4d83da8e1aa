"""The stand-in Mink Java runtime, compiled once per process."""
import atexit
import os
import struct
import subprocess
import threading
from . import common as K

_d = {}
_lock = threading.Lock()


def runtime_classes():
    if 'd' not in _d:
        d = K.newdir('jrt')
        srcs = []
        for root, _, fs in os.walk(os.path.join(K.VERIF, 'mc', 'java')):
            srcs += [os.path.join(root, f) for f in fs if f.endswith('.java')]
        rc, so, se = K.sh(['javac', '-d', d, *sorted(srcs)])
        if rc != 0:
            raise K.CheckError('stand-in Java runtime: ' + se[-2000:])
        _d['d'] = d
    return _d['d']


def javac(files, out, cwd=None, werror=True):
    return K.sh(['javac', *(['-Werror'] if werror else []), '-encoding', 'UTF-8', '-proc:none', '-cp', runtime_classes(), '-d', out, *files], cwd=cwd, timeout=300)


def java(main, cp, *args, cwd=None, timeout=300):
    return K.sh(['java', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-ea', '-cp', runtime_classes() + ':' + cp, main, *args], cwd=cwd, timeout=timeout)


# ------------------------------------------------------------------ a javac that stays

_local = threading.local()
_servers = []


def server_class():
    with _lock:
        if 's' not in _d:
            d = K.newdir('javac')
            rc, so, se = K.sh(['javac', '-d', d, os.path.join(K.VERIF, 'mc', 'javac', 'JavacServer.java')])
            if rc != 0:
                raise K.CheckError('javac server: ' + se[-2000:])
            _d['s'] = d
    return _d['s']


def compile_java(args):
    """javac with these arguments (absolute paths) by the calling thread's own compiler process -> status, diagnostics"""
    p = getattr(_local, 'p', None)
    if p is None or p.poll() is not None:
        p = subprocess.Popen(['java', '-Xshare:auto', '-XX:+UseSerialGC', '-Xmx1g', '-Dfile.encoding=UTF-8', '-cp', server_class(), 'JavacServer'],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _local.p = p
        _servers.append(p)
    m = struct.pack('>i', len(args))
    for a in args:
        b = a.encode()
        m += struct.pack('>H', len(b)) + b
    p.stdin.write(m)
    p.stdin.flush()
    h = p.stdout.read(8)
    if len(h) < 8:
        _local.p = None
        raise K.CheckError('the javac server ended')
    rc, n = struct.unpack('>ii', h)
    return rc, p.stdout.read(n).decode('utf-8', 'replace')


@atexit.register
def _end():
    for p in _servers:
        try:
            p.stdin.close()
            p.wait(5)
        except Exception:
            p.kill()
