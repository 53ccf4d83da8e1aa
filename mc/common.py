"""Shared plumbing of the checks: building idlc from /repo's working tree, running it,
parallel exploration, violations / known findings, evidence."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SRC = os.path.join(BUILD, 'src')
TARGET = os.path.join(BUILD, 'target')
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4

ENV = dict(os.environ)
for _k in ('CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS',
           'CFLAGS', 'CXXFLAGS', 'LD_LIBRARY_PATH', 'RUST_LOG', 'RUSTC_WRAPPER'):
    ENV.pop(_k, None)
ENV.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never', RUST_BACKTRACE='0', CARGO_INCREMENTAL='0',
           CARGO_PROFILE_DEV_DEBUG='0', LC_ALL='C.UTF-8', RUST_LOG='off')
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'


class CheckError(Exception):
    """The check itself could not run (not a verdict)."""


def sh(args, timeout=120, cwd=None, env=None, input=None):
    """Run, never raise on failure: (rc, stdout, stderr); rc is -9 on timeout, -N on a signal."""
    try:
        p = subprocess.run(args, stdin=subprocess.DEVNULL if input is None else None, input=input,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                           env=env or ENV)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf-8', 'replace'), 'TIMEOUT'


# ---------------------------------------------------------------- building

_SYNC_SKIP = {'.git', 'target', '.github'}


def _sync(src, dst):
    """Mirror by content: only files whose bytes differ are rewritten (fresh mtime), so
    cargo's mtime based fingerprints always notice a change and nothing else."""
    keep = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in _SYNC_SKIP]
        rel = os.path.relpath(root, src)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            s = os.path.join(root, f)
            if os.path.islink(s) and not os.path.exists(s):
                continue
            keep.add(r)
            d = os.path.join(dst, r)
            data = open(s, 'rb').read()
            try:
                if open(d, 'rb').read() == data:
                    continue
            except OSError:
                pass
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, 'wb') as fh:
                fh.write(data)
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in keep:
                os.unlink(os.path.join(root, f))


_built = {}


def build_idlc(release=False, profile=None):
    """Build idlc from REPO's working tree; returns the path of the executable."""
    key = profile or ('release' if release else 'debug')
    if key in _built:
        return _built[key]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        had_lock = os.path.exists(os.path.join(REPO, 'Cargo.lock'))
        _sync(REPO, SRC)
        if not had_lock:
            shutil.copy(os.path.join(VERIF, 'mc', 'Cargo.lock'), os.path.join(SRC, 'Cargo.lock'))
        cmd = ['cargo', 'build', '--offline', '-p', 'idlc', '--target-dir', TARGET]
        if key != 'debug':
            cmd += ['--profile', key]
        rc, out, err = sh(cmd, timeout=800, cwd=SRC)
        if rc != 0:
            raise CheckError('cargo build failed:\n' + err[-4000:])
        exe = os.path.join(TARGET, key, 'idlc')
        priv = os.path.join(BUILD, 'bin', key + '-' + hashlib.sha256(open(exe, 'rb').read()).hexdigest()[:16])
        if not os.path.exists(priv):
            os.makedirs(os.path.dirname(priv), exist_ok=True)
            shutil.copy(exe, priv + '.tmp')
            os.rename(priv + '.tmp', priv)
    _built[key] = priv
    return priv


def runtime():
    """The runtime files the generated code needs, from the mirrored working tree."""
    return {'c': os.path.join(SRC, 'tests', 'c'), 'cpp': os.path.join(SRC, 'tests', 'cpp'),
            'rust': os.path.join(SRC, 'tests', 'src', 'object')}


def idlc(idl, out, *flags, cwd=None, exe=None, timeout=60):
    """One run of the command-line driver. Returns (rc, stderr)."""
    rc, so, se = sh([exe or build_idlc(), idl, '-o', out, *flags], timeout=timeout, cwd=cwd)
    return rc, se if not so else so + se


# ---------------------------------------------------------------- scratch + parallelism

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) and \
            shutil.disk_usage('/dev/shm').free > (4 << 30) else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='mcidl.', dir=base)
    return _scratch


_n = [0]
_nl = threading.Lock()


def newdir(tag='d'):
    with _nl:
        _n[0] += 1
        n = _n[0]
    d = os.path.join(scratch(), f'{tag}{n}.{os.getpid()}')
    os.makedirs(d)
    return d


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


def pmap(fn, items, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        futs = [ex.submit(fn, it) for it in items]
        try:
            for f in futs:
                yield f.result()
        finally:
            for f in futs:
                f.cancel()


def pprocmap(fn, items, chunksize=1):
    """fork based map for Python-heavy work"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    with ctx.Pool(JOBS, initializer=_plain_sigterm) as pool:
        yield from pool.imap(fn, items, chunksize)


def _plain_sigterm():
    # workers are ended by SIGTERM; a handler of Python's could be missed by one that is about to wait
    signal.signal(signal.SIGTERM, signal.SIG_DFL)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(text, str):
        text = text.encode()
    with open(path, 'wb') as f:
        f.write(text)


# ---------------------------------------------------------------- check object

class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0}
        self.samples = []
        self.notes = {}
        self.nviol = 0
        self.maxviol = 8
        self.known = {}
        self.known_hit = {}
        self.lock = threading.Lock()
        self.caps = []
        self.deadline = self.t0 + (600 if self.quick else 850 * 4)
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for e in json.load(open(kf))['findings']:
                if e['property'] == pid and e.get('status') == 'open':
                    self.known[e['key']] = e

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def late(self):
        if time.time() > self.deadline:
            with self.lock:
                if 'time' not in self.caps:
                    self.caps.append('time')
            return True
        return self.nviol >= self.maxviol

    def is_known(self, key):
        return key in self.known

    def violation(self, what, key=None, **replay):
        """Report one violation (or a known finding, by exact key)."""
        with self.lock:
            if key is not None and key in self.known:
                if key not in self.known_hit:
                    self.known_hit[key] = what
                    print(f'KNOWN-FINDING: property={self.pid} {self.known[key]["what"]}', flush=True)
                return
            self.nviol += 1
            if self.nviol > self.maxviol:
                return
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            body = {'property': self.pid, 'what': what, 'key': key, **replay}
            text = json.dumps(body, indent=1, default=str)
            p = os.path.join(d, f'{self.pid}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json')
            with open(p, 'w') as f:
                f.write(text)
            print(f'VIOLATION property={self.pid} replay={p}', flush=True)
            print('  ' + what.replace('\n', '\n  ')[:3000], flush=True)

    def finish(self, rule):
        cov = dict(self.cov)
        cov['samples'] = self.samples
        cov['rule'] = rule
        cov['exhaustive_within_bounds'] = not self.caps
        cov['caps_hit'] = self.caps
        cov['known_findings_seen'] = sorted(self.known_hit)
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print(f'{self.pid} {self.tier}: {"VIOLATED" if self.nviol else "held"}; '
              + ', '.join(f'{k}={v}' for k, v in self.cov.items())
              + f'; {ev["wall_s"]} s' + (f'; caps {self.caps}' if self.caps else ''), flush=True)
        cleanup()
        return 1 if self.nviol else 0
