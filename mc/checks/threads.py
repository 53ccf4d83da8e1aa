"""C20: generated Rust objects under loom: every schedule of small client programs over handles of
one generated object, for every shape of method."""
import itertools
import os
import shutil
from .. import common as K

COMMON = '''interface Oth { method oping(); };
struct S { uint32[3] a; };
struct T { Oth o; uint64 q; };
'''
CM = 'crate::interfaces::cm::'
OTH = 'crate::interfaces::oth::Oth'
ANY = 'crate::object::Object'
# name: (idl type, Rust parameter of the implementation, what the body does with it, client's argument)
IN = {
    'u8': ('uint8 {n}', '{n}: u8', '', '5u8'),
    'u32': ('uint32 {n}', '{n}: u32', '', '7u32'),
    'f64': ('float64 {n}', '{n}: f64', '', '0.5f64'),
    'S': ('S {n}', '{n}: &%sS' % CM, '', '&%sS { a: [1, 2, 3] }' % CM),
    'T': ('T {n}', '{n}: &%sT' % CM, 'self.store = {n}.o.clone();', '&%sT { o: Some(oth.clone()), q: 3 }' % CM),
    'buf': ('buffer {n}', '{n}: &[u8]', '', '&[1u8, 2, 3]'),
    'a32': ('uint32[] {n}', '{n}: &[u32]', '', '&[1u32, 2]'),
    'aS': ('S[] {n}', '{n}: &[%sS]' % CM, '', '&[%sS { a: [1, 2, 3] }]' % CM),
    'o': ('Oth {n}', '{n}: Option<&%s>' % OTH, 'self.store = {n}.cloned();', 'Some(oth)'),
    'none': ('Oth {n}', '{n}: Option<&%s>' % OTH, 'self.store = {n}.cloned();', 'None'),
    'any': ('interface {n}', '{n}: Option<&%s>' % ANY, 'drop({n}.cloned());', 'Some(unsafe { core::mem::transmute::<&%s, &%s>(oth) })' % (OTH, ANY)),
    'ao': ('Oth[2] {n}', '{n}: &[Option<%s>; 2]' % OTH, 'self.store = {n}[1].clone();', '&[None, Some(oth.clone())]'),
}
# name: (idl type, (Rust parameter | '', return type | ''), body statements, returned expression, client's arguments)
OUT = {
    'u8': ('uint8 {n}', '', 'u8', '', '5u8', ''),
    'u32': ('uint32 {n}', '', 'u32', '', '7u32', ''),
    'f64': ('float64 {n}', '', 'f64', '', '0.5f64', ''),
    'S': ('S {n}', '', CM + 'S', '', CM + 'S { a: [4, 5, 6] }', ''),
    'T': ('T {n}', '', CM + 'T', '', CM + 'T { o: self.store.clone(), q: 3 }', ''),
    'buf': ('buffer {n}', '{n}: &mut [u8], {n}_lenout: &mut usize', '', '{n}[0] = 1; *{n}_lenout = 1;', '', '&mut [0u8; 4], &mut 0usize'),
    'a32': ('uint32[] {n}', '{n}: &mut [u32], {n}_lenout: &mut usize', '', '{n}[0] = 1; *{n}_lenout = 1;', '', '&mut [0u32; 4], &mut 0usize'),
    'aS': ('S[] {n}', '{n}: &mut [%sS], {n}_lenout: &mut usize' % CM, '', '*{n}_lenout = {n}.len();', '', '&mut [%sS { a: [0; 3] }], &mut 0usize' % CM),
    'o': ('Oth {n}', '', 'Option<%s>' % OTH, '', 'self.store.clone()', ''),
    'any': ('interface {n}', '', 'Option<%s>' % ANY, '', 'unsafe { core::mem::transmute(self.store.clone()) }', ''),
    'ao': ('Oth[2] {n}', '', '[Option<%s>; 2]' % OTH, '', '[self.store.clone(), None]', ''),
}


def shapes(quick):
    """[(ins, outs)]: the parameter lists of the method under test"""
    r = [((), ())]
    r += [((i,), ()) for i in IN] + [((), (o,)) for o in OUT]
    r += [((i,), (i,)) for i in IN if i in OUT]
    r += [(('u8', 'u32', 'buf'), ('u8', 'u32', 'buf')), (('T', 'o'), ('T', 'o')), (('ao', 'u32'), ('ao', 'u8')), (('a32', 'S', 'any'), ('a32', 'S', 'any')), (('u8', 'u8'), ('u32', 'u8'))]
    if not quick:
        r += [((i,), (o,)) for i in IN for o in OUT if i != o]
        r += [((i, j), ()) for i, j in itertools.combinations(IN, 2)] + [((), (i, j)) for i, j in itertools.combinations(OUT, 2)]
    return r


def idl(k, ins, outs):
    ps = [f'in {IN[a][0].format(n=f"i{x}")}' for x, a in enumerate(ins)] + [f'out {OUT[a][0].format(n=f"q{x}")}' for x, a in enumerate(outs)]
    p = ', '.join(ps)
    return f'''include "cm.idl"
interface P{k} {{ error E{k}; method m{k}({p}); #[optional]
 method o{k}({p}); #[optional]
 method n{k}({p}); }};
interface Q{k} : P{k} {{ error F{k}; method x{k}({p}); }};
interface R{k} : Q{k} {{ #[optional]
 method y{k}({p}); method z{k}(); }};
'''


def impl(k, ins, outs):
    """Rust: Im implements the three interfaces; three handle types implement Hd"""
    params = ', '.join(['&mut self'] + [IN[a][1].format(n=f'r#i{x}') for x, a in enumerate(ins)] + [OUT[a][1].format(n=f'r#q{x}').replace(f'r#q{x}_lenout', f'q{x}_lenout') for x, a in enumerate(outs) if OUT[a][1]])
    rets = [OUT[a][2] for a in outs if OUT[a][2]]
    ret = '()' if not rets else rets[0] if len(rets) == 1 else '(' + ', '.join(rets) + ')'
    work = ' '.join([IN[a][2].format(n=f'r#i{x}') for x, a in enumerate(ins)] + [OUT[a][3].format(n=f'r#q{x}').replace(f'r#q{x}_lenout', f'q{x}_lenout') for x, a in enumerate(outs)])
    exprs = [OUT[a][4] for a in outs if OUT[a][2]]
    val = '()' if not exprs else exprs[0] if len(exprs) == 1 else '(' + ', '.join(exprs) + ')'
    args = ', '.join([IN[a][3] for a in ins] + [OUT[a][5] for a in outs if OUT[a][5]])

    def method(name, mod, err):
        e = f'if e {{ self.leave(); return Err(crate::interfaces::{mod}::{err}); }}' if err else 'let _ = e;'
        return f'fn r#{name}({params}) -> Result<{ret}, crate::interfaces::{mod}::Error> {{ let e = self.enter(); {e} {work} let r = {val}; self.leave(); Ok(r) }}\n'
    m = 'crate::interfaces::'
    s = f'impl {m}p{k}::IP{k} for Im {{ {method(f"m{k}", f"p{k}", f"E{k}")} {method(f"o{k}", f"p{k}", f"E{k}")} }}\n'
    s += f'impl {m}q{k}::IQ{k} for Im {{ {method(f"x{k}", f"q{k}", f"F{k}")} }}\n'
    s += (f'impl {m}r{k}::IR{k} for Im {{ {method(f"y{k}", f"r{k}", None)} fn r#z{k}(&mut self) -> Result<(), {m}r{k}::Error> {{ let _ = self.enter(); self.leave(); Ok(()) }} }}\n')

    def call(n):
        return f'Some(self.r#{n}{k}({args}).map(|_| ()).map_err(|_| ()))'
    arms = f"b'm' | b'e' => {call('m')}, b'o' => {call('o')}, b'n' => {call('n')},"
    for t, more in (('p', ''), ('q', f"b'x' => {call('x')},"), ('r', f"b'x' => {call('x')}, b'y' => {call('y')}, b'z' => Some(self.r#z{k}().map_err(|_| ())),")):
        up = '' if t == 'p' else f"b'b' => {{ let b: {m}{chr(ord(t) - 1)}{k}::{chr(ord(t) - 1).upper()}{k} = self.clone().into(); let r = b.r#m{k}({args}); drop(b); Some(r.map(|_| ()).map_err(|_| ())) }}" if t == 'q' else f"b'b' => {{ let b: {m}q{k}::Q{k} = self.clone().into(); let r = b.r#m{k}({args}); drop(b); Some(r.map(|_| ()).map_err(|_| ())) }}"
        T = f'{m}{t}{k}::{t.upper()}{k}'
        s += f'''impl Hd for {T} {{
 fn make(i: Im) -> Self {{ i.into() }}
 fn op(&self, op: u8, oth: &{OTH}) -> Option<Result<(), ()>> {{ let _ = oth; match op {{ {arms} {more} {up} _ => None }} }}
 fn raw(&self) -> &{ANY} {{ unsafe {{ core::mem::transmute(self) }} }}
 fn through(self) -> Self {{ use crate::object::TypedObject; let o = self.into_raw(); unsafe {{ Self::from_raw(o) }} }}
 fn optional(op: u8) -> bool {{ op == b'n' }}
}}
'''
    return s


OPS = {'p': 'meoCDTRUVWnp', 'q': 'meoCDTRUVWnpxb', 'r': 'meoCDTRUVWnpxbyz'}


def seqs(alpha, length):
    """operation sequences of one client that begin with one handle; an operation needs one"""
    for n in range(length + 1):
        for w in itertools.product(alpha, repeat=n):
            h, ok = 1, True
            for c in w:
                if not h:
                    ok = False
                    break
                h += (c == 'C') - (c == 'D')
            if ok:
                yield ''.join(w)


def pairs(ws, n=2):
    return ['|'.join(c) for c in itertools.combinations_with_replacement(sorted(ws), n)]


def programs(t, shape, deep, quick):
    """[(preemption bound or '-', program)]; '-': every interleaving"""
    calls = {'p': 'meo', 'q': 'mexb', 'r': 'mbxyz'}[t]
    objs = [a for side in shape for a in side if a in ('o', 'T', 'any', 'ao', 'none')]
    two = '-' if not objs else ('3' if quick else '4')
    r = {(two, p) for p in pairs(set(seqs(calls + 'CD', 1)) | {'mm', 'mD', 'Cm', 'CD', 'TD', 'Tm', 'pm'})}
    r |= {('2' if quick else '3', '|'.join(c)) for c in itertools.combinations_with_replacement(['', 'm', 'T'] + (['D', 'x'] if t != 'p' else ['D']), 3)}
    if len(objs) == 1 or objs == ['o', 'o']:
        r |= {('-', p) for p in ('m|m', 'm|D', 'm|', 'm|T', 'm|C')}
    if deep:
        r |= {(two, p) for p in pairs(set(seqs(OPS[t], 1)) | set(seqs('meCD' + ('b' if t != 'p' else ''), 2)))}
        r |= {('3' if quick else '4', '|'.join(c)) for c in itertools.combinations_with_replacement(['', 'm', 'D', 'CD', 'T', 'e', 'C'], 3)}
        if not objs and (t == 'p' or not quick):
            r |= {('-', '|'.join(c)) for c in itertools.combinations_with_replacement(['', 'm', 'D', 'C'] + ([] if quick else ['T', 'e']), 3)}
        if not quick:
            r |= {(two, p) for p in pairs(set(seqs(OPS[t], 2)))}
            r |= {(two, p) for p in pairs(set(seqs('mCD', 3)))}
    # a bounded exploration of what is also explored without a bound adds nothing
    return sorted((b, p) for b, p in r if b == '-' or ('-', p) not in r and not any(str(x) > b and (str(x), p) in r for x in range(int(b) + 1, 6)))


# ------------------------------------------------------------------ building

_lib = {}


def mcstd():
    """the crate that stands in for std: (rlib, deps directory)"""
    if not _lib:
        t = os.path.join(K.BUILD, 'loom')
        src = os.path.join(K.VERIF, 'mc', 'loom')
        rc, so, se = K.sh(['cargo', 'build', '--offline', '--locked', '--release', '--target-dir', t, '--manifest-path', os.path.join(src, 'Cargo.toml')], timeout=600)
        if rc:
            raise K.CheckError('mcstd does not build: ' + se[-2000:])
        _lib['x'] = os.path.join(t, 'release', 'libmcstd.rlib'), os.path.join(t, 'release', 'deps')
    return _lib['x']


def crate(d, group):
    """generate and build the client programs for a group of shapes -> (exe | None, diagnostics)"""
    os.makedirs(os.path.join(d, 'rs'))
    files = {'cm.idl': COMMON, **{f's{k}.idl': idl(k, *sh) for k, sh in group}}
    for f, t in files.items():
        K.write(os.path.join(d, f), t)
    for f in files:
        rc, so, se = K.sh([K.build_idlc(), f, '-o', 'rs', '--rust'], cwd=d)
        if rc:
            return None, f'idlc refuses {f}: {se[-500:]}'
    shutil.copytree(K.runtime()['rust'], os.path.join(d, 'object'))
    shutil.copy(os.path.join(K.VERIF, 'mc', 'loom', 'harness.rs'), os.path.join(d, 'harness.rs'))
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(d, 'rs')))
    arms = ''.join(f'"{t}{k}" => h::explore::<interfaces::{t}{k}::{t.upper()}{k}>(prog, bound),\n' for k, _ in group for t in 'pqr')
    body = ''.join(f'mod s{k} {{ use crate::h::{{Hd, Im}};\n{impl(k, *sh)} }}\n' for k, sh in group)
    K.write(os.path.join(d, 'main.rs'), f'''#![allow(warnings)]
extern crate mcstd as std;
extern crate mcstd as core;
pub mod object;
pub mod interfaces {{ {" ".join(f'#[path = "{d}/rs/{m}.rs"] pub mod r#{m};' for m in mods)} }}
#[path = "{d}/harness.rs"] pub mod h;
#[global_allocator] static A: h::Alloc = h::Alloc;
impl interfaces::oth::IOth for h::Im {{ fn r#oping(&mut self) -> Result<(), interfaces::oth::Error> {{ self.enter(); self.leave(); Ok(()) }} }}
{body}
pub fn table(shape: &str, prog: &str, bound: Option<usize>) -> u64 {{ match shape {{ {arms} _ => panic!("no such shape") }} }}
fn main() {{ h::main() }}
''')
    rlib, deps = mcstd()
    rc, so, se = K.sh(['rustc', '--edition', '2021', '-C', 'opt-level=1', '-C', 'debug-assertions=on', '--cfg', 'feature="std"', '--crate-name', 'clients', 'main.rs', '-o', 'clients',
                       '-L', 'dependency=' + deps, '--extern', 'mcstd=' + rlib], timeout=300, cwd=d)
    return (os.path.join(d, 'clients') if rc == 0 else None), se


# ------------------------------------------------------------------ the check

_lists = {}


def explore(job):
    """one process: programs of one shape -> (schedules, programs done, failure or None)"""
    exe, d, n, lines = job
    f = os.path.join(d, f'jobs{n}')
    K.write(f, '\n'.join(lines) + '\n')
    rc, so, se = K.sh([exe, f], timeout=3000, cwd=d)
    ok = [int(x[3:]) for x in so.splitlines() if x.startswith('OK ')]
    os.unlink(f)
    if rc == 0 and len(ok) == len(lines):
        return ok, None
    bad = [x for x in so.splitlines() if x.startswith('FAIL ')]
    at = lines[min(len(ok), len(lines) - 1)]
    return ok, (at, bad[0][5:][:600] if bad else f'the clients end with {rc}: {se[-300:]}')


def built(job):
    d, group = job
    return d, group, crate(d, group)


def run(chk):
    K.build_idlc()
    mcstd()
    top = K.newdir('thr')
    sh = list(enumerate(shapes(chk.quick)))
    names = [s for _, s in sh]
    deep = {0, names.index((('u32',), ('u32',))), names.index((('o',), ('o',))), names.index((('T',), ('T',)))}
    groups = [sh[i::8 if chk.quick else 40] for i in range(8 if chk.quick else 40)]
    jobs, unbuilt = [], []
    for d, g, (exe, err) in K.pmap(built, [(os.path.join(top, f'g{i}'), g) for i, g in enumerate(groups)]):
        if not exe:
            # which shape is it; the others still count
            for k, s in g:
                dd = os.path.join(top, f'one{k}')
                e2, err2 = crate(dd, [(k, s)])
                if not e2:
                    unbuilt.append((k, s, err2))
                else:
                    jobs.append((e2, dd, [(k, s)]))
            continue
        jobs.append((exe, d, g))
    for k, s, err in unbuilt:
        e = [x for x in err.splitlines() if x.startswith('error')][:3]
        if any('cannot be shared between threads' in x or 'cannot be sent between threads' in x for x in e):
            chk.violation(f'handles of an interface with a method of {s} cannot be used from several threads: {e}', key=f'not Send or Sync: {s}', shape=list(map(list, s)))
    if unbuilt and not chk.nviol:
        raise K.CheckError(f'clients do not build for {len(unbuilt)} shapes: {unbuilt[0][1]}: {unbuilt[0][2][-1500:]}')
    work = []
    for exe, d, g in jobs:
        for k, s in g:
            for t in 'pqr':
                ls = [f'{t}{k} {b} {p}' for b, p in programs(t, s, k in deep, chk.quick)]
                step = 12 if k in deep else 40
                work += [(exe, d, f'{t}{k}.{i}', ls[i:i + step]) for i in range(0, len(ls), step)]
    work.sort(key=lambda w: -len(w[3]) - (200 if int(w[2][1:].split('.')[0]) in deep else 0))
    done = sched = most = 0
    for w, (ok, bad) in zip(work, K.pmap(explore_unless_late(chk), work)):
        done += len(ok)
        sched += sum(ok)
        most = max([most, *ok])
        chk.add(states=len(ok), transitions=sum(ok), traces_validated_against_impl=sum(ok))
        if bad:
            shape, bound, prog = bad[0].split(' ')
            s = names[int(shape[1:])]
            chk.violation(f'clients {prog!r} of an object with a method of {s} ({"own" if shape[0] == "p" else "inherited"}): {bad[1]}', key=f'{s} {shape[0]} {prog}', shape=list(map(list, s)), type=shape[0], bound=bound, program=prog)
    chk.notes.update(shapes=len(sh), programs=done, schedules=sched, schedules_of_largest_program=most)
    for w in work[::max(1, len(work) // 12)]:
        chk.sample(f'{names[int(w[3][0].split(" ")[0][1:])]} {w[3][len(w[3]) // 2]}')
    if not done and not chk.nviol:
        raise K.CheckError('nothing explored')
    return ('for every shape of method (every kind of parameter alone, in pairs of one input and one output and in words; own, optional, unimplemented, inherited over one and two levels) every schedule that loom '
            'distinguishes (all interleavings up to equivalence, with the orderings of the memory model) of client programs of two clients with up to two operations (up to three in the thorough tier) and three clients '
            '(preemption bound in the quick tier) out of invoke, failing invoke, clone, drop, conversion to the base, raw round trip and malformed calls; the generated code and the unmodified runtime compiled with loom in place of std')


def explore_unless_late(chk):
    return lambda j: ([], None) if chk.late() else explore(j)


def replay(rec):
    K.build_idlc()
    d = os.path.join(K.newdir('r'), 'g')
    s = tuple(map(tuple, rec['shape']))
    exe, err = crate(d, [(0, s)])
    if not exe:
        print(err[-2000:])
        return 1
    if 'program' not in rec:
        return 0
    ok, bad = explore((exe, d, 0, [f"{rec['type']}0 {rec['bound']} {rec['program']}"]))
    print(ok, bad)
    return int(bool(bad))
