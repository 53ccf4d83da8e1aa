"""Typed glue between the generic driver (harness/driver.c) and the generated code of each
language, plus the tables describing every method as the reference model sees it."""
import os
import subprocess
import hashlib
import shutil
from . import common as K
from .idl import *

HARN = os.path.join(K.VERIF, 'mc', 'harness')
CFLAGS = ['-O0', '-g0', '-w', '-fno-strict-aliasing']
MAXEL = 0


# ------------------------------------------------------------------ tables

def tables(prog, ifaces, langs):
    o = ['#include "h.h"']
    o2 = []
    for fi, name in enumerate(ifaces):
        rows = []
        for mi, (_, m, op) in enumerate(prog.methods(name)):
            pre = f't{fi}_{mi}'
            ps = []
            kinds = {'prim': 'K_PRIM', 'struct': 'K_STRUCT', 'ostruct': 'K_OSTRUCT', 'array': 'K_ARRAY',
                     'obj': 'K_OBJ', 'objarr': 'K_OBJARR'}
            for pi, p in enumerate(m.params):
                k = prog.pkind(p)
                off = prog.objects(p.type) if k == 'ostruct' else []
                if off:
                    o.append(f'static const uint32_t {pre}_o{pi}[]={{{",".join(map(str, off))}}};')
                ps.append(f'{{{int(p.dir == "out")},{kinds[k]},{prog.elsize(p)},{p.arr or 0},{len(off)},'
                          f'{pre + "_o" + str(pi) if off else 0}}}')
            o.append(f'static const PDesc {pre}_p[]={{{",".join(ps) or "{0}"}}};')
            w = prog.wire(m)
            for d in ('BI', 'BO'):
                sl = []
                for si, s in enumerate(w[d]):
                    if s[0] == 'bundle':
                        o.append(f'static const BMem {pre}_{d}{si}[]={{' +
                                 ','.join('{%d,%d,%d}' % x for x in s[2]) + '};')
                        sl.append(f'{{1,{s[1]},-1,{len(s[2])},{pre}_{d}{si}}}')
                    else:
                        sl.append(f'{{0,{0xffffffff if s[2] is None else s[2]}u,{s[1]},0,0}}')
                o.append(f'static const Slot {pre}_{d}[]={{{",".join(sl) or "{0}"}}};')
            for d in ('OI', 'OO'):
                o.append(f'static const ORef {pre}_{d}[]={{' + (','.join('{%d,%d}' % x for x in w[d]) or '{0}') + '};')
            n = prog.counts(m)
            rows.append(f'{{"{m.name}",{op},{int(m.optional)},{len(m.params)},{pre}_p,{{{",".join(map(str, n))}}},'
                        f'{pre}_BI,{pre}_BO,{pre}_OI,{pre}_OO}}')
        o.append(f'static const MDesc t{fi}[]={{{",".join(rows) or "{0}"}}};')
        o2.append(f'{{"{name}",{len(rows)},t{fi}}}')
    o.append(f'const IDesc h_ifaces[]={{{",".join(o2)}}}; const int h_nifaces={len(o2)};')
    for l in langs:
        o.append(f'int32_t stub_{l}(int,int,Object,HArg*); Object skel_{l}(int,void*,int);')
    o.append('const Lang h_langs[]={' + ','.join(f'{{"{l}",stub_{l},skel_{l}}}' for l in langs) +
             f'}}; const int h_nlangs={len(langs)};')
    return '\n'.join(o)


# ------------------------------------------------------------------ C

def c_sig(prog, m, typed):
    r = []
    for p in m.params:
        n, k = p.name, prog.pkind(p)
        if p.type[0] == 'o':
            T = (p.type[1] if typed else None) or 'Object'
        elif p.type[0] == 'b':
            T = 'void'
        else:
            T = C_T.get(p.type[1], p.type[1])
        if p.dir == 'in':
            r += {'prim': [f'{T} {n}_val'], 'array': [f'const {T} *{n}_ptr', f'size_t {n}_len'],
                  'struct': [f'const {T} *{n}_ptr'], 'ostruct': [f'const {T} *{n}_ptr'],
                  'obj': [f'{T} {n}'], 'objarr': [f'const {T} (*{n}_ptr)[{p.arr}]']}[k]
        else:
            r += {'prim': [f'{T} *{n}_ptr'], 'array': [f'{T} *{n}_ptr', f'size_t {n}_len', f'size_t *{n}_lenout'],
                  'struct': [f'{T} *{n}_ptr'], 'ostruct': [f'{T} *{n}_ptr'],
                  'obj': [f'{T} *{n}'], 'objarr': [f'{T} (*{n}_ptr)[{p.arr}]']}[k]
    return r


def c_glue(prog, ifaces, L, typed, headers):
    o = ['#include <stdlib.h>', '#include "h.h"'] + [f'#include "{h}"' for h in headers]
    o.append('typedef struct { int refs; void *ctx; } Me;')
    disp, mk = [], []
    for fi, I in enumerate(ifaces):
        ms = prog.methods(I)
        cases = []
        for mi, (_, m, _) in enumerate(ms):
            args = []
            for i, p in enumerate(m.params):
                k = prog.pkind(p)
                T = ((p.type[1] if typed else None) or 'Object') if p.type[0] == 'o' else \
                    'void' if p.type[0] == 'b' else C_T.get(p.type[1], p.type[1])
                c = 'const ' if p.dir == 'in' else ''
                if k == 'array':
                    args += [f'({c}{T}*)a[{i}].p', f'a[{i}].n'] + ([f'&a[{i}].lenout'] if p.dir == 'out' else [])
                elif k in ('prim', 'obj') and p.dir == 'in':
                    args.append(f'*({T}*)a[{i}].p')
                elif k == 'objarr':
                    args.append(f'({c}{T}(*)[{p.arr}])a[{i}].p')
                else:
                    args.append(f'({c}{T}*)a[{i}].p')
            cases.append(f'case {mi}: return {I}_{m.name}({", ".join(["self"] + args)});')
        disp.append(f'case {fi}: switch (method) {{ {" ".join(cases)} }} break;')
        for part in (0, 1):
            pre = f'{L}_{I}_{"part" if part else "full"}_'
            o.append(f'static int32_t {pre}retain(Me *me) {{ me->refs++; return Object_OK; }}')
            o.append(f'static int32_t {pre}release(Me *me) {{ if (--me->refs == 0) {{ h_drop(me->ctx); free(me); }} return Object_OK; }}')
            for mi, (_, m, _) in enumerate(ms):
                if part and m.optional:
                    continue
                b = []
                for i, p in enumerate(m.params):
                    k, n = prog.pkind(p), p.name
                    if k == 'array':
                        b.append(f'{{(void*){n}_ptr, {n}_len, 0}}')
                    elif k == 'prim' and p.dir == 'in':
                        b.append(f'{{&{n}_val, 1, 0}}')
                    elif k == 'obj':
                        b.append(f'{{(void*){"&" if p.dir == "in" else ""}{n}, 1, 0}}')
                    else:
                        b.append(f'{{(void*){n}_ptr, 1, 0}}')
                post = ''.join(f' *{p.name}_lenout = a[{i}].lenout;' for i, p in enumerate(m.params)
                               if p.dir == 'out' and prog.pkind(p) == 'array')
                sig = ', '.join(['Me *me'] + c_sig(prog, m, typed))
                o.append(f'int32_t {pre}{m.name}({sig}) {{ HArg a[] = {{{", ".join(b) or "{0}"}}}; '
                         f'int32_t r = h_impl(me->ctx, {fi}, {mi}, a); if (r == 0) {{{post} }} return r; }}')
            o.append(f'static {I}_DEFINE_INVOKE({pre}invoke, {pre}, Me *)')
        mk.append(f'case {fi}: return (Object){{partial ? {L}_{I}_part_invoke : {L}_{I}_full_invoke, me}};')
    o.append(f'int32_t stub_{L}(int iface, int method, Object self, HArg *a) {{ switch (iface) {{ {" ".join(disp)} }} abort(); }}')
    o.append(f'Object skel_{L}(int iface, void *ctx, int partial) {{ Me *me = malloc(sizeof *me); me->refs = 1; me->ctx = ctx; '
             f'switch (iface) {{ {" ".join(mk)} }} abort(); }}')
    return '\n'.join(o)


# ------------------------------------------------------------------ C++

def cpp_sig(prog, m):
    r = []
    for p in m.params:
        n, k = p.name, prog.pkind(p)
        if p.type[0] == 'o':
            T = p.type[1] or 'ProxyBase'
        elif p.type[0] == 'b':
            T = 'void'
        else:
            T = C_T.get(p.type[1], p.type[1])
        if p.dir == 'in':
            r += {'prim': [f'{T} {n}_val'], 'array': [f'const {T} *{n}_ptr', f'size_t {n}_len'],
                  'struct': [f'const {T} &{n}_ref'], 'ostruct': [f'const {T} &{n}_ref'],
                  'obj': [f'const {T} &{n}'], 'objarr': [f'const {T} (&{n}_ref)[{p.arr}]']}[k]
        else:
            r += {'prim': [f'{T} *{n}_ptr'], 'array': [f'{T} *{n}_ptr', f'size_t {n}_len', f'size_t *{n}_lenout'],
                  'struct': [f'{T} &{n}_ref'], 'ostruct': [f'{T} &{n}_ref'],
                  'obj': [f'{T} &{n}'], 'objarr': [f'{T} (&{n}_ref)[{p.arr}]']}[k]
    return r


def cpp_glue(prog, ifaces, L, headers):
    o = ['#include <cstdint>', '#include <atomic>', '#include <cstdlib>', '#include "h.h"'] + [f'#include "{h}"' for h in headers]
    disp, mk = [], []
    for fi, I in enumerate(ifaces):
        ms = prog.methods(I)
        cases = []
        for mi, (_, m, _) in enumerate(ms):
            pre, args, post = [], [], []
            for i, p in enumerate(m.params):
                k = prog.pkind(p)
                T = (p.type[1] or 'ProxyBase') if p.type[0] == 'o' else \
                    'void' if p.type[0] == 'b' else C_T.get(p.type[1], p.type[1])
                c = 'const ' if p.dir == 'in' else ''
                if k == 'array':
                    args += [f'({c}{T}*)a[{i}].p', f'a[{i}].n'] + ([f'&a[{i}].lenout'] if p.dir == 'out' else [])
                elif k == 'prim':
                    args.append(f'*({T}*)a[{i}].p' if p.dir == 'in' else f'({T}*)a[{i}].p')
                elif k in ('struct', 'ostruct'):
                    args.append(f'*({c}{T}*)a[{i}].p')
                elif k == 'obj':
                    pre.append(f'{T} x{i}' + (f'(*(Object*)a[{i}].p);' if p.dir == 'in' else ';'))
                    args.append(f'x{i}')
                    post.append(f'x{i}.extract();' if p.dir == 'in' else f'*(Object*)a[{i}].p = x{i}.extract();')
                else:
                    pre.append(f'{T} x{i}[{p.arr}];')
                    if p.dir == 'in':
                        pre.append(f'for (int j = 0; j < {p.arr}; j++) {{ Object t = ((Object*)a[{i}].p)[j]; x{i}[j].consume(t); }}')
                    post.append(f'for (int j = 0; j < {p.arr}; j++) ' +
                                (f'x{i}[j].extract();' if p.dir == 'in' else f'((Object*)a[{i}].p)[j] = x{i}[j].extract();'))
                    args.append(f'x{i}')
            cases.append(f'case {mi}: {{ {" ".join(pre)} int32_t r = prox.{m.name}({", ".join(args)}); {" ".join(post)} prox.extract(); return r; }}')
        disp.append(f'case {fi}: {{ {I} prox(self); switch (method) {{ {" ".join(cases)} }} break; }}')
        for part in (0, 1):
            cls = f'H_{I}_{"part" if part else "full"}'
            o.append(f'class {cls} : public {I}ImplBase {{ void *ctx; public: {cls}(void *c) : ctx(c) {{}} virtual ~{cls}() {{ h_drop(ctx); }}')
            o.append('  Object obj() { Object o = {ImplBase::invoke, static_cast<ImplBase *>(this)}; return o; }')
            for mi, (_, m, _) in enumerate(ms):
                if part and m.optional:
                    continue
                pre, b, post, fail = [], [], [], []
                for i, p in enumerate(m.params):
                    k, n = prog.pkind(p), p.name
                    if k == 'array':
                        b.append(f'{{(void*){n}_ptr, {n}_len, 0}}')
                        if p.dir == 'out':
                            post.append(f'*{n}_lenout = a[{i}].lenout;')
                    elif k == 'prim':
                        b.append(f'{{(void*){"&" + n + "_val" if p.dir == "in" else n + "_ptr"}, 1, 0}}')
                    elif k in ('struct', 'ostruct'):
                        b.append(f'{{(void*)&{n}_ref, 1, 0}}')
                    elif k == 'obj':
                        pre.append(f'Object o{i} = ' + (f'{n}.get();' if p.dir == 'in' else 'Object_NULL;'))
                        b.append(f'{{&o{i}, 1, 0}}')
                        if p.dir == 'out':
                            post.append(f'{n}.consume(o{i});')
                            fail.append(f'if (!Object_isNull(o{i})) {{ Object_retain(o{i}); {n}.consume(o{i}); }}')
                    else:
                        pre.append(f'Object o{i}[{p.arr}]; for (int j = 0; j < {p.arr}; j++) o{i}[j] = ' +
                                   (f'{n}_ref[j].get();' if p.dir == 'in' else 'Object_NULL;'))
                        b.append(f'{{o{i}, 1, 0}}')
                        if p.dir == 'out':
                            post.append(f'for (int j = 0; j < {p.arr}; j++) {n}_ref[j].consume(o{i}[j]);')
                            fail.append(f'for (int j = 0; j < {p.arr}; j++) if (!Object_isNull(o{i}[j])) {{ Object_retain(o{i}[j]); {n}_ref[j].consume(o{i}[j]); }}')
                o.append(f'  virtual int32_t {m.name}({", ".join(cpp_sig(prog, m))}) override {{ {" ".join(pre)} HArg a[] = {{{", ".join(b) or "{0}"}}}; '
                         f'int32_t r = h_impl(ctx, {fi}, {mi}, a); if (r == 0) {{ {" ".join(post)} }} else {{ {" ".join(fail)} }} return r; }}')
            o.append('};')
        mk.append(f'case {fi}: if (partial) return (new H_{I}_part(ctx))->obj(); return (new H_{I}_full(ctx))->obj();')
    o.append(f'extern "C" int32_t stub_{L}(int iface, int method, Object self, HArg *a) {{ switch (iface) {{ {" ".join(disp)} }} abort(); }}')
    o.append(f'extern "C" Object skel_{L}(int iface, void *ctx, int partial) {{ switch (iface) {{ {" ".join(mk)} }} abort(); }}')
    return '\n'.join(o)


# ------------------------------------------------------------------ Rust

def rs_mod_of(prog, name):
    return os.path.splitext(os.path.basename(prog.where[name]))[0].lower()


def rs_type(prog, t, owned=True):
    if t[0] == 'p':
        return RS_T[t[1]]
    if t[0] == 'b':
        return 'u8'
    if t[0] == 's':
        return f'crate::interfaces::{rs_mod_of(prog, t[1])}::r#{t[1]}'
    return f'crate::interfaces::{t[1].lower()}::{t[1]}' if t[1] else 'crate::object::Object'


def rs_glue(prog, ifaces, L, mods, objdir):
    o = ['#![allow(warnings)]', f'#[path = "{objdir}/mod.rs"] pub mod object;', 'pub mod interfaces {']
    o += [f'  #[path = "{p}"] pub mod {m};' for m, p in mods]
    o += ['}', 'use std::mem::ManuallyDrop; use std::ffi::c_void;',
          '#[repr(C)] pub struct HArg { p: *mut c_void, n: usize, lenout: usize }',
          'extern "C" { fn h_impl(ctx: *mut c_void, iface: i32, method: i32, a: *mut HArg) -> i32; fn h_drop(ctx: *mut c_void); }',
          'unsafe fn sl<\'a, T>(a: &HArg) -> &\'a [T] { if a.n == 0 { &[] } else { std::slice::from_raw_parts(a.p as *const T, a.n) } }',
          'unsafe fn slm<\'a, T>(a: &HArg) -> &\'a mut [T] { if a.n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(a.p as *mut T, a.n) } }']
    disp, mk = [], []
    for fi, I in enumerate(ifaces):
        ms = prog.methods(I)
        cases = []
        T_I = f'crate::interfaces::{I.lower()}::{I}'
        for mi, (_, m, _) in enumerate(ms):
            args, outs, wr = [], [], []
            for i, p in enumerate(m.params):
                k, T = prog.pkind(p), rs_type(prog, p.type)
                if p.dir == 'in':
                    args.append({'prim': f'std::ptr::read_unaligned(a[{i}].p as *const {T})', 'array': f'sl::<{T}>(&a[{i}])',
                                 'struct': f'&*(a[{i}].p as *const {T})', 'ostruct': f'&*(a[{i}].p as *const {T})',
                                 'obj': f'(*(a[{i}].p as *const Option<{T}>)).as_ref()',
                                 'objarr': f'&*(a[{i}].p as *const [Option<{T}>; {p.arr or 0}])'}[k])
                elif k == 'array':
                    args += [f'slm::<{T}>(&a[{i}])', f'&mut *(&mut a[{i}].lenout as *mut usize)']
                else:
                    v = f'y{i}'
                    outs.append(v)
                    TT = {'prim': T, 'struct': T, 'ostruct': T, 'obj': f'Option<{T}>', 'objarr': f'[Option<{T}>; {p.arr}]'}[k]
                    wr.append(f'std::ptr::write_unaligned(a[{i}].p as *mut {TT}, {v});')
            cases.append(f'{mi} => match me.r#{m.name}({", ".join(args)}) {{ Ok(({", ".join(outs)})) => {{ {" ".join(wr)} 0 }} '
                         f'Err(e) => i32::from(crate::object::Error::from(e)) }},')
        disp.append(f'{fi} => {{ let me = ManuallyDrop::new(std::ptr::read(&slf as *const _ as *const {T_I})); '
                    f'match method {{ {" ".join(cases)} _ => std::process::abort() }} }}')
        for part in (0, 1):
            st = f'H{fi}{"P" if part else "F"}'
            o.append(f'pub struct {st}(*mut c_void); impl Drop for {st} {{ fn drop(&mut self) {{ unsafe {{ h_drop(self.0) }} }} }}')
            for J in prog.chain(I):
                jm = f'crate::interfaces::{J.name.lower()}'
                o.append(f'impl {jm}::I{J.name} for {st} {{')
                for mi, (dn, m, _) in enumerate(ms):
                    if dn != J.name or (part and m.optional):
                        continue
                    sig, pre, b, post, outs, outT = [], [], [], [], [], []
                    for i, p in enumerate(m.params):
                        k, T, n = prog.pkind(p), rs_type(prog, p.type), 'r#' + p.name
                        if p.dir == 'in':
                            st_, e = {'prim': (T, f'&{n} as *const _ as *mut c_void'), 'array': (f'&[{T}]', f'{n}.as_ptr() as *mut c_void'),
                                      'struct': (f'&{T}', f'{n} as *const _ as *mut c_void'), 'ostruct': (f'&{T}', f'{n} as *const _ as *mut c_void'),
                                      'obj': (f'Option<&{T}>', f'x{i}.as_mut_ptr() as *mut c_void'),
                                      'objarr': (f'&[Option<{T}>; {p.arr}]', f'{n} as *const _ as *mut c_void')}[k]
                            if k == 'obj':
                                pre.append(f'let mut x{i} = [0usize; 2]; if let Some(q) = {n} {{ x{i} = std::mem::transmute_copy(q); }}')
                            sig.append(f'{n}: {st_}')
                            b.append(f'HArg {{ p: {e}, n: {n + ".len()" if k == "array" else 1}, lenout: 0 }}')
                        elif k == 'array':
                            sig += [f'{n}: &mut [{T}]', f'r#{p.name}_lenout: &mut usize']
                            b.append(f'HArg {{ p: {n}.as_mut_ptr() as *mut c_void, n: {n}.len(), lenout: 0 }}')
                            post.append(f'*r#{p.name}_lenout = a[{i}].lenout;')
                        else:
                            TT = {'prim': T, 'struct': T, 'ostruct': T, 'obj': f'Option<{T}>', 'objarr': f'[Option<{T}>; {p.arr}]'}[k]
                            pre.append(f'let mut y{i} = std::mem::MaybeUninit::<{TT}>::zeroed();')
                            b.append(f'HArg {{ p: y{i}.as_mut_ptr() as *mut c_void, n: 1, lenout: 0 }}')
                            outs.append(f'y{i}.assume_init()')
                            outT.append(TT)
                    o.append(f'  fn r#{m.name}({", ".join(["&mut self"] + sig)}) -> Result<({", ".join(outT)}), {jm}::Error> {{ unsafe {{ {" ".join(pre)} '
                             f'let mut a: [HArg; {len(b)}] = [{", ".join(b)}]; let r = h_impl(self.0, {fi}, {mi}, a.as_mut_ptr()); '
                             f'if r != 0 {{ return Err({jm}::Error::from(crate::object::Error::from(r))); }} {" ".join(post)} Ok(({", ".join(outs)})) }} }}')
                o.append('}')
        mk.append(f'{fi} => if partial != 0 {{ std::mem::transmute({T_I}::from(H{fi}P(ctx))) }} else {{ std::mem::transmute({T_I}::from(H{fi}F(ctx))) }},')
    o.append(f'#[no_mangle] pub unsafe extern "C" fn stub_{L}(iface: i32, method: i32, slf: [usize; 2], a: *mut HArg) -> i32 {{ '
             f'let a = std::slice::from_raw_parts_mut(a, 64); match iface {{ {" ".join(disp)} _ => std::process::abort() }} }}')
    o.append(f'#[no_mangle] pub unsafe extern "C" fn skel_{L}(iface: i32, ctx: *mut c_void, partial: i32) -> Obj {{ match iface {{ {" ".join(mk)} _ => std::process::abort() }} }}')
    o.append('#[repr(C)] pub struct Obj { a: usize, b: usize }')
    r = '\n'.join(o)
    return r.replace('slf: [usize; 2]', 'slf: Obj')


# ------------------------------------------------------------------ building one program

class BuildFail(Exception):
    def __init__(self, stage, msg):
        super().__init__(f'{stage}: {msg}')
        self.stage, self.msg = stage, msg


LANGS = ('C', 'CU', 'CPP', 'RS')


def gen(prog, d, langs=LANGS, flags=(), exe=None):
    """Run idlc for every language over every file of the program, in directory d."""
    for f, t in prog.texts().items():
        K.write(os.path.join(d, 'idl', f), t)
    for l in langs:
        os.makedirs(os.path.join(d, l), exist_ok=True)
        for f in prog.files:
            stem = os.path.splitext(os.path.basename(f))[0]
            src = os.path.join('idl', f)
            runs = {'C': [('--c', stem + '.h', []), ('--c', stem + '_invoke.h', ['--skel'])],
                    'CU': [('--c', stem + '.h', ['--no-typed-objects']), ('--c', stem + '_invoke.h', ['--skel', '--no-typed-objects'])],
                    'CPP': [('--cpp', stem + '.hpp', []), ('--cpp', stem + '_invoke.hpp', ['--skel'])],
                    'RS': [('--rust', '', [])]}[l]
            for fl, out, extra in runs:
                rc, err = K.idlc(src, os.path.join(l, out), fl, *extra, *flags, cwd=d, exe=exe)
                if rc != 0:
                    raise BuildFail('idlc', f'{l} {f} exit {rc}: {err.strip()[-600:]}')


_drv = {}


def driver_obj():
    if 'o' not in _drv:
        d = K.newdir('drv')
        out = os.path.join(d, 'driver.o')
        rc, so, se = K.sh(['gcc', '-O1', '-g0', '-Wall', '-I', HARN, '-I', K.runtime()['c'], '-c', os.path.join(HARN, 'driver.c'), '-o', out])
        if rc != 0:
            raise K.CheckError('driver.c: ' + se[-3000:])
        _drv['o'] = out
    return _drv['o']


def build(prog, ifaces, d, langs=LANGS, cc='clang', cxx='clang++', exe=None, gen_first=True):
    """Generate, compile and link everything; returns the path of the explorer executable."""
    if gen_first:
        gen(prog, d, langs, exe=exe)
    rt = K.runtime()
    stems = [os.path.splitext(os.path.basename(f))[0] for f in prog.files]
    objs = [driver_obj()]
    K.write(os.path.join(d, 'tables.c'), tables(prog, ifaces, langs))
    jobs = [[cc, *CFLAGS, '-I', HARN, '-I', rt['c'], '-c', 'tables.c', '-o', 'tables.o']]
    objs.append('tables.o')
    for l in langs:
        if l in ('C', 'CU'):
            K.write(os.path.join(d, f'glue_{l}.c'), c_glue(prog, ifaces, l, l == 'C', [f'{l}/{s}_invoke.h' for s in stems]))
            jobs.append([cc, *CFLAGS, '-I', HARN, '-I', rt['c'], '-I', l, '-I', '.', '-c', f'glue_{l}.c', '-o', f'{l}.o'])
            objs.append(f'{l}.o')
        elif l == 'CPP':
            K.write(os.path.join(d, 'glue_CPP.cpp'), cpp_glue(prog, ifaces, l, [f'{l}/{s}_invoke.hpp' for s in stems]))
            jobs.append([cxx, *CFLAGS, '-fno-exceptions', '-I', HARN, '-I', rt['c'], '-I', rt['cpp'], '-I', l, '-I', '.', '-c', 'glue_CPP.cpp', '-o', 'CPP.o'])
            objs.append('CPP.o')
        else:
            mods = sorted((f[:-3], os.path.join(d, 'RS', f)) for f in os.listdir(os.path.join(d, 'RS')))
            K.write(os.path.join(d, 'glue_RS.rs'), rs_glue(prog, ifaces, l, mods, rt['rust']))
            jobs.append(['rustc', '--edition', '2021', '--crate-type', 'staticlib', '--crate-name', 'glue', '--cfg', 'feature="std"',
                         '--cap-lints', 'allow', '-C', 'debuginfo=0', '-C', 'panic=abort', '-C', 'codegen-units=1', '-C', 'debug-assertions=on', 'glue_RS.rs', '-o', 'libglue.a'])
            objs.append('libglue.a')
    for j in jobs:
        rc, so, se = K.sh(j, timeout=300, cwd=d)
        if rc != 0:
            raise BuildFail('compile', ' '.join(j[:1] + j[-3:]) + '\n' + first_errors(se))
    rc, so, se = K.sh([cxx, '-o', 'explore', *objs, '-lpthread', '-ldl', '-lm'], cwd=d)
    if rc != 0:
        raise BuildFail('link', first_errors(se))
    return os.path.join(d, 'explore')


def first_errors(se, n=1800):
    ls = se.splitlines()
    for i, l in enumerate(ls):
        if 'error' in l:
            return '\n'.join(ls[i:i + 25])[:n]
    return se[-n:]
