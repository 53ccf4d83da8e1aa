"""Conforming users of the generated files, one translation unit per backend and side: they call every
method with typed arguments, use every constant and error, and instantiate every skeleton. Their own
parameter names (q0, q1, ...) never depend on the names the IDL uses."""
import os
import re
from dataclasses import replace
from . import glue
from .idl import *


def fresh(m):
    return replace(m, params=tuple(replace(p, name=f'q{i}') for i, p in enumerate(m.params)))


def names(decls):
    out = []
    for d in decls:
        m = re.search(r'\([*&](\w+)\)\[', d) or re.search(r'(\w+)$', d)
        out.append(m.group(1))
    return out


def stem(f):
    return os.path.splitext(os.path.basename(f))[0]


def c_stub(prog, typed, headers):
    o = [f'#include "{h}"' for h in headers]
    n = 0
    for f, ds in prog.files.items():
        for d in ds:
            if isinstance(d, Const):
                o.append(f'{C_T[d.type]} qk{n}(void) {{ return {d.name}; }}')
            elif isinstance(d, Struct):
                o.append(f'size_t qs{n}(const {d.name} *q) {{ {d.name} qc = *q; {d.name} qz[2]; qz[0] = qc; qz[1] = *q; (void) qz; return sizeof qz; }}')
                o += [f'const void *qf{n}_{k}(const {d.name} *q) {{ return &q->{x}; }}' for k, (x, t, c) in enumerate(d.fields)]
            elif isinstance(d, Iface):
                J = d.name
                o.append(f'int32_t qo{n}({J if typed else "Object"} q) {{ return {J}_retain(q) | {J}_release(q); }}')
                for k, (_, c) in enumerate(prog.consts(J)):
                    own = [m for m in d.members if m is c]
                    if own:
                        o.append(f'{C_T[c.type]} qc{n}_{k}(void) {{ return {J}_{c.name}; }}')
                es = prog.errors(J)
                if es:
                    o.append(f'int qe{n}(int32_t q) {{ switch (q) {{ ' + ' '.join(f'case {J}_{e}: return {k};' for k, (_, e, _) in enumerate(es)) + ' } return -1; }')
                for k, (w, m, op) in enumerate(prog.methods(J)):
                    q = glue.c_sig(prog, fresh(m), typed)
                    # methods of ancestors are inherited as functions of the descendant
                    o.append(f'int32_t qm{n}_{k}({", ".join(["Object self"] + q)}) {{ return {J}_{m.name}({", ".join(["self"] + names(q))}); }}')
            n += 1
    return '\n'.join(o) + '\n'


def c_skel(prog, typed, headers):
    o = ['#include <stddef.h>'] + [f'#include "{h}"' for h in headers] + ['typedef struct { int refs; } Qme;']
    n = 0
    for f, ds in prog.files.items():
        for d in ds:
            if isinstance(d, Iface):
                for part in (0, 1):
                    pre = f'q{n}{"p" if part else "f"}_'
                    ms = prog.methods(d.name)
                    if part and not any(m.optional for _, m, _ in ms):
                        continue
                    for m in ('retain', 'release'):
                        o.append(f'int32_t {pre}{m}(Qme *q);\nint32_t {pre}{m}(Qme *q) {{ q->refs += {1 if m == "retain" else -1}; return Object_OK; }}')
                    for _, m, _ in ms:
                        if part and m.optional:
                            continue
                        q = glue.c_sig(prog, fresh(m), typed)
                        o.append(f'int32_t {pre}{m.name}({", ".join(["Qme *qme"] + q)}) {{ return qme->refs; }}')
                    o.append(f'static {d.name}_DEFINE_INVOKE(Q{pre}invoke, {pre}, Qme *)')
                    o.append(f'Object Q{pre}make(Qme *q);\nObject Q{pre}make(Qme *q) {{ Object r = {{ Q{pre}invoke, q }}; return r; }}')
            n += 1
    return '\n'.join(o) + '\n'


def cpp_stub(prog, headers, ns):
    o = ['#include <object.h>', '#include <atomic>', '#include <cstdint>', '#include <cstring>', '#include <new>', '#include <stdint.h>', '#include <string.h>']
    o += ([f'namespace {ns} {{'] if ns else []) + [f'#include "{h}"' for h in headers]
    n = 0
    for f, ds in prog.files.items():
        for d in ds:
            if isinstance(d, Const):
                o.append(f'{C_T[d.type]} qk{n}() {{ return {d.name}; }}')
            elif isinstance(d, Struct):
                o.append(f'size_t qs{n}(const {d.name} &q) {{ {d.name} qz[2]; qz[0] = q; qz[1] = qz[0]; (void) qz; return sizeof qz; }}')
                o += [f'const void *qf{n}_{k}(const {d.name} &q) {{ return &q.{x}; }}' for k, (x, t, c) in enumerate(d.fields)]
            elif isinstance(d, Iface):
                J = d.name
                for k, (_, c) in enumerate(prog.consts(J)):
                    if [m for m in d.members if m is c]:
                        o.append(f'{C_T[c.type]} qc{n}_{k}() {{ return I{J}::{c.name}; }}')
                es = prog.errors(J)
                if es:
                    o.append(f'int qe{n}(int32_t q) {{ switch (q) {{ ' + ' '.join(f'case I{J}::{e}: return {k};' for k, (_, e, _) in enumerate(es)) + ' } return -1; }')
                o.append(f'int32_t qo{n}(Object q) {{ {J} qa(q); {J} qb; qb = qa; {J} qc(qb); Object qr = qc.ProxyBase::extract(); return Object_isNull(qr); }}')
                for k, (w, m, op) in enumerate(prog.methods(J)):
                    q = glue.cpp_sig(prog, fresh(m))
                    o.append(f'int32_t qm{n}_{k}({", ".join([f"{J} &self"] + q)}) {{ return self.{m.name}({", ".join(names(q))}); }}')
            n += 1
    return '\n'.join(o + (['}'] if ns else [])) + '\n'


def cpp_skel(prog, headers, ns):
    o = ['#include <object.h>', '#include <atomic>', '#include <cstdint>', '#include <cstring>', '#include <new>', '#include <stdint.h>', '#include <string.h>']
    o += ([f'namespace {ns} {{'] if ns else []) + [f'#include "{h}"' for h in headers]
    n = 0
    for f, ds in prog.files.items():
        for d in ds:
            if isinstance(d, Iface):
                for part in (0, 1):
                    ms = prog.methods(d.name)
                    if part and not any(m.optional for _, m, _ in ms):
                        continue
                    cls = f'Q{n}{"p" if part else "f"}'
                    o.append(f'class {cls} : public {d.name}ImplBase {{ public: {cls}() {{}} virtual ~{cls}() {{}}')
                    o.append('  Object qobj() { Object r = { ImplBase::invoke, static_cast<ImplBase *>(this) }; return r; }')
                    for _, m, _ in ms:
                        if part and m.optional:
                            continue
                        q = glue.cpp_sig(prog, fresh(m))
                        o.append(f'  int32_t {m.name}({", ".join(q)}) override {{ return Object_OK; }}')
                    o.append('};')
                    o.append(f'Object {cls}_make() {{ return (new {cls}())->qobj(); }}')
            n += 1
    return '\n'.join(o + (['}'] if ns else [])) + '\n'


def rs_sig(prog, m):
    ins, outs = [], []
    for i, p in enumerate(m.params):
        k, T = prog.pkind(p), glue.rs_type(prog, p.type)
        if p.dir == 'in':
            ins.append((f'q{i}', {'prim': T, 'array': f'&[{T}]', 'struct': f'&{T}', 'ostruct': f'&{T}', 'obj': f'Option<&{T}>',
                                  'objarr': f'&[Option<{T}>; {p.arr}]'}[k]))
        elif k == 'array':
            ins += [(f'q{i}', f'&mut [{T}]'), (f'q{i}_n', '&mut usize')]
        else:
            outs.append({'prim': T, 'struct': T, 'ostruct': T, 'obj': f'Option<{T}>', 'objarr': f'[Option<{T}>; {p.arr}]'}[k])
    return ins, outs


def rs_unit(prog, mods, objdir):
    """lib.rs of a crate laid out as upstream's integration crate."""
    o = ['#![deny(warnings)]', f'#[allow(warnings)] #[path = "{objdir}/mod.rs"] pub mod object;',
         '#[allow(unused, nonstandard_style, clippy::all, clippy::pedantic, clippy::nursery)] pub mod interfaces {']
    o += [f'  #[path = "{p}"] pub mod {m};' for m, p in mods]
    o += ['}', '#[allow(warnings)] pub mod user {']
    n = 0
    for f, ds in prog.files.items():
        fm = f'crate::interfaces::{stem(f).lower()}'
        for d in ds:
            if isinstance(d, Const):
                o.append(f'pub fn qk{n}() -> {RS_T[d.type]} {{ {fm}::{d.name.upper()} }}')
            elif isinstance(d, Struct):
                T = glue.rs_type(prog, S(d.name))
                o.append(f'pub fn qs{n}(q: {T}) -> usize {{ let r = q; std::mem::size_of_val(&r) }}')
                o += [f'pub fn qf{n}_{k}(q: &{T}) -> usize {{ &q.r#{x} as *const _ as usize }}' for k, (x, t, c) in enumerate(d.fields)]
            elif isinstance(d, Iface):
                J = d.name
                jm = f'crate::interfaces::{J.lower()}'
                for k, m in enumerate(d.members):
                    if isinstance(m, Const):
                        o.append(f'pub fn qc{n}_{k}() -> {RS_T[m.type]} {{ {jm}::{m.name.upper()} }}')
                    elif isinstance(m, Error):
                        o.append(f'pub fn qe{n}_{k}(q: {jm}::Error) -> bool {{ q == {jm}::{m.name.upper()} }}')
                up = f'crate::interfaces::{d.base.lower()}::{d.base}' if d.base else 'crate::object::Object'
                o.append(f'pub fn qo{n}(q: {jm}::{J}) -> {up} {{ let r = Clone::clone(&q); Into::into(r) }} pub fn qd{n}(q: &{jm}::{J}) -> &{up} {{ q }} pub fn qa{n}(q: &{jm}::{J}) -> &{up} {{ AsRef::as_ref(q) }}')
                o.append(f'fn qt{n}<T: Send + Sync + crate::object::TypedObject>() {{}} pub fn qs{n}() {{ qt{n}::<{jm}::{J}>() }}')
                o.append(f'pub struct Q{n}; impl Drop for Q{n} {{ fn drop(&mut self) {{}} }}')
                o.append(f'pub fn qn{n}() -> {jm}::{J} {{ <{jm}::{J} as From<Q{n}>>::from(Q{n}) }}')
                ms = prog.methods(J)
                for A in prog.chain(J):
                    am = f'crate::interfaces::{A.name.lower()}'
                    o.append(f'impl {am}::I{A.name} for Q{n} {{')
                    for k, (w, m, op) in enumerate(ms):
                        if w != A.name or (m.optional and k % 2):
                            continue
                        ins, outs = rs_sig(prog, m)
                        sig = ''.join(f', {x}: {t}' for x, t in ins)
                        ret = f'Result<({", ".join(outs)}), {am}::Error>'
                        o.append(f'  fn r#{m.name}(&mut self{sig}) -> {ret} {{ unimplemented!() }}')
                    o.append('}')
                for k, (w, m, op) in enumerate(ms):
                    ins, outs = rs_sig(prog, m)
                    sig = ''.join(f', {x}: {t}' for x, t in ins)
                    wm = f'crate::interfaces::{w.lower()}'
                    o.append(f'pub fn qm{n}_{k}(q: &{jm}::{J}{sig}) -> Result<({", ".join(outs)}), {wm}::Error> {{ {wm}::{w}::r#{m.name}({", ".join(["q"] + [x for x, _ in ins])}) }}')
            n += 1
    o.append('}')
    return '\n'.join(x for x in o if x) + '\n'


JT = {'uint8': 'byte', 'int8': 'byte', 'uint16': 'char', 'int16': 'char', 'uint32': 'int', 'int32': 'int', 'uint64': 'long',
      'int64': 'long', 'float32': 'float', 'float64': 'double'}
JP = 'com.qualcomm.qti.mink.'


def java_sig(prog, m):
    r = []
    for i, p in enumerate(m.params):
        k = prog.pkind(p)
        if p.type[0] == 'o':
            T = 'IMinkObject'
        elif p.type[0] == 'b':
            T = 'byte'
        elif p.type[0] == 'p':
            T = JT[p.type[1]]
        else:
            T = f'{JP}{stem(prog.where[p.type[1]])}.{p.type[1]}'
        n = f'q{i}'
        if p.dir == 'in':
            r.append((T + ('[]' if k in ('array', 'objarr') else ''), n))
        elif k in ('array', 'objarr'):
            r += [(T + '[][]', n), ('int', n + 'n')]
        else:
            r.append((T + '[]', n))
    return r


def java_unit(prog):
    """file name -> text; one implementation per interface and one user of everything"""
    o = ['package user;', 'import com.qualcomm.qti.qms.api.mink.IMinkObject;', 'public class Quser {']
    n = 0
    for f, ds in prog.files.items():
        F = JP + stem(f)
        for d in ds:
            if isinstance(d, Const):
                o.append(f'  {JT[d.type]} qk{n}() {{ return {F}.{d.name}; }}')
            elif isinstance(d, Struct):
                o.append(f'  Object[] qs{n}() {{ {F}.{d.name} q = new {F}.{d.name}(); return new Object[] {{' + ', '.join(f'q.{x}' for x, _, _ in d.fields) + '}; }')
            elif isinstance(d, Iface):
                J, JJ = d.name, JP + d.name
                for k, (_, c) in enumerate(prog.consts(J)):
                    o.append(f'  {JT[c.type]} qc{n}_{k}() {{ return {JJ}.{J}_{c.name.upper()}; }}')
                es = prog.errors(J)
                if es:
                    o.append(f'  int qe{n}(int q) {{ switch (q) {{ ' + ' '.join(f'case {JJ}.{J}_{e.upper()}: return {k};' for k, (_, e, _) in enumerate(es)) + ' } return -1; }')
                ms = prog.methods(J)
                for part in (0, 1):
                    if part and not any(m.optional for _, m, _ in ms):
                        continue
                    o.append(f'  static class Q{n}_{part} implements {JJ} {{')
                    for _, m, _ in ms:
                        if part and m.optional:
                            continue
                        o.append(f'    @Override public void {m.name}({", ".join(f"{t} {x}" for t, x in java_sig(prog, m))}) throws IMinkObject.InvokeException {{ }}')
                    o.append(f'  }}\n  IMinkObject qn{n}_{part}() {{ return new {JJ}.MinkObject(new Q{n}_{part}()); }}')
                o.append(f'  {JJ} qp{n}(IMinkObject q) {{ return new {JJ}.Proxy(q); }}')
                for k, (w, m, op) in enumerate(ms):
                    q = java_sig(prog, m)
                    o.append(f'  void qm{n}_{k}({", ".join([f"{JJ} q"] + [f"{t} {x}" for t, x in q])}) throws IMinkObject.InvokeException {{ q.{m.name}({", ".join(x for _, x in q)}); }}')
            n += 1
    o.append('}')
    return {'user/Quser.java': '\n'.join(o) + '\n'}
