"""C17: every literal of every constant, evaluated in four languages."""
import itertools
import os
import re
import shutil
import struct
from fractions import Fraction
from .. import common as K
from .. import jrt
from ..idl import *

INTS = {p: (0 if p[0] == 'u' else -(1 << (8 * n - 1)), (1 << (8 * n)) - 1 if p[0] == 'u' else (1 << (8 * n - 1)) - 1)
        for p, n in PRIMS.items() if 'int' in p}


def lit_value(lit):
    s = lit.lstrip('-')
    v = Fraction(int(s[2:], 16)) if s.startswith('0x') else Fraction(s)
    return -v if lit.startswith('-') else v


def round_float(v, bits, emin, mbits):
    """Fraction -> IEEE bits, round to nearest even; None when it overflows."""
    neg = v < 0
    a = abs(v)
    if a == 0:
        return 0
    e = 0
    while a >= Fraction(2) ** (e + 1):
        e += 1
    while a < Fraction(2) ** e and e > emin:
        e -= 1
    e = max(e, emin)
    q = a / (Fraction(2) ** (e - mbits))
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >= 1 << (mbits + 1):
        n >>= 1
        e += 1
    ebits = bits - 1 - mbits
    if n >> mbits == 0:
        b = n
    else:
        be = e - emin + 1
        if be >= (1 << ebits) - 1:
            return None
        b = be << mbits | (n & ((1 << mbits) - 1))
    return b | (1 << (bits - 1) if neg else 0)


def fbits(t, lit):
    v = lit_value(lit)
    b = round_float(v, 32, -126, 23) if t == 'float32' else round_float(v, 64, -1022, 52)
    if b is not None and v == 0 and lit.startswith('-'):
        b = 1 << (31 if t == 'float32' else 63)
    return b


def int_forms(v, quick):
    s, a = ('-' if v < 0 else ''), abs(v)
    f = [f'{s}{a}', f'{s}0x{a:x}', f'{s}0x{a:X}', f'{s}0{a}', f'{s}0x000{a:x}']
    if not quick:
        f += [f'{s}000{a}', f'{s}0x0{a:X}']
    return f


def int_literals(t, quick):
    lo, hi = INTS[t]
    n = PRIMS[t]
    vs = {lo - 2, lo - 1, lo, lo + 1, lo + 2, -2, -1, 0, 1, 2, 7, 8, 9, 10, 63, 64, 77, 100, hi - 1, hi, hi + 1, hi + 2,
          (hi + 1) // 2 - 1, (hi + 1) // 2, (hi + 1) // 2 + 1, hi * 2 + 1, int('12345678' * 2, 16) & hi, int('fedcba98' * 2, 16) & hi,
          1 << 64, -(1 << 64), 1 << 128, -(1 << 63) - 1, 10 ** 30}
    for k in (7, 8, 15, 16, 31, 32, 63):
        vs |= {1 << k, (1 << k) - 1, -(1 << k), -(1 << k) - 1, (1 << k) + 1}
    if n == 1:
        vs |= set(range(-140, 270))
    elif not quick and n == 2:
        vs |= set(range(-33000, 66000, 7)) | set(range(-300, 300))
    out = []
    for v in sorted(vs, key=lambda x: (abs(x), x)):
        fs = int_forms(v, quick)
        if n == 1 and abs(v) > 20 and lo < v < hi and quick:
            fs = fs[:2]
        out += fs
    out += ['-0', '-0x0', '-00']
    return out


FLOATS = ['0', '-0', '0.0', '-0.0', '1', '-1', '5', '010', '-010.250', '0.5', '1.5', '-5.123213', '5.123213', '3.14159265358979323846', '0.1', '0.2', '-0.3',
          '16777216', '16777217', '16777219', '9007199254740993', '123456789012345678901234567890', '340282346638528859811704183484516925440',
          '0x10', '0xff', '-0xFF', '0x0', '0x000a', '0xdeadbeef', '-0x123456789abcdef0', '0x1e5', '-0xe5', '0x1' + '0' * 20, '0x' + 'f' * 30, '1.0', '100', '00', '0.000000001',
          '0.00000000000000000000000000000000000000000000140129846432481707', '1.00000005960464477540', '1.000000059604644775390625', '7.038531e00'[:8], '255', '2147483648', '4294967296', '18446744073709551616', '1' + '0' * 38]


def float_literals(t, quick):
    r = list(FLOATS)
    if t == 'float64':
        r += ['1' + '0' * 308, '-1' + '0' * 308, '0x' + 'f' * 200, '0.' + '0' * 320 + '5', '179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347747'
              + '97' + '9' * 0]
    r += ['1' + '0' * 39, '-1' + '0' * 39, '1' + '0' * 309, '0x1' + '0' * 32, '0x1' + '0' * 256, '340282366920938463463374607431768211456']
    for a, b in itertools.product(('1', '12', '0', '100000', '4096'), ('5', '25', '0', '000', '123456789', '999999999999')):
        r += [f'{a}.{b}', f'-{a}.{b}', f'00{a}.{b}0']
    if not quick:
        for k in range(-20, 39):
            v = Fraction(10) ** k
            r.append(str(10 ** k) if k >= 0 else '0.' + '0' * (-k - 1) + '1')
        for i in range(1, 400):
            r += [f'{i}.{i * i}', f'-0.{i:03d}', f'0x{i * 7919:x}']
    return r


def accept(t, lit):
    """must the declaration be accepted (without undefined behaviour)?"""
    if t in INTS:
        v = lit_value(lit)
        if v.denominator != 1 or '.' in lit:
            return False
        if t[0] == 'u' and lit[0] == '-':
            return False
        return INTS[t][0] <= v <= INTS[t][1]
    return fbits(t, lit) is not None


# ------------------------------------------------------------------ probes

def c_probe(names, cpp, scope):
    o = ['#include <stdio.h>', '#include <string.h>', '#include <stdint.h>']
    o.append(f'#include "main.{"hpp" if cpp else "h"}"')
    if cpp:
        o.append('#include <type_traits>\n#define T(X) typename std::remove_cv<decltype(X)>::type')
        o.append('template <class A> struct N; ' + ' '.join(
            f'template <> struct N<{C_T[p]}> {{ static const char *n() {{ return "{p}"; }} }};' for p in PRIMS))
        o.append('template <class A> static void show(const char *n, A v) { unsigned long long u = 0; double d = 0; int neg = v < 0; memcpy(&u, &v, sizeof v); '
                 'if (std::is_integral<A>::value) u = (unsigned long long)v; (void)d; printf("%s %s %d %llx\\n", n, N<typename std::remove_cv<A>::type>::n(), neg, u); }')
        o.append('int main() {')
        o += [f'show<std::remove_cv<decltype({e})>::type>("{n}", {e});' for n, e in names]
    else:
        o.append('#define KIND(X) _Generic(+(X), int: "int", unsigned: "unsigned", long: "long", unsigned long: "ulong", long long: "longlong", '
                 'unsigned long long: "ulonglong", float: "float", double: "double", default: "?")')
        o.append('#define SHOW(n, X) do { __typeof__(+(X)) v = X; unsigned long long u = 0; int neg = v < 0; memcpy(&u, &v, sizeof v); '
                 'if (_Generic(v, float: 0, double: 0, default: 1)) u = (unsigned long long)v; printf("%s %s %d %llx\\n", n, KIND(X), neg, u); } while (0)')
        o.append('int main(void) {')
        o += [f'SHOW("{n}", {e});' for n, e in names]
    return '\n'.join(o) + '\nreturn 0; }\n'


def rs_probe(names, mods):
    o = ['#![allow(warnings)]', 'pub mod object { pub use crate::obj::*; }', '#[path = "OBJ/mod.rs"] pub mod obj;', 'pub mod interfaces {'] + \
        [f'#[path = "{p}"] pub mod {m};' for m, p in mods] + ['}']
    o.append('trait B { fn b(&self) -> (bool, u64); }')
    for p in PRIMS:
        r = RS_T[p]
        if r[0] == 'f':
            o.append(f'impl B for {r} {{ fn b(&self) -> (bool, u64) {{ (*self < 0.0, self.to_bits() as u64) }} }}')
        else:
            o.append(f'impl B for {r} {{ fn b(&self) -> (bool, u64) {{ (({"*self < 0" if r[0] == "i" else "false"}), *self as u64) }} }}')
    o.append('fn show<T: B>(n: &str, v: &T) { let (neg, u) = v.b(); println!("{} {} {} {:x}", n, std::any::type_name::<T>(), neg as i32, u); }')
    o.append('fn main() {')
    o += [f'show("{n}", &{e});' for n, e in names]
    return '\n'.join(o) + '}\n'


def java_probe(names):
    o = ['package com.qualcomm.qti.mink;', 'public class Probe {', 'static void show(String n, Object v) { String k = v.getClass().getSimpleName(); long u; '
         'if (v instanceof Byte) u = (Byte) v; else if (v instanceof Short) u = (Short) v; else if (v instanceof Character) u = (Character) v; '
         'else if (v instanceof Integer) u = (Integer) v; else if (v instanceof Long) u = (Long) v; else if (v instanceof Float) u = Float.floatToRawIntBits((Float) v) & 0xffffffffL; '
         'else u = Double.doubleToRawLongBits((Double) v); System.out.println(n + " " + k + " 0 " + Long.toHexString(u)); }']
    meths = [names[i:i + 400] for i in range(0, len(names), 400)]
    for i, ms in enumerate(meths):
        o.append(f'static void m{i}() {{ ' + ' '.join(f'show("{n}", {e});' for n, e in ms) + ' }')
    o.append('public static void main(String[] a) { ' + ' '.join(f'm{i}();' for i in range(len(meths))) + ' }}')
    return '\n'.join(o)


def expected(lang, t, lit):
    """set of acceptable 'type neg bits' answers"""
    n = PRIMS[t]
    if t in INTS:
        v = int(lit_value(lit))
        m64 = v & ((1 << 64) - 1)
        if lang.startswith('c-'):
            ty = {'uint32': ['unsigned'], 'uint64': ['ulong', 'ulonglong'], 'int64': ['long', 'longlong']}.get(t, ['int'])
            return {f'{x} {int(v < 0)} {m64:x}' for x in ty}
        if lang.startswith('cpp-'):
            return {f'{t} {int(v < 0)} {m64:x}'}
        if lang == 'rust':
            return {f'{RS_T[t]} {int(v < 0)} {m64:x}'}
        # Java: the bits of the declared width in a carrier of that width
        w = v & ((1 << (8 * n)) - 1)
        sx = (w - (1 << (8 * n)) if w >> (8 * n - 1) else w) & ((1 << 64) - 1)
        ty = {1: ['Byte'], 2: ['Character', 'Short'], 4: ['Integer'], 8: ['Long']}[n]
        return {f'{x} 0 {(w if x == "Character" else sx):x}' for x in ty}
    b = fbits(t, lit)
    neg = int(lit_value(lit) < 0)
    ty = {'c': {'float32': 'float', 'float64': 'double'}[t], 'p': t, 'r': RS_T[t], 'j': {'float32': 'Float', 'float64': 'Double'}[t]}
    k = 'p' if lang.startswith('cpp') else lang[0]
    if k == 'j':
        neg = 0
    return {f'{ty[k]} {neg} {b:x}'}


SCOPES = ('file', 'own', 'inherited', 'included')


def batch_idl(items):
    """items: [(name, type, lit, scope)] -> files"""
    by = {s: [Const(t, n, l) for n, t, l, sc in items if sc == s] for s in SCOPES}
    return Program({
        'main.idl': [Include('sub.idl')] + by['file'] + [Iface('ITop', 'IMid', tuple(interleave(by['own'])))],
        'sub.idl': by['included'] + [Iface('IBase', None, tuple(interleave(by['inherited'][::2]))), Iface('IMid', 'IBase', tuple(interleave(by['inherited'][1::2])))]})


def interleave(cs):
    r = []
    for i, c in enumerate(cs):
        r.append(c)
        if i % 40 == 3:
            r.append(Method(f'mm{c.name}'))
        if i % 40 == 5:
            r.append(Error(f'EE{c.name}'))
    return r


def refer(lang, name, scope):
    if lang == 'rust':
        m = {'file': 'main', 'own': 'itop', 'included': 'sub'}[scope] if scope != 'inherited' else None
        return f'crate::interfaces::{m}::{name}' if m else None
    if lang == 'java':
        return {'file': f'main.{name}', 'own': f'ITop.ITop_{name}', 'inherited': f'ITop.ITop_{name}', 'included': f'sub.{name}'}[scope]
    if scope in ('file', 'included'):
        return name
    return f'ITop::{name}' if lang.startswith('cpp') else f'ITop_{name}'


def run_probe(chk, items, report, flags=()):
    """Compile one batch of accepted constants in every language and compare. A batch that does not
    build is split."""
    d = K.newdir('k')
    try:
        prog = batch_idl(items)
        for f, t in prog.texts().items():
            K.write(os.path.join(d, 'idl', f), t)
        res = {}
        bad = None
        for be, sub, out in (('--c', 'c', '.h'), ('--cpp', 'cpp', '.hpp'), ('--rust', 'rust', None), ('--java', 'java', None)):
            os.makedirs(os.path.join(d, sub))
            for f in prog.files:
                rc, err = K.idlc('idl/' + f, sub + '/' + (f[:-4] + out if out else ''), be, *flags, cwd=d)
                if rc != 0:
                    if len(items) > 1:
                        bad = 'split'
                    else:
                        report(items[0], be, f'rejected or failed: exit {rc}: {err.strip()[-300:]}')
                    break
            if bad:
                break
        if bad == 'split':
            h = len(items) // 2
            for part in (items[:h], items[h:]):
                run_probe(chk, part, report, flags)
            return
        rt = K.runtime()
        jobs = []
        for cc in ('gcc', 'clang'):
            names = [(n, refer('c', n, s)) for n, t, l, s in items]
            jobs.append((f'c-{cc}', names, lambda nm, cc=cc: K.write(os.path.join(d, f'p_{cc}.c'), c_probe(nm, False, None)),
                         [cc, '-std=gnu11', '-w', '-O0', '-I', 'c', '-I', rt['c'], f'p_{cc}.c', '-o', f'p_{cc}'], [f'./p_{cc}']))
        for cc in ('g++', 'clang++'):
            names = [(n, refer('cpp', n, s)) for n, t, l, s in items]
            jobs.append((f'cpp-{cc}', names, lambda nm, cc=cc: K.write(os.path.join(d, f'p_{cc}.cpp'), c_probe(nm, True, None)),
                         [cc, '-std=c++11', '-w', '-O0', '-I', 'cpp', '-I', rt['c'], '-I', rt['cpp'], f'p_{cc}.cpp', '-o', f'p_{cc}'], [f'./p_{cc}']))
        names = [(n, refer('rust', n, s)) for n, t, l, s in items if refer('rust', n, s)]
        mods = sorted((f[:-3], os.path.join(d, 'rust', f)) for f in os.listdir(os.path.join(d, 'rust')))
        jobs.append(('rust', names, lambda nm: K.write(os.path.join(d, 'p.rs'), rs_probe(nm, mods).replace('OBJ', rt['rust'])),
                     ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-C', 'debuginfo=0', '-A', 'warnings', '-D', 'overflowing_literals', 'p.rs', '-o', 'p_rs'], ['./p_rs']))
        names = [(n, refer('java', n, s)) for n, t, l, s in items]
        jf = sorted(os.path.join('java', f) for f in os.listdir(os.path.join(d, 'java')))
        jc = jrt.runtime_classes()
        jobs.append(('java', names, lambda nm: K.write(os.path.join(d, 'Probe.java'), java_probe(nm)),
                     ['javac', '-Werror', '-proc:none', '-cp', jc, '-d', 'jo', *jf, 'Probe.java'],
                     ['java', '-XX:TieredStopAtLevel=1', '-cp', jc + ':jo', 'com.qualcomm.qti.mink.Probe']))
        def go(job):
            lang, names, mk, cmd, run = job
            mk(names)
            rc, so, se = K.sh(cmd, cwd=d, timeout=400)
            if rc != 0:
                return lang, names, None, se
            rc, so, se = K.sh(run, cwd=d, timeout=100)
            if rc != 0:
                return lang, names, None, f'probe ended with {rc} {se[-300:]}'
            return lang, names, so, ''
        unbuilt = []
        for lang, names, so, se in K.pmap(go, jobs):
            if so is None:
                unbuilt.append((lang, se))
                continue
            got = dict(l.split(' ', 1) for l in so.splitlines() if ' ' in l)
            want = {n for n, e in names}
            for it in items:
                n, t, l, s = it
                if n not in want:
                    continue
                chk.add(transitions=1)
                g = got.get(n)
                if g not in expected(lang, t, l):
                    report(it, lang, f'evaluates to "{g}", expected one of {sorted(expected(lang, t, l))} (type, negative, bits)')
        if unbuilt:
            if len(items) == 1:
                for lang, se in unbuilt:
                    ls = [x for x in se.splitlines() if 'error' in x or 'warning' in x]
                    report(items[0], lang, 'does not compile: ' + ' | '.join(ls[:3])[:500])
            elif chk.nviol < chk.maxviol:
                h = len(items) // 2
                for part in (items[:h], items[h:]):
                    run_probe(chk, part, report, flags)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(chk):
    K.build_idlc()
    good, bad = [], []
    for t in PRIMS:
        seen = set()
        for l in (int_literals if t in INTS else float_literals)(t, chk.quick):
            if l in seen:
                continue
            seen.add(l)
            (good if accept(t, l) else bad).append((t, l))
    if True:  # fractional literals of integer types are no values of these types
        bad += [(t, l) for t in INTS for l in ('1.5', '0.0', '-1.5', '127.0')]
    items = []
    for i, (t, l) in enumerate(good):
        for k, s in enumerate(SCOPES):
            if chk.quick and PRIMS[t] == 1 and k != i % 4 and abs(lit_value(l)) > 20 and lit_value(l) not in INTS.get(t, ()):
                continue
            items.append((f'K{i}{"FOIU"[k]}', t, l, s))

    def report(it, lang, msg):
        n, t, l, s = it
        chk.violation(f'const {t} X = {l}; ({s} scope), {lang}: {msg}', key=f'{t} {l} {s} {lang}', type=t, literal=l, scope=s, lang=lang)
    bs = [items[i::16] for i in range(16)]
    for _ in K.pmap(lambda b: run_probe(chk, b, report), bs, 4):
        pass
    for t, l in good[:3] + good[-3:]:
        chk.sample(f'const {t} X = {l};')

    # rejection: each out-of-range literal alone, in each scope, with every backend; accepted with UB allowed
    def rej(c):
        t, l, s = c
        d = K.newdir('r')
        out = []
        prog = batch_idl([('X', t, l, s)])
        for f, tx in prog.texts().items():
            K.write(os.path.join(d, f), tx)
        for be, o in (('--c', 'o.h'), ('--cpp', 'o.hpp'), ('--rust', 'rs'), ('--java', 'ja')):
            if '.' not in o:
                os.makedirs(os.path.join(d, o))
            rc, err = K.idlc('main.idl', o, be, cwd=d)
            out.append((be, rc))
        shutil.rmtree(d, ignore_errors=True)
        return c, out
    cases = []
    for i, (t, l) in enumerate(bad):
        near = t in INTS and lit_value(l).denominator == 1 and (lit_value(l) in (INTS[t][0] - 1, INTS[t][1] + 1, -1) or l in ('-0', '-0x0'))
        for k, s in enumerate(SCOPES):
            if not chk.quick or near or k == i % 4:
                cases.append((t, l, s))
    n = 0
    for (t, l, s), out in K.pmap(rej, cases):
        for be, rc in out:
            n += 1
            if rc == 0:
                chk.violation(f'const {t} X = {l}; ({s} scope) is out of range but accepted by idlc {be}', key=f'accept {t} {l} {s} {be}', type=t, literal=l, scope=s)
    chk.add(states=len(items) + len(cases), transitions=n, traces_validated_against_impl=len(good) + len(bad))
    chk.notes.update(accepted_literals=len(good), rejected_literals=len(bad), scopes=list(SCOPES),
                     languages=['c-gcc', 'c-clang', 'cpp-g++', 'cpp-clang++', 'rust', 'java'])

    # with undefined behaviour allowed every in-range literal still means the same, and no literal is rejected
    ub = [(f'U{i}', t, l, 'file') for i, (t, l) in enumerate(good) if i % 9 == 0]
    run_probe(chk, ub, report, ('--allow-undefined-behavior',))
    return ('ten primitive types x literal forms (decimal, leading zeros, hex lower/upper/zero padded, negative, fractional) x values at and around every '
            'range boundary, power of two and carrier limit (8-bit types: all values) x four scopes; each accepted constant is compiled and evaluated in C (gcc, clang), '
            'C++ (g++, clang++), Rust and Java; each out-of-range literal must be refused')
