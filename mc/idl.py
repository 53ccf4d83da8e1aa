"""Model of the IDL, independent of /repo: abstract syntax, printer, layouts, numbering and the
Mink wire rule (the reference every generated envelope and byte is compared with)."""
from dataclasses import dataclass, field
from typing import Optional

PRIMS = {'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8, 'int8': 1, 'int16': 2, 'int32': 4, 'int64': 8,
         'float32': 4, 'float64': 8}
C_T = {p: p + '_t' for p in PRIMS}
C_T.update(float32='float', float64='double')
RS_T = {'uint8': 'u8', 'uint16': 'u16', 'uint32': 'u32', 'uint64': 'u64', 'int8': 'i8', 'int16': 'i16',
        'int32': 'i32', 'int64': 'i64', 'float32': 'f32', 'float64': 'f64'}

# Types: ('p', prim) | ('s', StructName) | ('o', None|IfaceName) | ('b',)


def P(n):
    return ('p', n)


def S(n):
    return ('s', n)


def O(n=None):
    return ('o', n)


BUF = ('b',)


@dataclass(frozen=True)
class Include:
    path: str

    def text(self):
        return f'include "{self.path}"\n'


@dataclass(frozen=True)
class Const:
    type: str
    name: str
    lit: str

    def text(self):
        return f'const {self.type} {self.name} = {self.lit};\n'


@dataclass(frozen=True)
class Struct:
    name: str
    fields: tuple  # (name, type, count)

    def text(self):
        return f'struct {self.name} {{\n' + ''.join(
            f'  {tname(t)}{"" if n == 1 else "[%d]" % n} {f};\n' for f, t, n in self.fields) + '};\n'


@dataclass(frozen=True)
class Error:
    name: str

    def text(self):
        return f'error {self.name};\n'


@dataclass(frozen=True)
class Param:
    dir: str        # 'in' | 'out'
    type: tuple
    arr: Optional[int]  # None: value; 0: unbounded array; n: bounded array (objects)
    name: str

    def text(self):
        a = '' if self.arr is None else ('[]' if self.arr == 0 else f'[{self.arr}]')
        return f'{self.dir} {tname(self.type)}{a} {self.name}'


@dataclass(frozen=True)
class Method:
    name: str
    params: tuple = ()
    optional: bool = False
    doc: Optional[str] = None

    def text(self):
        d = f'/** {self.doc} */\n  ' if self.doc is not None else ''
        o = '#[optional]\n  ' if self.optional else ''
        return f'{d}{o}method {self.name}(' + ', '.join(p.text() for p in self.params) + ');\n'


@dataclass(frozen=True)
class Iface:
    name: str
    base: Optional[str] = None
    members: tuple = ()

    def text(self):
        b = f' : {self.base}' if self.base else ''
        return f'interface {self.name}{b} {{\n' + ''.join('  ' + m.text() for m in self.members) + '};\n'


def tname(t):
    if t[0] == 'p' or t[0] == 's':
        return t[1]
    if t[0] == 'o':
        return t[1] or 'interface'
    return 'buffer'


class Program:
    """A file set: name -> list of declarations; the first file is the main one."""

    def __init__(self, files):
        self.files = files
        self.main = next(iter(files))
        self.structs, self.ifaces, self.where = {}, {}, {}
        for f, ds in files.items():
            for d in ds:
                if isinstance(d, Struct):
                    self.structs[d.name] = d
                    self.where[d.name] = f
                elif isinstance(d, Iface):
                    self.ifaces[d.name] = d
                    self.where[d.name] = f

    def text(self, f):
        return '\n'.join(d.text() for d in self.files[f])

    def texts(self):
        return {f: self.text(f) for f in self.files}

    # ---- layout (packed; valid structs have no padding)
    def size(self, t):
        if t[0] == 'p':
            return PRIMS[t[1]]
        if t[0] == 'o':
            return 16
        return sum(self.size(ft) * n for _, ft, n in self.structs[t[1]].fields)

    def align(self, t):
        if t[0] == 'p':
            return PRIMS[t[1]]
        if t[0] == 'o':
            return 8
        return max(self.align(ft) for _, ft, n in self.structs[t[1]].fields)

    def offsets(self, t):
        off, r = 0, []
        for f, ft, n in self.structs[t[1]].fields:
            r.append((f, off))
            off += self.size(ft) * n
        return r

    def objects(self, t):
        """Byte offsets of the object fields of a type, in wire order: breadth first over the
        nested structs, array elements in index order."""
        if t[0] != 's':
            return []
        out, queue = [], [(t[1], 0)]
        while queue:
            nm, base = queue.pop(0)
            off = base
            for f, ft, n in self.structs[nm].fields:
                for i in range(n):
                    if ft[0] == 'o':
                        out.append(off)
                    elif ft[0] == 's':
                        queue.append((ft[1], off))
                    off += self.size(ft)
        return out

    def has_objects(self, t):
        return bool(self.objects(t))

    # ---- inheritance
    def chain(self, name):
        """root first"""
        r = []
        while name:
            i = self.ifaces[name]
            r.insert(0, i)
            name = i.base
        return r

    def methods(self, name):
        """[(defining interface, Method, op)]"""
        r = []
        for i in self.chain(name):
            for m in i.members:
                if isinstance(m, Method):
                    r.append((i.name, m, len(r)))
        return r

    def errors(self, name):
        r = []
        for i in self.chain(name):
            for m in i.members:
                if isinstance(m, Error):
                    r.append((i.name, m.name, 10 + len(r)))
        return r

    def consts(self, name):
        return [(i.name, m) for i in self.chain(name) for m in i.members if isinstance(m, Const)]

    # ---- the wire rule
    def pkind(self, p):
        """classification of a parameter: one of prim, struct (data value), ostruct (struct with
        objects), array (element type prim/struct; buffers are arrays of uint8), obj, objarr"""
        if p.type[0] == 'b':
            return 'array'
        if p.arr is not None:
            return 'objarr' if p.type[0] == 'o' else 'array'
        if p.type[0] == 'o':
            return 'obj'
        if p.type[0] == 'p':
            return 'prim'
        return 'ostruct' if self.has_objects(p.type) else 'struct'

    def elsize(self, p):
        return 1 if p.type[0] == 'b' else self.size(p.type)

    def wire(self, m):
        """Envelope of a method: dict(BI=[slot], BO=[slot], OI=[(param, offset|index)], OO=[...]);
        slot = ('bundle', size, [(param, offset, size)]) or ('param', param, size or None)."""
        env = {'BI': [], 'BO': [], 'OI': [], 'OO': []}
        for d, B, OB in (('in', 'BI', 'OI'), ('out', 'BO', 'OO')):
            ps = [(i, p) for i, p in enumerate(m.params) if p.dir == d]
            small = [(i, p) for i, p in ps
                     if self.pkind(p) in ('prim', 'struct') and self.elsize(p) <= 16]
            if len(small) >= 2:
                off, mem = 0, []
                for i, p in sorted(small, key=lambda x: -self.elsize(x[1])):
                    mem.append((i, off, self.elsize(p)))
                    off += self.elsize(p)
                env[B].append(('bundle', off, mem))
                gone = {i for i, _ in small}
            else:
                gone = set()
            for i, p in ps:
                k = self.pkind(p)
                if i in gone or k in ('obj', 'objarr'):
                    continue
                env[B].append(('param', i, None if k == 'array' else self.elsize(p)))
            for i, p in ps:
                if self.pkind(p) == 'ostruct':
                    env[OB] += [(i, o) for o in self.objects(p.type)]
            for i, p in ps:
                if self.pkind(p) == 'obj':
                    env[OB].append((i, 0))
            for i, p in ps:
                if self.pkind(p) == 'objarr':
                    env[OB] += [(i, 16 * j) for j in range(p.arr)]
        return env

    def counts(self, m):
        e = self.wire(m)
        return tuple(len(e[k]) for k in ('BI', 'BO', 'OI', 'OO'))

    def expressible(self, m):
        return all(c <= 15 for c in self.counts(m))

    # ---- restrictions on a method (documented rules)
    def method_ok(self, m):
        names = [p.name for p in m.params]
        if len(set(names)) != len(names):
            return False
        for p in m.params:
            if p.arr is not None:
                if p.type[0] == 'o' and p.arr == 0:
                    return False
                if p.type[0] != 'o' and p.arr != 0:
                    return False
                if p.type[0] == 's' and self.has_objects(p.type):
                    return False
        for d in ('in', 'out'):
            arrs = sum(1 for p in m.params if p.dir == d and p.type[0] == 'o' and p.arr)
            singles = sum(1 for p in m.params if p.dir == d and p.type[0] == 'o' and p.arr is None)
            if arrs > 1 or (arrs and singles):
                return False
        return self.expressible(m)
