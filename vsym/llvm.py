"""
Symbolic execution of C, through the LLVM IR clang emits for the repository's current
sources.  `Module.compile(paths)` runs clang + mem2reg and parses the textual IR; `VM` runs
its functions over core.SNum values.

Model: integers are mathematical (wrapped to their width when concrete), floating point
numbers are exact rationals / polynomials, memory is a set of objects with byte offsets.
Out-of-bounds or misaligned accesses and abort() raise CodeFault.
"""
import os
import re
import struct
import subprocess
import hashlib
from fractions import Fraction

from .core import (SNum, SBool, SCplx, ctx, in_ctx, rat, Unsupported, CodeFault, sand, sor, snot, issym)

CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18' if os.path.exists('/usr/bin/opt-18') else '/usr/bin/opt'


def compile_ir(src, incs, defs=()):
    cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-ffp-contract=off', '-w', '-S', '-emit-llvm', '-o', '-'] + ['-I' + i for i in incs] + list(defs) + [src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise RuntimeError('clang failed on %s: %s' % (src, p.stderr.decode()[-2000:]))
    p2 = subprocess.run([OPT, '-S', '-passes=mem2reg,instsimplify'], input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p2.returncode != 0:
        raise RuntimeError('opt failed: ' + p2.stderr.decode()[-2000:])
    return p2.stdout.decode()


# ----------------------------------------------------------------------------- types

class Ty(object):
    __slots__ = ('k', 'size', 'align', 'bits', 'elem', 'n', 'fields', 'offs')

    def __init__(self, k, size, align, bits=0, elem=None, n=0, fields=None):
        self.k = k
        self.size = size
        self.align = align
        self.bits = bits
        self.elem = elem
        self.n = n
        self.fields = fields
        if fields is not None:
            offs, o, al = [], 0, 1
            for f in fields:
                o = (o + f.align - 1) // f.align * f.align
                offs.append(o)
                o += f.size
                al = max(al, f.align)
            self.offs = offs
            self.align = al
            self.size = (o + al - 1) // al * al


PTR = Ty('p', 8, 8)
DOUBLE = Ty('f', 8, 8, 64)
FLOAT = Ty('f', 4, 4, 32)
VOID = Ty('v', 0, 1)
LABEL = Ty('l', 0, 1)
_INTS = {}


def INT(bits):
    if bits not in _INTS:
        s = max(1, (bits + 7) // 8)
        p = 1
        while p < s:
            p *= 2
        _INTS[bits] = Ty('i', p, min(p, 8 if bits <= 64 else 16), bits)
    return _INTS[bits]


_tok = re.compile(r'''
   c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
   [%@!\#][-a-zA-Z$._0-9]+ | %"[^"]*" | @"[^"]*" |
   -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-fKLMH]+ | -?\d+ |
   [a-zA-Z_][a-zA-Z0-9_.]* | \.\.\. | [^\s]
''', re.X)


class Toks(object):
    def __init__(self, s):
        self.t = _tok.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        t = self.next()
        if t != x:
            raise Unsupported('IR parse: expected %s got %s in %s' % (x, t, ' '.join(self.t)))


_ATTRS = set('noundef nonnull signext zeroext noalias nocapture readonly readnone writeonly returned immarg '
             'nofree nosync dereferenceable align inreg sret byval allocptr noreturn nounwind'.split())


class Func(object):
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params
        self.blocks = None
        self.raw = None
        self.compiled = None
        self.nreg = 0


class Module(object):
    def __init__(self, irs):
        self.structs = {}
        self.funcs = {}
        self.globals = {}   # name -> (Ty, init tokens string, const)
        self.gmem = {}
        for k, ir in enumerate(irs):
            self._parse(ir, k)

    @classmethod
    def compile(cls, srcs, incs, defs=()):
        return cls([compile_ir(s, incs, defs) for s in srcs])

    # -- parsing
    def type(self, T):
        t = T.next()
        if t == 'ptr':
            r = PTR
        elif t == 'double':
            r = DOUBLE
        elif t == 'float':
            r = FLOAT
        elif t == 'void':
            r = VOID
        elif t == 'label':
            r = LABEL
        elif t[0] == 'i' and t[1:].isdigit():
            r = INT(int(t[1:]))
        elif t == '[':
            n = int(T.next())
            T.expect('x')
            e = self.type(T)
            T.expect(']')
            r = Ty('a', e.size * n, e.align, 0, e, n)
        elif t == '{':
            f = []
            while not T.eat('}'):
                f.append(self.type(T))
                T.eat(',')
            r = Ty('s', 0, 1, fields=f)
        elif t[0] == '%':
            r = self.structs[t]
            if isinstance(r, str):
                T2 = Toks(r)
                self.structs[t] = r = self.type(T2)
        elif t == 'metadata':
            return LABEL
        elif t == '<':
            raise Unsupported('vector type')
        else:
            raise Unsupported('IR type %s in %s' % (t, ' '.join(T.t)[:200]))
        if T.peek() == '(' and r is not LABEL:
            # function type
            save = T.i
            depth = 0
            while True:
                x = T.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            if T.peek() == '*':
                T.next()
            elif T.peek() is not None and (T.peek()[0] in '%@'):
                pass
            else:
                T.i = save
        return r

    def _parse(self, ir, k):
        cur = None
        lines = ir.split('\n')
        mangle = {}

        for ln in lines:
            if cur is None:
                if ln.startswith('%') and ' = type ' in ln:
                    n, d = ln.split(' = type ')
                    self.structs[n.strip()] = d
                elif ln.startswith('@'):
                    n, d = ln.split(' = ', 1)
                    if n.strip() not in self.globals or not re.match(r'\s*external\b', d):
                        self.globals[n.strip()] = d
                elif ln.startswith('define '):
                    cur = self._header(ln)
                    cur.raw = []
                elif ln.startswith('declare '):
                    pass
            else:
                if ln.startswith('}'):
                    self.funcs['@' + cur.name] = cur
                    cur = None
                else:
                    cur.raw.append(ln)

    def _header(self, ln):
        m = re.search(r'@([-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(1)
        pre = ln[len('define '):m.start()].split()
        T = Toks(' '.join(p for p in pre if p not in ('internal', 'dso_local', 'noundef', 'signext', 'zeroext', 'hidden', 'local_unnamed_addr', 'noalias', 'weak', 'linkonce_odr', 'available_externally')))
        ret = self.type(T)
        T = Toks(ln[m.end():])
        params = []
        while not T.eat(')'):
            ty = self.type(T)
            while T.peek() is not None and not T.peek().startswith('%') and T.peek() not in (',', ')'):
                x = T.next()
                if T.peek() == '(':
                    while T.next() != ')':
                        pass
            if T.peek().startswith('%'):
                params.append((ty, T.next()))
            T.eat(',')
        return Func(name, ret, params)

    def find(self, *names):
        for n in names:
            if '@' + n in self.funcs:
                return self.funcs['@' + n]
        return None


# ----------------------------------------------------------------------------- memory

class Ptr(object):
    __slots__ = ('m', 'o')

    def __init__(self, m, o):
        self.m = m
        self.o = o

    def __eq__(self, q):
        if isinstance(q, Ptr):
            if self.m is not q.m:
                return False
            return self.o == q.o
        if isinstance(q, FRef):
            return False
        return NotImplemented

    def __ne__(self, q):
        return snot(self == q)

    def __hash__(self):
        return hash(id(self.m))

    def __repr__(self):
        return '<%s+%r>' % (self.m, self.o)


class FRef(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, q):
        return isinstance(q, FRef) and q.name == self.name

    def __ne__(self, q):
        return not self == q

    def __hash__(self):
        return hash(self.name)


NULL = Ptr(None, 0)


def conc(x):
    """collapse constant symbolic numbers"""
    if type(x) is SNum:
        c = x.const()
        if c is not None:
            return c
    return x


def iconc(x):
    if type(x) is SNum:
        c = x.const()
        if c is not None:
            return int(c)
    return x


class Mem(object):
    """object with byte offsets; cells are whole scalars"""

    def __init__(self, name, size, zero=False):
        self.name = name
        self.size = size
        self.cells = {}
        self.zero = zero
        self.freed = False

    def __repr__(self):
        return self.name

    def addr(self, o, size, what):
        if self.freed:
            raise CodeFault('use of freed memory %s' % self.name)
        if type(o) is SNum:
            c = o.const()
            if c is None:
                if self.size is not None:
                    bad = sor(o < 0, o + size > self.size)
                    if bad:
                        raise CodeFault('out-of-bounds %s of %s' % (what, self.name))
                o = ctx().concretize(o)
            else:
                o = int(c)
        if o < 0 or (self.size is not None and o + size > self.size):
            raise CodeFault('out-of-bounds %s of %s: offset %s size %s of %s' % (what, self.name, o, size, self.size))
        return o

    def load(self, o, ty):
        o = self.addr(o, ty.size, 'read')
        c = self.cells.get(o)
        if c is None:
            if self.zero:
                if ty.k == 'f':
                    return Fraction(0)
                if ty.k == 'p':
                    return NULL
                return 0
            ctx().stats.note('read of uninitialised memory %s+%s' % (self.name, o))
            if ty.k == 'p':
                raise CodeFault('read of uninitialised pointer')
            return SNum.atom(ctx().fresh('uninit', ty.k == 'i'))
        if c[0] != ty.size:
            if c[0] > ty.size and type(c[1]) is int:
                b = (c[1] & ((1 << (8 * c[0])) - 1)) & ((1 << (8 * ty.size)) - 1)
                return _sx(b, ty.bits)
            raise Unsupported('partial memory access %s+%s' % (self.name, o))
        return c[1]

    def store(self, o, ty, v):
        o = self.addr(o, ty.size, 'write')
        self.cells[o] = (ty.size, v)

    def copy_from(self, o, src, so, n):
        for k, (sz, v) in list(src.cells.items()):
            if so <= k < so + n:
                self.cells[o + k - so] = (sz, v)

    def memset(self, o, v, n):
        o = self.addr(o, 0, 'memset')
        n = int(n)
        if n and o + n > self.size:
            raise CodeFault('memset beyond %s' % self.name)
        if v != 0:
            raise Unsupported('memset nonzero')
        for k in [k for k in self.cells if o <= k < o + n]:
            del self.cells[k]
        if o == 0 and n == self.size:
            self.zero = True
        else:
            for k in range(o, o + n, 4):
                self.cells[k] = (4, 0)


class ArrMem(Mem):
    """memory backed by a flat Python list of scalars of one size"""

    def __init__(self, name, items, esize, kind='f', const=False, uf=None):
        self.name = name
        self.items = items
        self.esize = esize
        self.size = len(items) * esize
        self.kind = kind
        self.const = const
        self.freed = False
        self.uf = uf
        self.log = None

    def load(self, o, ty):
        if ty.size != self.esize:
            raise CodeFault('access of %d bytes in %s holding %d-byte elements' % (ty.size, self.name, self.esize))
        if self.uf and type(o) is SNum and o.const() is None:
            if sor(o < 0, o + ty.size > self.size):
                raise CodeFault('out-of-bounds read of %s' % self.name)
            i = o * Fraction(1, self.esize)
            return ctx().ufun(self.uf, i)
        o = self.addr(o, ty.size, 'read')
        if o % self.esize:
            raise CodeFault('misaligned access of %s' % self.name)
        if self.uf:
            return ctx().ufun(self.uf, SNum.of(o // self.esize))
        v = self.items[o // self.esize]
        if type(v) is float:
            return rat(v)
        return v

    def store(self, o, ty, v):
        if ty.size != self.esize:
            raise CodeFault('access of %d bytes in %s holding %d-byte elements' % (ty.size, self.name, self.esize))
        o = self.addr(o, ty.size, 'write')
        if o % self.esize:
            raise CodeFault('misaligned access of %s' % self.name)
        if self.const:
            raise CodeFault('write to constant %s' % self.name)
        self.items[o // self.esize] = v


def _sx(b, bits):
    b &= (1 << bits) - 1
    if bits > 1 and b >> (bits - 1):
        b -= 1 << bits
    return b


# ----------------------------------------------------------------------------- execution

def _mkwrap(bits):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    mask = (1 << bits) - 1
    half = 1 << (bits - 1)
    full = 1 << bits

    def w(r):
        if type(r) is int:
            if lo <= r <= hi:
                return r
            r &= mask
            return r - full if r >= half else r
        if type(r) is SNum:
            c = r.const()
            if c is not None:
                return w(int(c))
            return r
        if type(r) is bool:
            return int(r)
        if type(r) is SBool:
            return int(bool(r))
        if isinstance(r, Ptr):
            return r
        return w(int(r))
    return w


W = {b: _mkwrap(b) for b in (8, 16, 32, 64)}
W[1] = lambda r: bool(r)


def _toint(x):
    """concrete int of anything"""
    if type(x) is int:
        return x
    return int(x)


def _sdiv(a, b):
    if type(a) is int and type(b) is int:
        if b == 0:
            raise CodeFault('integer division by zero')
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    a, b = SNum.of(a), SNum.of(b)
    if b == 0:
        raise CodeFault('integer division by zero')
    if b.const() is None:
        b = SNum.of(_toint(b))
    return (a / b).trunc()


def _srem(a, b):
    if type(a) is int and type(b) is int:
        return a - b * _sdiv(a, b)
    return SNum.of(a) - SNum.of(b) * _sdiv(a, b)


def _unsig(x, bits):
    if type(x) is int:
        return x & ((1 << bits) - 1)
    if isinstance(x, SNum):
        if x >= 0:
            return x
        return x + (1 << bits)
    return x


def _bitop(op, bits):
    def f(a, b):
        if bits == 1:
            if op == 'and': return sand(a, b)
            if op == 'or': return sor(a, b)
            if a is True or (type(a) is int and a in (1, -1)): return snot(b)
            if b is True or (type(b) is int and b in (1, -1)): return snot(a)
            return bool(a) ^ bool(b)
        if type(a) is not int:
            if op == 'xor' and b == -1: return -a - 1
            if op == 'and' and type(b) is int and b == 1 and isinstance(a, SNum):
                return iconc(a - 2 * ctx().floor(a / 2))
            a = _toint(a)
        if type(b) is not int:
            b = _toint(b)
        if op == 'and': return a & b
        if op == 'or': return a | b
        return a ^ b
    return f


class VM(object):
    def __init__(self, mod, externs=None, tables_uf=False):
        self.mod = mod
        self.gm = {}
        self.ext = dict(_EXT)
        if externs:
            self.ext.update(externs)
        self.tables_uf = tables_uf
        self.steps = 0
        self.max_steps = 3000000
        self.called = set()

    # -- globals
    def glob(self, name):
        if name in self.mod.funcs:
            return FRef(name)
        g = self.gm.get(name)
        if g is None:
            d = self.mod.globals.get(name)
            if d is None:
                return FRef(name)
            g = self._mkglobal(name, d)
            self.gm[name] = g
        return Ptr(g, 0)

    def _mkglobal(self, name, d):
        const = re.search(r'\bconstant\b', d) is not None
        rest = re.split(r'\b(?:global|constant)\b', d, maxsplit=1)[1]
        m = re.match(r'\s*\[(\d+) x (double|float|i32|i64|i8)\] \[(.*)\]', rest)
        cache = self.mod.gmem.get(name)
        if m and len(rest) > 2000:
            if cache is None:
                k = m.group(2)
                vals = [x.strip().split()[-1] for x in m.group(3).split(',')]
                if k in ('double', 'float'):
                    vals = [_fp(v) for v in vals]
                else:
                    vals = [int(v) for v in vals]
                cache = (vals, {'double': 8, 'float': 4, 'i32': 4, 'i64': 8, 'i8': 1}[k], k)
                self.mod.gmem[name] = cache
            vals, es, k = cache
            return ArrMem(name, vals if const or self.tables_uf else list(vals), es, const=const,
                          uf=('T' + name) if self.tables_uf and k in ('double', 'float') else None)
        T = Toks(rest)
        ty = self.mod.type(T)
        mem = Mem(name, ty.size)
        self._init(mem, 0, ty, T)
        return mem

    def _init(self, mem, o, ty, T):
        t = T.peek()
        if t in ('zeroinitializer', 'undef', 'poison'):
            T.next()
            mem_fill_zero(mem, o, ty)
            return
        if ty.k == 'a':
            if t.startswith('c"'):
                T.next()
                s = t[2:-1]
                bs, i = [], 0
                while i < len(s):
                    if s[i] == '\\':
                        bs.append(int(s[i + 1:i + 3], 16))
                        i += 3
                    else:
                        bs.append(ord(s[i]))
                        i += 1
                for i, b in enumerate(bs):
                    mem.cells[o + i] = (1, b)
                return
            T.expect('[')
            for i in range(ty.n):
                et = self.mod.type(T)
                self._init(mem, o + i * ty.elem.size, et, T)
                T.eat(',')
            T.expect(']')
        elif ty.k == 's':
            T.eat('<')
            T.expect('{')
            for i in range(len(ty.fields)):
                et = self.mod.type(T)
                self._init(mem, o + ty.offs[i], et, T)
                T.eat(',')
            T.expect('}')
        else:
            v = self._const(ty, T.next(), T)
            mem.cells[o] = (ty.size, v)

    def _const(self, ty, t, T=None):
        if ty.k == 'f':
            return _fp(t)
        if ty.k == 'i':
            if t == 'true':
                return True if ty.bits == 1 else 1
            if t == 'false':
                return False if ty.bits == 1 else 0
            if t in ('undef', 'poison'):
                return 0
            return int(t)
        if t == 'null':
            return NULL
        if t in ('undef', 'poison'):
            return NULL
        if t.startswith('@'):
            return self.glob(t)
        if t == 'getelementptr':
            T.eat('inbounds')
            T.expect('(')
            bty = self.mod.type(T)
            T.expect(',')
            self.mod.type(T)
            p = self.glob(T.next())
            off = 0
            first = True
            while T.eat(','):
                ity = self.mod.type(T)
                i = int(T.next())
                if first:
                    off += i * bty.size
                    first = False
                elif bty.k == 'a':
                    bty = bty.elem
                    off += i * bty.size
                else:
                    off += bty.offs[i]
                    bty = bty.fields[i]
            T.expect(')')
            return Ptr(p.m, p.o + off)
        raise Unsupported('constant %s' % t)

    # -- function compilation
    def call(self, name, *args):
        f = self.mod.funcs.get('@' + name)
        if f is None:
            raise Unsupported('function %s not found' % name)
        return self.run(f, args)

    def run(self, f, args):
        if f.compiled is None:
            _Compiler(self.mod, f).go()
        self.called.add(f.name)
        R = [None] * f.nreg
        for i, a in enumerate(args):
            R[i] = a
        blocks = f.compiled
        b = 0
        n = 0
        while True:
            b = blocks[b](self, R)
            n += 1
            if n & 1023 == 0:
                self.steps += 1024
                if self.steps > self.max_steps:
                    raise CodeFault('does not terminate within %d basic blocks' % self.max_steps)
            if b < 0:
                return R[-1] if b == -1 else None

    def callref(self, fr, args):
        if isinstance(fr, Ptr):
            raise CodeFault('call through a bad pointer')
        f = self.mod.funcs.get(fr.name)
        if fr.name[1:] in self.ext and (f is None or fr.name[1:] in self.override):
            return self.ext[fr.name[1:]](self, *args)
        if f is None:
            raise Unsupported('external function %s' % fr.name)
        return self.run(f, args)
    override = ()


def mem_fill_zero(mem, o, ty):
    if ty.k == 'a':
        for i in range(ty.n):
            mem_fill_zero(mem, o + i * ty.elem.size, ty.elem)
    elif ty.k == 's':
        for i, f in enumerate(ty.fields):
            mem_fill_zero(mem, o + ty.offs[i], f)
    else:
        mem.cells[o] = (ty.size, Fraction(0) if ty.k == 'f' else NULL if ty.k == 'p' else 0)


def _fp(t):
    if t.startswith('0x'):
        f = struct.unpack('>d', struct.pack('>Q', int(t[2:], 16)))[0]
    elif t in ('undef', 'poison'):
        f = 0.0
    else:
        f = float(t)
    if f != f or f in (float('inf'), -float('inf')):
        return f
    return rat(f)


# runtime helpers used by generated code -------------------------------------------------

def h_load(p, ty):
    if p.m is None:
        raise CodeFault('null pointer read')
    return p.m.load(p.o, ty)


def h_store(p, ty, v):
    if p.m is None:
        raise CodeFault('null pointer write')
    p.m.store(p.o, ty, v)


def h_gep(p, off):
    if type(off) is SNum:
        c = off.const()
        if c is not None:
            off = int(c)
    return Ptr(p.m, iconc(p.o + off))


def h_mul(i, s):
    return i * s


def h_truth(c):
    if type(c) is bool:
        return c
    return bool(c)


def h_fptosi(x):
    if isinstance(x, Fraction):
        return int(x)          # truncation toward zero
    if isinstance(x, SNum):
        return iconc(x.trunc())
    return int(x)


def h_fdiv(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum):
        if not isinstance(b, SNum) and b == 0:
            raise CodeFault('floating division by zero')
        try:
            return conc(a / b)
        except ZeroDivisionError:
            raise CodeFault('floating division by zero')
    if b == 0:
        raise CodeFault('floating division by zero')
    return a / b


def h_sitofp(x):
    if type(x) is int or type(x) is bool:
        return Fraction(int(x))
    if isinstance(x, SBool):
        return Fraction(int(bool(x)))
    return x


def h_zext(x, bits):
    if type(x) is bool:
        return int(x)
    if isinstance(x, SBool):
        return int(bool(x))
    if type(x) is int:
        return x & ((1 << bits) - 1)
    return _unsig(x, bits)


def h_sext(x, bits):
    if bits == 1:
        return -int(bool(x))
    return x


def h_trunc(x, bits):
    if type(x) is SNum and x.const() is None:
        lim = 1 << (bits - 1)
        if bits == 1:
            return bool(_toint(x) & 1)
        if not ctx().implied(sand(x >= -lim, x < lim)):
            x = _toint(x)
        else:
            return x
    if bits == 1:
        return bool(_toint(x) & 1)
    return W[bits](_toint(x))


def h_alloca(name, ty, n):
    n = _toint(n)
    return Ptr(Mem(name, ty.size * n), 0)


def h_ptrcmp(op, a, b):
    r = a == b
    return r if op == 'eq' else snot(r)


def h_icmp_u(op, a, b, bits):
    if isinstance(a, (Ptr, FRef)) or isinstance(b, (Ptr, FRef)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.m is b.m:
            a, b = a.o, b.o
        else:
            raise Unsupported('pointer ordering')
    else:
        a, b = _unsig(a, bits), _unsig(b, bits)
    return {'ult': lambda: a < b, 'ule': lambda: a <= b, 'ugt': lambda: a > b, 'uge': lambda: a >= b}[op]()


def h_shift(op, a, b, bits):
    b = _toint(b)
    if not 0 <= b < bits:
        raise CodeFault('shift by %d' % b)
    if op == 'shl':
        return W[bits](a * (1 << b))
    if op == 'ashr':
        if type(a) is int:
            return a >> b
        return iconc(ctx().floor(a / (1 << b)))
    a = _unsig(a, bits)
    if type(a) is int:
        return W[bits](a >> b)
    return iconc(ctx().floor(a / (1 << b)))


def h_udiv(op, a, b, bits):
    a, b = _unsig(a, bits), _unsig(b, bits)
    if type(a) is int and type(b) is int:
        if b == 0:
            raise CodeFault('integer division by zero')
        return W[bits](a // b if op == 'udiv' else a % b)
    return iconc(SNum.of(a) // b if op == 'udiv' else SNum.of(a) % b)


def h_inttoptr(x):
    if isinstance(x, (Ptr, FRef)):
        return x
    if type(x) is int and x == 0:
        return NULL
    raise Unsupported('inttoptr')


def h_fneg(x):
    return -x


def h_frem(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum):
        q = SNum.of(a) / b
        return conc(a - b * q.trunc())
    q = a / b
    return a - b * int(q)


def h_tof(x):
    if type(x) is float:
        return rat(x)
    return conc(x)


class _Compiler(object):
    """basic blocks -> Python functions over a register list"""

    def __init__(self, mod, f):
        self.mod = mod
        self.f = f
        self.reg = {}
        self.env = {'h_load': h_load, 'h_store': h_store, 'h_gep': h_gep, 'h_truth': h_truth, 'h_fptosi': h_fptosi,
                    'h_fdiv': h_fdiv, 'h_sitofp': h_sitofp, 'h_zext': h_zext, 'h_sext': h_sext, 'h_trunc': h_trunc,
                    'h_alloca': h_alloca, 'h_ptrcmp': h_ptrcmp, 'h_icmp_u': h_icmp_u, 'h_shift': h_shift,
                    'h_udiv': h_udiv, '_sdiv': _sdiv, '_srem': _srem, 'h_inttoptr': h_inttoptr, 'h_frem': h_frem,
                    'NULL': NULL, 'conc': conc, 'iconc': iconc, 'Fraction': Fraction, 'snot': snot, 'sand': sand, 'sor': sor,
                    'CodeFault': CodeFault, 'FRef': FRef, 'h_tof': h_tof, 'h_fcmp': h_fcmp, 'h_select': h_select}
        for b in W:
            self.env['W%d' % b] = W[b]
        for op in ('and', 'or', 'xor'):
            for b in (1, 8, 16, 32, 64):
                self.env['bit_%s_%d' % (op, b)] = _bitop(op, b)
        self.nc = 0

    def const(self, v):
        self.nc += 1
        n = 'K%d' % self.nc
        self.env[n] = v
        return n

    def r(self, name):
        if name not in self.reg:
            self.reg[name] = len(self.reg)
        return self.reg[name]

    def val(self, ty, T):
        """operand -> python expression"""
        t = T.next()
        if t.startswith('%'):
            return 'R[%d]' % self.r(t)
        if ty.k == 'f':
            return self.const(_fp(t))
        if ty.k == 'i':
            if t == 'true':
                return 'True' if ty.bits == 1 else '1'
            if t == 'false':
                return 'False' if ty.bits == 1 else '0'
            if t in ('undef', 'poison'):
                return '0'
            if t == 'zeroinitializer':
                return '0'
            if t in ('ptrtoint',):
                raise Unsupported('constant ptrtoint')
            return '(%s)' % t
        if t == 'null' or t in ('undef', 'poison'):
            return 'NULL'
        if t.startswith('@'):
            return 'vm.glob(%r)' % t
        if t == 'getelementptr':
            start = T.i - 1
            depth = 0
            while True:
                x = T.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            toks = T.t[start + 1:T.i]
            k = self.const(toks)
            return 'vm._gepconst(%s)' % k
        if ty.k in ('a', 's'):
            raise Unsupported('aggregate constant operand')
        raise Unsupported('operand %s' % t)

    def go(self):
        f = self.f
        for ty, n in f.params:
            self.r(n)
        blocks = []
        cur = None
        raw = f.raw
        # join multi-line switch
        lines = []
        acc = None
        for ln in raw:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if acc is not None:
                acc += ' ' + s
                if s.startswith(']'):
                    lines.append(acc)
                    acc = None
                continue
            if s.startswith('switch') and not s.endswith(']'):
                acc = s
                continue
            lines.append(s)
        names = []
        body = {}
        first = True
        for s in lines:
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', s)
            if m:
                cur = '%' + m.group(1)
                names.append(cur)
                body[cur] = []
                continue
            if cur is None:
                cur = '%entry'
                # unnamed entry: its implicit label is the next number
                names.append(cur)
                body[cur] = []
            s = re.sub(r', !\w+(\.\w+)* !\d+', '', s)
            s = re.sub(r', align \d+', '', s)
            body[cur].append(s)
        self.bidx = {n: i for i, n in enumerate(names)}
        # phis
        self.phis = {n: [] for n in names}
        for n in names:
            for s in body[n]:
                m = re.match(r'(%\S+) = phi (.*)', s)
                if m:
                    T = Toks(m.group(2))
                    ty = self.mod.type(T)
                    inc = {}
                    while T.eat('['):
                        v = self.val(ty, T)
                        T.expect(',')
                        b = T.next()
                        T.expect(']')
                        T.eat(',')
                        inc[b] = v
                    self.phis[n].append((self.r(m.group(1)), inc))
        out = []
        self.cur = None
        funs = []
        for i, n in enumerate(names):
            self.cur = n
            code = ['def b%d(vm, R):' % i]
            for s in body[n]:
                if re.match(r'(%\S+) = phi ', s):
                    continue
                try:
                    c = self.instr(s)
                except Unsupported as e:
                    c = ['vm._unsup(%r)' % (str(e) + ' @ ' + s)]
                code.extend('    ' + x for x in c)
            if len(code) == 1:
                code.append('    vm._unsup("empty block")')
            funs.append('\n'.join(code))
        src = '\n'.join(funs)
        exec(compile(src, '<ir:%s>' % f.name, 'exec'), self.env)
        f.nreg = len(self.reg) + 1
        f.compiled = [self.env['b%d' % i] for i in range(len(names))]

    def edge(self, target):
        """phi copies for cur -> target, then return index"""
        ps = self.phis.get(target, [])
        out = []
        srcs = []
        for r, inc in ps:
            if self.cur not in inc:
                # unnamed entry block
                v = [inc[k] for k in inc if k not in self.bidx]
                if not v:
                    raise Unsupported('phi edge')
                srcs.append((r, v[0]))
            else:
                srcs.append((r, inc[self.cur]))
        if len(srcs) == 1:
            out.append('R[%d] = %s' % srcs[0])
        elif srcs:
            out.append(', '.join('R[%d]' % r for r, v in srcs) + ' = ' + ', '.join(v for r, v in srcs))
        out.append('return %d' % self.bidx[target])
        return out

    def instr(self, s):
        m = re.match(r'(%[-a-zA-Z$._0-9]+|%"[^"]*") = (.*)', s)
        dst = None
        if m:
            dst = 'R[%d]' % self.r(m.group(1))
            s = m.group(2)
        T = Toks(s)
        op = T.next()
        if op in ('tail', 'musttail', 'notail'):
            op = T.next()
        if op == 'ret':
            ty = self.mod.type(T)
            if ty is VOID:
                return ['return -2']
            return ['R[-1] = ' + self.val(ty, T), 'return -1']
        if op == 'br':
            if T.eat('label'):
                return self.edge(T.next())
            ty = self.mod.type(T)
            c = self.val(ty, T)
            T.expect(',')
            T.expect('label')
            a = T.next()
            T.expect(',')
            T.expect('label')
            b = T.next()
            return ['if h_truth(%s):' % c] + ['    ' + x for x in self.edge(a)] + self.edge(b)
        if op == 'switch':
            ty = self.mod.type(T)
            v = self.val(ty, T)
            T.expect(',')
            T.expect('label')
            d = T.next()
            T.expect('[')
            out = ['sv = %s' % v]
            while not T.eat(']'):
                self.mod.type(T)
                k = T.next()
                T.expect(',')
                T.expect('label')
                t = T.next()
                out.append('if h_truth(sv == %s):' % k)
                out.extend('    ' + x for x in self.edge(t))
            return out + self.edge(d)
        if op == 'unreachable':
            return ['raise CodeFault("unreachable code reached (abort)")']
        if op == 'alloca':
            ty = self.mod.type(T)
            n = '1'
            if T.eat(','):
                ity = self.mod.type(T)
                n = self.val(ity, T)
            k = self.const(ty)
            return ['%s = h_alloca(%r, %s, %s)' % (dst, self.f.name + ':' + (m.group(1) if m else ''), k, n)]
        if op == 'load':
            T.eat('atomic'); T.eat('volatile')
            ty = self.mod.type(T)
            T.expect(',')
            pt = self.mod.type(T)
            return ['%s = h_load(%s, %s)' % (dst, self.val(pt, T), self.const(ty))]
        if op == 'store':
            T.eat('atomic'); T.eat('volatile')
            ty = self.mod.type(T)
            v = self.val(ty, T)
            T.expect(',')
            pt = self.mod.type(T)
            return ['h_store(%s, %s, %s)' % (self.val(pt, T), self.const(ty), v)]
        if op == 'getelementptr':
            while T.peek() in ('inbounds', 'nuw', 'nusw'):
                T.next()
            bty = self.mod.type(T)
            T.expect(',')
            pt = self.mod.type(T)
            p = self.val(pt, T)
            terms = []
            off = 0
            first = True
            while T.eat(','):
                ity = self.mod.type(T)
                t = T.peek()
                isconst = not t.startswith('%')
                e = self.val(ity, T)
                if first:
                    sz = bty.size
                    first = False
                elif bty.k == 'a':
                    bty = bty.elem
                    sz = bty.size
                else:
                    i = int(t)
                    off += bty.offs[i]
                    bty = bty.fields[i]
                    continue
                if isconst:
                    off += int(t) * sz
                else:
                    terms.append('%s * %d' % (e, sz) if sz != 1 else e)
            if off or not terms:
                terms.append(str(off))
            return ['%s = h_gep(%s, %s)' % (dst, p, ' + '.join(terms))]
        if op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while T.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                T.next()
            ty = self.mod.type(T)
            a = self.val(ty, T)
            T.expect(',')
            b = self.val(ty, T)
            bits = ty.bits
            if op in ('add', 'sub', 'mul'):
                o = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                if bits == 1:
                    raise Unsupported('i1 arithmetic')
                return ['%s = W%d(%s %s %s)' % (dst, bits, a, o, b)]
            if op in ('sdiv', 'srem'):
                return ['%s = W%d(_%s(%s, %s))' % (dst, bits, op, a, b)]
            if op in ('udiv', 'urem'):
                return ['%s = h_udiv(%r, %s, %s, %d)' % (dst, op, a, b, bits)]
            if op in ('shl', 'lshr', 'ashr'):
                return ['%s = h_shift(%r, %s, %s, %d)' % (dst, op, a, b, bits)]
            return ['%s = bit_%s_%d(%s, %s)' % (dst, op, bits, a, b)]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while T.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                T.next()
            ty = self.mod.type(T)
            a = self.val(ty, T)
            T.expect(',')
            b = self.val(ty, T)
            if op == 'fdiv':
                return ['%s = h_fdiv(%s, %s)' % (dst, a, b)]
            if op == 'frem':
                return ['%s = h_frem(%s, %s)' % (dst, a, b)]
            return ['%s = conc(%s %s %s)' % (dst, a, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], b)]
        if op == 'fneg':
            ty = self.mod.type(T)
            return ['%s = -%s' % (dst, self.val(ty, T))]
        if op == 'icmp':
            T.eat('samesign')
            pred = T.next()
            ty = self.mod.type(T)
            a = self.val(ty, T)
            T.expect(',')
            b = self.val(ty, T)
            if ty.k == 'p':
                if pred in ('eq', 'ne'):
                    return ['%s = h_ptrcmp(%r, %s, %s)' % (dst, pred, a, b)]
                return ['%s = h_icmp_u(%r, %s, %s, 64)' % (dst, pred, a, b)]
            o = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}.get(pred)
            if o:
                return ['%s = %s %s %s' % (dst, a, o, b)]
            return ['%s = h_icmp_u(%r, %s, %s, %d)' % (dst, pred, a, b, ty.bits)]
        if op == 'fcmp':
            while T.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                T.next()
            pred = T.next()
            ty = self.mod.type(T)
            a = self.val(ty, T)
            T.expect(',')
            b = self.val(ty, T)
            return ['%s = h_fcmp(%r, %s, %s)' % (dst, pred, a, b)]
        if op == 'select':
            ty = self.mod.type(T)
            c = self.val(ty, T)
            T.expect(',')
            t1 = self.mod.type(T)
            a = self.val(t1, T)
            T.expect(',')
            t2 = self.mod.type(T)
            b = self.val(t2, T)
            return ['%s = (%s if h_truth(%s) else %s)' % (dst, a, c, b)]
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast',
                  'ptrtoint', 'inttoptr', 'freeze'):
            while T.peek() in ('nneg', 'nsw', 'nuw', 'fast'):
                T.next()
            t1 = self.mod.type(T)
            a = self.val(t1, T)
            t2 = None
            if T.eat('to'):
                t2 = self.mod.type(T)
            if op == 'sext':
                return ['%s = h_sext(%s, %d)' % (dst, a, t1.bits)]
            if op == 'zext':
                return ['%s = h_zext(%s, %d)' % (dst, a, t1.bits)]
            if op == 'trunc':
                return ['%s = h_trunc(%s, %d)' % (dst, a, t2.bits)]
            if op in ('fptosi', 'fptoui'):
                return ['%s = h_fptosi(%s)' % (dst, a)]
            if op == 'sitofp':
                return ['%s = h_sitofp(%s)' % (dst, a)]
            if op == 'uitofp':
                return ['%s = h_sitofp(h_zext(%s, %d))' % (dst, a, t1.bits)]
            if op == 'inttoptr':
                return ['%s = h_inttoptr(%s)' % (dst, a)]
            if op == 'bitcast' and t1.k != t2.k:
                raise Unsupported('bitcast between kinds')
            return ['%s = %s' % (dst, a)]
        if op == 'call':
            while T.peek() in ('fastcc', 'ccc', 'noundef', 'signext', 'zeroext', 'noalias', 'fast', 'nnan', 'nonnull', 'contract'):
                T.next()
            rt = self.mod.type(T)
            if T.peek() == '(':  # function type
                depth = 0
                while True:
                    x = T.next()
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
            t = T.next()
            if t.startswith('@'):
                if t.startswith('@llvm.dbg') or t.startswith('@llvm.lifetime') or t.startswith('@llvm.stackrestore') or t.startswith('@llvm.va_'):
                    return ['pass']
                callee = self.const(FRef(t))
            elif t.startswith('%'):
                callee = 'R[%d]' % self.r(t)
            else:
                raise Unsupported('call target ' + t)
            T.expect('(')
            args = []
            while not T.eat(')'):
                ty = self.mod.type(T)
                while T.peek() in _ATTRS:
                    at = T.next()
                    if T.peek() == '(':
                        while T.next() != ')':
                            pass
                    elif at == 'align':
                        T.next()
                if ty is LABEL:
                    T.next()
                else:
                    args.append(self.val(ty, T))
                T.eat(',')
            e = 'vm.callref(%s, (%s))' % (callee, ''.join(a + ', ' for a in args))
            return ['%s = %s' % (dst, e)] if dst else [e]
        raise Unsupported('instruction ' + op)


def h_select(c, a, b):
    return a if h_truth(c) else b


def h_fcmp(pred, a, b):
    p = pred[1:] if pred not in ('ord', 'uno', 'true', 'false') else pred
    if p == 'lt': return a < b
    if p == 'le': return a <= b
    if p == 'gt': return a > b
    if p == 'ge': return a >= b
    if p == 'eq': return a == b
    if p == 'ne': return a != b
    if pred == 'ord' or pred == 'true': return True
    return False


def _vm_unsup(self, s):
    raise Unsupported(s)


def _vm_gepconst(self, toks):
    class TT(Toks):
        def __init__(s):
            s.t = ['getelementptr'] + toks
            s.i = 1
    return self._const(PTR, 'getelementptr', TT())


VM._unsup = _vm_unsup
VM._gepconst = _vm_gepconst


# ----------------------------------------------------------------------------- externals

def x_floor(vm, x):
    if isinstance(x, Fraction):
        return Fraction(x.numerator // x.denominator)
    return conc(x.floor())


def x_ceil(vm, x):
    return -x_floor(vm, -x)


def x_fabs(vm, x):
    return abs(x)


def x_abs32(vm, x):
    # the C prototype takes an int: a wider argument was truncated by the caller
    return abs(x) if type(x) is int else iconc(abs(x))


def x_round(vm, x):
    if x >= 0:
        return x_floor(vm, x + Fraction(1, 2))
    return -x_floor(vm, -x + Fraction(1, 2))


def x_uf(name):
    def f(vm, *a):
        return ctx().ufun(name, *[SNum.of(v) for v in a])
    return f


def x_sqrt(vm, x):
    return ctx().ufun('sqrt', SNum.of(x))


def x_malloc(vm, n):
    return Ptr(Mem('heap', _toint(n)), 0)


def x_calloc(vm, n, m):
    return Ptr(Mem('heap', _toint(n) * _toint(m), zero=True), 0)


def x_free(vm, p):
    if p.m is None:
        return
    if p.m.freed:
        raise CodeFault('double free')
    p.m.freed = True


def x_abort(vm):
    raise CodeFault('abort() called')


def x_memset(vm, p, v, n, *a):
    p.m.memset(iconc(p.o), _toint(v), _toint(n))
    return p


def x_memcpy(vm, d, s, n, *a):
    n = _toint(n)
    if isinstance(s.m, ArrMem) or isinstance(d.m, ArrMem):
        if isinstance(s.m, ArrMem) and isinstance(d.m, Mem) and not isinstance(d.m, ArrMem):
            for k in range(0, n, s.m.esize):
                d.m.cells[d.o + k] = (s.m.esize, s.m.items[(s.o + k) // s.m.esize])
            return d
        raise Unsupported('memcpy')
    d.m.addr(d.o, n, 'memcpy write')
    s.m.addr(s.o, n, 'memcpy read')
    if s.m.zero:
        d.m.zero = d.m.zero or (d.o == 0 and n == d.m.size)
    for k in [k for k in d.m.cells if d.o <= k < d.o + n]:
        del d.m.cells[k]
    d.m.copy_from(d.o, s.m, s.o, n)
    return d


def x_fmin(vm, a, b):
    return a if a < b else b


def x_fmax(vm, a, b):
    return a if a > b else b


def x_noop(vm, *a):
    return 0


def x_stacksave(vm):
    return NULL


def x_fmuladd(vm, a, b, c):
    return conc(a * b + c)


def x_pow(vm, a, b):
    if isinstance(b, Fraction) and b.denominator == 2 and abs(b) < 8:
        n = abs(b.numerator) // 2
        r = conc(SNum.of(x_sqrt(vm, a)))
        if n:
            r = conc(SNum.of(a) ** n * r)
        return h_fdiv(Fraction(1), r) if b < 0 else r
    if isinstance(b, Fraction) and b.denominator == 1 and abs(b) < 64:
        n = int(b)
        if n < 0:
            return h_fdiv(Fraction(1), conc(SNum.of(a) ** -n))
        return conc(SNum.of(a) ** n)
    return ctx().ufun('pow', SNum.of(a), SNum.of(b))


def x_hypot(vm, a, b):
    return x_sqrt(vm, conc(SNum.of(a) * a + SNum.of(b) * b))


def _known(n, what):
    n = iconc(n)
    if type(n) is not int:
        raise Unsupported(what + ' of a symbolic integer')
    return n


def x_ctpop(w):
    def f(vm, x):
        return bin(_known(x, 'ctpop') & ((1 << w) - 1)).count('1')
    return f


def x_ctlz(w):
    def f(vm, x, z):
        return w - (_known(x, 'ctlz') & ((1 << w) - 1)).bit_length()
    return f


def x_cttz(w):
    def f(vm, x, z):
        x = _known(x, 'cttz') & ((1 << w) - 1)
        return (x & -x).bit_length() - 1 if x else w
    return f


def x_fshl(w):
    def f(vm, a, b, n):
        m = (1 << w) - 1
        n = _known(n, 'fshl') % w
        a, b = _known(a, 'fshl') & m, _known(b, 'fshl') & m
        r = ((a << n) | (b >> (w - n))) & m
        return r - (1 << w) if r >> (w - 1) else r
    return f


_EXT = {
    'llvm.floor.f64': x_floor, 'floor': x_floor, 'floorf': x_floor, 'llvm.floor.f32': x_floor,
    'llvm.ceil.f64': x_ceil, 'ceil': x_ceil, 'round': x_round, 'llvm.round.f64': x_round, 'lround': x_round,
    'llvm.trunc.f64': lambda vm, x: Fraction(int(x)) if isinstance(x, Fraction) else conc(x.trunc()),
    'trunc': lambda vm, x: Fraction(int(x)) if isinstance(x, Fraction) else conc(x.trunc()),
    'llvm.fabs.f64': x_fabs, 'fabs': x_fabs, 'fabsf': x_fabs, 'llvm.fabs.f32': x_fabs,
    'abs': x_abs32, 'labs': x_abs32, 'llabs': x_abs32, 'llvm.abs.i32': lambda vm, x, f: x_abs32(vm, x), 'llvm.abs.i64': lambda vm, x, f: x_abs32(vm, x),
    'sin': x_uf('sin'), 'cos': x_uf('cos'), 'log': x_uf('log'), 'exp': x_uf('exp'), 'log1p': x_uf('log1p'),
    'llvm.sin.f64': x_uf('sin'), 'llvm.cos.f64': x_uf('cos'), 'llvm.log.f64': x_uf('log'), 'llvm.exp.f64': x_uf('exp'),
    'sqrt': x_sqrt, 'llvm.sqrt.f64': x_sqrt, 'pow': x_pow, 'llvm.pow.f64': x_pow,
    'malloc': x_malloc, 'calloc': x_calloc, 'free': x_free, 'abort': x_abort,
    'llvm.memset.p0.i64': x_memset, 'memset': x_memset,
    'llvm.memcpy.p0.p0.i64': x_memcpy, 'memcpy': x_memcpy, 'llvm.memmove.p0.p0.i64': x_memcpy, 'memmove': x_memcpy,
    'fmin': x_fmin, 'fmax': x_fmax, 'llvm.minnum.f64': x_fmin, 'llvm.maxnum.f64': x_fmax,
    'llvm.smax.i32': x_fmax, 'llvm.smin.i32': x_fmin, 'llvm.smax.i64': x_fmax, 'llvm.smin.i64': x_fmin,
    'llvm.umax.i32': x_fmax, 'llvm.umin.i32': x_fmin,
    'llvm.fmuladd.f64': x_fmuladd, 'fma': x_fmuladd, 'llvm.fma.f64': x_fmuladd,
    'printf': x_noop, 'puts': x_noop, 'putchar': x_noop, 'fprintf': x_noop, 'clock': x_noop, '__assert_fail': x_abort,
    'sqrtf': x_sqrt, 'llvm.sqrt.f32': x_sqrt, 'hypot': x_hypot, 'llvm.trunc.f32': lambda vm, x: _EXT['trunc'](vm, x),
    'llvm.ctpop.i32': x_ctpop(32), 'llvm.ctpop.i64': x_ctpop(64), 'llvm.ctlz.i32': x_ctlz(32), 'llvm.ctlz.i64': x_ctlz(64),
    'llvm.cttz.i32': x_cttz(32), 'llvm.cttz.i64': x_cttz(64), 'llvm.fshl.i32': x_fshl(32), 'llvm.fshl.i64': x_fshl(64),
    'llvm.stacksave.p0': x_stacksave, 'llvm.stacksave': x_stacksave, 'llvm.assume': x_noop, 'llvm.experimental.noalias.scope.decl': x_noop,
}
