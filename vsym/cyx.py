"""
Cython front end.  Parses a .pyx with Cython's own parser and turns the tree into Python source
that runs over the symbolic values; C functions declared in 'cdef extern' blocks are executed by
the LLVM interpreter on the intermediate representation of the current C sources.
"""
import os
import re
import subprocess
import numpy as np
from fractions import Fraction
from .core import SNum, SBool, SCplx, Unsupported, CodeFault, rat, ctx, in_ctx
from . import llvm
from .llvm import Ptr, FRef, NULL, ArrMem, Mem, VM
from . import snp as S

_ND = np.ndarray


# ----------------------------------------------------------------------------- C types

class CT(object):
    def __init__(self, k, name='', size=0, signed=True, elem=None, n=None, ndim=0, contig=False, alts=None, const=False):
        self.k = k              # int flt bint obj void ptr arr struct mv fused ndarray func
        self.name = name
        self.size = size
        self.signed = signed
        self.elem = elem
        self.n = n
        self.ndim = ndim
        self.contig = contig
        self.alts = alts
        self.const = const

    def __repr__(self):
        return 'CT(%s %s)' % (self.k, self.name)


def _int(name, size, signed=True):
    return CT('int', name, size, signed)


BASIC = {
    'char': _int('char', 1), 'short': _int('short', 2), 'int': _int('int', 4), 'long': _int('long', 8),
    'longlong': _int('long long', 8), 'float': CT('flt', 'float', 4), 'double': CT('flt', 'double', 8),
    'bint': CT('bint', 'bint', 4), 'void': CT('void', 'void'), 'object': CT('obj', 'object'),
    'Py_ssize_t': _int('Py_ssize_t', 8), 'ssize_t': _int('ssize_t', 8), 'ptrdiff_t': _int('ptrdiff_t', 8),
    'size_t': _int('size_t', 8, False),
    'int8_t': _int('int8_t', 1), 'int16_t': _int('int16_t', 2), 'int32_t': _int('int32_t', 4), 'int64_t': _int('int64_t', 8),
    'uint8_t': _int('uint8_t', 1, False), 'uint16_t': _int('uint16_t', 2, False), 'uint32_t': _int('uint32_t', 4, False),
    'uint64_t': _int('uint64_t', 8, False), 'intp_t': _int('intp_t', 8), 'npy_intp': _int('npy_intp', 8),
    'float32_t': CT('flt', 'float', 4), 'float64_t': CT('flt', 'double', 8), 'npy_int': _int('int', 4), 'npy_int32': _int('int', 4),
    'npy_int64': _int('long', 8), 'npy_double': CT('flt', 'double', 8), 'intptr_t': _int('intptr_t', 8), 'uintptr_t': _int('uintptr_t', 8, False),
    'ndarray': CT('ndarray', 'ndarray'), 'int_t': _int('long', 8), 'float_t': CT('flt', 'double', 8), 'long_t': _int('long', 8),
}
OBJ = BASIC['object']
FUSED = {
    'floating': CT('fused', 'floating', alts=[BASIC['float'], BASIC['double']]),
    'integral': CT('fused', 'integral', alts=[BASIC['short'], BASIC['int'], BASIC['long']]),
    'numeric': CT('fused', 'numeric', alts=[BASIC['short'], BASIC['int'], BASIC['long'], BASIC['float'], BASIC['double']]),
}
PYTYPES = ('str', 'bytes', 'list', 'tuple', 'dict', 'set', 'bool', 'type', 'unicode')


def wrapint(v, size, signed):
    b = size * 8
    v &= (1 << b) - 1
    if signed and v >> (b - 1):
        v -= 1 << b
    return v


def conv(t, v):
    """value stored into a C variable of type t"""
    k = t.k
    if k == 'int':
        tv = type(v)
        if tv is int:
            h = 1 << (t.size * 8 - 1)
            if -h <= v < h:
                return v if (t.signed or v >= 0) else wrapint(v, t.size, False)
            return wrapint(v, t.size, t.signed)
        if tv is SNum:
            c = v.const()
            if c is not None:
                return int(c)
            return v if v.isint else v.trunc()
        if tv is bool or isinstance(v, (np.bool_, SBool)):
            return int(v)
        if isinstance(v, np.integer):
            return wrapint(int(v), t.size, t.signed)
        if isinstance(v, (float, np.floating, Fraction)):
            return int(v)
        if isinstance(v, S.SArr) and v.shape == ():
            return conv(t, v.item())
        if v is None or isinstance(v, (str, list, tuple)):
            raise TypeError('an integer is required')
        return wrapint(v.__index__() if hasattr(v, '__index__') else int(v), t.size, t.signed)
    if k == 'flt':
        if isinstance(v, (SNum, Fraction)):
            return v
        if isinstance(v, (int, np.integer, SBool, np.bool_)):
            return int(v)
        if isinstance(v, S.SArr) and v.shape == ():
            return conv(t, v.item())
        if v is None or isinstance(v, (str, list)):
            raise TypeError('must be real number')
        return float(v)
    if k == 'bint':
        return v if isinstance(v, SBool) else int(bool(v))
    if k == 'mv':
        return MView.make(t, v)
    if k == 'ndarray':
        if v is None or isinstance(v, (_ND, S.PartView)):
            return v
        raise TypeError('Cannot convert %s to numpy.ndarray' % type(v).__name__)
    if k == 'ptr':
        return cast(t, v)
    if k == 'struct':
        if isinstance(v, CPtr):
            r = CPtr.alloc(t, 1)
            r[0] = v
            return r
    if k == 'fused':
        for a in t.alts:
            if a.k == 'flt' and isinstance(v, (float, Fraction, SNum, np.floating)):
                return conv(a, v) if not (isinstance(v, float)) else v
        return conv(t.alts[-1], v)
    return v


class MView(object):
    """typed memory view over an array"""
    __slots__ = ('a', 't', 'shape', 'ndim', 'check', 'wrapa', 'elem', 'raw')

    @classmethod
    def make(cls, t, v, check=True, wrapa=True):
        if v is None:
            return None
        if isinstance(v, MView):
            v = v.a
        if isinstance(v, CPtr):
            raise Unsupported('memory view over a C array')
        if isinstance(v, S.PartView):
            ld, nd, cont, wr = v.dtype, len(v.shape), False, True
        elif isinstance(v, S.SArr):
            f = S._rawview(v).flags
            ld, nd, cont, wr = v._ld, v.ndim, f.c_contiguous, f.writeable
        elif isinstance(v, _ND):
            ld, nd, cont, wr = v.dtype, v.ndim, v.flags.c_contiguous, v.flags.writeable
        else:
            raise TypeError('a bytes-like object is required, not %s' % type(v).__name__)
        if nd != t.ndim:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (t.ndim, nd))
        alts = t.elem.alts if t.elem.k == 'fused' else [t.elem]
        for e in alts:
            if e.k == 'flt' and ld.kind == 'f' and ld.itemsize == e.size:
                break
            if e.k == 'int' and ld.kind == ('i' if e.signed else 'u') and ld.itemsize == e.size:
                break
            if e.k == 'bint' and ld.kind == 'b':
                break
            if e.k == 'obj' and ld.kind == 'O':
                break
        else:
            raise ValueError('Buffer dtype mismatch, expected %s but got %s' % ([e.name for e in alts], ld))
        if t.contig and not cont:
            raise ValueError('ndarray is not C-contiguous')
        if not wr and not t.elem.const:
            raise ValueError('buffer source array is read-only')
        self = cls()
        self.a = v
        self.t = t
        self.elem = e
        self.shape = tuple(v.shape)
        self.ndim = nd
        self.check = check
        self.wrapa = wrapa
        self.raw = S._rawview(v) if isinstance(v, S.SArr) else v
        return self

    def _ix(self, i, d):
        if isinstance(i, SNum):
            i = i.__index__()
        i = i.__index__()
        n = self.shape[d]
        if 0 <= i < n:
            return i
        if i < 0 and self.wrapa and i + n >= 0:
            return i + n
        if self.check:
            raise IndexError('Out of bounds on buffer access (axis %d)' % d)
        raise CodeFault('out-of-bounds memory view access: index %d of axis %d with %d elements' % (i, d, n))

    def _key(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if len(k) == self.ndim and not any(isinstance(x, slice) or x is None or x is Ellipsis for x in k):
            return tuple(self._ix(x, d) for d, x in enumerate(k)), True
        out = []
        for d, x in enumerate(k):
            out.append(self._ix(x, d) if not (isinstance(x, slice) or x is None or x is Ellipsis) else x)
        return tuple(out), False

    def __getitem__(self, k):
        k, full = self._key(k)
        if full:
            v = self.raw[k]
            if type(v) is SNum or type(v) is Fraction:
                return v
            if isinstance(v, np.generic):
                return v.item()
            if isinstance(v, _ND):
                return v.item()
            return v
        r = self.a[k]
        t = CT('mv', elem=self.elem, ndim=len(r.shape))
        return MView.make(t, r, self.check, self.wrapa)

    def __setitem__(self, k, v):
        k, full = self._key(k)
        if full:
            self.raw[k] = S.coerce(conv(self.elem, v), self.a.dtype)
        else:
            self.a[k] = v.a if isinstance(v, MView) else v

    def __len__(self):
        return self.shape[0]

    @property
    def strides(self):
        return self.a.strides

    @property
    def size(self):
        return self.a.size

    @property
    def base(self):
        return self.a

    @property
    def T(self):
        return MView.make(CT('mv', elem=self.elem, ndim=self.ndim), self.a.T, self.check, self.wrapa)

    def addr(self, k):
        k, full = self._key(k)
        p = nddata(self.a)
        o = 0
        for i, s in zip(k, self.a.strides):
            o += i * s
        return CPtr(p.p.m, p.p.o + o, self.elem)

    def __array__(self, *a):
        return np.asarray(self.a, *a)


class NdMem(ArrMem):
    """memory of an array: the buffer of its owner"""

    def __init__(self, root, ld):
        raw = S._rawview(root) if isinstance(root, S.SArr) else root
        n = raw.size
        if n and not (raw.flags.c_contiguous or raw.flags.f_contiguous):
            raise Unsupported('array memory')
        flat = np.lib.stride_tricks.as_strided(raw, (n,), (raw.dtype.itemsize,)) if n else np.empty(0, object)
        ArrMem.__init__(self, 'array', flat, ld.itemsize)
        self.ld = ld
        self.root = raw
        self.writable = raw.flags.writeable
        self.obj = raw.dtype == object

    def _ck(self, o, size, what):
        o = self.addr(o, size, what)
        e = self.esize
        if self.ld.kind == 'c' and size * 2 == e:
            if o % size:
                raise CodeFault('misaligned access of array')
            return o // e, (o % e) // size
        if size != e:
            raise CodeFault('access of %d bytes in an array of %s' % (size, self.ld))
        if o % e:
            raise CodeFault('misaligned access of array')
        return o // e, None

    def load(self, o, ty):
        i, part = self._ck(o, ty.size, 'read')
        v = self.items[i]
        if part is not None:
            v = (v.imag if part else v.real)
        if isinstance(v, (np.generic,)):
            v = v.item()
        if type(v) is float:
            return rat(v)
        if ty.k == 'f' and isinstance(v, int):
            return Fraction(v)
        return v

    def store(self, o, ty, v):
        i, part = self._ck(o, ty.size, 'write')
        if not self.writable:
            raise CodeFault('write to a read-only array')
        if part is not None:
            c = SCplx.of(self.items[i])
            v = SCplx(c.real, v) if part else SCplx(v, c.imag)
        elif self.ld.kind in 'iu':
            v = int(v) if not isinstance(v, SNum) else v
        elif not self.obj:
            v = float(v)
        self.items[i] = v

    def copy_from(self, o, src, so, n):
        if n % self.esize or o % self.esize or so % self.esize:
            raise Unsupported('partial memcpy')
        for j in range(n // self.esize):
            self.items[o // self.esize + j] = src.items[so // self.esize + j]


def nddata(a):
    """(void*) a.data"""
    part = 0
    if isinstance(a, S.PartView):
        base = a.base if hasattr(a, 'base') else a._base
        part = (base._ld.itemsize // 2) if a.part == 'imag' else 0
        a = base
    ld = a.dtype
    raw = S._rawview(a) if isinstance(a, S.SArr) else a
    root = raw
    while isinstance(root.base, _ND) or (root.base is not None and isinstance(getattr(root.base, 'base', None), _ND)):
        root = root.base if isinstance(root.base, _ND) else root.base.base
    root = root.view(_ND) if type(root) is not _ND else root
    isz = raw.dtype.itemsize
    lo = root.__array_interface__['data'][0]
    off = (raw.__array_interface__['data'][0] - lo) // isz * ld.itemsize if raw.size else 0
    m = NdMem(root, ld)
    return CPtr(m, off + part, BASIC['void'])


_ITY = {}


def ity(t):
    """the interpreter's scalar type for a C type"""
    if t.k in ('int', 'bint'):
        return llvm.INT(t.size * 8)
    if t.k == 'flt':
        return llvm.FLOAT if t.size == 4 else llvm.DOUBLE
    if t.k in ('ptr', 'void'):
        return llvm.PTR
    raise Unsupported('C type %r' % t)


class CPtr(object):
    """typed C pointer / array / struct"""
    __slots__ = ('p', 't', 'lim')

    def __init__(self, m, o, t):
        object.__setattr__(self, 'p', Ptr(m, o))
        object.__setattr__(self, 't', t)

    @classmethod
    def alloc(cls, t, n, name='carray'):
        return cls(Mem(name, sizeof(t) * n), 0, t)

    def _at(self, i):
        return self.p.o + i * sizeof(self.t)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(i.start or 0, i.stop, i.step or 1)]
        t = self.t
        if t.k == 'struct':
            return CPtr(self.p.m, self._at(i), t)
        if t.k == 'arr':
            return CPtr(self.p.m, self._at(i), t.elem)
        if self.p.m is None:
            raise CodeFault('null pointer read')
        v = self.p.m.load(self._at(i), ity(t))
        return CPtr(v.m, v.o, t.elem) if t.k == 'ptr' else v

    def __setitem__(self, i, v):
        t = self.t
        if isinstance(i, slice):
            r = range(i.start or 0, i.stop if i.stop is not None else (self.p.m.size - self.p.o) // sizeof(t), i.step or 1)
            for j, x in zip(r, v if hasattr(v, '__len__') else [v] * len(r)):
                self[j] = x
            return
        if self.p.m is None:
            raise CodeFault('null pointer write')
        if t.k == 'struct':
            self.p.m.addr(self._at(i), sizeof(t), 'write')
            v.p.m.addr(v.p.o, sizeof(t), 'read')
            self.p.m.copy_from(self._at(i), v.p.m, v.p.o, sizeof(t))
            return
        self.p.m.store(self._at(i), ity(t), tollvm(conv(t, v), ity(t)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if self.t.k != 'struct':
            raise AttributeError(n)
        off, ft = self.t.alts.fields[n]
        if ft.k in ('arr',):
            return CPtr(self.p.m, self.p.o + off, ft.elem)
        if ft.k == 'struct':
            return CPtr(self.p.m, self.p.o + off, ft)
        return CPtr(self.p.m, self.p.o + off, ft)[0]

    def __setattr__(self, n, v):
        if self.t.k != 'struct':
            raise AttributeError(n)
        off, ft = self.t.alts.fields[n]
        if ft.k == 'arr':
            CPtr(self.p.m, self.p.o + off, ft.elem)[:] = v
            return
        CPtr(self.p.m, self.p.o + off, ft)[0] = v

    def __add__(self, n):
        return CPtr(self.p.m, self.p.o + n * sizeof(self.t), self.t)

    def __sub__(self, n):
        if isinstance(n, CPtr):
            return (self.p.o - n.p.o) // sizeof(self.t)
        return self + (-n)

    def __bool__(self):
        return self.p.m is not None

    def __eq__(self, o):
        if o is None:
            return self.p.m is None
        return isinstance(o, CPtr) and self.p == o.p

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.p)


def sizeof(t):
    if t.k in ('int', 'flt', 'bint'):
        return t.size
    if t.k in ('ptr', 'obj', 'void'):
        return 8 if t.k != 'void' else 1
    if t.k == 'struct':
        return t.alts.size
    if t.k == 'arr':
        return t.n * sizeof(t.elem)
    raise Unsupported('sizeof %r' % t)


def tollvm(v, ty):
    if isinstance(v, CPtr):
        return v.p
    if isinstance(v, MView):
        return v.addr((0,) * v.ndim).p
    if v is None:
        return NULL
    if isinstance(v, SBool):
        v = int(v)
    if ty.k == 'f':
        if isinstance(v, SNum):
            return v
        if isinstance(v, Fraction):
            return v
        if isinstance(v, (int, np.integer)):
            return Fraction(int(v))
        v = float(v)
        if v != v or v in (float('inf'), -float('inf')):
            raise Unsupported('non-finite value passed to C')
        return rat(v)
    if ty.k == 'i':
        if isinstance(v, SNum):
            return v if v.isint else v.trunc()
        v = int(v)
        return llvm._sx(v & ((1 << ty.bits) - 1), ty.bits) if hasattr(llvm, '_sx') else v
    return v


def cast(t, v):
    if t.k == 'ptr':
        if v is None or (isinstance(v, int) and v == 0):
            return CPtr(None, 0, t.elem)
        if isinstance(v, CPtr):
            return CPtr(v.p.m, v.p.o, t.elem)
        if isinstance(v, (_ND, S.PartView)):
            raise Unsupported('pointer cast of an object')
        if isinstance(v, Ptr):
            return CPtr(v.m, v.o, t.elem)
    return conv(t, v)


def carg(t, v, name, check, wrapa, none_ok=True):
    """argument conversion of a def function"""
    if t.k == 'mv':
        return MView.make(t, v, check, wrapa)
    if t.k == 'int' and (v is None or isinstance(v, (float, np.floating)) and not isinstance(v, (int, np.integer))):
        raise TypeError('an integer is required')
    return conv(t, v)


def addr(base, *k):
    if isinstance(base, MView):
        return base.addr(k)
    if isinstance(base, CPtr):
        return base + k[0]
    if isinstance(base, (_ND, S.SArr)):
        raise Unsupported('address of an array element of an untyped array')
    raise Unsupported('address of %r' % type(base).__name__)


def addrof(x):
    if isinstance(x, CPtr):
        return x
    raise Unsupported('address of a scalar variable')


def cdiv(a, b):
    if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
        return a / b
    return llvm._sdiv(a, b)


def cmod(a, b):
    return llvm._srem(a, b)


def declare(t):
    """initial value of a declared C variable"""
    if t.k == 'arr':
        return CPtr.alloc(t.elem, t.n)
    if t.k == 'struct':
        return CPtr.alloc(t, 1, t.name)
    return None


def extern_call(vm, name, args):
    f = vm.mod.funcs.get('@' + name)
    if f is None:
        if name in vm.ext:
            vals = [tollvm(a, llvm.DOUBLE) if isinstance(a, (float, int, Fraction, SNum)) else tollvm(a, llvm.PTR) for a in args]
            return vm.ext[name](vm, *vals)
        raise Unsupported('C function %s has no definition' % name)
    tys = [ty for ty, _ in f.params]
    if len(tys) != len(args):
        raise Unsupported('argument count of %s' % name)
    vals = [tollvm(a, ty) for a, ty in zip(args, tys)]
    if name in vm.override:
        return vm.ext[name](vm, *vals)
    r = vm.run(f, vals)
    if type(r) is SNum:
        c = r.const()
        if c is not None:
            r = c if f.ret.k == 'f' else int(c)
    return r


# ----------------------------------------------------------------------------- struct layout

_TC = ('_Generic((e), char:1, signed char:2, unsigned char:3, short:4, unsigned short:5, int:6, unsigned int:7, '
       'long:8, unsigned long:9, long long:10, unsigned long long:11, float:12, double:13, default:14)')
_TCODE = {1: _int('char', 1), 2: _int('schar', 1), 3: _int('uchar', 1, False), 4: _int('short', 2), 5: _int('ushort', 2, False),
          6: _int('int', 4), 7: _int('uint', 4, False), 8: _int('long', 8), 9: _int('ulong', 8, False), 10: _int('longlong', 8),
          11: _int('ulonglong', 8, False), 12: BASIC['float'], 13: BASIC['double']}


class Layout(object):
    def __init__(self):
        self.size = 0
        self.fields = {}


def layouts(header, structs, enums, incs, tmp):
    """structs: {name: [(field, cname, isarray, isptr)]}; returns ({name: Layout}, {enum: value})"""
    src = ['#include <stddef.h>', '#include "%s"' % header, '#define TC(e) %s' % _TC]
    for s, (cs, fs) in structs.items():
        src.append('long VQS_%s[] = {(long)sizeof(%s)' % (s, cs))
        for f, isarr, isptr in fs:
            e = '((%s*)0)->%s' % (cs, f)
            src.append(', (long)offsetof(%s, %s), (long)sizeof(%s), (long)sizeof(%s), TC(%s)' %
                       (cs, f, e, e + '[0]' if isarr else e, e + '[0]' if isarr else e))
        src.append('};')
    for e in enums:
        src.append('long VQE_%s = (long) %s;' % (e, e))
    p = os.path.join(tmp, 'vq_layout.c')
    with open(p, 'w') as f:
        f.write('\n'.join(src))
    r = subprocess.run([llvm.CLANG, '-O0', '-w', '-S', '-emit-llvm', '-o', '-'] + ['-I' + i for i in incs] + [p],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Unsupported('C declarations of %s: %s' % (header, r.stderr.decode()[-500:]))
    ir = r.stdout.decode()
    out, ev = {}, {}
    for m in re.finditer(r'@VQS_(\w+) = [^\[]*\[\d+ x i64\] \[(.*?)\]', ir):
        vals = [int(x.split()[-1]) for x in m.group(2).split(',')]
        L = Layout()
        L.size = vals[0]
        cs, fs = structs[m.group(1)]
        for j, (f, isarr, isptr) in enumerate(fs):
            off, sz, es, tc = vals[1 + 4 * j:5 + 4 * j]
            et = _TCODE.get(tc)
            if et is None:
                et = CT('ptr', elem=BASIC['void'])
            L.fields[f] = (off, CT('arr', elem=et, n=sz // es) if isarr else et)
        out[m.group(1)] = L
    for m in re.finditer(r'@VQE_(\w+) = [^\n]*? i64 (-?\d+)', ir):
        ev[m.group(1)] = int(m.group(2))
    return out, ev


# ----------------------------------------------------------------------------- translator

class Fn(object):
    """function scope"""

    def __init__(self, parent=None):
        self.vars = {}
        self.directives = dict(parent.directives) if parent else {}
        self.ret = None
        self.pre = []


LIBC = {'floor', 'ceil', 'sqrt', 'fabs', 'sin', 'cos', 'tan', 'exp', 'log', 'pow', 'fmod', 'rint', 'round', 'trunc', 'abs',
        'fmin', 'fmax', 'lround', 'hypot', 'atan2', 'labs'}
CMP = {'not_in': 'not in', 'is_not': 'is not', '<>': '!='}


class Translator(object):
    def __init__(self, name, src):
        self.name = name
        self.src = src
        self.types = dict(BASIC)
        self.fused = dict(FUSED)
        self.T = []
        self.externs = set()
        self.headers = []
        self.structs = {}
        self.enums = {}
        self.libc = {}
        self.cfuncs = {}
        self.classes = {}
        self.cimports = set()
        self.pending = []

    def tid(self, t):
        self.T.append(t)
        return '_T[%d]' % (len(self.T) - 1)

    # types
    def base(self, n):
        k = type(n).__name__
        if k == 'CSimpleBaseTypeNode':
            nm = n.name
            if nm is None:
                return OBJ
            if getattr(n, 'complex', 0):
                raise Unsupported('complex C type')
            if nm in self.fused:
                return self.fused[nm]
            if n.is_basic_c_type or nm in ('int', 'char', 'float', 'double', 'long', 'short'):
                if nm == 'int':
                    lg = n.longness
                    size = {-2: 1, -1: 2, 0: 4, 1: 8, 2: 8}[lg]
                    return _int('int', size, bool(n.signed))
                if nm == 'char':
                    return _int('char', 1, n.signed != 0)
                if nm == 'double' and n.longness:
                    raise Unsupported('long double')
            if nm in self.structs:
                return self.structs[nm]
            if nm in self.types:
                return self.types[nm]
            if nm in PYTYPES or nm in self.classes:
                return OBJ
            if nm == 'Ellipsis':
                return OBJ
            raise Unsupported('C type %s' % nm)
        if k == 'MemoryViewSliceTypeNode':
            e = self.base(n.base_type_node)
            contig = False
            for ax in n.axes:
                st = ax.step
                if type(st).__name__ == 'IntNode' and st.value == '1':
                    contig = True
            return CT('mv', elem=e, ndim=len(n.axes), contig=contig)
        if k == 'CQualifierTypeNode' or k == 'CConstOrVolatileTypeNode':
            t = self.base(n.base_type)
            t2 = CT(t.k, t.name, t.size, t.signed, t.elem, t.n, t.ndim, t.contig, t.alts, True)
            return t2
        if k == 'TemplatedTypeNode':      # numpy.ndarray[...]
            return BASIC['ndarray']
        raise Unsupported('type node %s' % k)

    def decl(self, d, t):
        """declarator -> (name, type, default node)"""
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name, t, d.default
        if k == 'CPtrDeclaratorNode':
            return self.decl(d.base, CT('ptr', elem=t))
        if k == 'CArrayDeclaratorNode':
            if d.dimension is None:
                return self.decl(d.base, CT('ptr', elem=t))
            n = self.constint(d.dimension)
            return self.decl(d.base, CT('arr', elem=t, n=n))
        if k == 'CFuncDeclaratorNode':
            nm, _, _ = self.decl(d.base, t)
            return nm, CT('func', nm, elem=t), None
        raise Unsupported('declarator %s' % k)

    def constint(self, n):
        k = type(n).__name__
        if k == 'IntNode':
            return int(n.value.rstrip('lLuU'), 0)
        if k == 'NameNode' and n.name in self.enums:
            return self.enums[n.name]
        raise Unsupported('array dimension')

    # module
    def go(self):
        from Cython.Compiler.TreeFragment import parse_from_strings
        try:
            tree = parse_from_strings('vmod', self.src)
        except Exception as e:
            raise Unsupported('cannot parse %s: %s' % (self.name, e))
        sc = Fn()
        sc.directives.update({'boundscheck': True, 'wraparound': True, 'cdivision': False})
        for ln in self.src.split('\n'):
            m = re.match(r'#\s*cython:\s*(.*)', ln)
            if m:
                for kv in m.group(1).split(','):
                    if '=' in kv:
                        a, b = kv.split('=')
                        sc.directives[a.strip()] = b.strip() == 'True'
        sc.module = True
        self.mod = sc
        out = self.stmts(tree.body, sc, 0)
        return '\n'.join(out) + '\n'

    def stmts(self, n, sc, ind):
        out = []
        if n is None:
            return out
        if type(n).__name__ == 'StatListNode':
            for s in n.stats:
                out += self.stmts(s, sc, ind)
            return out
        pad = '    ' * ind
        for line in self.stmt(n, sc, ind):
            out.append(line if line.startswith('\0') else pad + line)
        return [l[1:] if l.startswith('\0') else l for l in out]

    def block(self, n, sc, ind):
        b = self.stmts(n, sc, ind + 1)
        if not b:
            b = ['    ' * (ind + 1) + 'pass']
        return ['\0' + l for l in b]

    def vt(self, name, sc):
        t = sc.vars.get(name)
        if t is None and sc is not self.mod:
            return self.mod.vars.get(name)
        return t

    def stmt(self, n, sc, ind):
        k = type(n).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('Cython statement %s' % k)
        return m(n, sc, ind)

    def s_PassStatNode(self, n, sc, ind):
        return ['pass']

    def s_BreakStatNode(self, n, sc, ind):
        return ['break']

    def s_ContinueStatNode(self, n, sc, ind):
        return ['continue']

    def s_CImportStatNode(self, n, sc, ind):
        nm = n.as_name or n.module_name.split('.')[0]
        self.cimports.add(nm)
        if n.module_name == 'numpy':
            return ['import numpy as %s' % nm] if nm != 'numpy' else ['import numpy']
        return []

    def s_FromCImportStatNode(self, n, sc, ind):
        mod = n.module_name
        for it in n.imported_names:
            name, as_ = it[1], it[2] or it[1]
            if mod in ('libc.math', 'libc.stdlib') and name in LIBC:
                self.libc[as_] = name
            elif mod.startswith('libc.stdint') or mod == 'numpy' or mod in ('cython',):
                if name in FUSED:
                    self.fused[as_] = FUSED[name]
                elif name in BASIC:
                    self.types[as_] = BASIC[name]
            elif name in ('M_PI',):
                return ['%s = 3.141592653589793' % as_]
            else:
                raise Unsupported('cimport %s from %s' % (name, mod))
        return []

    def s_CTypeDefNode(self, n, sc, ind):
        t = self.base(n.base_type)
        nm, t, _ = self.decl(n.declarator, t)
        if t.k == 'fused':
            self.fused[nm] = t
        else:
            self.types[nm] = t
        return []

    def s_FusedTypeNode(self, n, sc, ind):
        alts = []
        for x in n.types:
            t = self.base(x)
            alts += t.alts if t.k == 'fused' else [t]
        self.fused[n.name] = CT('fused', n.name, alts=alts)
        return []

    def s_CDefExternNode(self, n, sc, ind):
        self.headers.append(n.include_file)
        self.extern = True
        try:
            return ['\0' + l for l in self.stmts(n.body, sc, ind)]
        finally:
            self.extern = False
    extern = False

    def s_CEnumDefNode(self, n, sc, ind):
        t = _int('enum', 4, False)
        if n.name:
            self.types[n.name] = t
        out = []
        v = 0
        for it in n.items:
            if self.extern:
                self.enums[it.name] = None
                self.pending.append(it.name)
            else:
                if it.value is not None:
                    v = self.constint(it.value)
                self.enums[it.name] = v
                out.append('%s = %d' % (it.name, v))
                v += 1
        return out

    def s_CStructOrUnionDefNode(self, n, sc, ind):
        st = CT('struct', n.name)
        self.structs[n.name] = st
        if n.kind != 'struct':
            raise Unsupported('union')
        fs = []
        for a in n.attributes or []:
            bt = self.base(a.base_type)
            for d in a.declarators:
                nm, t, _ = self.decl(d, bt)
                fs.append((nm, t))
        if self.extern:
            cname = n.name if n.typedef_flag else 'struct ' + n.name
            st.fsrc = (cname, [(f, t.k == 'arr', t.k == 'ptr') for f, t in fs])
        else:
            L = Layout()
            o = 0
            for f, t in fs:
                s = sizeof(t)
                al = min(8, sizeof(t.elem) if t.k == 'arr' else s)
                o = (o + al - 1) // al * al
                L.fields[f] = (o, t)
                o += s
            L.size = (o + 7) // 8 * 8
            st.alts = L
        return []

    def s_CVarDefNode(self, n, sc, ind):
        bt = self.base(n.base_type)
        out = []
        for d in n.declarators:
            nm, t, default = self.decl(d, bt)
            if t.k == 'func':
                if self.extern:
                    self.externs.add(nm)
                else:
                    self.cfuncs[nm] = t
                continue
            if self.extern:
                raise Unsupported('extern variable %s' % nm)
            sc.vars[nm] = t
            if getattr(sc, 'cls', None):
                continue
            if t.k in ('arr', 'struct'):
                sc.vars[nm] = t
                out.append('%s = _rt.declare(%s)' % (nm, self.tid(t)))
                if default is not None:
                    out.append('%s[:] = %s' % (nm, self.e(default, sc)))
            elif default is not None:
                out.append('%s = %s' % (nm, self.cv(t, self.e(default, sc), sc)))
        return out

    def cv(self, t, ex, sc):
        if t is None or t.k == 'obj':
            return ex
        if t.k == 'mv':
            return '_rt.MView.make(%s, %s, %r, %r)' % (self.tid(t), ex, bool(sc.directives['boundscheck']), bool(sc.directives['wraparound']))
        return '_rt.conv(%s, %s)' % (self.tid(t), ex)

    def decorators(self, n, sc):
        rest = []
        for d in n.decorators or []:
            ex = d.decorator
            k = type(ex).__name__
            s = None
            if k == 'SimpleCallNode' and type(ex.function).__name__ in ('AttributeNode', 'NameNode'):
                s = ex.function.attribute if type(ex.function).__name__ == 'AttributeNode' else ex.function.name
                if s in ('boundscheck', 'wraparound', 'cdivision', 'overflowcheck', 'nonecheck', 'initializedcheck', 'embedsignature', 'binding', 'infer_types', 'profile'):
                    sc.directives[s] = type(ex.args[0]).__name__ == 'BoolNode' and bool(ex.args[0].value)
                    continue
            if k == 'AttributeNode' and ex.attribute in ('inline', 'cfunc', 'ccall', 'final', 'nogil'):
                continue
            rest.append(ex)
        return rest

    def args(self, args, sc):
        """C argument declarations -> ([python parameter strings], [conversions])"""
        ps, cs = [], []
        for a in args:
            bt = self.base(a.base_type)
            nm, t, default = self.decl(a.declarator, bt)
            if not nm:            # 'def f(x)': the type is the name
                nm, t = a.base_type.name, OBJ
            ps.append((nm, a.default, a.kw_only))
            sc.vars[nm] = t
            if t.k not in ('obj',):
                cs.append((nm, t))
        return ps, cs

    def base_arg(self, a):
        return a

    def s_DefNode(self, n, sc, ind):
        f = Fn(sc)
        rest = self.decorators(n, f)
        ps, cs = [], []
        for a in n.args:
            bn = a.base_type
            if type(bn).__name__ == 'CSimpleBaseTypeNode' and type(a.declarator).__name__ == 'CNameDeclaratorNode' and not a.declarator.name:
                nm, t = bn.name, OBJ
            else:
                bt = self.base(bn)
                nm, t, _ = self.decl(a.declarator, bt)
            f.vars[nm] = t
            ps.append((nm, a.default, a.kw_only))
            if t.k != 'obj':
                cs.append((nm, t))
        sig, kw = [], False
        if n.star_arg is not None:
            pass
        for nm, d, kwo in ps:
            if kwo and not kw:
                kw = True
                sig.append('*' + (n.star_arg.name if n.star_arg is not None else '') if n.star_arg is not None else '*')
            sig.append(nm + ('=' + self.e(d, sc) if d is not None else ''))
        if n.star_arg is not None and not kw:
            sig.append('*' + n.star_arg.name)
        if n.starstar_arg is not None:
            sig.append('**' + n.starstar_arg.name)
        out = ['@' + self.e(x, sc) for x in rest]
        name = n.name
        iscls = getattr(sc, 'cls', None)
        out.append('def %s(%s):' % (name, ', '.join(sig)))
        p1 = '    '
        if not iscls or True:
            out.append(p1 + '_rt.note(%r)' % ('%s.pyx:%s' % (self.name, name)))
        for nm, t in cs:
            out.append(p1 + '%s = _rt.carg(%s, %s, %r, %r, %r)' % (nm, self.tid(t), nm, nm, bool(f.directives['boundscheck']), bool(f.directives['wraparound'])))
        return out + self.block(n.body, f, ind)

    def s_CFuncDefNode(self, n, sc, ind):
        f = Fn(sc)
        self.decorators(n, f)
        rt = self.base(n.base_type)
        d = n.declarator
        while type(d).__name__ == 'CPtrDeclaratorNode':
            rt = CT('ptr', elem=rt)
            d = d.base
        nm, _, _ = self.decl(d.base, rt)
        f.ret = rt if rt.k not in ('void', 'obj') else None
        out, sig, cs = [], [], []
        for a in d.args:
            bn = a.base_type
            if type(bn).__name__ == 'CSimpleBaseTypeNode' and type(a.declarator).__name__ == 'CNameDeclaratorNode' and not a.declarator.name:
                an, t = bn.name, OBJ
            else:
                an, t, _ = self.decl(a.declarator, self.base(bn))
            f.vars[an] = t
            sig.append(an + ('=' + self.e(a.default, sc) if a.default is not None else ''))
            if t.k not in ('obj', 'struct'):
                cs.append((an, t))
        out.append('def %s(%s):' % (nm, ', '.join(sig)))
        for an, t in cs:
            out.append('    %s = %s' % (an, self.cv(t, an, f)))
        body = self.block(n.body, f, ind)
        if f.ret is not None and f.ret.k in ('int', 'flt', 'bint'):
            body = body + ['    return 0']
        return out + body

    def s_CClassDefNode(self, n, sc, ind):
        self.classes[n.class_name] = True
        c = Fn(sc)
        c.cls = n.class_name
        bases = [self.e(b, sc) for b in (n.bases.args if n.bases is not None else [])]
        out = ['class %s(%s):' % (n.class_name, ', '.join(bases) or 'object')]
        body = self.block(n.body, c, ind)
        attrs = {k: v for k, v in c.vars.items()}
        pre = ['    _vattrs = {%s}' % ', '.join('%r: %s' % (k, self.tid(v)) for k, v in attrs.items()),
               '    def __new__(cls, *a, **k):',
               '        self = object.__new__(cls)',
               '        for _n, _t in _rt.allattrs(cls):',
               '            object.__setattr__(self, _n, _rt.zero(_t))',
               '        if hasattr(self, "__cinit__"): self.__cinit__(*a, **k)',
               '        return self',
               '    def __setattr__(self, n, v):',
               '        t = self._vattrs.get(n)',
               '        object.__setattr__(self, n, v if t is None else _rt.conv(t, v))']
        return [out[0]] + pre + body

    def s_PyClassDefNode(self, n, sc, ind):
        c = Fn(sc)
        bases = [self.e(b, sc) for b in (n.bases.args if n.bases is not None else [])]
        return ['class %s(%s):' % (n.name, ', '.join(bases) or 'object')] + self.block(n.body, c, ind)

    def s_ExprStatNode(self, n, sc, ind):
        return [self.e(n.expr, sc)]

    def assign(self, lhs, rhs, sc):
        k = type(lhs).__name__
        if k == 'NameNode':
            t = self.vt(lhs.name, sc)
            if t is not None and t.k == 'struct':
                return ['%s[0] = %s' % (lhs.name, rhs)]
            if t is not None and t.k == 'arr':
                return ['%s[:] = %s' % (lhs.name, rhs)]
            return ['%s = %s' % (lhs.name, self.cv(t, rhs, sc))]
        if k in ('TupleNode', 'ListNode'):
            tmp = '_tmp%d' % len(self.T)
            self.T.append(None)
            out = ['%s = tuple(%s)' % (tmp, rhs)]
            star = any(type(a).__name__ == 'StarredUnpackingNode' for a in lhs.args)
            if star:
                raise Unsupported('starred target')
            out.append('if len(%s) != %d: raise ValueError("unpack")' % (tmp, len(lhs.args)))
            for j, a in enumerate(lhs.args):
                out += self.assign(a, '%s[%d]' % (tmp, j), sc)
            return out
        return ['%s = %s' % (self.e(lhs, sc), rhs)]

    def s_SingleAssignmentNode(self, n, sc, ind):
        rk = type(n.rhs).__name__
        if rk == 'ImportNode':
            mod = n.rhs.module_name.value
            nm = n.lhs.name
            if '.' in mod and not n.rhs.is_import_as_name:
                return ['import %s' % mod]
            return ['import %s as %s' % (mod, nm) if mod != nm else 'import %s' % mod]
        return self.assign(n.lhs, self.e(n.rhs, sc), sc)

    def s_FromImportStatNode(self, n, sc, ind):
        mod = n.module.module_name.value or ''
        names = ', '.join('%s as %s' % (a, b.name) for a, b in n.items)
        return ['from %s%s import %s' % ('.' * max(0, n.module.level or 0), mod, names)]

    def s_CascadedAssignmentNode(self, n, sc, ind):
        tmp = '_tmp%d' % len(self.T)
        self.T.append(None)
        out = ['%s = %s' % (tmp, self.e(n.rhs, sc))]
        for l in n.lhs_list:
            out += self.assign(l, tmp, sc)
        return out

    def s_ParallelAssignmentNode(self, n, sc, ind):
        out, tm = [], []
        for s in n.stats:
            tmp = '_tmp%d' % len(self.T)
            self.T.append(None)
            out.append('%s = %s' % (tmp, self.e(s.rhs, sc)))
            tm.append((s.lhs, tmp))
        for l, t in tm:
            out += self.assign(l, t, sc)
        return out

    def s_InPlaceAssignmentNode(self, n, sc, ind):
        op, rhs = n.operator, self.e(n.rhs, sc)
        if type(n.lhs).__name__ == 'NameNode':
            t = self.vt(n.lhs.name, sc)
            if t is not None and t.k != 'obj':
                return ['%s = %s' % (n.lhs.name, self.cv(t, self.bin(op, n.lhs.name, '(%s)' % rhs, sc, t), sc))]
        return ['%s %s= %s' % (self.e(n.lhs, sc), op, rhs)]

    def s_IfStatNode(self, n, sc, ind):
        out = []
        for i, c in enumerate(n.if_clauses):
            out.append('%s %s:' % ('elif' if i else 'if', self.e(c.condition, sc)))
            out += self.block(c.body, sc, ind)
        if n.else_clause is not None:
            out.append('else:')
            out += self.block(n.else_clause, sc, ind)
        return out

    def s_WhileStatNode(self, n, sc, ind):
        out = ['while _rt.tick(%s):' % self.e(n.condition, sc)] + self.block(n.body, sc, ind)
        if n.else_clause is not None:
            out += ['else:'] + self.block(n.else_clause, sc, ind)
        return out

    def s_ForInStatNode(self, n, sc, ind):
        seq = self.e(n.iterator.sequence, sc)
        out = ['for %s in %s:' % (self.e(n.target, sc), seq)] + self.block(n.body, sc, ind)
        if n.else_clause is not None:
            out += ['else:'] + self.block(n.else_clause, sc, ind)
        return out

    def s_ForFromStatNode(self, n, sc, ind):
        lo, hi = self.e(n.bound1, sc), self.e(n.bound2, sc)
        st = self.e(n.step, sc) if n.step is not None else '1'
        if n.relation1[0] == '<':
            lo = lo if n.relation1 == '<=' else '(%s) + 1' % lo
            hi = hi if n.relation2 == '<' else '(%s) + 1' % hi
        else:
            lo = lo if n.relation1 == '>=' else '(%s) - 1' % lo
            hi = hi if n.relation2 == '>' else '(%s) - 1' % hi
            st = '-(%s)' % st
        return ['for %s in range(%s, %s, %s):' % (self.e(n.target, sc), lo, hi, st)] + self.block(n.body, sc, ind)

    def s_GILStatNode(self, n, sc, ind):
        return ['if True:'] + self.block(n.body, sc, ind)

    def s_GILExitNode(self, n, sc, ind):
        return []

    def s_WithStatNode(self, n, sc, ind):
        return ['with %s%s:' % (self.e(n.manager, sc), ' as ' + self.e(n.target, sc) if n.target is not None else '')] + self.block(n.body, sc, ind)

    def s_TryExceptStatNode(self, n, sc, ind):
        out = ['try:'] + self.block(n.body, sc, ind)
        for c in n.except_clauses:
            pat = c.pattern
            if pat is None:
                h = 'except Exception:'
            else:
                ps = pat if isinstance(pat, list) else [pat]
                h = 'except (%s,)%s:' % (', '.join(self.e(x, sc) for x in ps), ' as ' + self.e(c.target, sc) if c.target is not None else '')
            out += [h] + self.block(c.body, sc, ind)
        if n.else_clause is not None:
            out += ['else:'] + self.block(n.else_clause, sc, ind)
        return out

    def s_TryFinallyStatNode(self, n, sc, ind):
        return ['try:'] + self.block(n.body, sc, ind) + ['finally:'] + self.block(n.finally_clause, sc, ind)

    def s_AssertStatNode(self, n, sc, ind):
        return ['assert %s' % self.e(n.condition, sc) + (', ' + self.e(n.value, sc) if n.value is not None else '')]

    def s_RaiseStatNode(self, n, sc, ind):
        return ['raise %s' % self.e(n.exc_type, sc) if n.exc_type is not None else 'raise']

    def s_ReraiseStatNode(self, n, sc, ind):
        return ['raise']

    def s_ReturnStatNode(self, n, sc, ind):
        if n.value is None:
            return ['return']
        v = self.e(n.value, sc)
        return ['return ' + (self.cv(sc.ret, v, sc) if sc.ret is not None else '_rt.pyval(%s)' % v)]

    def s_DelStatNode(self, n, sc, ind):
        return ['del ' + ', '.join(self.e(a, sc) for a in n.args)]

    def s_GlobalNode(self, n, sc, ind):
        return ['global ' + ', '.join(n.names)]

    # expressions
    def e(self, n, sc):
        k = type(n).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('Cython expression %s' % k)
        return m(n, sc)

    def e_NameNode(self, n, sc):
        if n.name == 'NULL':
            return '_rt.CPtr(None, 0, None)'
        return n.name

    def e_IntNode(self, n, sc):
        return n.value.rstrip('lLuU') if not n.value.lower().startswith('0x') else n.value.rstrip('lLuU')

    def e_FloatNode(self, n, sc):
        return n.value

    def e_ImagNode(self, n, sc):
        return '%rj' % float(n.value)

    def e_BoolNode(self, n, sc):
        return 'True' if n.value else 'False'

    def e_NoneNode(self, n, sc):
        return 'None'

    def e_EllipsisNode(self, n, sc):
        return 'Ellipsis'

    def e_UnicodeNode(self, n, sc):
        return repr(str(n.value))

    e_IdentifierStringNode = e_UnicodeNode
    e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n, sc):
        return repr(bytes(n.value))

    def ct(self, n, sc):
        """static C type of an expression, None if it is an object"""
        k = type(n).__name__
        if k == 'NameNode':
            t = self.vt(n.name, sc)
            return t if t is not None and t.k != 'obj' else None
        if k == 'IntNode':
            return BASIC['int']
        if k == 'IndexNode':
            t = self.ct(n.base, sc)
            if t is not None and t.k in ('mv', 'arr', 'ptr'):
                return t.elem
        if k == 'AttributeNode':
            t = self.ct(n.obj, sc)
            if t is not None and t.k in ('arr', 'ptr'):
                t = t.elem
            if t is not None and t.k == 'mv' and n.attribute in ('shape', 'strides'):
                return CT('arr', elem=BASIC['Py_ssize_t'], n=8)
            return None
        if k == 'TypecastNode':
            return self.decl(n.declarator, self.base(n.base_type))[1]
        if hasattr(n, 'operand1'):
            a, b = self.ct(n.operand1, sc), self.ct(n.operand2, sc)
            if a is not None and b is not None:
                return a if a.k == 'flt' else b
        if k == 'UnaryMinusNode':
            return self.ct(n.operand, sc)
        return None

    def bin(self, op, a, b, sc, t=None):
        if op in ('//', '%', '/') and sc.directives.get('cdivision') and t is not None and t.k in ('int', 'bint'):
            if op == '%':
                return '_rt.cmod(%s, %s)' % (a, b)
            if op == '//':
                return '_rt.cdiv(%s, %s)' % (a, b)
        return '%s %s %s' % (a, op, b)

    def e_binop(self, n, sc):
        a, b = self.e(n.operand1, sc), self.e(n.operand2, sc)
        return '(' + self.bin(n.operator, '(%s)' % a, '(%s)' % b, sc, self.ct(n, sc)) + ')'

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = e_binop

    def e_BoolBinopNode(self, n, sc):
        return '((%s) %s (%s))' % (self.e(n.operand1, sc), n.operator, self.e(n.operand2, sc))

    def e_NotNode(self, n, sc):
        return '(not (%s))' % self.e(n.operand, sc)

    def e_UnaryMinusNode(self, n, sc):
        return '(-(%s))' % self.e(n.operand, sc)

    def e_UnaryPlusNode(self, n, sc):
        return '(+(%s))' % self.e(n.operand, sc)

    def e_TildeNode(self, n, sc):
        return '(~(%s))' % self.e(n.operand, sc)

    def e_PrimaryCmpNode(self, n, sc):
        s = '(%s) %s (%s)' % (self.e(n.operand1, sc), CMP.get(n.operator, n.operator), self.e(n.operand2, sc))
        c = n.cascade
        while c is not None:
            s += ' %s (%s)' % (CMP.get(c.operator, c.operator), self.e(c.operand2, sc))
            c = c.cascade
        return '(%s)' % s

    def e_CondExprNode(self, n, sc):
        return '((%s) if (%s) else (%s))' % (self.e(n.true_val, sc), self.e(n.condition, sc), self.e(n.false_val, sc))

    def e_AttributeNode(self, n, sc):
        ok = type(n.obj).__name__
        if ok == 'NameNode':
            t = self.vt(n.obj.name, sc)
            if t is not None and t.k == 'ndarray' and n.attribute == 'data':
                return '_rt.nddata(%s)' % n.obj.name
            if n.obj.name == 'cython' and 'cython' in self.cimports:
                return '_rt.cython.%s' % n.attribute
        return '%s.%s' % (self.e1(n.obj, sc), n.attribute)

    def e1(self, n, sc):
        s = self.e(n, sc)
        return s if re.match(r'^[\w.\[\]()]*$', s) and not re.match(r'^\d', s) else '(%s)' % s

    def e_IndexNode(self, n, sc):
        ix = n.index
        if type(ix).__name__ == 'TupleNode':
            s = ', '.join(self.e(a, sc) for a in ix.args) + (',' if len(ix.args) == 1 else '')
        else:
            s = self.e(ix, sc)
        return '%s[%s]' % (self.e1(n.base, sc), s)

    def e_SliceIndexNode(self, n, sc):
        return '%s[%s:%s]' % (self.e1(n.base, sc), self.e(n.start, sc) if n.start is not None else '', self.e(n.stop, sc) if n.stop is not None else '')

    def e_SliceNode(self, n, sc):
        f = lambda x: '' if x is None or type(x).__name__ == 'NoneNode' else self.e(x, sc)
        s = '%s:%s' % (f(n.start), f(n.stop))
        st = f(n.step)
        return s + (':' + st if st else '')

    def callargs(self, n, sc):
        return [self.e(a, sc) for a in n.args]

    def e_SimpleCallNode(self, n, sc):
        fn = n.function
        a = self.callargs(n, sc)
        if type(fn).__name__ == 'AttributeNode' and fn.attribute in ('import_array', 'import_ufunc') and not a:
            return 'None'
        if type(fn).__name__ == 'NameNode':
            if fn.name in self.externs:
                return '_rt.extern_call(_vm(), %r, [%s])' % (fn.name, ', '.join(a))
            if fn.name in self.libc:
                return '_rt.extern_call(_vm(), %r, [%s])' % (self.libc[fn.name], ', '.join(a))
        return '%s(%s)' % (self.e1(fn, sc), ', '.join(a))

    def e_GeneralCallNode(self, n, sc):
        pos = n.positional_args
        parts = []
        if type(pos).__name__ == 'TupleNode':
            parts += [self.e(a, sc) for a in pos.args]
        elif type(pos).__name__ == 'AsTupleNode':
            parts.append('*' + self.e(pos.arg, sc))
        else:
            parts.append('*' + self.e(pos, sc))
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for it in kw.key_value_pairs:
                    parts.append('%s=%s' % (it.key.value, self.e(it.value, sc)))
            else:
                parts.append('**' + self.e(kw, sc))
        return '%s(%s)' % (self.e1(n.function, sc), ', '.join(parts))

    def e_TupleNode(self, n, sc):
        return '(%s%s)' % (', '.join(self.e(a, sc) for a in n.args), ',' if len(n.args) == 1 else '')

    def e_ListNode(self, n, sc):
        s = '[%s]' % ', '.join(self.e(a, sc) for a in n.args)
        if getattr(n, 'mult_factor', None) is not None:
            s = '(%s * (%s))' % (s, self.e(n.mult_factor, sc))
        return s

    def e_SetNode(self, n, sc):
        return '{%s}' % ', '.join(self.e(a, sc) for a in n.args)

    def e_DictNode(self, n, sc):
        return '{%s}' % ', '.join('%s: %s' % (self.e(i.key, sc), self.e(i.value, sc)) for i in n.key_value_pairs)

    def e_TypecastNode(self, n, sc):
        t = self.decl(n.declarator, self.base(n.base_type))[1]
        v = self.e(n.operand, sc)
        if t.k == 'obj':
            return v
        return '_rt.cast(%s, %s)' % (self.tid(t), v)

    def e_AmpersandNode(self, n, sc):
        o = n.operand
        if type(o).__name__ == 'IndexNode':
            ix = o.index
            s = ', '.join(self.e(a, sc) for a in ix.args) if type(ix).__name__ == 'TupleNode' else self.e(ix, sc)
            return '_rt.addr(%s, %s)' % (self.e(o.base, sc), s)
        return '_rt.addrof(%s)' % self.e(o, sc)

    def e_SizeofTypeNode(self, n, sc):
        return '_rt.sizeof(%s)' % self.tid(self.decl(n.declarator, self.base(n.base_type))[1])

    def e_ComprehensionNode(self, n, sc):
        # rebuild from the loop
        conds, fors = '', ''
        b = n.loop
        while True:
            k = type(b).__name__
            if k == 'ForInStatNode':
                fors += ' for %s in %s' % (self.e(b.target, sc), self.e(b.iterator.sequence, sc))
                b = b.body
            elif k == 'IfStatNode':
                fors += ' if (%s)' % self.e(b.if_clauses[0].condition, sc)
                b = b.if_clauses[0].body
            elif k == 'StatListNode':
                b = b.stats[0]
            elif k == 'ExprStatNode':
                b = b.expr
            elif k == 'ComprehensionAppendNode':
                return '[%s%s]' % (self.e(b.expr, sc), fors)
            elif k == 'DictComprehensionAppendNode':
                return '{%s: %s%s}' % (self.e(b.dict_item.key, sc), self.e(b.dict_item.value, sc), fors)
            else:
                raise Unsupported('comprehension %s' % k)

    def e_JoinedStrNode(self, n, sc):
        return "''.join([%s])" % ', '.join('str(%s)' % self.e(v.value if type(v).__name__ == 'FormattedValueNode' else v, sc) for v in n.values)

    def e_LambdaNode(self, n, sc):
        f = Fn(sc)
        ns = []
        for a in n.args:
            nm = a.declarator.name or a.base_type.name
            f.vars[nm] = OBJ
            ns.append(nm)
        return '(lambda %s: %s)' % (', '.join(ns), self.e(n.result_expr, f))


# runtime names visible to generated code

NOTES = set()


def note(s):
    NOTES.add(s)


_TICKS = [0]


def tick(c):
    _TICKS[0] += 1
    if _TICKS[0] > 5000000:
        raise CodeFault('loop does not terminate')
    return c


def pyval(v):
    if isinstance(v, MView):
        return v.a
    if isinstance(v, Fraction):
        f = float(v)
        return f if Fraction(f) == v else SNum.of(v)
    return v


def zero(t):
    if t.k in ('arr', 'struct'):
        p = declare(t)
        p.p.m.zero = True
        return p
    return 0 if t.k in ('int', 'flt', 'bint') else None


def allattrs(cls):
    r = []
    for c in cls.__mro__:
        r += list(c.__dict__.get('_vattrs', {}).items())
    return r


class _Cy(object):
    def __getattr__(self, n):
        return OBJ


cython = _Cy()


def load_pyx(name, path, incs, tmp, vm, builtins_import):
    """translate and execute a .pyx; vm: callable returning the interpreter for its C code"""
    with open(path) as f:
        src = f.read()
    tr = Translator(name, src)
    code = tr.go()
    import types
    g = {'__name__': name, '__builtins__': builtins_import}
    for h in set(tr.headers):
        if h in ('<*>', '*') or h.startswith('<'):
            continue
        ss = {s: t.fsrc for s, t in tr.structs.items() if hasattr(t, 'fsrc')}
        if ss or tr.pending:
            L, ev = layouts(h, ss, tr.pending, incs, tmp)
            for s, l in L.items():
                tr.structs[s].alts = l
            g.update(ev)
            missing = [e for e in tr.pending if e not in ev]
            if missing:
                raise Unsupported('enum values %s' % missing)
    import sys
    g['_rt'] = sys.modules[__name__]
    g['_T'] = tr.T
    g['_vm'] = vm
    exec(compile(code, '<%s translated>' % os.path.basename(path), 'exec'), g)
    return g, code, tr
