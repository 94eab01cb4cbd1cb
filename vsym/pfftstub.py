"""
Stand-ins for the two libraries under pmesh.pm that are not part of the repository: pfft (slab and
pencil decomposed FFT) and mpsort (distributed sort).  They follow the documented interface that
pmesh.pm uses (a LocalBuffer can be laid over the memory of another one; edges are those of the
mesh) and are used for the symbolic run and for the replay alike.

The transform is the exact discrete Fourier sum; symbolically it needs axes of 1, 2 or 4 cells
(twiddle factors +-1, +-i).
"""
import types
import itertools
import numpy as _np
from . import core
from .core import Unsupported


def make(np, symbolic):
    """returns (pfft, mpsort) over the given numpy"""

    class Flags(object):
        PFFT_TRANSPOSED_OUT = 1
        PFFT_TRANSPOSED_IN = 2
        PFFT_PADDED_R2C = 4
        PFFT_PADDED_C2R = 8
        PFFT_PRESERVE_INPUT = 16
        PFFT_DESTROY_INPUT = 32
        PFFT_ESTIMATE = 64
        PFFT_MEASURE = 128
        PFFT_EXHAUSTIVE = 256

    class Type(object):
        PFFT_R2C, PFFT_C2R, PFFTF_R2C, PFFTF_C2R, PFFT_C2C, PFFTF_C2C = [('f8', 0), ('f8', 0), ('f4', 0), ('f4', 0), ('f8', 1), ('f4', 1)]

    # the types must differ although their contents agree
    Type.PFFT_R2C, Type.PFFT_C2R = ('f8', 0, 'R2C'), ('f8', 0, 'C2R')
    Type.PFFTF_R2C, Type.PFFTF_C2R = ('f4', 0, 'R2C'), ('f4', 0, 'C2R')
    Type.PFFT_C2C, Type.PFFTF_C2C = ('f8', 1, 'C2C'), ('f4', 1, 'C2C')

    class Direction(object):
        PFFT_FORWARD = -1
        PFFT_BACKWARD = 1

    def split_size_2d(s):
        a = int(s ** 0.5) + 1
        while s % a:
            a -= 1
        return (a, s // a) if a <= s // a else (s // a, a)

    class ProcMesh(object):
        placement = None        # rank -> place in the process mesh, row-major if None

        def __init__(self, np, comm=None):
            n = 1
            for p in np:
                n *= p
            if n != comm.size:
                raise ValueError('the size of the process mesh does not match the communicator')
            self.np = tuple(int(p) for p in np)
            self.ndim = len(self.np)
            self.comm = comm
            self.rank = comm.rank
            place = (ProcMesh.placement or list(range(n)))[comm.rank] if n > 1 else 0
            c = []
            for p in self.np[::-1]:
                c.append(place % p)
                place //= p
            self.this = tuple(c[::-1])

    def blocks(n, p):
        b = -(-n // p)
        return [min(i * b, n) for i in range(p)] + [n]

    class Partition(object):
        def __init__(self, type, Nmesh, procmesh, flags):
            N = [int(n) for n in Nmesh]
            nd = len(N)
            if procmesh.ndim > nd:
                raise ValueError('ProcMesh shall have less dimensions than Mesh')
            self.ndim = nd
            self.type = type
            self.procmesh = procmesh
            self.Nmesh = N
            self.transposed = bool(flags & Flags.PFFT_TRANSPOSED_OUT)
            self.padded = bool(flags & Flags.PFFT_PADDED_R2C)
            real, c2c, kind = type[0], type[1], type[2]
            self.rdtype = ('c16' if real == 'f8' else 'c8') if c2c else real
            self.cdtype = 'c16' if real == 'f8' else 'c8'
            oN = list(N) if c2c else N[:-1] + [N[-1] // 2 + 1]
            self.iN, self.oN = N, oN
            ia = list(range(procmesh.ndim))                                 # axis d is split by process axis d
            oa = [d + 1 for d in ia] if self.transposed and procmesh.ndim < nd else ia
            self.i_edges, self.local_i_start, self.local_i_shape = self._part(N, ia)
            self.o_edges, self.local_o_start, self.local_o_shape = self._part(oN, oa)
            self.local_ni, self.local_no = self.local_i_shape, self.local_o_shape

        def _part(self, N, axes):
            pm = self.procmesh
            edges = [[0, n] for n in N]
            start = [0] * self.ndim
            shape = list(N)
            for p, d in enumerate(axes):
                e = blocks(N[d], pm.np[p])
                edges[d] = e
                start[d] = e[pm.this[p]]
                shape[d] = e[pm.this[p] + 1] - e[pm.this[p]]
                if shape[d] == 0:
                    start[d] = 0                                        # as pfft does
            return [_np.array(e) for e in edges], _np.array(start, 'intp'), _np.array(shape, 'intp')

    owners = {}

    class Store(object):
        """the memory of a buffer"""
        serial = itertools.count()

        def __init__(self):
            self.views = {}

    class LocalBuffer(object):
        def __init__(self, partition, base=None):
            self.partition = partition
            if base is not None:
                if not isinstance(base, LocalBuffer):
                    raise TypeError('base must be a buffer')
                self.store = base.store
            else:
                self.store = Store()

        def __contains__(self, other):
            return isinstance(other, LocalBuffer) and other.store is self.store

        @property
        def address(self):
            return id(self.store)

        def _raw(self, nbytes):
            r = self.store.views.get('raw')
            if r is None or r.nbytes < nbytes:
                if r is not None:
                    raise ValueError('buffer too small')
                r = self.store.views['raw'] = _np.full(nbytes + 64, 0x7f, 'u1')
            return r

        def _layout(self, which):
            p = self.partition
            if which == 'i':
                shape = [int(x) for x in p.local_i_shape]
                mem = list(shape)
                if p.padded and not p.type[1]:
                    mem[-1] = 2 * (p.Nmesh[-1] // 2 + 1)
                return p.rdtype, shape, mem, list(range(p.ndim))
            shape = [int(x) for x in p.local_o_shape]
            order = list(range(1, p.ndim)) + [0] if p.transposed else list(range(p.ndim))
            return p.cdtype, shape, [shape[d] for d in order], order

        def _view(self, which):
            dt, shape, mem, order = self._layout(which)
            p = self.partition
            inv = [order.index(d) for d in range(p.ndim)]
            if symbolic:
                key = (which, p.transposed if which == 'o' else 0, tuple(mem), dt)
                a = self.store.views.get(key)
                if a is None:
                    a = self.store.views[key] = np.empty(mem, dt)
            else:
                size = max(self._bytes('i'), self._bytes('o'))
                n = 1
                for m in mem:
                    n *= m
                raw = self._raw(size)
                a = raw[:n * _np.dtype(dt).itemsize].view(dt).reshape(mem)
            if not p.padded:
                root = a
                while isinstance(getattr(root, 'base', None), _np.ndarray):
                    root = root.base
                owners[id(root)] = (root, self)
            a = a.transpose(inv)
            return a[tuple(slice(0, s) for s in shape)]

        def _bytes(self, which):
            dt, shape, mem, order = self._layout(which)
            # room for both orientations
            p = self.partition
            n = _np.dtype(dt).itemsize
            cells = 1
            for d in range(p.ndim):
                b = -(-(p.Nmesh[d] // 2 * 2 + 2))
                cells *= b
            return n * cells

        def view_input(self):
            return self._view('i')

        def view_output(self):
            return self._view('o')

        def scramble(self, keep):
            """the views other than the given one no longer hold anything"""
            if not symbolic:
                return
            for k, a in self.store.views.items():
                if k[0] != keep:
                    core.ctx()
                    a[...] = np.empty(a.shape, k[3])

    I = {1: [1], 2: [1, -1], 4: [1, 1j, -1, -1j]}

    def twid(N, m):
        """exp(2 pi i m / N)"""
        if N in I:
            return I[N][m % N]
        if symbolic:
            raise Unsupported('a symbolic transform of %d cells' % N)
        return _np.exp(2j * _np.pi * m / N)

    def mul(t, z):
        if t == 1:
            return z
        if t == -1:
            return -z
        if symbolic:
            z = core.SCplx.of(z)
            return core.SCplx(-z.imag, z.real) if t == 1j else core.SCplx(z.imag, -z.real)
        return t * z

    def dft1(a, axis, sign):
        N = a.shape[axis]
        if N == 1:
            return a.copy()
        a = _np.moveaxis(a, axis, 0)
        out = _np.empty_like(a)
        for k in range(N):
            for idx in _np.ndindex(a.shape[1:]):
                s = 0
                for x in range(N):
                    s = s + mul(twid(N, sign * k * x), a[(x,) + idx])
                out[(k,) + idx] = s
        return _np.moveaxis(out, 0, axis)

    def objs(a):
        o = _np.empty(a.shape, object)
        for idx in _np.ndindex(a.shape):
            o[idx] = a[idx]
        return o

    def owner(a):
        """the buffer whose memory an array shows"""
        if isinstance(a, LocalBuffer):
            return a
        root = a
        while isinstance(getattr(root, 'base', None), _np.ndarray):
            root = root.base
        if id(root) not in owners:
            raise TypeError('not the memory of a buffer')
        return owners[id(root)][1]

    class Plan(object):
        def __init__(self, partition, direction, i, o, type, flags):
            self.partition = partition
            self.direction = direction
            self.inplace = owner(i).store is owner(o).store
            self.type = type

        def execute(self, i, o):
            i, o = owner(i), owner(o)
            if (i.store is o.store) != self.inplace:
                raise ValueError('the plan and the buffers do not agree on being in place')
            p = self.partition
            for b in (i, o):
                q = b.partition
                if q.Nmesh != p.Nmesh or q.procmesh.np != p.procmesh.np:
                    raise ValueError('the buffer is of a different partition')
            bi, bo = LocalBuffer(p, base=i), LocalBuffer(p, base=o)
            comm = p.procmesh.comm
            fwd = self.direction == Direction.PFFT_FORWARD
            src = bi.view_input() if fwd else bi.view_output()
            dst = bo.view_output() if fwd else bo.view_input()
            st = [int(x) for x in (p.local_i_start if fwd else p.local_o_start)]
            N = p.iN if fwd else p.oN
            full = _np.empty(N, object)
            for s, a in comm.allgather((tuple(st), objs(src))):
                full[tuple(slice(x, x + n) for x, n in zip(s, a.shape))] = a
            c2c = bool(p.type[1])
            if fwd:
                for d in range(p.ndim):
                    full = dft1(full, d, -1)
                full = full[tuple(slice(0, n) for n in p.oN)]
            else:
                if c2c:
                    for d in range(p.ndim):
                        full = dft1(full, d, +1)
                else:
                    for d in range(p.ndim - 1):
                        full = dft1(full, d, +1)
                    L = p.iN[-1]
                    out = _np.empty(p.iN, object)
                    for idx in _np.ndindex(tuple(p.iN)):
                        s = 0
                        for k in range(L // 2 + 1):
                            z = mul(twid(L, k * idx[-1]), full[idx[:-1] + (k,)])
                            z = z.real
                            s = s + (z if k == 0 or 2 * k == L else 2 * z)
                        out[idx] = s
                    full = out
            st = [int(x) for x in (p.local_o_start if fwd else p.local_i_start)]
            for idx in _np.ndindex(tuple(dst.shape)):
                dst[idx] = full[tuple(a + b for a, b in zip(st, idx))]
            if self.inplace:
                bo.scramble('o' if fwd else 'i')

    pfft = types.ModuleType('pfft')
    for x in (Flags, Type, Direction, split_size_2d, ProcMesh, Partition, LocalBuffer, Plan):
        setattr(pfft, x.__name__, x)

    # --- mpsort

    def items(a):
        return [a[i] for i in range(len(a))]

    def base(a):
        return a.base if isinstance(a, _np.flatiter) else a

    def put(out, vals):
        if len(out) != len(vals):
            raise ValueError('the output has a different length')
        for i, v in enumerate(vals):
            out[i] = v
        return out

    def sort(source, orderby=None, out=None, comm=None, tuning=[]):
        key = source if orderby is None else orderby
        if len(key) != len(source):
            raise ValueError('the keys do not match the source')
        if out is None:
            out = source
        al = comm.allgather((items(source), [int(k) for k in items(key)], len(out)))
        allv = [(k, r, n, v) for r, (vs, ks, _) in enumerate(al) for n, (v, k) in enumerate(zip(vs, ks))]
        allv.sort(key=lambda t: t[:3])
        sizes = [l for _, _, l in al]
        if sum(sizes) != len(allv):
            raise ValueError('the global length of the output differs')
        off = sum(sizes[:comm.rank])
        return put(out, [v for _, _, _, v in allv[off:off + len(out)]])

    def gathered(source, comm):
        return [v for l in comm.allgather(items(source)) for v in l]

    def new(source, n):
        return np.empty(n, base(source).dtype)

    def permute(source, argindex, comm, out=None):
        if comm.allreduce(len(source)) != comm.allreduce(len(argindex)):
            raise ValueError('Global size of source and argindex is different')
        if out is None:
            out = new(source, len(argindex))
        g = gathered(source, comm)
        return put(out, [g[int(k)] for k in items(argindex)])

    def take(source, argindex, comm, out=None):
        if out is None:
            out = new(source, len(argindex))
        g = gathered(source, comm)
        idx = [int(k) for k in items(argindex)]
        if any(k < 0 or k >= len(g) for k in idx):
            raise IndexError('index out of range')
        return put(out, [g[k] for k in idx])

    mpsort = types.ModuleType('mpsort')
    for x in (sort, permute, take):
        setattr(mpsort, x.__name__, x)
    return pfft, mpsort
