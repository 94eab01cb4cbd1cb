"""
Deterministic in-process MPI: ranks are threads that run one at a time, switching only at
collective operations.  Works on numpy arrays and on symbolic arrays.
"""
import threading
import copy
import gc
import itertools
import numpy as np
from .core import CodeFault


class Op(object):
    def __init__(self, name, f):
        self.name = name
        self.f = f


class Datatype(object):
    def __init__(self, size):
        self.size = size

    def Create_contiguous(self, n):
        return Datatype(self.size * int(n))

    def Commit(self):
        return self

    def Free(self):
        pass

    def Get_size(self):
        return self.size


class World(object):
    """one SPMD execution"""
    _n = itertools.count()

    def __init__(self, size):
        self.size = size
        self.serial = next(World._n)
        self.cond = threading.Condition()
        self.turn = 0
        self.state = ['run'] * size       # run wait done
        self.slots = {}                   # collective number -> {rank: (op, payload)}
        self.results = {}
        self.count = [0] * size
        self.error = None
        self.total = 0

    def coll(self, rank, op, payload, fn):
        """fn(payloads by rank) -> list of results by rank"""
        self.total += 1
        n = self.count[rank]
        self.count[rank] += 1
        slot = self.slots.setdefault(n, {})
        slot[rank] = (op, payload)
        if len(set(o for o, _ in slot.values())) != 1:
            raise CodeFault('ranks disagree on the collective operation: %s' % sorted(o for o, _ in slot.values()))
        if len(slot) == self.size:
            self.results[n] = fn([slot[r][1] for r in range(self.size)])
            return self.results[n][rank]
        self._yield(rank, n)
        return self.results[n][rank]

    def _yield(self, rank, n):
        with self.cond:
            self.state[rank] = n
            self._next(rank)
            while not (self.turn == rank and (n in self.results)):
                if self.error is not None:
                    raise _Abort()
                self.cond.wait()
            self.state[rank] = 'run'
            if self.error is not None:
                raise _Abort()

    def _next(self, rank):
        """hand the baton to the next runnable rank"""
        for d in range(1, self.size + 1):
            r = (rank + d) % self.size
            s = self.state[r]
            if s == 'run' and r != rank or isinstance(s, int) and s in self.results:
                self.turn = r
                self.cond.notify_all()
                return
        if all(s == 'done' for s in self.state):
            self.turn = -1
            self.cond.notify_all()
            return
        if self.error is None:
            self.error = CodeFault('deadlock: some ranks wait in a collective operation that others never reach')
        self.cond.notify_all()


class _Abort(BaseException):
    pass


def spmd(size, fn, comms=None):
    """run fn(comm) on size ranks; returns the list of results"""
    w = World(size)
    if size == 1:
        return [fn(Comm(w, 0))]
    out = [None] * size

    def run(rank):
        # the lock is held whenever a rank runs (and while it unwinds): z3 is not thread safe
        while w.turn != rank:
            if w.error is not None:
                return
            w.cond.wait()
        try:
            out[rank] = fn(Comm(w, rank))
        except _Abort:
            return
        except BaseException as e:
            if w.error is None:
                w.error = e
            w.cond.notify_all()
            return
        w.state[rank] = 'done'
        w._next(rank)

    def body(rank):
        with w.cond:
            run(rank)

    ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    # a garbage collection in another thread would release z3 terms while z3 runs
    gcon = gc.isenabled()
    gc.disable()
    try:
        with w.cond:
            for t in ts:
                t.start()
        for t in ts:
            t.join()
    finally:
        if gcon:
            gc.enable()
    if w.error is not None:
        raise w.error
    return out


def _cp(x):
    """what pickling would give"""
    if x is None or isinstance(x, (int, float, str, bool, complex, np.dtype, tuple)):
        return x
    if hasattr(x, 'copy') and not isinstance(x, type):
        return x.copy()
    return copy.deepcopy(x)


def _raw(a):
    return a.view(np.ndarray) if type(a) is not np.ndarray and isinstance(a, np.ndarray) else a


def _isz(a):
    return a.dtype.itemsize


def _flat(a, what):
    """flat writable view of a buffer and its element size"""
    if hasattr(a, 'mpi_columns'):
        return a, a.dtype.itemsize
    if not isinstance(a, np.ndarray):
        raise TypeError('message: expecting buffer, got %s' % type(a).__name__)
    f = np.ndarray.flags.__get__(a)
    if not (f.c_contiguous or f.f_contiguous):
        raise ValueError('message: buffer is not contiguous (%s)' % what)
    raw = _raw(a)
    return (raw.reshape(-1) if f.c_contiguous else raw.T.reshape(-1)), a.dtype.itemsize


def _copyrows(dst, doff, src, soff, n, rsize):
    """copy n rows of rsize bytes"""
    if n == 0:
        return
    if hasattr(dst, 'mpi_columns'):
        if rsize != dst.dtype.itemsize or rsize != src.dtype.itemsize:
            raise CodeFault('message size does not match the record size')
        if soff + n > len(src) or doff + n > len(dst):
            raise CodeFault('message exceeds the buffer')
        for a, b in zip(dst.mpi_columns(), src.mpi_columns()):
            _raw(a)[doff:doff + n] = _raw(b)[soff:soff + n]
        return
    d, de = _flat(dst, 'receive')
    s, se = _flat(src, 'send')
    if de != se or rsize % de:
        raise CodeFault('message size %d does not match the element size %d/%d' % (rsize, se, de))
    k = rsize // de
    if (soff + n) * k > len(s):
        raise CodeFault('send message exceeds the buffer: rows %d..%d of %d elements' % (soff, soff + n, len(s) // k if k else 0))
    if (doff + n) * k > len(d):
        raise CodeFault('receive message exceeds the buffer')
    d[doff * k:(doff + n) * k] = s[soff * k:(soff + n) * k]


def _reduce(op, vals):
    r = _cp(vals[0])
    for v in vals[1:]:
        r = op.f(r, v)
    return r


SUM = Op('SUM', lambda a, b: a + b)
MAX = Op('MAX', lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else (b if b > a else a))
MIN = Op('MIN', lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else (b if b < a else a))
PROD = Op('PROD', lambda a, b: a * b)
LAND = Op('LAND', lambda a, b: bool(a) and bool(b))
LOR = Op('LOR', lambda a, b: bool(a) or bool(b))


class Comm(object):
    def __init__(self, world, rank):
        self.world = world
        self.rank = rank
        self.size = world.size

    def __deepcopy__(self, memo):
        return self

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _c(self, op, payload, fn):
        return self.world.coll(self.rank, op, payload, fn)

    def Barrier(self):
        self._c('Barrier', None, lambda p: [None] * len(p))
    barrier = Barrier

    def bcast(self, x=None, root=0):
        return _cp(self._c('bcast', x, lambda p: [p[root]] * len(p)))

    def Bcast(self, buf, root=0):
        def fn(p):
            for r, b in enumerate(p):
                if r != root:
                    _raw(b)[...] = _raw(p[root])
            return [None] * len(p)
        self._c('Bcast', buf, fn)

    def allgather(self, x):
        return [_cp(v) for v in self._c('allgather', x, lambda p: [list(p)] * len(p))]

    def gather(self, x, root=0):
        r = self._c('gather', x, lambda p: [list(p)] * len(p))
        return [_cp(v) for v in r] if self.rank == root else None

    def scatter(self, x, root=0):
        return _cp(self._c('scatter', x, lambda p: list(p[root])))

    def alltoall(self, x):
        return [_cp(v) for v in self._c('alltoall', x, lambda p: [[p[s][r] for s in range(len(p))] for r in range(len(p))])]

    def allreduce(self, x, op=SUM):
        return _cp(self._c('allreduce', x, lambda p: [_reduce(op, p)] * len(p)))

    def reduce(self, x, op=SUM, root=0):
        r = self._c('reduce', x, lambda p: [_reduce(op, p)] * len(p))
        return _cp(r) if self.rank == root else None

    def Allreduce(self, send, recv, op=SUM):
        def fn(p):
            vals = [(rv if sd is IN_PLACE else sd) for sd, rv in p]
            vals = [v.copy() for v in vals]
            if len(set(tuple(v.shape) for v in vals)) != 1:
                raise CodeFault('Allreduce with different sizes')
            t = vals[0]
            for v in vals[1:]:
                t = op.f(t, v)
            for sd, rv in p:
                rv[...] = t
            return [None] * len(p)
        self._c('Allreduce', (send, recv), fn)

    def Allgather(self, send, recv):
        def fn(p):
            for sd, rv in p:
                d, _ = _flat(rv, 'receive')
                o = 0
                for s2, _r in p:
                    f, _ = _flat(s2, 'send')
                    d[o:o + len(f)] = f
                    o += len(f)
            return [None] * len(p)
        self._c('Allgather', (send, recv), fn)

    def Alltoall(self, send, recv):
        def fn(p):
            n = len(p)
            for r, (_, rv) in enumerate(p):
                d, de = _flat(rv, 'receive')
                for s, (sd, _x) in enumerate(p):
                    f, se = _flat(sd, 'send')
                    if de != se:
                        raise CodeFault('Alltoall type mismatch')
                    k = len(f) // n
                    if len(d) != k * n:
                        raise CodeFault('Alltoall size mismatch')
                    d[s * k:(s + 1) * k] = f[r * k:(r + 1) * k]
            return [None] * n
        self._c('Alltoall', (send, recv), fn)

    def Alltoallv(self, send, recv):
        def fn(p):
            n = len(p)
            ps = []
            for sd, rv in p:
                sb, (sc, so), sdt = sd
                rb, (rc, ro), rdt = rv
                ps.append((sb, [int(x) for x in sc], [int(x) for x in so], sdt.size,
                           rb, [int(x) for x in rc], [int(x) for x in ro], rdt.size))
            for r in range(n):
                rb, rc, ro, rs = ps[r][4:]
                for s in range(n):
                    sb, sc, so, ss = ps[s][:4]
                    if sc[r] * ss != rc[s] * rs:
                        raise CodeFault('Alltoallv: rank %d sends %d items to rank %d which expects %d' % (s, sc[r], r, rc[s]))
                    if ss != rs:
                        raise CodeFault('Alltoallv: type mismatch')
            tmp = []
            for r in range(n):
                rb, rc, ro, rs = ps[r][4:]
                for s in range(n):
                    sb, sc, so, ss = ps[s][:4]
                    _copyrows(rb, ro[s], sb, so[r], sc[r], ss)
            return [None] * n
        self._c('Alltoallv', (send, recv), fn)

    def Dup(self):
        return self

    def Free(self):
        pass

    def Abort(self, *a):
        raise CodeFault('MPI abort')


class _InPlace(object):
    pass


IN_PLACE = _InPlace()
BYTE = Datatype(1)


class _MPIModule(object):
    """the object pmesh sees as mpi4py.MPI"""
    SUM, MAX, MIN, PROD, LAND, LOR = SUM, MAX, MIN, PROD, LAND, LOR
    IN_PLACE = IN_PLACE
    BYTE = BYTE
    Comm = Comm
    Intracomm = Comm

    def __init__(self):
        self.COMM_WORLD = Comm(World(1), 0)
        self.COMM_SELF = Comm(World(1), 0)

    @staticmethod
    def _addressof(c):
        return c.world.serial

    @staticmethod
    def Wtime():
        return 0.0
