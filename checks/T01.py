"""Legacy transfer functions act mode by mode with the right factor"""
from checks._pm import cells, signed, near, core
import math

PRELOAD = ['transfer']
REAL = []
LEVEL = 'model_checking'
BOUNDS = ('every content of the modes; the circular frequencies of 2-d and 3-d meshes of 1 to 6 cells per axis, whole meshes and slabs of two ranks along any axis (one without the zero mode), with the zero mode at the start of the block and (except for RemoveDC and NormalizeDC) in the middle of it; orders and directions of the super-Lanczos derivative, '
          'smoothing lengths 0, 1/2 and 2, every constant factor and every positive mean')
OUTSIDE = 'larger meshes; symbolic frequencies; PowerSpectrum and Inspect; rounding'


def configs(tier):
    out = []
    for N in [(4, 3), (3, 4, 4)] + ([(5, 2, 4), (1, 2, 6), (2, 2), (4, 1, 3)] if tier == 'thorough' else []):
        for nr in (1, 2):
            if nr == 2 and N[0] < 2:
                continue
            for axis in range(1, len(N)) if nr == 2 else ():
                out.append(dict(name='%s-%d-axis%d' % ('x'.join(map(str, N)), nr, axis), N=list(N), nr=nr, roll=0, axis=axis))
            for roll in (0, 1):
                out.append(dict(name='%s-%d%s' % ('x'.join(map(str, N)), nr, '-rolled' * roll), N=list(N), nr=nr, roll=roll))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    size = N[:-1] + [N[-1] // 2 + 1] if nd > 1 else list(N)
    roll = cfg['roll']
    order = cells([0] * nd, size)
    V = {q: c.cplx('v' + '_'.join(map(str, q)), -4, 4) for q in order}
    C = c.real('C', -4, 4)
    dc = c.real('dc', 0.5, 4)
    W = {q: [2 * math.pi * signed((i - roll) % m, n) / n for i, n, m in zip(q, N, size)] for q in order}
    zero = {q: all((i - roll) % m == 0 for i, m in zip(q, size)) for q in order}
    nr = cfg['nr']
    axis = cfg.get('axis', 0)           # the axis that is spread over the ranks
    cut = size[axis] // 2 if axis else (size[0] + 1) // 2 if nr == 2 else size[0]

    def rank(comm):
        T = env.load('transfer').TransferFunction
        a, b = (0, cut) if comm.rank == 0 else (cut, size[axis])
        start, shape = [0] * nd, list(size)
        start[axis], shape[axis] = a, b - a

        class PM(object):
            pass
        pm = PM()
        pm.comm = comm
        pm.w = []
        for d in range(nd):
            s = [1] * nd
            s[d] = shape[d]
            pm.w.append(np.array([2 * math.pi * signed((start[d] + i - roll) % size[d], N[d]) / N[d] for i in range(shape[d])], dtype='f8').reshape(s))
        out = []

        def go(what, f, dcvalue=None):
            z = np.zeros(shape, 'c16')
            for q in cells(start, shape):
                z[tuple(x - y for x, y in zip(q, start))] = V[q] if dcvalue is None or not zero[q] else dcvalue
            f(z)
            out.append((what, {q: z[tuple(x - y for x, y in zip(q, start))] for q in cells(start, shape)}))
        go('laplace', lambda z: T.Laplace(pm, z))
        go('poisson', lambda z: T.Poisson(pm, z))
        go('constant', lambda z: T.Constant(C)(pm, z))
        for s in (0, 0.5, 2.0):
            go(('gauss', s), lambda z: T.Gaussian(s)(pm, z))
        for d in range(nd):
            go(('lanczos', d, 3), lambda z: T.SuperLanzcos(d)(pm, z))
            go(('lanczos', d, 0), lambda z: T.SuperLanzcos(d, order=0)(pm, z))
        go('trilinear', lambda z: T.Trilinear(comm, z, pm.w))
        if roll:
            # these two look for the zero mode at the start of a block, where the FFT puts it
            return out, [[float(x) for x in w.ravel()] for w in pm.w], start
        go('removedc', lambda z: T.RemoveDC(pm, z))
        go('normalize', lambda z: T.NormalizeDC(pm, z), dc)
        return out, [[float(x) for x in w.ravel()] for w in pm.w], start

    R = env.spmd(nr, rank)
    sinc = lambda x: math.sin(x) / x if x else 1.0
    for t in range(len(R[0][0])):
        what = R[0][0][t][0]
        got = {}
        for r in R:
            got.update(r[0][t][1])
        c.check(set(got) == set(order), 'a mode is missing', what)
        for q in order:
            w = W[q]
            w2 = sum(x * x for x in w)
            v = V[q]
            z = got[q]
            if what == 'normalize':
                c.check(near(c, z * dc, dc if zero[q] else v, 10), 'the modes are not divided by the mean', dict(mode=q))
                continue
            if what == 'laplace':
                f = -w2
            elif what == 'poisson':
                f = -1 / w2 if w2 else 0
            elif what == 'constant':
                f = C
            elif what == 'trilinear':
                f = 1
                for x in w:
                    f /= sinc(x / 2) ** 2
            elif what == 'removedc':
                f = 0 if zero[q] else 1
            elif what[0] == 'gauss':
                f = math.exp(-0.5 * w2 * what[1] ** 2)
            else:
                x = w[what[1]]
                f = 1j * (x if what[2] == 0 else (8 * math.sin(x) - math.sin(2 * x)) / 6)
            if c.symbolic and isinstance(f, (int, float, complex)):
                f = core.SCplx(core.rat(f.real), core.rat(f.imag))
            c.check(near(c, z, (core.SCplx.of(v) if c.symbolic else v) * f, 1000), 'a mode is not multiplied by its own factor', dict(transfer=what, mode=q))
