"""The legacy particle mesh paints densities, transforms and reads back"""
from checks import _pm, P02
from checks._pm import *
import math

PRELOAD = ['particlemesh', 'transfer']
REAL = ['_domain']
LEVEL = 'model_checking'
BOUNDS = ('every content of the canvas and of the modes; every position of a particle in two rows of cells of the mesh, every mass; cubic 3-d meshes of 2 to 4 cells per axis; boxes with equal and with different sides; 1, 2 and 4 ranks; '
          'the cloud-in-cell brush; the transform itself (a stand-in for pfft) on meshes of 2 and 4 cells')
OUTSIDE = 'larger meshes; the tsc brush; ranks that hold no cells; rounding'


def configs(tier):
    out = []
    big = tier == 'thorough'
    for N in (2, 4):
        for s, p in (('1', [1, 1]), ('2x1', [2, 1]), ('1x2', [1, 2]), ('2x2', [2, 2])):
            if N == 4 and s == '1x2' and not big:
                continue
            out.append(dict(name='fft-%d-%s' % (N, s), kind='fft', N=N, np=p, weight=N ** 3))
    for N in (2, 3, 4) + ((5,) if big else ()):
        for s, p in (('1', [1, 1]), ('2x1', [2, 1]), ('1x2', [1, 2]), ('2x2', [2, 2])):
            if N in (3, 5) and '2' in s and s != '2x1':
                continue
            out.append(dict(name='coord-%d-%s' % (N, s), kind='coord', N=N, np=p, weight=1))
            for ax in (0, 1, 2):
                if (ax == 2 or N == 4) and s != '2x2' and not big:
                    continue
                out.append(dict(name='paint-%d-%s-%d' % (N, s, ax), kind='paint', N=N, np=p, axis=ax, weight=8))
    return out


def harness(c, env, cfg):
    return dict(fft=fft, coord=coord, paint=paint)[cfg['kind']](c, env, cfg)


def start(pm, which):
    return [int(x) for x in (pm.partition.local_i_start if which == 'real' else pm.partition.local_o_start)]


def put(pm, which, A):
    a = getattr(pm, which)
    s = start(pm, which)
    for m in cells(s, a.shape):
        a[tuple(x - y for x, y in zip(m, s))] = A[m]


def read(pm, which):
    a = getattr(pm, which)
    s = start(pm, which)
    return {m: a[tuple(x - y for x, y in zip(m, s))] for m in cells(s, a.shape)}


def union(c, R, k, full):
    d = {}
    for r in R:
        d.update(r[k])
    c.check(set(d) == set(full), 'a cell or mode lives on no rank')
    return d


def fft(c, env, cfg):
    N = cfg['N']
    P = env.load('particlemesh')
    NN = [N] * 3
    full = cells([0] * 3, NN)
    stored = cells([0] * 3, [N, N, N // 2 + 1])
    V = {q: c.real('v%d_%d_%d' % q, -4, 4) for q in full}
    W = {q: c.real('w%d_%d_%d' % q, -4, 4) for q in full}
    F = P02.fourier(c, V, NN, -1, stored)
    M = P02.fourier(c, W, NN, -1, stored)
    n3 = N ** 3

    def rank(comm):
        pm = P.ParticleMesh(8.0, N, comm=comm, np=cfg['np'])
        zero = read(pm, 'real')
        put(pm, 'real', V)
        pm.r2c()
        a = read(pm, 'complex')
        pm.push()
        pm.transfer([lambda pm, z: scale(z, 3)])
        b = read(pm, 'complex')
        pm.push()
        put(pm, 'complex', M)
        pm.c2r()
        d = read(pm, 'real')
        pm.pop()
        e = read(pm, 'complex')
        pm.pop()
        f = read(pm, 'complex')
        pm.c2r([lambda pm, z: scale(z, 3), lambda pm, z: shift(z, 1)])
        g = read(pm, 'real')
        pm.clear()
        h = read(pm, 'real')
        # another precision
        return zero, a, b, d, e, f, g, h

    R = env.spmd(ranks(cfg), rank)
    for k, what, idx, want in ((0, 'a new canvas is not empty', full, lambda q: 0),
                               (1, 'the transform is not the normalised Fourier sum', stored, lambda q: F[q] * (1.0 / n3)),
                               (2, 'a transfer function does not act on the modes', stored, lambda q: F[q] * (3.0 / n3)),
                               (3, 'the transform back is not the Fourier sum', full, lambda q: W[q] * n3),
                               (4, 'pop does not restore the last field pushed', stored, lambda q: F[q] * (3.0 / n3)),
                               (5, 'pop does not restore the first field pushed', stored, lambda q: F[q] * (1.0 / n3)),
                               # adding 1 to every mode adds n3 at the origin
                               (6, 'the transfer functions are not applied in order before the transform back', full, lambda q: V[q] * 3 + (n3 if q == (0, 0, 0) else 0)),
                               (7, 'clear does not empty the canvas', full, lambda q: 0)):
        got = union(c, R, k, idx)
        c.check_all([near(c, got[q], want(q), 100) for q in idx], what)


def scale(z, a):
    z[...] = z * a


def shift(z, a):
    z[...] = z + a


def coord(c, env, cfg):
    N = cfg['N']
    P = env.load('particlemesh')
    L = [4.0, 8.0, 16.0]
    B = 8.0

    def rank(comm):
        o = []
        for box in (B, L):
            pm = P.ParticleMesh(box, N, comm=comm, np=cfg['np'])
            o.append([(start(pm, 'real'), tuple(pm.real.shape), pm.r, pm.x), (start(pm, 'complex'), tuple(pm.complex.shape), pm.w, pm.k)])
        return o

    R = env.spmd(ranks(cfg), rank)
    for t, box in enumerate(([B] * 3, L)):
        seen = [set(), set()]
        for r in R:
            for z, (st, sh, u, v) in enumerate(r[t]):
                seen[z] |= set(cells(st, sh))
                for d in range(3):
                    want = [1, 1, 1]
                    want[d] = sh[d]
                    c.check(tuple(u[d].shape) == tuple(want) and tuple(v[d].shape) == tuple(want), 'the coordinates do not broadcast to the block')
                    for i in range(sh[d]):
                        g = signed(i + st[d], N)
                        at = tuple(i if e == d else 0 for e in range(3))
                        a, b = (g, g * box[d] / N) if z == 0 else (2 * math.pi * g / N, 2 * math.pi * g / box[d])
                        c.check(abs(float(u[d][at]) - a) < 1e-5 and abs(float(v[d][at]) - b) < 1e-5, 'a coordinate is not that of the cell or mode', dict(axis=d, index=i + st[d], complex=z))
        for z, full in enumerate((cells([0] * 3, [N] * 3), cells([0] * 3, [N, N, N // 2 + 1]))):
            c.check(seen[z] == set(full), 'a cell or mode lives on no rank')


def hat(c, x):
    x = abs(x)
    return c.ite(x < 1, 1 - x, 0) if hasattr(c, 'ite') else (1 - x if x < 1 else 0 * x)


def paint(c, env, cfg):
    N = cfg['N']
    ax = cfg['axis']
    np = env.np
    P = env.load('particlemesh')
    B = [N * 2.0, N * 1.0, N * 0.5]
    V = {q: c.real('v%d_%d_%d' % q, -4, 4) for q in cells([0] * 3, [N] * 3)}
    free = c.real('x', 0, 2)
    at = [N - 1.25, 0.5, N - 0.25]
    at[ax] = free + (N - 2)
    at2 = [0.75, N - 0.5, 0.25]
    m = [c.real('m%d' % i, -4, 4) for i in range(2)]
    pos = [[a * b / N for a, b in zip(p, B)] for p in (at, at2)]

    def rank(comm):
        pm = P.ParticleMesh(B, N, comm=comm, np=cfg['np'])
        r = comm.rank
        mine = [i for i in range(2) if (i + 1) % comm.size == r]
        p = np.zeros((len(mine), 3))
        w = np.zeros(len(mine))
        for j, i in enumerate(mine):
            w[j] = m[i]
            for d in range(3):
                p[j, d] = pos[i][d]
        lay = pm.decompose(p)
        q = lay.exchange(p)
        pm.paint(q, mass=lay.exchange(w))
        a = read(pm, 'real')
        pm.paint(q)
        b = read(pm, 'real')
        put(pm, 'real', V)
        g = lay.gather(pm.readout(q), mode='sum')
        keep = read(pm, 'real')
        return a, b, {i: g[j] for j, i in enumerate(mine)}, keep

    R = env.spmd(ranks(cfg), rank)
    full = cells([0] * 3, [N] * 3)
    K = {}
    for i, p in enumerate((at, at2)):
        one = [{q: sum(hat(c, x - (q + N * k)) for k in (-1, 0, 1)) for q in range(N)} for x in p]
        for q in full:
            K[i, q] = one[0][q[0]] * one[1][q[1]] * one[2][q[2]]
    rho = N ** 3 / (B[0] * B[1] * B[2])
    a = union(c, R, 0, full)
    b = union(c, R, 1, full)
    keep = union(c, R, 3, full)
    g = {}
    for r in R:
        g.update(r[2])
    c.check_all([near(c, a[q], (K[0, q] * m[0] + K[1, q] * m[1]) * rho) for q in full], 'a cell does not hold the density painted')
    c.check_all([near(c, b[q], (K[0, q] * (m[0] + 1) + K[1, q] * (m[1] + 1)) * rho) for q in full], 'painting again does not add the density')
    c.check_all([near(c, keep[q], V[q]) for q in full], 'readout changed the canvas')
    for i in range(2):
        c.check(near(c, g[i], sum(K[i, q] * V[q] for q in full)), 'readout is not the interpolation of the canvas', dict(particle=i))
