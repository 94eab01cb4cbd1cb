"""A mesh keeps its own geometry whatever other meshes were made before"""
from checks._pm import *
from checks.P02 import fourier
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = ('every pair of box sizes and every field content; sequences of meshes of 1, 2 and 4 cells per axis made on one communicator: same shape with another box, precision or process mesh, another shape, derived by reshape, resize and respawn, '
          'and made again after earlier ones are dropped; 1 to 4 ranks')
OUTSIDE = 'larger meshes; other orders of creation; meshes of more than three axes; the lifetime of communicators'


def configs(tier):
    out = []
    for N, M in [((4, 2), (2, 4)), ((4, 2, 4), (2, 4, 2)), ((2, 4), (4, 4))] + ([((4, 4, 2), (4, 2, 2)), ((1, 4), (4, 1))] if tier == 'thorough' else []):
        for s, p, pl in procs(len(N), tier):
            if s in ('3x1', '3p', '1x4', '3x2'):
                continue
            for first in range(3):
                out.append(dict(name='%s-%s-%d' % ('x'.join(map(str, N)), s, first), N=N, M=M, np=p, placement=pl, first=first, f4=True))
    return out


def harness(c, env, cfg):
    N, M = tuple(cfg['N']), tuple(cfg['M'])
    nd = len(N)
    np = env.np
    La, Lb = box(c, nd), [c.real('K%d' % d, 1, 16) for d in range(nd)]
    s = c.real('K', 1, 16)
    VV = {n: {q: c.real('v%s_' % 'x'.join(map(str, n)) + '_'.join(map(str, q)), -4, 4) for q in cells([0] * nd, n)} for n in (N, M, (2,) * nd)}
    m = c.real('m', -4, 4)
    np2 = (cfg['np'] or [1])[::-1]

    def rank(comm):
        P = env.load('pm')
        made = []

        def take(what, pm, n, L, dt='f8', res='cic', pnp=None):
            f = pm.create('real')
            st = [int(x) for x in f.start]
            for q in cells(st, f.shape):
                f.value[tuple(a - b for a, b in zip(q, st))] = VV[n][q]
            g = f.r2c()
            so = [int(x) for x in g.start]
            modes = {q: g.value[tuple(a - b for a, b in zip(q, so))] for q in cells(so, g.shape)}
            x = np.zeros((1 if comm.rank == 0 else 0, nd), 'f8')
            for d in range(nd if comm.rank == 0 else 0):
                x[0, d] = L[d] * (0.25 if d else 0.125) / n[d] * 1.0
            lay = pm.decompose(x)
            p = pm.paint(x, mass=np.array([m] * len(x), dtype='f8') if len(x) else np.zeros(0, 'f8'), layout=lay)
            paint = {q: p.value[tuple(a - b for a, b in zip(q, st))] for q in cells(st, p.shape)}
            made.append(dict(what=what, n=n, L=L, dt=dt, res=res, modes=modes, paint=paint, Nmesh=[int(q) for q in pm.Nmesh], BoxSize=list(pm.BoxSize), dtype=np.dtype(pm.dtype).str[1:],
                             ftype=np.dtype(f.dtype).str[1:], gtype=np.dtype(g.dtype).str[1:], support=int(pm.resampler.support), comm=pm.comm is comm, np=list(pm.np) == list(pnp or cfg['np']), start=st, pnp=[int(q) for q in pnp or cfg['np'] or [1]],
                             x=[{st[d] + a: v for a, v in enumerate(f.x[d].ravel())} for d in range(nd)],
                             k=[{so[d] + a: v for a, v in enumerate(g.x[d].ravel())} for d in range(nd)]))
        A = mesh(env, comm, cfg, La)
        if cfg['first'] == 0:
            take('mesh', A, N, La)
        B = mesh(env, comm, cfg, Lb)
        take('another box', B, N, Lb)
        take('mesh', A, N, La)
        C = mesh(env, comm, cfg, La, dtype='f4', resampler='tsc')
        take('another precision', C, N, La, 'f4', 'tsc')
        D = mesh(env, comm, cfg, Lb, np=np2)
        take('another process mesh', D, N, Lb, pnp=np2)
        E = mesh(env, comm, cfg, La, Nmesh=M)
        take('another shape', E, M, La)
        if cfg['first'] == 1:
            del A, B
            A = mesh(env, comm, cfg, La)
        take('mesh', A, N, La)
        take('reshaped box', A.reshape(BoxSize=Lb), N, Lb)
        take('reshaped cubic box', C.reshape(BoxSize=s), N, [s] * nd, 'f4', 'tsc')
        take('reshaped', C.reshape(Nmesh=M), M, La, 'f4', 'tsc')
        take('reshaped to a cubic mesh', A.reshape(Nmesh=2), (2,) * nd, La)
        take('reshaped mesh and box', D.reshape(Nmesh=M, BoxSize=La), M, La, pnp=np2)
        take('resized', A.resize(M), M, La)
        take('respawned', C.respawn(comm, np=np2), N, La, 'f4', 'tsc', np2)
        take('mesh', A, N, La)
        if cfg['first'] == 2:
            del A, B, C, D, E
            take('another precision', mesh(env, comm, cfg, Lb, dtype='f4'), N, Lb, 'f4')
            take('another box', mesh(env, comm, cfg, Lb), N, Lb)
        return made

    R = env.spmd(ranks(cfg), rank)
    for t in range(len(R[0])):
        modes, paint = {}, {}
        for r in R:
            a = r[t]
            n, L, w = a['n'], a['L'], a['what']
            modes.update(a['modes'])
            paint.update(a['paint'])
            c.check(a['Nmesh'] == list(n), 'the shape of a mesh', w)
            c.check_all([c.close(x, y) for x, y in zip(a['BoxSize'], L)], 'the box of a mesh', w)
            c.check(a['dtype'] == a['dt'] == a['ftype'] and a['gtype'] == ('c8' if a['dt'] == 'f4' else 'c16'), 'the precision of a mesh', w)
            c.check(a['support'] == dict(cic=2, tsc=3)[a['res']], 'the window of a mesh', w)
            c.check(a['comm'] and a['np'], 'the ranks of a mesh', w)
            for d in range(nd):
                for i, v in a['x'][d].items():
                    c.check(near(c, v * n[d], L[d] * signed(i, n[d])), 'the coordinates of a mesh', w)
                for i, v in a['k'][d].items():
                    c.check(near(c, v * L[d], 2 * math.pi * signed(i, n[d]), 100), 'the wave numbers of a mesh', w)
        for d, q in enumerate(R[0][t]['pnp']):
            step = -(-n[d] // q)
            c.check({a for r in R for a in [r[t]['start'][d]] if a < n[d]} == set(range(0, n[d], step)), 'the blocks of a mesh do not follow its ranks', w)
        V = VV[n]
        size = list(n)
        size[-1] = n[-1] // 2 + 1
        F = fourier(c, V, n, -1, cells([0] * nd, size))
        c.check(set(F) == set(modes) and set(V) == set(paint), 'a cell lives on no rank', w)
        c.check_all([c.close(modes[q] * len(V), F[q]) for q in F], 'the transform of a mesh', w)
        want = dict.fromkeys(V, 0)
        at = [0.25 if d else 0.125 for d in range(nd)]
        for k in itertools.product(*[range(-2, 3)] * nd):
            x = 1.0
            for i, y in zip(k, at):
                b = abs(i - y)
                x *= max(0, 1 - b) if R[0][t]['res'] == 'cic' else (0.75 - b * b if b < 0.5 else 0.5 * (1.5 - b) ** 2 if b < 1.5 else 0)
            if x:
                q = tuple(i % j for i, j in zip(k, n))
                want[q] = want[q] + m * x
        c.check_all([near(c, paint[q], want[q], 100) for q in V], 'painting on a mesh', w)
