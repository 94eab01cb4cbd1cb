"""Large-scale modes do not depend on the mesh resolution"""
from checks._wn import *

LEVEL = 'model_checking'
BOUNDS = 'every random stream; 3-d cubic even meshes: 2 in 4, 2 in 6, 4 in 6, 4 in 8, 6 in 8, 6 in 10, 8 in 10, 8 in 12 (quick), also 4 in 16, 6 in 12, 10 in 12, 12 in 14, 14 in 16, 16 in 20 (thorough); full and compressed storage, both precisions, unitary or not'
OUTSIDE = 'larger meshes; odd or non-cubic meshes; the 1-d and 2-d fields'


def configs(tier):
    out = []
    for a, b in ((2, 4), (2, 6), (4, 6), (4, 8), (6, 8), (6, 10), (8, 10), (8, 12)) + (((6, 12), (4, 16), (10, 12), (2, 10), (12, 14), (14, 16), (16, 20)) if tier == 'thorough' else ()):
        for comp in (0, 1):
            for u in (0, 1):
                out.append(dict(name='%d-in-%d-%s-%d' % (a, b, 'fc'[comp], u), a=a, b=b, comp=comp, unitary=u, weight=b ** 3))
    out.append(dict(name='single', a=4, b=6, comp=1, unitary=0, dtype='c8', weight=10))
    return out


def harness(c, env, cfg):
    A, B, comp = cfg['a'], cfg['b'], cfg['comp']
    dt = cfg.get('dtype', 'c16')

    def mesh(n):
        return gen(env, [0, 0, 0], (n, n, n // 2 + 1 if comp else n), (n, n, n), 42, cfg['unitary'], dt)[0]
    f, g = mesh(A), mesh(B)
    R = [k for k in range(-A // 2 + 1, A // 2)]
    for i in R:
        for j in R:
            for k in R:
                if comp and k < 0:
                    continue
                c.check(c.close(f[i, j, k], g[i, j, k]), 'a mode below both Nyquist frequencies depends on the resolution', dict(mode=(i, j, k)))
