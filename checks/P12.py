"""Transposing a real field moves every value to the permuted cell"""
from checks._pm import *
import itertools

LEVEL = 'model_checking'
BOUNDS = ('every content of the field; 2-d and 3-d meshes of 2 to 6 cells per axis, even, odd and non-cubic, with boxes of different lengths; every permutation of the axes; up to 6 ranks in any placement from a list, including ranks without cells')
OUTSIDE = 'larger meshes; floating-point rounding of cell positions'


def configs(tier):
    out = []
    Ns = [(4, 3), (4, 2, 3)] + ([(5, 6), (3, 4, 4), (5, 4, 3), (2, 6, 5)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            for axes in itertools.permutations(range(len(N))):
                if tier == 'quick' and len(N) == 3 and s in ('1', '3x1', '2x1') and axes not in ((2, 0, 1), (1, 0, 2)):
                    continue
                out.append(dict(name='%s-%s-%s' % ('x'.join(map(str, N)), s, ''.join(map(str, axes))), N=N, np=p, placement=pl, axes=list(axes)))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    order = cells([0] * nd, N)
    V = {q: c.real('v' + '_'.join(map(str, q)), -4, 4) for q in order}
    L = [2.0 * N[0], 4.0 * N[1], 0.5 * N[-1]][:nd]
    axes = cfg['axes']

    def rank(comm):
        pm = mesh(env, comm, cfg, L)
        f = pm.create('real')
        s = [int(x) for x in f.start]
        for m in cells(s, f.shape):
            f.value[tuple(a - b for a, b in zip(m, s))] = V[m]
        g = f.ctranspose(axes)
        t = [int(x) for x in g.start]
        return ({m: f.value[tuple(a - b for a, b in zip(m, s))] for m in cells(s, f.shape)},
                {m: g.value[tuple(a - b for a, b in zip(m, t))] for m in cells(t, g.shape)},
                [int(x) for x in g.Nmesh], list(g.BoxSize))

    R = env.spmd(ranks(cfg), rank)
    got = {}
    for r in R:
        got.update(r[1])
        c.check_all([c.close(r[0][q], V[q]) for q in r[0]], 'the field changed')
        c.check(r[2] == [N[a] for a in axes] and [float(x) for x in r[3]] == [L[a] for a in axes], 'the geometry of the transposed field')
    c.check(len(got) == len(order), 'a cell lives on no rank')
    for q in order:
        k = tuple(q[a] for a in axes)
        c.check(k in got and c.close(got[k], V[q]), 'a value did not move to the permuted cell', dict(cell=q))
