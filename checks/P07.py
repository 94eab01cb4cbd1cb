"""Uniform particle grids are complete and carry unique ids"""
from checks._pm import *

LEVEL = 'model_checking'
BOUNDS = ('every box size between 1 and 16 along each axis and every shift between -2 and 2 (the same for all axes, or one per axis); 2-d and 3-d meshes of 1 to 6 cells per axis, even, odd and non-cubic; up to 6 ranks in any placement '
          'from a list, including ranks without cells; single and double precision')
OUTSIDE = 'larger meshes; more than 2**31 cells; shifts so large that they cost precision; floating-point rounding'


def configs(tier):
    out = []
    Ns = [(4, 3), (2, 6), (4, 2, 3), (3, 4, 2)] + ([(5, 6), (1, 5), (4, 4, 4), (5, 4, 3), (2, 6, 5), (1, 5, 2)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            for sh in ('scalar', 'vector', 'fixed'):
                out.append(dict(name='%s-%s-%s' % ('x'.join(map(str, N)), s, sh), N=N, np=p, placement=pl, shift=sh))
            if s in ('1', '2x2p', '3p'):
                out.append(dict(name='%s-%s-f4' % ('x'.join(map(str, N)), s), N=N, np=p, placement=pl, shift='vector', pdtype='f4', f4=True))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    L = box(c, nd)
    sh = cfg['shift']
    if sh == 'scalar':
        S = c.real('s', -2, 2)
        shift = [S] * nd
    elif sh == 'vector':
        S = shift = [c.real('s%d' % d, -2, 2) for d in range(nd)]
    else:
        S, shift = 0.25, [0.25] * nd

    def rank(comm):
        pm = mesh(env, comm, cfg, L)
        g, i = pm.generate_uniform_particle_grid(shift=S, return_id=True)
        h = pm.generate_uniform_particle_grid(shift=S)
        d = pm.generate_uniform_particle_grid(shift=S, dtype=cfg.get('pdtype', 'f8'))
        q = pm.mesh_coordinates()
        qi = pm.mesh_coordinates(dtype='i4')
        f = pm.create('real')
        return g, i, h, d, q, qi, [int(x) for x in f.start], tuple(int(x) for x in f.shape)

    R = env.spmd(ranks(cfg), rank)
    strides = [1] * nd
    for d in range(nd - 2, -1, -1):
        strides[d] = strides[d + 1] * N[d + 1]
    seen = {}
    for r, (g, ids, h, dd, q, qi, start, shape) in enumerate(R):
        mine = cells(start, shape)
        c.check(tuple(g.shape) == (len(mine), nd) and tuple(ids.shape) == (len(mine),), 'one particle per cell of the rank', dict(rank=r))
        got = set()
        for j in range(len(mine)):
            n = int(ids[j])
            cell = tuple(n // s % m for s, m in zip(strides, N))
            c.check(0 <= n and n < strides[0] * N[0] and n not in seen, 'an id that is out of range or used twice', dict(id=n))
            seen[n] = r
            got.add(cell)
            for d in range(nd):
                want = (cell[d] + shift[d]) * L[d] / N[d]
                for v in (g, h, dd):
                    c.check(near(c, v[j, d], want), 'the position of a particle', dict(cell=cell, axis=d))
                c.check(int(q[j, d]) == cell[d] and int(qi[j, d]) == cell[d], 'the mesh coordinates of a particle', dict(cell=cell, axis=d))
        c.check(got == set(mine), 'a particle is not on the rank that owns its cell', dict(rank=r))
    c.check(sorted(seen) == list(range(strides[0] * N[0])), 'the ids are not complete')
