"""Mesh coordinates enumerate positions and wave numbers correctly"""
from checks._pm import *
import math

LEVEL = 'model_checking'
BOUNDS = ('every box (each side between 1 and 16, independent); 2-d and 3-d meshes of 1 to 8 cells per axis, even and odd (list; pmesh does not support 1-d meshes); up to 6 ranks, in any placement from a list, also with more ranks than slabs; real, transposed '
          'and untransposed complex fields; real-to-complex and complex-to-complex meshes')
OUTSIDE = 'larger meshes; the partition itself, which pfft decides (a stand-in with the same rule is used)'


def configs(tier):
    out = []
    Ns = [(4, 6), (5, 3), (4, 4, 4), (5, 4, 6), (2, 3, 5)] + ([(8, 8, 8), (7, 5, 3), (1, 6, 2), (3, 1, 1), (8, 7)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            for dt in ('f8', 'c16'):
                if dt == 'c16' and s not in ('1', '2', '2x2'):
                    continue
                out.append(dict(name='%s-%s-%s' % ('x'.join(map(str, N)), s, dt), N=N, np=p, placement=pl, pdtype=dt))
    out.append(dict(name='single', N=(4, 3, 4), np=[2, 1], pdtype='f4', f4=True))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    L = box(c, nd)

    def rank(comm):
        pm = mesh(env, comm, cfg, L)
        r = []
        for k in KINDS:
            # whoever changes coordinates has his own copy
            f = pm.create(k)
            for t in f.x + f.i + pm.create_coords(k) + pm.create_coords(k, return_indices=True):
                t[...] = 0
            x, i = pm.create_coords(k), pm.create_coords(k, return_indices=True)
            f = pm.create(k)
            r.append((x, i, f.x, f.i, tuple(f.shape), [int(q) for q in f.start], [int(q) for q in f.cshape], f.slices, int(f.csize), f.compressed, int(f.size)))
        return r

    R = env.spmd(ranks(cfg), rank)
    for q, kind in enumerate(KINDS):
        seen = {}
        size = list(N)
        if q and cfg['pdtype'] != 'c16':
            size[-1] = N[-1] // 2 + 1
        for r in range(len(R)):
            x, i, fx, fi, shape, start, cshape, slices, csize, comp, fsize = R[r][q]
            c.check(len(x) == nd and len(i) == nd, 'number of axes')
            n = m = 1
            for a, b in zip(size, shape):
                n, m = n * a, m * b
            c.check(csize == n and fsize == m, 'the number of cells of a field', dict(kind=kind, got=(csize, fsize)))
            c.check(bool(comp) == (size[-1] != N[-1]), 'a field does not know whether it is compressed', dict(kind=kind, got=comp))
            c.check([(int(a.start), int(a.stop)) for a in slices] == [(a, a + b) for a, b in zip(start, shape)], 'the slices of a field are not its block', dict(kind=kind))
            c.check(cshape == size, 'the global shape of a field', dict(kind=kind, got=cshape))
            for d in range(nd):
                want = tuple(shape[e] if e == d else 1 for e in range(nd))
                c.check(tuple(x[d].shape) == want and tuple(i[d].shape) == want, 'a coordinate does not broadcast along its axis', dict(kind=kind, axis=d))
                for a in range(shape[d]):
                    at = tuple(a if e == d else 0 for e in range(nd))
                    g = int(i[d][at])
                    c.check(g == start[d] + a and int(fi[d][at]) == g, 'an index is not the position on the mesh', dict(kind=kind, axis=d, at=a))
                    s = signed(g, N[d])
                    v = x[d][at]
                    if q == 0:
                        ok = c.close(v * N[d], L[d] * s)
                    else:
                        ok = near(c, v * L[d], 2 * math.pi * s, 100)
                    c.check(ok, 'a coordinate is wrong', dict(kind=kind, axis=d, index=g, expected_cell=s))
                    c.check(c.close(v, fx[d][at]), 'the coordinates of a field differ from those of the mesh')
            for cell in cells(start, shape):
                seen[cell] = seen.get(cell, 0) + 1
        c.check(set(seen) == set(cells([0] * nd, size)) and set(seen.values()) == set([1]), 'a cell is stored by no rank, or by more than one', dict(kind=kind))
