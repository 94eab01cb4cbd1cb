"""A uniform grid decomposition tiles the box exactly"""
from checks._dom import *

LEVEL = 'model_checking'
BOUNDS = ('uniform: 1 to 8 ranks (16 in the thorough tier) and box shapes with aspect ratios up to 100 in 1 to 3 dimensions, symbolic positions in the box; general grids: symbolic ascending edges (repeated ones '
          'included), symbolic position and smoothing, up to 4 domains in 1 and 2x2 in 2 dimensions, 1 to 4 ranks')
OUTSIDE = 'box sizes of a uniform grid are taken from a list (the shape is computed with a fractional power); rounding of the edges'

BOXES = [[1], [8], [1, 1], [2, 1], [10, 1], [1, 3], [1, 1, 1], [4, 2, 1], [10, 10, 1], [1, 10, 10], [100, 1, 1], [1, 1, 30], [5, 6, 7]]


def configs(tier):
    out = []
    for b in BOXES:
        for nr in ((1, 2, 3, 4, 6, 8) if tier == 'quick' else range(1, 17)):
            out.append(dict(name='uniform-%s-r%d' % ('x'.join(map(str, b)), nr), kind='uniform', box=b, nr=nr, per=nr % 2))
    for sh, nr in (((1,), 1), ((2,), 2), ((3,), 2), ((4,), 4), ((4,), 3), ((3,), 4), ((2, 2), 4), ((2, 2), 3)) + ((((3, 2), 4), ((2, 1, 2), 3), ((5,), 3)) if tier == 'thorough' else ()):
        out.append(dict(name='grid-%s-r%d' % ('x'.join(map(str, sh)), nr), kind='grid', shape=sh, nr=nr, per=1, weight=5))
        out.append(dict(name='degenerate-%s-r%d' % ('x'.join(map(str, sh)), nr), kind='degenerate', shape=sh, nr=nr, per=len(sh) % 2, weight=5))
    return out


def owners(D, env, c, R, x):
    """number of primary regions, over all ranks, that contain x"""
    n = 0
    for reg in R:
        for a, b in reg:
            if all(bool(sand(q >= lo, q < hi)) for q, lo, hi in zip(x, a, b)):
                n += 1
    return n


def regions(g):
    p = g.primary_region
    if p is None:
        return []
    return [([p['start'][i, d] for d in range(g.ndim)], [p['end'][i, d] for d in range(g.ndim)]) for i in range(len(p['start']))]


def harness(c, env, cfg):
    D = env.load('domain')
    np = env.np
    nr = cfg['nr']
    snp.FLOAT_REM[0] = False
    if cfg['kind'] == 'uniform':
        box = cfg['box']
        nd = len(box)
        x = [c.real('x%d' % d, 0, b, hi_open=True) for d, b in enumerate(box)]

        def rank(comm):
            g = D.GridND.uniform(np.array(box, 'f8'), comm=comm, periodic=bool(cfg['per']))
            pos = arr(env, [x] if comm.rank == 0 else [], nd)
            return [[e[i] for i in range(len(e))] for e in g.edges], [int(k) for k in g.shape], regions(g), len(g.decompose(pos).exchange(pos)), [int(a) for a in g.DomainAssign]
        R = env.spmd(nr, rank)
        shape = R[0][1]
        n = 1
        for k in shape:
            n *= k
        c.check(all(k >= 1 for k in shape) and n <= nr, 'the shape of the grid does not fit the communicator', dict(shape=shape))
        ok = []
        for d in range(nd):
            e = R[0][0][d]
            c.check(len(e) == shape[d] + 1, 'number of edges')
            ok += [c.close(v, Fraction(box[d]) * i / shape[d]) if c.symbolic else abs(v - box[d] * i / shape[d]) < 1e-9 for i, v in enumerate(e)]
            c.check(e[0] == 0 and e[-1] == box[d], 'the edges do not run from zero to the box size')
        c.check(sand(*ok), 'the edges are not equally spaced')
        for r in range(1, nr):
            c.check(R[r][1] == shape and R[r][4] == R[0][4], 'ranks disagree on the grid')
        c.check(owners(D, env, c, [r[2] for r in R], x) == 1, 'a position is not in exactly one primary region', dict(shape=shape))
        c.check(sum(r[3] for r in R) == 1, 'a position is not sent to exactly one rank', dict(shape=shape))
        return

    L = 4
    nd = len(cfg['shape'])
    edges = mkedges(c, cfg['shape'], L)
    doms = domains(edges)
    A = default_assign(len(doms), nr)
    x = positions(c, 1, nd, L, 0, 1)[0]
    for q in x:
        c.assume(q < L)
    s = c.real('s', 0, L if nd == 1 else Fraction(L, 4)) if cfg['kind'] == 'degenerate' else 0

    def rank(comm):
        g = D.GridND([np.array(e, 'f8') for e in edges], comm=comm, periodic=bool(cfg['per']))
        n = 0
        if cfg['kind'] == 'degenerate':
            pos = arr(env, [x] if comm.rank == 0 else [], nd)
            n = len(g.decompose(pos, smoothing=s).exchange(pos))
        return regions(g), [int(a) for a in g.DomainAssign], [int(a) for a in g.DomainDegenerate], n
    R = env.spmd(nr, rank)
    c.check(all(r[1] == R[0][1] for r in R), 'ranks disagree on the assignment')
    assign = R[0][1]
    c.check(len(assign) == len(doms) and all(0 <= a < nr for a in assign), 'a domain is assigned to no valid rank', dict(assign=assign))
    c.check(set(assign) == set(range(min(nr, len(doms)))), 'a rank has no domain although there are enough', dict(assign=assign))
    ok = []
    for r in range(nr):
        mine = [d for d, a in zip(doms, assign) if a == r]
        c.check(len(R[r][0]) == len(mine), 'number of primary regions', dict(rank=r))
        for (a, b), d in zip(R[r][0], mine):
            ok += [sand(c.close(a[k], d[k][0]), c.close(b[k], d[k][1])) for k in range(nd)]
    c.check(sand(*ok), 'a primary region is not the product of the edges of its domain')
    flag = [bool(sor(*[lo == hi for lo, hi in d])) for d in doms]
    c.check(all([bool(f) for f in r[2]] == flag for r in R), 'a degenerate domain is not recognised', dict(degenerate=R[0][2], expected=flag))
    if cfg['kind'] == 'grid':
        c.check(owners(D, env, c, [r[0] for r in R], x) == 1, 'a position is not in exactly one primary region')
    else:
        for r in range(nr):
            if all(f for f, a in zip(flag, assign) if a == r):
                c.check(R[r][3] == 0, 'a rank with only degenerate domains receives a particle', dict(rank=r))
