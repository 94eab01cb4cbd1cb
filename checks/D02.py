"""Smoothing sends each particle once to every rank it can reach"""
from checks._dom import *

LEVEL = 'model_checking'
BOUNDS = ('one particle at a symbolic position, symbolic ascending edges (repeated ones included), symbolic smoothing up to two box sizes (one box size in 2 and 3 dimensions), scalar or per axis; '
          'up to 4 domains in 1 dimension, 2x2, 3x2 and 2x1x2 domains; 1 to 5 ranks')
OUTSIDE = 'rounding of the positions; more domains'


def configs(tier):
    out = []
    shapes = [((1,), 1), ((2,), 2), ((3,), 3), ((3,), 2), ((4,), 4), ((4,), 2), ((2,), 3), ((2, 2), 4), ((2, 2), 2), ((3, 2), 3), ((2, 1, 2), 4)]
    if tier == 'thorough':
        shapes += [((5,), 5), ((5,), 3), ((6,), 2), ((3, 2), 6), ((3, 3), 4), ((2, 2, 2), 8), ((2, 2, 2), 3)]
    for per in (1, 0):
        for sh, nr in shapes:
            t = '%s-r%d-%s' % ('x'.join(map(str, sh)), nr, 'p' if per else 'n')
            big = len(sh) > 1
            out.append(dict(name=t, shape=sh, nr=nr, per=per, fixed=big, smax=1 if big else 2, axes=int(sh in ((2, 2), (2, 1, 2)) and tier == 'thorough'), weight=len(sh) * 3 + sh[0], budget=400,
                            range=(0, 1) if big or sh[0] > 3 else (-1, 1)))
    for per in (1, 0):
        out.append(dict(name='axes-2x2-r4-%d' % per, shape=(2, 2), nr=4, per=per, fixed=True, smax=.5, axes=1, weight=8, range=(0, 1)))
        out.append(dict(name='edges-2x2-r4-%d' % per, shape=(2, 2), nr=4, per=per, smax=.25, axes=0, weight=8, range=(0, 1)))
    out.append(dict(name='assign-4-r2-p', shape=(4,), nr=2, per=1, smax=1, axes=0, fixed=True, range=(0, 1), assign=1, weight=8))
    out.append(dict(name='transform', shape=(3,), nr=3, per=1, smax=1, axes=0, fixed=True, range=(-1, 1), scale=2))
    return out


def harness(c, env, cfg):
    L = 4
    nd = len(cfg['shape'])
    nr, per = cfg['nr'], cfg['per']
    snp.FLOAT_REM[0] = False
    D = env.load('domain')
    np = env.np
    edges = mkedges(c, cfg['shape'], L, cfg.get('fixed'))
    lo, hi = cfg['range']
    if not per:
        lo, hi = -1, 2
    x = positions(c, 1, nd, L, lo, hi)[0]
    smax = Fraction(cfg['smax']) * L
    if cfg['axes']:
        s = [c.real('s%d' % d, 0, smax) for d in range(nd)]
        sm = np.array(s, 'f8')
    else:
        q = c.real('s', 0, smax)
        s = [q] * nd
        sm = q
    doms = domains(edges)
    assign = default_assign(len(doms), nr)
    if cfg.get('assign'):
        assign = [int(c.int('a%d' % i, 0, nr - 1)) for i in range(len(doms))]
    row = list(x)
    tr = None
    if cfg.get('scale'):
        k = cfg['scale']
        row = [q * Fraction(1, k) for q in x]
        tr = lambda p: p * k

    def rank(comm):
        g = D.GridND([np.array(e, 'f8') for e in edges], comm=comm, periodic=bool(per), DomainAssign=np.array(assign, 'int32') if cfg.get('assign') else None)
        pos = arr(env, [row] if comm.rank == 0 else [], nd)
        lay = g.decompose(pos, smoothing=sm, transform=tr)
        return len(lay.exchange(pos))

    R = env.spmd(nr, rank)
    c.check(all(k <= 1 for k in R), 'a rank receives a particle more than once', dict(received=R))
    bad = []
    for r in range(nr):
        if R[r]:
            continue
        for i, dom in enumerate(doms):
            if assign[i] == r:
                bad.append(snot(near(dom, x, s, L, per)))
    over = []
    for r in range(nr):
        if R[r]:
            over.append(sor(*[near(dom, x, s, L, per, closed=True) for i, dom in enumerate(doms) if assign[i] == r]))
    c.check(sand(*over), 'a rank out of reach of the smoothing receives the particle', dict(received=R))
    c.check(sand(*bad), 'a rank within the smoothing does not receive the particle', dict(received=R))
