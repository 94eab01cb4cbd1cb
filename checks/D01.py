"""Every particle has exactly one primary owner"""
from checks._dom import *

LEVEL = 'model_checking'
BOUNDS = ('one or two particles at symbolic positions up to two periods outside the box, symbolic ascending edges (repeated edges included), symbolic smoothing up to two box sizes (one in several dimensions); up to 4 domains per axis in 1 '
          'dimension, 2x2, 3x2, 2x1x2 domains; 1 to 5 ranks, fewer and more ranks than domains, also reassigned domains')
OUTSIDE = 'rounding of the positions, except that the remainder of a tiny negative number is modelled as the period itself, as in floating point; many particles (one configuration has one particle in a second chunk of 49152)'


def configs(tier):
    out = []
    shapes = [((1,), 1), ((2,), 2), ((3,), 3), ((3,), 2), ((4,), 2), ((2,), 3), ((2, 2), 4), ((2, 2), 3), ((2, 1, 2), 4)]
    if tier == 'thorough':
        shapes += [((5,), 3), ((6,), 2), ((3, 2), 4), ((3, 3), 4), ((2, 2, 2), 8), ((2, 2, 2), 3), ((4,), 5)]
    for per in (1, 0):
        for sh, nr in shapes:
            t = '%s-r%d-%s' % ('x'.join(map(str, sh)), nr, 'p' if per else 'n')
            big = len(sh) > 1
            out.append(dict(name='zero-' + t, kind='zero', shape=sh, nr=nr, per=per, weight=len(sh) * 2, range=(-1, 1) if big else (-2, 3)))
            if not big or tier == 'thorough' or (sh == (2, 2) and nr == 3):
                out.append(dict(name='smooth-' + t, kind='smooth', shape=sh, nr=nr, per=per, weight=len(sh) * 3, fixed=big, budget=300, range=(0, 1) if big or sh[0] > 3 else (-1, 1), smax=1 if big else 2))
    out.append(dict(name='assign-4-r2-p', kind='zero', shape=(4,), nr=2, per=1, assign=1, weight=4, range=(-1, 1), fixed=(tier == 'quick')))
    out.append(dict(name='assign-2x2-r2-p', kind='zero', shape=(2, 2), nr=2, per=1, assign=1, fixed=True, weight=4, range=(-1, 1)))
    for sh, nr in [((3,), 2), ((4,), 2), ((2, 2), 3)] + ([((4,), 3), ((5,), 2), ((3, 2), 4)] if tier == 'thorough' else []):
        out.append(dict(name='rebalance-%s-r%d' % ('x'.join(map(str, sh)), nr), kind='zero', shape=sh, nr=nr, per=1, rebal=2 if sh == (3,) else 1, wmax=1 if tier != 'thorough' or sh in ((3,), (3, 2)) else 2, fixed=True, weight=5, range=(0, 1)))
    out.append(dict(name='extra-column', kind='zero', shape=(2,), nr=2, per=1, cols=3))
    out.append(dict(name='transform', kind='zero', shape=(3,), nr=3, per=1, scale=2))
    out.append(dict(name='tiny-2-r2-p', kind='zero', shape=(2,), nr=2, per=1, tiny=1))
    out.append(dict(name='tiny-2x2-r4-p', kind='zero', shape=(2, 2), nr=4, per=1, tiny=1))
    out.append(dict(name='tiny-1-r1-p', kind='zero', shape=(1,), nr=1, per=1, tiny=1))
    out.append(dict(name='several-3-r2-p', kind='zero', shape=(3,), nr=2, per=1, n=2, fixed=True))
    out.append(dict(name='several-2-r3-n', kind='smooth', shape=(2,), nr=3, per=0, n=2, fixed=True))
    out.append(dict(name='chunk', kind='chunk', shape=(2,), nr=1, per=0, weight=30))
    return out


NCHUNK = 49152          # the code works on chunks of this many particles


def chunk(c, env, cfg):
    D = env.load('domain')
    np = env.np
    q = c.real('q', 0, 4, hi_open=True)
    m = env.spmd(1, lambda comm: comm)[0]
    g = D.GridND([np.array([0, 2, 4], 'f8')], comm=m, periodic=False)
    pos = np.zeros((NCHUNK + 1, 1), 'f8')
    pos[...] = 9.0               # outside
    pos[NCHUNK, 0] = q
    lay = g.decompose(pos)
    c.check(len(lay.indices) == 1 and int(lay.indices[0]) == NCHUNK, 'a particle beyond the first chunk is not sent to its owner')
    p = g.isprimary(pos)
    c.check(bool(p[NCHUNK]) and int(p.sum()) == 1, 'a particle beyond the first chunk is not primary')


def harness(c, env, cfg):
    if cfg['kind'] == 'chunk':
        return chunk(c, env, cfg)
    L = 4
    nd = len(cfg['shape'])
    nr = cfg['nr']
    per = cfg['per']
    snp.FLOAT_REM[0] = bool(cfg.get('tiny'))
    D = env.load('domain')
    np = env.np
    edges = mkedges(c, cfg['shape'], L, cfg.get('fixed'))
    n = cfg.get('n', 1)
    if cfg.get('tiny'):
        x = [[c.real('x%d_%d' % (i, d), Fraction(-1, 2 ** 70), Fraction(1, 2 ** 70)) for d in range(nd)] for i in range(n)]
    elif per:
        w = cfg.get('range', (-2, 3))
        x = positions(c, n, nd, L, *w)
    else:
        x = positions(c, n, nd, L, 0, 1)
        for p in x:
            for q in p:
                c.assume(q < L)
    ncol = cfg.get('cols', nd)
    rows = [list(p) + [7] * (ncol - nd) for p in x]
    s = 0
    if cfg['kind'] == 'smooth':
        s = c.real('s', 0, cfg.get('smax', 3) * L)
    scale = cfg.get('scale')
    tr = None
    if scale:
        rows = [[q * Fraction(1, scale) for q in p] for p in rows]
        tr = lambda p: p * scale
    ndom = 1
    for k in cfg['shape']:
        ndom *= k
    assign = None
    if cfg.get('assign'):
        assign = [int(c.int('a%d' % i, 0, nr - 1)) for i in range(ndom)]
    loads = None
    if cfg.get('rebal'):
        loads = [[c.int('w%d_%d' % (k, i), 0, cfg.get('wmax', 1)) for i in range(ndom)] for k in range(cfg['rebal'])]
    src = [i % nr for i in range(n)]

    def rank(comm):
        g = D.GridND([np.array(e, 'f8') for e in edges], comm=comm, periodic=bool(per), DomainAssign=None if assign is None else np.array(assign, 'int32'))
        for w in loads or []:
            g.loadbalance(w)
        mine = [i for i in range(n) if src[i] == comm.rank]
        pos = arr(env, [rows[i] for i in mine], ncol)
        lay = g.decompose(pos, smoothing=s, transform=tr)
        p = lay.exchange(pos)
        ids = lay.exchange(np.array(mine, 'i8'))
        prim = g.isprimary(p, tr)
        allprim = g.isprimary(arr(env, rows, ncol), tr)
        return [int(i) for i in ids], [bool(b) for b in prim], [bool(b) for b in allprim]

    R = env.spmd(nr, rank)
    for i in range(n):
        got = [r for r in range(nr) for k in R[r][0] if k == i]
        owner = [r for r in range(nr) if R[r][2][i]]
        c.check(len(owner) == 1, 'not exactly one rank owns the position', dict(owner=owner))
        c.check(set(owner) <= set(got), 'the particle is not sent to its primary rank', dict(owner=owner, got=got))
        prim = [r for r in range(nr) for k, b in zip(R[r][0], R[r][1]) if k == i and b]
        c.check(len(prim) == 1, 'a particle is not primary on exactly one rank after the exchange', dict(prim=prim, got=got))
        if cfg['kind'] == 'zero':
            c.check(len(got) == 1, 'without smoothing a particle is not sent to exactly one rank', dict(got=got))
