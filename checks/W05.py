"""Shifting a particle by a whole period changes nothing"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real position in the stated cell ranges, symbolic integer numbers of periods (up to 3 either way) and of cells along every axis, every mass and mesh content; '
          '1 to 3 axes, all polynomial windows; tabulated windows in one dimension with uninterpreted tables')
OUTSIDE = 'floating-point rounding; shifts by more than 3 periods'


def env_key(cfg):
    return 'uf' if cfg['win'] in TABLES else 'default'


def sym_env(cfg):
    from vsym import load
    return load.SymEnv(tables_uf=cfg['win'] in TABLES)


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in SPLINES:
        add('%s-1d' % w, win=w, N=(4,), r=[(0, 3)], k=[(-3, 3)], scale=(2.0,), trans=(0.5,))
        add('%s-1d-roll' % w, win=w, N=(5,), r=[(0, 4)], roll=[(-6, 6)])
        add('%s-1d-diff' % w, win=w, N=(3,), r=[(0, 2)], k=[(-2, 2)], diff=0)
        add('%s-1d-h' % w, win=w, N=(3,), r=[(0, 2)], k=[(-2, 2)], h=1.5)
        add('%s-2d' % w, win=w, N=(3, 2), r=[(2, 2), (0, 0)], k=[(-1, 1), (-1, 1)], scale=(1.0, 0.5), weight=2)
        add('%s-2d-roll' % w, win=w, N=(3, 4), r=[(1, 1), (3, 3)], roll=[(-1, 1), (0, 2)], weight=2, dtype='f4')
        if w in TUNED:
            add('%s-3d' % w, win=w, N=(2, 3, 4), r=[(1, 1), (0, 0), (2, 2)], k=[(-1, 0), (0, 1), (-1, -1)], weight=4, fix=w == 'PCS')
            add('%s-3d-roll' % w, win=w, N=(4, 2, 3), r=[(1, 1), (0, 0), (2, 2)], roll=[(1, 1), (-1, -1), (2, 2)], diff=1, weight=4, fix=w == 'PCS')
    for w in (['ACG2', 'LANCZOS2', 'DB6'] if tier == 'quick' else TABLES):
        add('%s-1d' % w, win=w, N=(4,), r=[(1, 1)], k=[(-2, 2)], weight=3)
    if tier == 'thorough':
        for w in SPLINES:
            add('%s-2d-t' % w, win=w, N=(3, 2), r=[(0, 2), (0, 1)], k=[(-2, 2), (-2, 2)], weight=8)
            add('%s-2d-roll-t' % w, win=w, N=(3, 2), r=[(0, 2), (0, 1)], roll=[(-4, 4), (-2, 2)], weight=8, diff=0)
            if w in TUNED:
                add('%s-3d-t' % w, win=w, N=(2, 3, 4), r=[(1, 1), (0, 0), (2, 2)], k=[(-1, 1), (-1, 1), (-1, 1)], weight=8)
    return out


def harness(c, env, cfg):
    np = env.np
    W, w = window(env, cfg)
    N = cfg['N']
    nd = len(N)
    diff = cfg.get('diff')
    scale = cfg.get('scale') or (1.0,) * nd
    trans = cfg.get('trans') or (0.0,) * nd
    g = coords(c, cfg['r'])
    if cfg.get('fix'):
        for d in range(nd):
            c.assume(g[d] - cfg['r'][d][0] < 0.5)
    if 'roll' in cfg:
        j = [c.int('j%d' % d, *cfg['roll'][d]) if cfg['roll'][d][0] < cfg['roll'][d][1] else cfg['roll'][d][0] for d in range(nd)]
        g2 = [g[d] + j[d] for d in range(nd)]
    else:
        k = [c.int('k%d' % d, *cfg['k'][d]) if cfg['k'][d][0] < cfg['k'][d][1] else cfg['k'][d][0] for d in range(nd)]
        g2 = [g[d] + k[d] * N[d] for d in range(nd)]
        j = [0] * nd
    p1 = np.array([[(g[d] - trans[d]) / scale[d] for d in range(nd)]])
    p2 = np.array([[(g2[d] - trans[d]) / scale[d] for d in range(nd)]])
    T = W.Affine(nd, scale=np.array(scale), translate=np.array(trans), period=np.array(N))
    kw = {} if cfg.get('h') is None else dict(hsml=np.array([cfg['h']]))
    m = c.real('m', -100, 100)
    dt = cfg.get('dtype', 'f8')
    a = np.zeros(N, dt)
    b = np.zeros(N, dt)
    w.paint(a, p1, mass=np.array([m]), diffdir=diff, transform=T, **kw)
    w.paint(b, p2, mass=np.array([m]), diffdir=diff, transform=T, **kw)
    A, B = list(a.ravel()), list(b.ravel())
    jj = [int(x) % n for x, n in zip(j, N)]
    cells = len(A)
    moved = []
    for i in range(cells):
        idx, q = [], i
        for n in reversed(N):
            idx.insert(0, q % n)
            q //= n
        lin = 0
        for d in range(nd):
            lin = lin * N[d] + (idx[d] - jj[d]) % N[d]
        moved.append(A[lin])
    c.check_all([c.close(x, y) for x, y in zip(B, moved)], 'painted mesh depends on the period' if 'k' in cfg else 'painted mesh is not rolled')
    if 'k' in cfg:
        vals = [c.real('v%d' % i, -100, 100) for i in range(cells)]
        f = np.zeros(N, dt)
        f[...] = np.array(vals).reshape(N)
        r = [w.readout(f, p, diffdir=diff, transform=T, **kw)[0] for p in (p1, p2)]
        c.check(c.close(r[0], r[1]), 'readout depends on the period')
