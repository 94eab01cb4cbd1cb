"""Legacy cloud-in-cell painting and readout"""
from checks._pm import cells, near
import sys
import types

PRELOAD = ['cic', '_cic', 'lanczos']
REAL = []
LEVEL = 'model_checking'
BOUNDS = ('every content and weight, every position of one particle within two cells of the mesh and every position of a second particle in one row of cells; meshes of 1 to 4 cells per axis in 1, 2 and 3 dimensions, in C and Fortran order; '
          'one period for all axes, a period per axis, none; both modes, weights per particle or one for all; an affine transform; the numpy and the numba implementation (the latter as plain Python), and the painter for any kernel with the linear and the cubic kernel')
OUTSIDE = 'more particles (one configuration has one particle in a second chunk of 65536); compilation by numba; Lanczos and Kaiser kernels; rounding'


def configs(tier):
    out = []
    big = tier == 'thorough'
    for N in [(4,), (3, 2), (1, 3), (2, 2, 2)] + ([(1,), (2,), (4, 3), (2, 4), (3, 1, 2)] if big else []):
        for imp in ('numpy', 'numba', 'linear', 'cubic'):
            for per in ('full', 'none', 'axes'):
                if per == 'axes' and len(N) == 1:
                    continue
                for mode in ('raise', 'ignore'):
                    if imp == 'cubic' and len(N) == 3 and not big:
                        continue
                    if per == 'full' and (len(set(N)) > 1 or mode == 'ignore'):
                        continue
                    for k, (order, wt, tr) in enumerate([('C', 'one', False), ('F', 'array', True)]):
                        if len(N) == 3 and k == 0 and not big:
                            continue
                        out.append(dict(name='%s-%s-%s-%s-%s%s' % ('x'.join(map(str, N)), imp, per, mode, order, '-t' if tr else ''), N=list(N), imp=imp, per=per, mode=mode, order=order, wt=wt, tr=tr))
    out.append(dict(name='chunk', imp='numpy', chunk=65536, weight=30))
    return out


def chunk(c, env, cfg):
    """one particle in a second chunk, after many at the origin"""
    np = env.np
    n = cfg['chunk']
    paint, readout = implementation(c, env, 'numpy')
    x = c.real('x', 2, 3, hi_open=True)
    w = c.real('w', -4, 4)
    M = [c.real('m%d' % i, -4, 4) for i in range(4)]
    pos = np.array([[0.0]] * n + [[x]], 'f8')
    weights = np.array([1.0] * n + [w], 'f8')
    mesh = np.array(M, 'f8')
    r = readout(mesh, pos, period=4)
    c.check(len(r) == n + 1 and near(c, r[n], M[2] * (3 - x) + M[3] * (x - 2)), 'readout of a particle beyond the first chunk')
    c.check(near(c, r[0], M[0]), 'readout of a particle in the first chunk')
    paint(pos, mesh, weights, period=4)
    for i, v in enumerate([n, 0, w * (3 - x), w * (x - 2)]):
        c.check(near(c, mesh[i], M[i] + v, n), 'the mesh does not gain the weights of the particles', dict(cell=i))


def implementation(c, env, imp):
    if imp in ('linear', 'cubic'):
        m = env.load('lanczos')
        return (lambda *a, **k: m.paint(*a, window=getattr(m, imp), **k)), None
    if imp == 'numpy':
        m = env.load('cic')
        return m.paint_old, m.readout_old
    if c.symbolic or 'numba' in sys.modules:
        m = env.load('_cic')
        return m.paint, m.readout
    numba = types.ModuleType('numba')
    numba.jit = lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)
    sys.modules['numba'] = numba
    try:
        m = env.load('_cic')
    finally:
        del sys.modules['numba']
    return m.paint, m.readout


def reading(c, np, cfg, readout, mesh, pos, kw, must, outside, attempt, val, M, order):
    r, raised = attempt(lambda: readout(mesh, pos, **kw))
    c.check(raised == must, 'readout of a particle outside the mesh', dict(raised=raised, outside=outside))
    for q in order:
        c.check(near(c, mesh[q], M[q]), 'readout changed the mesh')
    if not must:
        for p in range(2):
            c.check(near(c, r[p], val[p]), 'readout is not the interpolation of the mesh')
        out = np.array([7.0, -3.0], dtype='f8')
        if cfg['mode'] != 'raise' or cfg['wt'] == 'array':
            r = readout(mesh, pos, out=out, **kw)
            for p in range(2):
                c.check(near(c, out[p], val[p]), 'readout into an array is not the interpolation of the mesh')


def harness(c, env, cfg):
    if cfg.get('chunk'):
        return chunk(c, env, cfg)
    np = env.np
    N = cfg['N']
    nd = len(N)
    paint, readout = implementation(c, env, cfg['imp'])
    wrap = cfg['per'] != 'none'
    order = cells([0] * nd, N)
    X, cell, frac = [], [], []
    for p in range(2):
        i, f = [], []
        for d in range(nd):
            wide = (p == 0 and d == nd - 1) or (p == 0 and nd == 2 and cfg['imp'] in ('numpy', 'numba'))
            lo, hi = (-2, N[d] + 1) if wide else ((N[d] - 1, N[d] - 1) if wrap else (0, 0)) if p == 0 else (0, 1 if d == 0 else 0)
            if p and (not wrap and cfg['mode'] == 'raise' or cfg['imp'] not in ('numpy', 'numba')):
                hi = 0
            i.append(int(c.int('cell%d_%d' % (p, d), lo, hi)) if lo < hi else lo)
            f.append(c.real('x%d_%d' % (p, d), 0, 1, hi_open=True))
        cell.append(i)
        frac.append(f)
        X.append([a + b for a, b in zip(i, f)])
    W = [c.real('w%d' % p, -4, 4) for p in range(2)]
    if cfg['wt'] == 'one':
        W = [W[0], W[0]]
    M = {q: c.real('m' + '_'.join(map(str, q)), -4, 4) for q in order}

    kw = dict(mode=cfg['mode'])
    if wrap:
        kw['period'] = N[0] if cfg['per'] == 'full' else np.array(N)
    P = X
    if cfg['tr']:
        P = [[(x - 1) * 4 for x in r] for r in X]
        kw['transform'] = lambda pos: pos * 0.25 + 1
    pos = np.array(P, dtype='f8')
    mesh = np.zeros(N, 'f8') if cfg['order'] == 'C' else np.zeros(N[::-1], 'f8').T
    for q in order:
        mesh[q] = M[q]
    weights = W[0] if cfg['wt'] == 'one' else np.array(W, dtype='f8')

    # the oracle
    want = dict(M)
    val = [0, 0]
    outside = False
    for p in range(2):
        for n in cells([-1] * nd, [4] * nd) if cfg['imp'] == 'cubic' else cells([0] * nd, [2] * nd):
            q = tuple(a + b for a, b in zip(cell[p], n))
            k = 1
            for d in range(nd):
                f = frac[p][d]
                if cfg['imp'] == 'cubic':        # Keys' cubic convolution
                    k = k * {-1: (-f + 2 * f * f - f * f * f) / 2, 0: (2 - 5 * f * f + 3 * f * f * f) / 2,
                             1: (f + 4 * f * f - 3 * f * f * f) / 2, 2: (f * f * f - f * f) / 2}[n[d]]
                else:
                    k = k * (f if n[d] else 1 - f)
            if wrap:
                q = tuple(a % b for a, b in zip(q, N))
            if q not in M:
                outside = True
                continue
            want[q] = want[q] + W[p] * k
            val[p] = val[p] + M[q] * k

    def attempt(f):
        try:
            return f(), False
        except ValueError:
            return None, True
    must = outside and cfg['mode'] == 'raise'
    if readout:
        reading(c, np, cfg, readout, mesh, pos, kw, must, outside, attempt, val, M, order)
    r, raised = attempt(lambda: paint(pos, mesh, weights, **kw))
    c.check(raised == must, 'painting of a particle outside the mesh', dict(raised=raised, outside=outside))
    if not must:
        for q in order:
            c.check(near(c, mesh[q], want[q]), 'the mesh does not gain the weights of the particles', dict(cell=q))
            c.check(near(c, r[q], want[q]), 'the mesh is not returned')
    for p in range(2):
        for d in range(nd):
            c.check(near(c, pos[p, d], P[p][d]), 'the positions changed')
