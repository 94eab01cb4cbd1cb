"""Distributed painting and readout equal the single-process result"""
from checks._pm import *
import itertools

LEVEL = 'model_checking'
BOUNDS = ('every particle position within one and a half boxes of the mesh along the symbolic axes (other coordinates from a list), every mass and mesh value; one or two particles held by any rank; 2-d and 3-d meshes of 3 to 6 '
          'cells per axis; 1 to 4 ranks in different process meshes and placements, also with more ranks than slabs; nearest, linear, quadratic and cubic windows, also resized to wider supports, gradients')
OUTSIDE = 'larger meshes, more particles; the non-polynomial windows; floating-point rounding'


def configs(tier):
    out = []

    def add(name, N, p, win, sym, fixed=(0.25, 1.75, 2.875), **k):
        k.setdefault('weight', 4)
        out.append(dict(name=name, N=N, np=p, win=win, sym=sym, fixed=fixed, **k))
    for win in ('nnb', 'cic', 'tsc', 'pcs'):
        for s, p, pl in (('2', [2], None), ('3p', [3], [1, 2, 0]), ('4', [4], None)):
            if tier == 'quick' and win in ('tsc', 'pcs') and s == '4':
                continue
            add('%s-2d-%s' % (win, s), (5, 3), p, win, (0,), placement=pl)
        add('%s-2d-grad' % win, (4, 3), [2], win, (0,), gradient=0)
    add('cic-2d-xy', (4, 3), [2], 'cic', (0, 1), lo=-0.25, hi=1.25, weight=10)
    add('cic-2d-grad1', (4, 3), [2], 'cic', (0,), gradient=1)
    add('cic-3d-2x2', (4, 4, 3), [2, 2], 'cic', (0,), weight=8, lo=-0.5, hi=1.5)
    add('cic-3d-2x2p', (4, 4, 3), [2, 2], 'cic', (1,), placement=[2, 0, 3, 1], weight=8, lo=-0.5, hi=1.5)
    add('tsc-3d-1x2', (2, 4, 3), [1, 2], 'tsc', (1,), weight=8, lo=-0.5, hi=1.5)
    add('cic-3d-5on4', (5, 2, 2), [4, 1], 'cic', (0,), weight=8, lo=-0.5, hi=1.5)
    add('cic-3d-3on4', (2, 3, 2), [1, 4], 'nnb', (1,), weight=8, lo=-0.5, hi=1.5)
    add('two-2d', (4, 3), [2], 'cic', (0,), parts=2, lo=-0.25, hi=1.25, weight=10)
    for win in ('nnb', 'cic'):
        add('place-' + win, (4, 3), [2], win, (0,), place=1)
        add('place1-' + win, (3, 6), [2], win, (1,), place=1, lo=-0.5, hi=1.5)
    add('scalar', (4, 3), [2], 'cic', (0,), scalar=1, lo=-0.25, hi=1.25)
    add('single', (4, 3), [2], 'cic', (0,), pdtype='f4', lo=-0.25, hi=1.25, f4=True)
    add('hold', (4, 3), [2], 'cic', (0,), hold=1, lo=-0.25, hi=1.25)
    add('wide', (4, 3), [2], 'pcs', (0,), resampler='cic', lo=-0.25, hi=1.25)
    for name, w, size in (('cic4', 'cic', 4), ('tsc4', 'tsc', 4), ('nnb2', 'nnb', 2), ('linear3', 'linear', 3)):
        add('resized-' + name, (6, 2), [2], w, (0,), lo=-0.25, hi=1.25, resize=size)
    add('object', (4, 3), [2], 'quadratic', (0,), lo=-0.25, hi=1.25, resize=-1)
    add('default', (5, 3), [2], None, (0,), lo=-0.25, hi=1.25, resampler='tsc')
    if tier == 'thorough':
        add('two-2d-tsc', (4, 3), [2], 'tsc', (0,), parts=2, lo=-0.25, hi=1.25, weight=20, budget=700)
        add('cic-3d-xyz', (2, 2, 2), [2, 1], 'cic', (0, 1, 2), lo=-0.25, hi=1.25, weight=20, budget=700)
        add('tsc-2d-xy', (4, 3), [2], 'tsc', (0, 1), lo=-0.25, hi=1.25, weight=20, budget=700)
        add('pcs-2d-8', (8, 3), [4], 'pcs', (0,), weight=20, budget=700)
        add('cic-3d-2x2-xy', (4, 4, 2), [2, 2], 'cic', (0, 1), weight=30, lo=-0.25, hi=1.25, budget=800)
    return out


def harness(c, env, cfg):
    P = env.load('pm')
    np = env.np
    N = cfg['N']
    nd = len(N)
    L = [2.0 * n for n in N]                     # cells of size two
    nr = ranks(cfg)
    n = cfg.get('parts', 1)
    lo, hi = cfg.get('lo', -1.5), cfg.get('hi', 2.5)
    pos, mass = [], []
    for i in range(n):
        pos.append([c.real('x%d_%d' % (i, d), lo * L[d], hi * L[d]) if d in cfg['sym'] else 2.0 * cfg['fixed'][(d + i) % 3] for d in range(nd)])
        mass.append(c.real('m%d' % i, -4, 4))
    cellsN = cells([0] * nd, N)
    V = {q: c.real('v' + '_'.join(map(str, q)), -4, 4) for q in cellsN}
    g = cfg.get('gradient')
    win = cfg['win']
    if cfg.get('resize'):
        win = env.load('window').windows[win].resize(cfg['resize'])
    holder = [int(c.int('h%d' % i, 0, nr - 1)) if nr > 1 and n == 1 and cfg.get('anyholder') else i % nr for i in range(n)]

    def go(comm, hold_by, spread):
        pm = mesh(env, comm, cfg, L, np=None if not spread else cfg['np'])
        mine = [i for i in range(n) if hold_by[i] == comm.rank]
        p = np.array([pos[i] for i in mine], 'f8') if mine else np.empty((0, nd), 'f8')
        m = np.array([mass[i] for i in mine], 'f8') if mine else np.empty((0,), 'f8')
        if cfg.get('scalar'):
            m = mass[0]
        lay = pm.decompose(p, smoothing=win) if spread else None
        f = pm.create('real')
        st = [int(s) for s in f.start]
        for q in cells(st, f.shape):
            f.value[tuple(a - b for a, b in zip(q, st))] = V[q]
        back = f.readout(p, resampler=win, gradient=g, layout=lay)
        back = [back[k] for k in range(len(mine))]
        if cfg.get('hold'):
            pm.paint(p, mass=m, resampler=win, gradient=g, layout=lay, out=f, hold=True)
        else:
            f = pm.paint(p, mass=m, resampler=win, gradient=g, layout=lay)
        got = {q: f.value[tuple(a - b for a, b in zip(q, st))] for q in cells(st, f.shape)}
        return got, dict(zip(mine, back)), [float(q) if not core.issym(q) else q for q in []]

    one = env.spmd(1, lambda comm: go(comm, [0] * n, False))[0]
    all_ = env.spmd(nr, lambda comm: go(comm, holder, True))
    union = {}
    for got, back, _ in all_:
        for q, v in got.items():
            c.check(q not in union, 'a cell lives on two ranks')
            union[q] = v
    c.check(len(union) == len(cellsN), 'a cell lives on no rank')
    c.check_all([c.close(union[q], one[0][q]) for q in cellsN], 'the painted mesh differs from that of a single process', dict(holder=holder))
    if cfg.get('place'):
        # the mesh point q has the weight of the window at the distance of x * N / L from q, periodic
        def weight(q):
            w = 1
            for d in range(nd):
                u = pos[0][d] / 2 - q[d]
                t = 0
                for k in range(-3, 4):
                    z = u + k * N[d]
                    if win == 'nnb':
                        t = t + (1 if bool(sand(z >= -half, z < half)) else 0)
                    else:
                        a = z if bool(z >= 0) else -z
                        t = t + (1 - a if bool(a < 1) else 0)
                w = w * t
            return w
        half = Fraction(1, 2) if c.symbolic else 0.5
        for q in cellsN:
            c.check(c.close(one[0][q], mass[0] * weight(q)), 'the mass is not deposited around the position of the particle', dict(cell=q))
    for i in range(n):
        c.check(c.close(all_[holder[i]][1][i], one[1][i]), 'a value read differs from that of a single process', dict(particle=i))
