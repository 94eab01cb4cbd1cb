"""Painting conserves mass on a periodic mesh"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real fraction inside the cell, every cell within the stated range (including cells outside the mesh on both sides that have to wrap, '
          'on meshes smaller than the kernel), every real mass; meshes up to 5 cells per axis, 1 to 3 axes, one or two particles, '
          'kernel widths 1x, 2x, 3x the native one, both canvas precisions')
OUTSIDE = 'floating-point rounding (values are exact reals); meshes, kernel widths and wrap distances beyond the stated ones'


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in SPLINES:
        for N in [(1,), (2,), (5,)]:
            add('%s-1d-%d' % (w, N[0]), win=w, N=N, r=[(-2 * N[0] - 1, 3 * N[0] + 1)])
        add('%s-2d' % w, win=w, N=(3, 2), r=[(-1, 3), (-2, 2)])
        add('%s-2d-f4' % w, win=w, N=(2, 5), dtype='f4', r=[(-1, 2), (-1, 0)])
        if w not in ('CUBIC', 'QUADRATIC'):
            add('%s-3d' % w, win=w, N=(2, 3, 4), r=[(-1, 2), (1, 1), (3, 3)], weight=4)
            add('%s-3d-b' % w, win=w, N=(3, 2, 4), r=[(1, 1), (1, 2), (-1, 0)], weight=4)
        for k in (2, 3):
            s = NATIVE[w] * k
            add('%s-1d-w%d' % (w, k), win=w, N=(4,), r=[(-3, 8)], support=s)
        add('%s-1d-two' % w, win=w, N=(4,), r=[(-1, 4)], two=True)
    for w in ('QUADRATIC', 'CUBIC'):
        add('%s-3d' % w, win=w, N=(2, 3, 4), r=[(1, 1), (1, 1), (3, 3)], weight=5)
    for w in SPLINES:
        if NATIVE[w] > 1:
            add('%s-1d-diff' % w, win=w, N=(4,), r=[(-9, 9)], diff=0)
            add('%s-1d-diff-w2' % w, win=w, N=(5,), r=[(-1, 5)], diff=0, support=NATIVE[w] * 2)
            for d in (0, 1):
                add('%s-2d-diff%d' % (w, d), win=w, N=(3, 2), r=[(0, 2), (-1, 1)], diff=d)
            for d in (0, 1, 2):
                if w not in ('CUBIC', 'QUADRATIC'):
                    add('%s-3d-diff%d' % (w, d), win=w, N=(4, 3, 2), r=[(3, 3), (-1, -1), (1, 1)], diff=d, weight=3)
    if tier == 'thorough':
        for w in SPLINES:
            add('%s-2d-t' % w, win=w, N=(4, 3), r=[(-5, 9), (-4, 7)], weight=8)
            add('%s-3d-t' % w, win=w, N=(3, 2, 4), r=[(-1, 3), (-1, 2), (-1, 4)], weight=10)
            add('%s-3d-f4-t' % w, win=w, N=(2, 4, 3), dtype='f4', r=[(-1, 1), (3, 4), (0, 3)], weight=10)
            add('%s-2d-w2-t' % w, win=w, N=(3, 4), r=[(0, 1), (0, 1)], support=NATIVE[w] * 2, weight=10)
            for k in (4, 5):
                add('%s-1d-w%d-t' % (w, k), win=w, N=(5,), r=[(-6, 11)], support=NATIVE[w] * k, weight=5)
    return out


def harness(c, env, cfg):
    np = env.np
    W, w = window(env, cfg)
    N = cfg['N']
    npart = 2 if cfg.get('two') else 1
    pos = [coords(c, cfg['r'] if p == 0 else [(0, N[d] - 1) for d in range(len(N))], tag='ab'[p]) for p in range(npart)]
    m = [c.real('m%d' % p, -100, 100) for p in range(npart)]
    base = c.real('base', -10, 10)
    buf, real = padded(np, N, cfg.get('dtype', 'f8'))
    cells = 1
    for n in N:
        cells *= n
    real[...] = base
    diff = cfg.get('diff')
    w.paint(real, np.array(pos), mass=np.array(m), diffdir=diff, transform=W.Affine(len(N), period=np.array(N)))
    c.check(c.close(real.sum(), base * cells + (sum(m) if diff is None else 0)), 'total mass changed')
    c.check(c.close(buf.sum(), real.sum()), 'painted outside the canvas')
