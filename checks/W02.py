"""Tuned window kernels equal the generic kernels"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real fraction inside the cell and every cell in the stated range (wrapping on both sides, or falling outside an open mesh), every real mass, '
          'symbolic mesh contents for readout; meshes up to 5 cells per axis with a different size per axis, 1 to 3 axes, every derivative direction, '
          'scale factors differing per axis, smoothing factors 1/2, 3/4, 7/8, 1023/1024, 1, 1025/1024, 5/4, 2, periodic along all, some or no axes, resized supports, strided blocks, both canvas precisions')
OUTSIDE = 'floating-point rounding; larger meshes; the derivative of the linear window exactly at a mesh point (excluded by the property)'


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in TUNED:
        for diff in (None, 0):
            t = '' if diff is None else '-diff0'
            add('%s-1d%s' % (w, t), win=w, N=(5,), r=[(-6, 10)], diff=diff, scale=(1.5,), trans=(0.25,))
            add('%s-1d-open%s' % (w, t), win=w, N=(3,), r=[(-4, 6)], diff=diff, open=True)
            for h in (0.5, 0.75, 0.875, 1023. / 1024, 1025. / 1024, 1.25, 2.0):
                add('%s-1d-h%g%s' % (w, h, t), win=w, N=(4,), r=[(-1, 4)], diff=diff, h=h)
            for s in (1, 2, 3, 4, 5):
                add('%s-1d-s%d%s' % (w, s, t), win=w, N=(4,), r=[(-1, 0)], diff=diff, support=s)
            add('%s-1d-s6-h%s' % (w, t), win=w, N=(4,), r=[(3, 4)], diff=diff, support=6, h=0.5)
        for diff in (None, 0, 1):
            t = '' if diff is None else '-diff%d' % diff
            add('%s-2d%s' % (w, t), win=w, N=(3, 2), r=[(-1, 0), (1, 2)], diff=diff, scale=(2.0, 0.5), trans=(1.0, -1.0), weight=2)
            add('%s-2d-open%s' % (w, t), win=w, N=(2, 4), r=[(-1, 0), (3, 3)], diff=diff, open=True, scale=(0.5, 3.0), weight=2, dtype='f4')
        for diff in (None, 0, 1, 2):
            t = '' if diff is None else '-diff%d' % diff
            if w == 'PCS' and tier == 'quick':
                # all fractions free in 1 and 2 dimensions; here one half of the cell on each axis
                for half in ((0, 1, 0), (1, 0, 1)):
                    add('%s-3d%s-%d%d%d' % ((w, t) + half), win=w, N=(3, 4, 2), r=[(2, 2), (-1, -1), (1, 1)], diff=diff, scale=(1.5, 0.5, 2.0), weight=3, half=half)
            else:
                add('%s-3d%s' % (w, t), win=w, N=(3, 4, 2), r=[(2, 2), (-1, -1), (1, 1)], diff=diff, scale=(1.5, 0.5, 2.0), weight=4)
            add('%s-3d-open%s' % (w, t), win=w, N=(2, 3, 4), r=[(0, 0), (2, 2), (-1, -1)], diff=diff, open=True, weight=4, half=(0, 1, 1))
        add('%s-1d-strided' % w, win=w, N=(3,), r=[(-1, 3)], step=2)
        add('%s-2d-block' % w, win=w, N=(3, 2), r=[(-1, 0), (1, 1)], period=(5, 4), diff=1, dtype='f4')
        # periodic along some axes only
        for k, per in enumerate([(0, 2), (3, 0)]):
            add('%s-2d-mixed%d' % (w, k), win=w, N=(3, 2), r=[(-1, 0) if per[0] else (1, 1), (-1, 0) if per[1] else (0, 1)], period=per, weight=2)
        for k, per in enumerate([(0, 4, 0), (2, 0, 3), (0, 0, 3)]):
            add('%s-3d-mixed%d' % (w, k), win=w, N=(2, 4, 3), r=[(-1, -1) if q else (0, 0) for q in per], period=per, weight=4, half=(0, 1, 1) if w == 'PCS' else None)
    if tier == 'thorough':
        for w in TUNED:
            for diff in (None, 0, 1):
                t = '' if diff is None else '-diff%d' % diff
                add('%s-2d-t%s' % (w, t), win=w, N=(3, 4), r=[(-1, 3), (-1, 4)], diff=diff, scale=(2.0, 0.5), weight=6)
                add('%s-2d-h-t%s' % (w, t), win=w, N=(4, 3), r=[(0, 1), (2, 3)], diff=diff, h=1.5, weight=6)
            for diff in (None, 0, 1, 2):
                t = '' if diff is None else '-diff%d' % diff
                add('%s-3d-t%s' % (w, t), win=w, N=(2, 4, 3), r=[(-1, 1), (3, 3), (0, 0)], diff=diff, scale=(1.5, 0.5, 2.0), weight=10)
                add('%s-3d-u%s' % (w, t), win=w, N=(4, 2, 3), r=[(0, 0), (-1, 1), (2, 3)], diff=diff, weight=10, dtype='f4')
    return out


def harness(c, env, cfg):
    np = env.np
    W = env.load('window')
    wt, wg = W.windows[cfg['win']], W.windows[TUNED[cfg['win']]]
    if cfg.get('support'):
        wt, wg = wt.resize(cfg['support']), wg.resize(cfg['support'])
    c.check((wt.support == wg.support) & (wt.nativesupport == wg.nativesupport), 'supports differ')
    N = cfg['N']
    nd = len(N)
    diff = cfg.get('diff')
    scale = cfg.get('scale') or (1.0,) * nd
    trans = cfg.get('trans') or (0.0,) * nd
    g = coords(c, cfg['r'])
    if cfg.get('half'):
        for d in range(nd):
            f = g[d] - cfg['r'][d][0]
            c.assume((f < 0.5) if cfg['half'][d] == 0 else (f > 0.5))
    h = cfg.get('h')
    if diff is not None:
        # the derivative is not defined where the kernels have a kink (nearest, linear); leave those points out
        s = wg.support * (h if h is not None else 1.0)
        v = wg.nativesupport / s
        x = g[diff]
        if NATIVE[cfg['win']] == 2:
            for k in range(-12, 13):
                for e in (-1.0, 0.0, 1.0):
                    y = x - k - e / v
                    c.assume((y < 0) | (y > 0))
    # position in physical units
    pos = [(g[d] - trans[d]) / scale[d] for d in range(nd)]
    m = c.real('m', -100, 100)
    if cfg.get('open'):
        period = None
    else:
        period = np.array(cfg.get('period') or N)
    T = W.Affine(nd, scale=np.array(scale), translate=np.array(trans), period=period)
    kw = {} if h is None else dict(hsml=np.array([h]))
    step = cfg.get('step', 1)
    res = []
    for w in (wt, wg):
        buf = np.zeros(tuple(n * step + 2 for n in N), cfg.get('dtype', 'f8'))
        real = buf[tuple(slice(1, 1 + n * step, step) for n in N)]
        w.paint(real, np.array([pos]), mass=np.array([m]), diffdir=diff, transform=T, **kw)
        res.append(buf)
    c.check_all([c.close(a, b) for a, b in zip(res[0].ravel(), res[1].ravel())], 'painted meshes differ')
    # readout
    cells = 1
    for n in N:
        cells *= n
    vals = np.array([c.real('v%d' % i, -100, 100) for i in range(cells)])
    field = np.zeros(N, cfg.get('dtype', 'f8'))
    field[...] = vals.reshape(N)
    r = [w.readout(field, np.array([pos]), diffdir=diff, transform=T, **kw)[0] for w in (wt, wg)]
    c.check(c.close(r[0], r[1]), 'readouts differ')
