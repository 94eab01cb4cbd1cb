"""Derivative readout is the derivative of the readout"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real position in the stated cell ranges where the window is differentiable, every mesh content; scale factors differing per axis, resized and smoothed windows, every '
          'direction in 1 to 3 dimensions; on each path the readout is a polynomial in the position, which is differentiated symbolically')
OUTSIDE = 'floating-point rounding; points where the window has no derivative (mesh points for the linear window, half-way points for the nearest window)'


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in SPLINES:
        add('%s-1d' % w, win=w, N=(4,), r=[(-1, 4)], diff=0, scale=(1.5,), trans=(0.25,))
        add('%s-1d-neg' % w, win=w, N=(4,), r=[(1, 2)], diff=0, scale=(-0.5,))
        add('%s-1d-open' % w, win=w, N=(3,), r=[(-2, 4)], diff=0, scale=(3.0,), open=True)
        for h in (0.75, 1.25, 2.0):
            add('%s-1d-h%g' % (w, h), win=w, N=(6,), r=[(2, 2)], diff=0, h=h, scale=(2.0,))
        add('%s-1d-s' % w, win=w, N=(6,), r=[(2, 2)], diff=0, support=NATIVE[w] + 1, scale=(2.0,))
        for d in (0, 1):
            add('%s-2d-%d' % (w, d), win=w, N=(3, 4), r=[(2, 2), (-1, -1)], diff=d, scale=(2.0, 0.5), weight=2)
        for d in (0, 1, 2):
            if w not in ('QUADRATIC', 'CUBIC'):
                add('%s-3d-%d' % (w, d), win=w, N=(2, 3, 2), r=[(0, 0), (2, 2), (1, 1)], diff=d, scale=(1.5, 0.5, 2.0), weight=4, fix=w == 'PCS')
    if tier == 'thorough':
        for w in SPLINES:
            for d in (0, 1):
                add('%s-2d-t%d' % (w, d), win=w, N=(3, 4), r=[(-1, 3), (-1, 4)], diff=d, scale=(2.0, 0.5), weight=6)
                add('%s-2d-h-t%d' % (w, d), win=w, N=(4, 3), r=[(1, 1), (2, 2)], diff=d, h=1.5, scale=(2.0, 0.5), weight=6)
            for d in (0, 1, 2):
                add('%s-3d-t%d' % (w, d), win=w, N=(2, 3, 4), r=[(0, 1), (2, 2), (3, 3)], diff=d, scale=(1.5, 0.5, 2.0), weight=10)
    return out


def harness(c, env, cfg):
    from vsym import core
    np = env.np
    W, w = window(env, cfg)
    N = cfg['N']
    nd = len(N)
    diff = cfg['diff']
    scale = cfg.get('scale') or (1.0,) * nd
    trans = cfg.get('trans') or (0.0,) * nd
    g = coords(c, cfg['r'])
    if cfg.get('fix'):
        for d in range(nd):
            c.assume(g[d] - cfg['r'][d][0] < 0.5)
    h = cfg.get('h')
    s = w.support * (h if h is not None else 1.0)
    v = w.nativesupport / s
    if NATIVE[cfg['win']] <= 2:
        edges = (-1.0, 0.0, 1.0) if NATIVE[cfg['win']] == 2 else (-0.5, 0.5)
        for k in range(-8, 10):
            for e in edges:
                y = g[diff] - k - e / v
                c.assume((y < 0) | (y > 0))
    pos = np.array([[(g[d] - trans[d]) / scale[d] for d in range(nd)]])
    T = W.Affine(nd, scale=np.array(scale), translate=np.array(trans), period=None if cfg.get('open') else np.array(N))
    kw = {} if h is None else dict(hsml=np.array([h]))
    cells = 1
    for n in N:
        cells *= n
    vals = [c.real('v%d' % i, -4, 4) for i in range(cells)]
    field = np.array(vals).reshape(N)
    d1 = w.readout(field, pos, diffdir=diff, transform=T, **kw)[0]
    if c.symbolic:
        plain = w.readout(field, pos, transform=T, **kw)[0]
        # position = (n + f - trans) / scale
        want = core.derivative(plain, 'f%d' % diff) * scale[diff]
        c.check(c.close(d1, want), 'derivative readout is not the derivative')
    else:
        # one-sided differences on both sides: near a knot of the spline one of them stays within a piece
        e = 1e-5
        r = []
        for k in (-2, -1, 0, 1, 2):
            q = pos.copy()
            q[0, diff] += k * e
            r.append(w.readout(field, q, transform=T, **kw)[0])
        cand = [(r[3] - r[1]) / (2 * e), (r[4] - r[2]) / (2 * e), (r[2] - r[0]) / (2 * e)]
        tol = 1e-3 * (1 + abs(scale[diff])) ** 2 * max(1.0, v) ** 2
        c.check(any(abs(d1 - x) <= tol for x in cand), 'derivative readout is not the derivative')
