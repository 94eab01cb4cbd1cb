"""Transform, resize and smoothing act as coordinate changes"""
from fractions import Fraction
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real position and translation in the stated ranges, every mass and mesh content; scales -1/2, 3/2, 2 and per-axis combinations; resized supports 1..6 and smoothing factors '
          '1/2..2; the stretched window is compared with the textbook B-spline formulas, summed over periodic images, on every cell')
OUTSIDE = 'floating-point rounding; supports beyond 6'


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in SPLINES:
        for i, sc in enumerate((-0.5, 1.5, 2.0)):
            add('%s-affine-%d' % (w, i), kind='affine', win=w, N=(4,), r=[(-1, 3)], scale=(sc,), open=i == 1)
        add('%s-affine-diff' % w, kind='affine', win=w, N=(4,), r=[(0, 1)], scale=(2.0,), diff=0)
        add('%s-affine-2d' % w, kind='affine', win=w, N=(2, 3), r=[(0, 0), (1, 1)], scale=(0.5, 2.0), weight=2, fix=w in ('PCS', 'CUBIC'))
        for s in (1, 2, 3, 4, 5, 6):
            add('%s-resize-%d' % (w, s), kind='resize', win=w, N=(5,), r=[(0, 2)], support=s, diff=0 if s % 2 else None)
        add('%s-resize-h' % w, kind='resize', win=w, N=(5,), r=[(0, 2)], support=3, h=1.5)
        for h in (0.5, 0.75, 1.0, 1.0078125, 1.03125, 1.0625, 1.25, 1.3125, 1.5, 1.96875, 2.0):
            add('%s-stretch-%g' % (w, h), kind='stretch', win=w, N=(5,), r=[(0, 1)], h=h)
        for q, g in ((0, 0.3125), (1, -1.125)) if NATIVE[w] < 4 else ((0, 0.3125),):
            add('%s-stretch-any-%d' % (w, q), kind='stretch', win=w, N=(5,), r=[(0, 1)] if g > 0 else [(-2, -1)], h='any', g=g, weight=3)
        add('%s-stretch-small' % w, kind='stretch', win=w, N=(2,), r=[(-1, 1)], h=1.25)
        add('%s-stretch-2d' % w, kind='stretch', win=w, N=(3, 2), r=[(0, 0), (1, 1)], h=1.5 if w in ('NNB', 'CIC', 'NEAREST', 'LINEAR') else 1.0, weight=2)
    add('compose', kind='compose')
    if tier == 'thorough':
        for w in SPLINES:
            for h in (0.625, 0.875, 1.125, 1.375, 1.625, 2.5, 3.0):
                add('%s-stretch-%g' % (w, h), kind='stretch', win=w, N=(5,), r=[(-1, 5)], h=h, weight=2)
            add('%s-stretch-2d-t' % w, kind='stretch', win=w, N=(3, 4), r=[(0, 2), (1, 3)], h=1.25, weight=6)
            add('%s-affine-2d-t' % w, kind='affine', win=w, N=(3, 4), r=[(0, 1), (1, 2)], scale=(0.5, -2.0), weight=6)
            add('%s-affine-2d-td' % w, kind='affine', win=w, N=(3, 4), r=[(0, 1), (1, 2)], scale=(0.5, -2.0), weight=6, diff=1)
            if w in TUNED:
                add('%s-stretch-3d-t' % w, kind='stretch', win=w, N=(2, 3, 2), r=[(0, 0), (1, 1), (0, 0)], h=1.0, weight=10)
            for s in (7, 8, 9, 10):
                add('%s-resize-%d' % (w, s), kind='resize', win=w, N=(5,), r=[(0, 4)], support=s, weight=2)
    return out


def spline(n, x):
    """the centred B-spline of n pieces (the window of support n)"""
    if n == 1:
        return 1 if (x >= -0.5) & (x < 0.5) else 0
    a = x if x >= 0 else -x
    if n == 2:
        return 1 - a if a < 1 else 0
    if n == 3:
        if a <= 0.5:
            return 0.75 - a * a
        if a < 1.5:
            return (1.5 - a) * (1.5 - a) / 2
        return 0
    if a < 1:
        return (4 - 6 * a * a + 3 * a * a * a) / 6
    if a < 2:
        return (2 - a) * (2 - a) * (2 - a) / 6
    return 0


def harness(c, env, cfg):
    np = env.np
    W = env.load('window')
    if cfg['kind'] == 'compose':
        s = [c.real('s%d' % d, -4, 4) for d in range(2)]
        t = [c.real('t%d' % d, -9, 9) for d in range(2)]
        u = [c.real('u%d' % d, -9, 9) for d in range(2)]
        a = c.real('a', -4, 4)
        T = W.Affine(2, scale=np.array(s), translate=np.array(t), period=np.array((3, 4)))
        R = T.rescale(a)
        S = T.shift(np.array(u))
        RS = T.rescale(np.array(u)).shift(a)
        for A, sc, tr, lab in ((R, [x * a for x in s], t, 'rescale'), (S, s, [x + y for x, y in zip(t, u)], 'shift'),
                               (RS, [x * y for x, y in zip(s, u)], [x + a for x in t], 'rescale then shift'), (T, s, t, 'the original')):
            c.check_all([c.close(p, q) for p, q in zip(A.scale, sc)] + [c.close(p, q) for p, q in zip(A.translate, tr)] + [A.period[0] == 3, A.period[1] == 4],
                        '%s: wrong transform' % lab)
        D = W.Affine(3)
        c.check_all([D.scale[i] == 1 for i in range(3)] + [D.translate[i] == 0 for i in range(3)] + [D.period[i] == 0 for i in range(3)], 'default transform')
        return
    w = W.windows[cfg['win']]
    N = cfg['N']
    nd = len(N)
    diff = cfg.get('diff')
    g = coords(c, cfg['r']) if 'g' not in cfg else None
    m = c.real('m', -100, 100)
    per = np.array(N)
    cells = 1
    for n in N:
        cells *= n
    vals = [c.real('v%d' % i, -100, 100) for i in range(cells)]
    field = np.array(vals).reshape(N)
    if cfg['kind'] == 'affine':
        if cfg.get('fix'):
            for d in range(nd):
                c.assume(g[d] - cfg['r'][d][0] < 0.5)
        scale = cfg['scale']
        t = [c.real('t%d' % d, -2, 2) for d in range(nd)]
        pos = np.array([[(g[d] - t[d]) / scale[d] for d in range(nd)]])
        if cfg.get('open'):
            per = None
        T = W.Affine(nd, scale=np.array(scale), translate=np.array(t), period=per)
        a, b = np.zeros(N), np.zeros(N)
        f = 1.0 if diff is None else scale[diff]
        P = np.array([g])
        w.paint(a, pos, mass=np.array([m]), transform=T, diffdir=diff)
        w.paint(b, P, mass=np.array([m]), transform=W.Affine(nd, period=per), diffdir=diff)
        c.check_all([c.close(x, y * f) for x, y in zip(a.ravel(), b.ravel())], 'painting through a transform')
        x = w.readout(field, pos, transform=T, diffdir=diff)[0]
        y = w.readout(field, P, transform=W.Affine(nd, period=per), diffdir=diff)[0]
        c.check(c.close(x, y * f), 'reading through a transform')
    elif cfg['kind'] == 'resize':
        s = cfg['support']
        ws = w.resize(s)
        c.check(ws.support == s, 'support of a resized window')
        c.check(w.support == NATIVE[cfg['win']], 'resizing changed the original')
        T = W.Affine(nd, period=per)
        P = np.array([g])
        n = NATIVE[cfg['win']]
        h = cfg.get('h', 1.0)
        a, b = np.zeros(N), np.zeros(N)
        ws.paint(a, P, mass=np.array([m]), hsml=np.array([h]), transform=T, diffdir=diff)
        w.paint(b, P, mass=np.array([m]), hsml=np.array([h * s / n]), transform=T, diffdir=diff)
        c.check_all([c.close(x, y) for x, y in zip(a.ravel(), b.ravel())], 'resized window differs from the smoothed one')
        x = ws.readout(field, P, hsml=np.array([h]), transform=T, diffdir=diff)[0]
        y = w.readout(field, P, hsml=np.array([h * s / n]), transform=T, diffdir=diff)[0]
        c.check(c.close(x, y), 'reading with a resized window')
    else:
        n = NATIVE[cfg['win']]
        h = cfg['h']
        hm = h
        if h == 'any':
            h, hm = c.real('h', Fraction(1, 2), Fraction(3, 2)), 2
            g = [cfg["g"]]
        a = np.zeros(N)
        w.paint(a, np.array([g]), mass=np.array([m]), hsml=np.array([h]), transform=W.Affine(nd, period=per))
        # sum over periodic images, axis by axis
        K = []
        for d in range(nd):
            row = []
            lo, hi = cfg['r'][d]
            reach = n * hm / 2 + 1
            for i in range(N[d]):
                t = 0
                k = -((int(i - lo + reach) // N[d]) + 2)
                while i + k * N[d] < hi + reach + 1:
                    cell = i + k * N[d]
                    if cell > lo - reach - 1:
                        t = t + spline(n, (g[d] - cell) / h) / h
                    k += 1
                row.append(t)
            K.append(row)
        want = []
        for i in range(cells):
            idx, q = [], i
            for nn in reversed(N):
                idx.insert(0, q % nn)
                q //= nn
            t = m
            for d in range(nd):
                t = t * K[d][idx[d]]
            want.append(t)
        c.check_all([c.close(x, y) for x, y in zip(a.ravel(), want)], 'stretched window has the wrong shape')
