"""The window's Fourier transform is the p-th power of sinc"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real circular frequency in [-100, 100] (sin is an uninterpreted odd function in the solver, so equality is decided for every sine); native windows and windows resized to '
          '1..3 times the native support; inputs of 0, 1 and 2 dimensions, also transposed, reversed and strided, compensation over 1 to 3 axes')
OUTSIDE = 'floating-point rounding; |w*s/2| < 1e-5, where the series branch is compared with 1 - p*x^2/6 to 1e-12'


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in SPLINES:
        add('%s' % w, win=w)
        add('%s-grid' % w, win=w, grid=True)
        for k in (2, 3):
            add('%s-x%d' % (w, k), win=w, support=NATIVE[w] * k)
        add('%s-x' % w, win=w, support=NATIVE[w] + 1)
        for nd in (1, 2, 3):
            add('%s-comp-%d' % (w, nd), win=w, comp=nd)
    for w in TABLES:
        add('%s' % w, win=w, one=True)
        add('%s-comp' % w, win=w, comp=2, one=True)
    return out


def harness(c, env, cfg):
    np = env.np
    W, w = window(env, cfg)
    p = NATIVE.get(cfg['win'])
    s = 1.0 if p is None else w.support * 1.0 / p

    def sinc(x, pw):
        # value * x**p == sin(x)**p
        return np.sin(x)

    def relation(T, om, label):
        if cfg.get('one'):
            return c.check(c.close(T, 1.0), label)
        x = om * s / 2
        if (x < 1e-5) & (x > -1e-5):
            d = T - (1 - p * x * x / 6)
            return c.check((d <= 1e-12) & (d >= -1e-12), label + ' (small)')
        sx = np.sin(x)
        a, b = 1.0, 1.0
        for _ in range(p):
            a, b = a * x, b * sx
        if c.symbolic:
            return c.check(c.close(T * a, b), label)
        return c.check(abs(T - b / a) < 1e-9, label)
    if cfg.get('comp'):
        nd = cfg['comp']
        om = [c.real('w%d' % d, -7, 7) for d in range(nd)]
        if not cfg.get('one'):
            for d in range(nd):
                x = om[d] * s / 2
                c.assume((x > 0.01) | (x < -0.01))
        re, im = c.real('re', -9, 9), c.real('im', -9, 9)
        v = np.zeros((1,) * nd, 'c16')
        v.real[...] = re
        v.imag[...] = im
        wl = [np.array([o]).reshape((1,) * nd) for o in om]
        T = 1.0
        for d in range(nd):
            t = w.get_fwindow(np.array([om[d]]))[0]
            if c.symbolic:
                c.assume((t > 0) | (t < 0))
            elif t == 0:
                return
            T = T * t
        r = w.get_compensation()(wl, v)
        g = r.ravel()[0]
        c.check(tuple(r.shape) == (1,) * nd, 'shape of the compensated modes')
        if c.symbolic:
            c.check(c.close(g.real * T, re) & c.close(g.imag * T, im), 'compensation')
        else:
            c.check(abs(g * T - complex(re, im)) < 1e-6, 'compensation')
        return
    om = c.real('w', -100, 100)
    a = w.get_fwindow(np.array([om]))
    c.check(tuple(a.shape) == (1,), 'shape')
    relation(a[0], om, 'transform of the window')
    b = w.get_fwindow(np.array([-om]))
    relation(b[0], -om, 'transform at -w')
    z = w.get_fwindow(np.array([0.0]))
    c.check(c.close(z[0], 1.0), 'transform at zero')
    if cfg.get('grid'):
        o2 = c.real('w2', -100, 100)
        q = w.get_fwindow(np.array([[om], [o2]]))
        c.check(tuple(q.shape) == (2, 1), 'shape of a grid')
        c.check(c.close(q[0, 0], a[0]), 'grid order')
        relation(q[1, 0], o2, 'grid transform')
        t = w.get_fwindow(np.array([[om, o2]]).T)
        c.check(c.close(t[0, 0], a[0]), 'transposed grid')
        G = np.array([[om, o2], [0.5, -1.5]])
        E = w.get_fwindow(np.array([om, o2, 0.5, -1.5]))
        order = np.array([[0, 1], [2, 3]])
        for view in (lambda z: z, lambda z: z.T, lambda z: z[::-1], lambda z: z[:, ::-1], lambda z: z[1:], lambda z: z[:, 1:], lambda z: z.T[::-1]):
            t, o = w.get_fwindow(view(G)), view(order)
            c.check(tuple(t.shape) == tuple(o.shape), 'shape of a view of a grid')
            c.check_all([c.close(x, E[int(i)]) for x, i in zip(t.ravel(), o.ravel())], 'the transforms of a view of a grid are out of order')
