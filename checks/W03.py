"""Readout is the exact transpose of paint"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real position in the stated cell ranges, every real mesh content, every real mass; polynomial windows (tuned and generic) in 1 to 3 dimensions, '
          'tabulated windows in one and two dimensions with every table position (table contents are uninterpreted, so the result holds for any table), derivative kernels, '
          'resized and smoothed windows, periodic and open meshes, single and double precision and complex')
OUTSIDE = 'floating-point rounding; meshes beyond 5 cells per axis'


def env_key(cfg):
    return 'uf' if cfg['win'] in TABLES else 'default'


def sym_env(cfg):
    from vsym import load
    return load.SymEnv(tables_uf=cfg['win'] in TABLES)


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in SPLINES:
        for diff in (None, 0):
            t = '' if diff is None else '-diff0'
            add('%s-1d%s' % (w, t), win=w, N=(3,), r=[(-2, 5)], diff=diff, scale=(1.5,), trans=(0.25,))
            add('%s-1d-h%s' % (w, t), win=w, N=(4,), r=[(-1, 4)], diff=diff, h=1.5)
            add('%s-1d-s%s' % (w, t), win=w, N=(5,), r=[(0, 4)], diff=diff, support=NATIVE[w] + 1, open=True)
        for diff in (None, 1):
            t = '' if diff is None else '-diff%d' % diff
            add('%s-2d%s' % (w, t), win=w, N=(3, 4), r=[(-1, 0), (3, 3)], diff=diff, scale=(2.0, 0.5), weight=2)
            add('%s-1d-cplx%s' % (w, t), win=w, N=(4,), r=[(-1, 1)], diff=None if diff is None else 0, weight=1, dtype='c16')
            add('%s-2d-open%s' % (w, t), win=w, N=(2, 3), r=[(0, 0), (-1, 0)], diff=diff, open=True, weight=2, dtype='f4')
        for diff in (None, 0, 2):
            t = '' if diff is None else '-diff%d' % diff
            if w in TUNED:
                add('%s-3d%s' % (w, t), win=w, N=(2, 3, 2), r=[(1, 1), (-1, -1), (0, 0)], diff=diff, weight=4)
        if w in ('NEAREST', 'LINEAR'):
            add('%s-3d' % w, win=w, N=(2, 3, 2), r=[(1, 1), (-1, -1), (0, 0)], diff=0, weight=4)
    for w in (['ACG2', 'ACG3', 'LANCZOS2', 'LANCZOS3', 'DB6', 'SYM6'] if tier == 'quick' else TABLES):
        for diff in (None, 0):
            t = '' if diff is None else '-diff0'
            add('%s-1d%s' % (w, t), win=w, N=(4,), r=[(1, 1)], diff=diff, weight=3)
        add('%s-2d' % w if w in ('ACG2', 'ACG3') else '%s-1d-neg' % w, win=w, N=(3, 4) if w in ('ACG2', 'ACG3') else (5,),
            r=[(-1, -1), (2, 2)] if w in ('ACG2', 'ACG3') else [(-1, -1)], diff=0, weight=5)
    if tier == 'thorough':
        for w in SPLINES:
            for diff in (None, 0, 1):
                t = '' if diff is None else '-diff%d' % diff
                add('%s-2d-t%s' % (w, t), win=w, N=(3, 4), r=[(-1, 3), (-1, 4)], diff=diff, scale=(2.0, 0.5), weight=6)
                add('%s-2d-h-t%s' % (w, t), win=w, N=(4, 3), r=[(0, 1), (2, 3)], diff=diff, h=1.25, weight=6)
            for diff in (None, 0, 1, 2):
                t = '' if diff is None else '-diff%d' % diff
                add('%s-3d-t%s' % (w, t), win=w, N=(2, 4, 3), r=[(-1, 1), (3, 3), (0, 0)], diff=diff, weight=10)
    return out


def harness(c, env, cfg):
    np = env.np
    W, w = window(env, cfg)
    N = cfg['N']
    nd = len(N)
    diff = cfg.get('diff')
    scale = cfg.get('scale') or (1.0,) * nd
    trans = cfg.get('trans') or (0.0,) * nd
    g = coords(c, cfg['r'])
    pos = [(g[d] - trans[d]) / scale[d] for d in range(nd)]
    T = W.Affine(nd, scale=np.array(scale), translate=np.array(trans), period=None if cfg.get('open') else np.array(N))
    kw = {} if cfg.get('h') is None else dict(hsml=np.array([cfg['h']]))
    dt = cfg.get('dtype', 'f8')
    unit = np.zeros(N, dt)
    P = np.array([pos])
    w.paint(unit, P, diffdir=diff, transform=T, **kw)
    m = c.real('m', -100, 100)
    heavy = np.zeros(N, dt)
    w.paint(heavy, P, mass=np.array([m]), diffdir=diff, transform=T, **kw)
    cells = 1
    for n in N:
        cells *= n
    c.check_all([c.close(a, m * b) for a, b in zip(*[(z.real if dt == 'c16' else z).ravel() for z in (heavy, unit)])], 'painting is not linear in the mass')
    vals = [c.real('v%d' % i, -100, 100) for i in range(cells)]
    field = np.zeros(N, dt)
    if dt == 'c16':
        # only the real part of a complex mesh takes part
        imag = [c.real('i%d' % i, -100, 100) for i in range(cells)]
        c.check_all([c.close(a, 0.0) for z in (unit, heavy) for a in z.imag.ravel()], 'painting changed the imaginary part')
        unit = unit.real
        field.real[...] = np.array(vals).reshape(N)
        field.imag[...] = np.array(imag).reshape(N)
    else:
        field[...] = np.array(vals).reshape(N)
    r = w.readout(field, P, diffdir=diff, transform=T, **kw)
    e = sum(v * u for v, u in zip(vals, unit.ravel()))
    c.check(c.close(r[0], e), 'readout is not the transpose of paint')
    c.check_all([c.close(a, b) for a, b in zip((field.real if dt == 'c16' else field).ravel(), vals)], 'readout modified the mesh')
    if dt == 'c16':
        c.check_all([c.close(a, b) for a, b in zip(field.imag.ravel(), imag)], 'readout modified the mesh')
    c.check_all([c.close(a, b) for a, b in zip(P.ravel(), pos)], 'positions modified')
