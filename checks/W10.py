"""Tabulated kernels interpolate within their table, support and sign"""
import os
import re
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real distance from the particle up to one cell beyond the support, native, smoothed and resized; table contents are uninterpreted (any table), the index is symbolic and every '
          'table access is checked against the table bounds')
OUTSIDE = 'the table values themselves; floating-point rounding'


def sym_env(cfg):
    from vsym import load
    return load.SymEnv(tables_uf=True)


def configs(tier):
    out = []
    for w in TABLES:
        out.append(dict(name=w, win=w))
        for h in (0.75, 1.25, 2.0) if tier == 'thorough' else (0.75,) if w in ('ACG2', 'ACG4', 'LANCZOS3') else (1.25,):
            out.append(dict(name='%s-h%g' % (w, h), win=w, h=h))
        if tier == 'thorough' or w in ('ACG2', 'ACG5', 'LANCZOS2', 'DB6', 'SYM6', 'DB12'):
            out.append(dict(name='%s-interp' % w, win=w, interp=True))
        if not w.startswith(('DB', 'SYM')):
            out.append(dict(name='%s-sym' % w, win=w, sym=True))
    return out


def spacing(env, win):
    """table spacing, from the shipped headers"""
    base = os.path.join(env.repo if hasattr(env, 'repo') else env.path, 'pmesh')
    h = '_window_acg.h' if win.startswith('ACG') else '_window_lanczos.h' if win.startswith('LANCZOS') else '_window_wavelets.h'
    s = open(os.path.join(base, h)).read()
    i = s.index('_%s_kernel(double x)' % win.lower())
    m = re.search(r'([0-9.]+e[-+][0-9]+)', s[i:i + 2000])
    return m.group(1)


def harness(c, env, cfg):
    from vsym import core
    np = env.np
    W, w = window(env, cfg)
    ns = w.nativesupport
    h = cfg.get('h', 1.0)
    half = ns * h / 2
    lim = int(half) + 1
    kw = {} if h == 1.0 else dict(hsml=np.array([h]))
    T = W.Affine(1, scale=np.array([2.0]))

    def K(x, diff=None):
        """weight of the single cell 0 for a particle at mesh position x"""
        a = np.zeros(1)
        w.paint(a, np.array([[x / 2.0]]), transform=T, diffdir=diff, **kw)
        return a[0]
    # half-cells: [n/2] or (n/2, n/2 + 1/2)
    n = int(c.int('n', -2 * lim, 2 * lim))
    if not cfg.get('interp') and c.int('open', 0, 1) == 0:
        x = n / 2.0
    else:
        x = n / 2.0 + c.real('f', 0, 0.5, lo_open=True, hi_open=True)
    if cfg.get('sym'):
        if c.symbolic:
            c.check(c.close(K(x), K(-x)), 'weights are not symmetric')
        else:
            # at the half-open ends of the support one side is outside
            c.check(abs(K(x) - K(-x)) < 1e-9 or abs(abs(x) - ns / 2.0) < 1e-6, 'weights are not symmetric')
        return
    k = K(x)
    d = K(x, 0)
    # zero outside; the top of the table may overshoot the nominal support by a few entries
    over = half + h * 0.02
    if (x > over) | (x < -over):
        c.check(c.close(k, 0.0) & c.close(d, 0.0), 'non-zero outside the support')
    if c.symbolic and isinstance(x, core.SNum):
        # the transform has scale 2: position derivative = 2 * mesh derivative
        c.check(c.close(d, 2 * core.derivative(k, 'f')), 'derivative kernel is not the slope')
    if cfg.get('interp'):
        # a second point in the same interval of the table lies on the same line
        from fractions import Fraction
        st = core.rat(float(spacing(env, cfg['win'])))
        off = Fraction(ns, 2) if cfg['win'].startswith(('DB', 'SYM')) else 0
        if not c.symbolic:
            st, off = float(st), float(off)
        y = n / 2.0 + c.real('g', 0, 0.5, lo_open=True, hi_open=True)
        c.assume((x < ns / 2.0) & (x > -ns / 2.0) & (y < ns / 2.0) & (y > -ns / 2.0))
        u, v = x + off, y + off
        if not off and n < 0:
            u, v = -x, -y
        i = np.floor(u / st)
        i = int(i) if isinstance(i, float) else i  # exact products below
        c.assume((u > i * st) & (v > i * st) & (v < (i + 1) * st))
        ky = K(y)
        if c.symbolic:
            c.check(c.close(ky * 2, 2 * k + (y - x) * d), 'weights are not linear between table entries')
        else:
            c.check(abs(ky * 2 - 2 * k - (y - x) * d) < 1e-9, 'weights are not linear between table entries')
