"""Mode ids are ordered from the inside out, independent of resolution"""
from checks._inv import *

LEVEL = 'model_checking'
BOUNDS = ('symbolic even mesh sizes up to 8192 cells per axis (16 for the order) and symbolic mode vectors in 1 to 3 dimensions, full and compressed; the order is decided by the interval of ids of each shell, which is compared '
          'between shells')
OUTSIDE = 'larger meshes; odd mesh sizes'


def configs(tier):
    out = []
    for comp in (0, 1):
        for nd in (1, 2, 3):
            out.append(dict(name='shell-%dd-%d' % (nd, comp), kind='shell', nd=nd, comp=comp, weight=nd))
            out.append(dict(name='meshes-%dd-%d' % (nd, comp), kind='two', nd=nd, comp=comp, weight=nd * 2))
        for nd in (1, 2):
            out.append(dict(name='order-%dd-%d' % (nd, comp), kind='order', nd=nd, comp=comp, weight=4))
    return out


def harness(c, env, cfg):
    np = env.np
    I = env.load('invariant')
    nd, comp = cfg['nd'], bool(cfg['comp'])
    top = 4096 if cfg['kind'] != 'order' else 8
    h = c.int('h', 1, top)
    N = 2 * h
    x = vec(c, 'x', nd, h, comp, top)
    get = lambda v, n: I.get_index(np.array([v]), np.array([n] * nd), compressed=comp)[0]

    def below(s):
        """number of modes with every component within s-1"""
        t = 1
        for d in range(nd):
            t = t * (s if comp and d == nd - 1 else 2 * s - 1)
        return t
    i = get(x, N)
    if cfg['kind'] == 'shell':
        s = amax(x)
        if s == 0:
            c.check(i == 0, 'the zero mode')
        else:
            c.check((i >= below(s)) & (i < below(s + 1)), 'id outside the interval of its shell')
    elif cfg['kind'] == 'two':
        g = c.int('g', 1, top)
        for q in x:
            # strictly below the Nyquist frequency of both
            c.assume((q < g) & (q > -g) & (q < h) & (q > -h))
        c.check(i == get(x, 2 * g), 'id depends on the mesh')
    else:
        y = vec(c, 'y', nd, h, comp, top)
        j = get(y, N)
        s, t = amax(x), amax(y)
        c.assume(s < t)
        c.check(i < j, 'outer mode has a smaller id')
