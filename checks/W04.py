"""Painting a sub-block equals slicing the global painting"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('every real position in the stated cell ranges (inside, outside and wrapping around the block and the mesh), every mass and mesh content; every placement of the block is a '
          'configuration; 1 to 3 axes; C-ordered, strided, transposed and negative-stride canvases inside a padded buffer whose padding is watched; '
          'memory accesses of the compiled kernels are bounds-checked against the array that owns them')
OUTSIDE = 'floating-point rounding; meshes beyond 6 cells per axis'


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in SPLINES:
        for i, (s, b) in enumerate([(0, 2), (2, 3), (3, 2)]):
            add('%s-1d-%d-%d' % (w, s, b), win=w, N=(5,), s=(s,), b=(b,), r=[(-6, 10)], layout=['C', 'step', 'neg'][i])
            add('%s-1d-%d-%d-diff' % (w, s, b), win=w, N=(5,), s=(s,), b=(b,), r=[(-1, 5)], diff=0, dtype='f4')
        add('%s-1d-w' % w, win=w, N=(6,), s=(1,), b=(3,), r=[(-1, 6)], h=1.5)
        lay = dict(NNB='T', CIC='step', TSC='neg', PCS='T', NEAREST='step', LINEAR='T', QUADRATIC='C', CUBIC='neg')[w]
        add('%s-2d' % w, win=w, N=(4, 3), s=(1, 0), b=(2, 2), r=[(0, 1), (-1, 0)], layout=lay, weight=2)
        add('%s-2d-b' % w, win=w, N=(3, 4), s=(0, 2), b=(3, 2), r=[(2, 2), (0, 1)], layout='C', weight=2, dtype='f4')
        add('%s-2d-diff' % w, win=w, N=(3, 4), s=(1, 1), b=(2, 2), r=[(2, 3), (0, 0)], diff=1, weight=2)
        if w in TUNED:
            add('%s-3d' % w, win=w, N=(4, 3, 5), s=(1, 0, 3), b=(2, 2, 2), r=[(0, 0), (2, 2), (1, 1)], layout='T', weight=4)
            add('%s-3d-diff' % w, win=w, N=(3, 4, 3), s=(0, 2, 1), b=(2, 2, 2), r=[(2, 2), (3, 3), (0, 0)], diff=2, weight=4)
    if tier == 'thorough':
        for w in SPLINES:
            for s in [(0, 0), (1, 2), (2, 3)]:
                for b in [(1, 1), (2, 2), (2, 1)]:
                    add('%s-2d-t-%d%d-%d%d' % ((w,) + s + b), win=w, N=(4, 5), s=s, b=b, r=[(-1, 4), (4, 5)], layout='step', weight=4)
            if w in TUNED or w == 'LINEAR':
                add('%s-3d-t' % w, win=w, N=(4, 3, 5), s=(1, 0, 3), b=(2, 3, 2), r=[(0, 1), (2, 2), (-1, 1)], layout='neg', weight=8)
                add('%s-3d-u' % w, win=w, N=(4, 3, 2), s=(3, 1, 0), b=(1, 2, 2), r=[(3, 3), (-1, 3), (1, 1)], diff=1, weight=8)
    return out


def canvas(np, shape, dtype, layout):
    """(buffer, view): view of the given shape inside a zero buffer that leaves a margin"""
    nd = len(shape)
    if layout == 'T':
        buf = np.zeros(tuple(s + 2 for s in reversed(shape)), dtype)
        v = buf[tuple(slice(1, 1 + s) for s in reversed(shape))].T
    elif layout == 'step':
        buf = np.zeros(tuple(2 * s + 2 for s in shape), dtype)
        v = buf[tuple(slice(1, 1 + 2 * s, 2) for s in shape)]
    elif layout == 'neg':
        buf = np.zeros(tuple(s + 2 for s in shape), dtype)
        v = buf[tuple(slice(1, 1 + s) for s in shape)][(slice(None, None, -1),) + (slice(None),) * (nd - 1)]
    else:
        buf = np.zeros(tuple(s + 2 for s in shape), dtype)
        v = buf[tuple(slice(1, 1 + s) for s in shape)]
    return buf, v


def harness(c, env, cfg):
    np = env.np
    W, w = window(env, cfg)
    N, s, b = cfg['N'], cfg['s'], cfg['b']
    nd = len(N)
    diff = cfg.get('diff')
    pos = np.array([coords(c, cfg['r'])])
    m = c.real('m', -100, 100)
    mass = np.array([m])
    kw = {} if cfg.get('h') is None else dict(hsml=np.array([cfg['h']]))
    dt = cfg.get('dtype', 'f8')
    T = W.Affine(nd, period=np.array(N))
    Tb = T.shift(-np.array(s))
    whole = np.zeros(N, dt)
    w.paint(whole, pos, mass=mass, diffdir=diff, transform=T, **kw)
    buf, blk = canvas(np, b, dt, cfg.get('layout', 'C'))
    w.paint(blk, pos, mass=mass, diffdir=diff, transform=Tb, **kw)
    cells = 1
    for n in b:
        cells *= n
    want = []
    flat = whole.ravel()
    for i in range(cells):
        idx, k = [], i
        for n in reversed(b):
            idx.insert(0, k % n)
            k //= n
        lin = 0
        for d in range(nd):
            lin = lin * N[d] + (s[d] + idx[d]) % N[d]
        want.append(flat[lin])
    c.check_all([c.close(x, y) for x, y in zip(blk.ravel(), want)], 'block differs from the slice of the whole mesh')
    c.check(c.close((buf * buf).sum() if not c.symbolic else sum(x * x for x in buf.ravel()), sum(x * x for x in blk.ravel())), 'memory outside the canvas was written')
    # readout: cells outside the block count as zero
    vals = [c.real('v%d' % i, -100, 100) for i in range(cells)]
    buf, blk = canvas(np, b, dt, cfg.get('layout', 'C'))
    buf[...] = 7.0
    blk[...] = np.array(vals).reshape(b)
    r = w.readout(blk, pos, diffdir=diff, transform=Tb, **kw)
    un = np.zeros(b, dt)
    w.paint(un, pos, diffdir=diff, transform=Tb, **kw)
    c.check(c.close(r[0], sum(v * u for v, u in zip(vals, un.ravel()))), 'readout of a block is not the masked readout')
