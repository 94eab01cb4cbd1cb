"""Invalid modes get id -1; Nyquist aliases agree; maxlength truncates"""
from checks._inv import *

LEVEL = 'model_checking'
BOUNDS = ('symbolic even mesh sizes up to 8192 cells per axis, differing per axis where stated, symbolic mode vectors well beyond the mesh, symbolic maximum length, 1 to 3 dimensions, full and compressed')
OUTSIDE = 'larger meshes; odd mesh sizes'

TOP = 4096


def configs(tier):
    out = []
    for comp in (0, 1):
        for nd in (1, 2, 3):
            out.append(dict(name='outside-%dd-%d' % (nd, comp), kind='out', nd=nd, comp=comp))
            out.append(dict(name='alias-%dd-%d' % (nd, comp), kind='alias', nd=nd, comp=comp, weight=2))
            out.append(dict(name='max-%dd-%d' % (nd, comp), kind='max', nd=nd, comp=comp, weight=3))
        out.append(dict(name='shape-%d' % comp, kind='shape', nd=2, comp=comp))
    return out


def harness(c, env, cfg):
    np = env.np
    I = env.load('invariant')
    nd, comp, kind = cfg['nd'], bool(cfg['comp']), cfg['kind']
    if kind == 'out':
        h = [c.int('h%d' % d, 1, TOP) for d in range(nd)]
        x = [c.int('x%d' % d, -2 * TOP, 2 * TOP) for d in range(nd)]
        bad = False
        for q, k in zip(x, h):
            if (q > k) | (q < -k):
                bad = True
        if comp and not bad:
            # -h is the same as h
            if (x[nd - 1] < 0) & (x[nd - 1] > -h[nd - 1]):
                bad = True
        r = I.get_index(np.array([x]), np.array([2 * k for k in h]), compressed=comp)[0]
        c.check(r == -1 if bad else r >= 0, 'validity of the id')
        return
    h = c.int('h', 1, TOP)
    N = 2 * h
    if kind == 'alias':
        x = vec(c, 'x', nd, h, comp, TOP)
        k = c.int('axis', 0, nd - 1)
        k = int(k)
        c.assume(x[k] == h)
        y = list(x)
        y[k] = -h
        r = I.get_index(np.array([x, y]), np.array([N] * nd), compressed=comp)
        c.check((r[0] == r[1]) & (r[0] >= 0), 'the two signs of the Nyquist frequency differ')
    elif kind == 'max':
        x = vec(c, 'x', nd, h, comp, TOP)
        M = c.int('M', 0, 9 * TOP ** 3)
        i = I.get_index(np.array([x]), np.array([N] * nd), compressed=comp)[0]
        j = I.get_index(np.array([x]), np.array([N] * nd), compressed=comp, maxlength=M)[0]
        c.check((j == i) if i < M else (j == -1), 'maximum length')
    else:
        x = [[[c.int('x%d%d%d' % (a, b, d), -3, 3) for d in range(2)] for b in range(2)] for a in range(1)]
        X = np.array(x)
        r = I.get_index(X, 4, compressed=comp)
        c.check(tuple(r.shape) == (1, 2), 'shape')
        for b in range(2):
            one = I.get_index(np.array([x[0][b]]), np.array([4, 4]), compressed=comp)
            c.check(one[0] == r[0, b], 'rows are independent')
        c.check_all([p == q for p, q in zip(X.ravel(), [q for a in x for b in a for q in b])], 'input modified')
