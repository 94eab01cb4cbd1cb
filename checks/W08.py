"""Batch calls are sums of single-particle calls for any array form"""
from checks._win import *

PRELOAD = ['window']
REAL = ['_window']
LEVEL = 'model_checking'
BOUNDS = ('two or three particles with every real fraction, stated cells, every mass, smoothing factors differing per particle, every prior mesh content; inputs as lists, integer, single and '
          'double precision, strided, read-only, broadcast scalars, missing masses; real, complex-backed and single precision canvases; supplied output arrays (strided, single precision)')
OUTSIDE = 'floating-point rounding, including the rounding of single-precision inputs; more than three particles'

FORMS = ['plain', 'list', 'f4', 'strided', 'readonly', 'noncontig', 'negstride', 'scalar', 'nomass', 'complex', 'hscalar', 'hsml', 'int', 'intmass', 'tuple']


def configs(tier):
    out = []

    def add(name, **k):
        k['name'] = name
        out.append(k)
    for w in ('CIC', 'TSC', 'LINEAR', 'CUBIC') if tier == 'quick' else SPLINES:
        for f in FORMS:
            add('%s-1d-%s' % (w, f), win=w, N=(4,), r=[[(0, 1)], [(3, 3)], [(2, 2)]][:2 if w == 'CUBIC' else 3], form=f, f4=f == 'f4')
        for f in ('plain', 'hsml', 'complex', 'strided', 'noncontig'):
            if w in TUNED:
                add('%s-2d-%s' % (w, f), win=w, N=(3, 2), r=[[(0, 0), (1, 1)], [(2, 2), (0, 0)]], form=f, dtype='f4' if f == 'strided' else 'f8', weight=3, fix=True)
        add('%s-1d-diff' % w, win=w, N=(4,), r=[[(0, 0)], [(3, 3)]], form='hsml', diff=0)
        add('%s-1d-empty' % w, win=w, N=(4,), r=[], form='plain')
    return out


def harness(c, env, cfg):
    np = env.np
    W, w = window(env, cfg)
    N, form = cfg['N'], cfg['form']
    nd, npart = len(N), len(cfg['r'])
    diff = cfg.get('diff')
    if form == 'int':
        P = [[c.int('n%d%d' % (p, d), -1, N[d]) for d in range(nd)] for p in range(npart)]
    else:
        P = [coords(c, r, tag='abc'[p]) for p, r in enumerate(cfg['r'])]
        if cfg.get('fix'):
            for p, r in enumerate(cfg['r']):
                for d in range(nd):
                    f = P[p][d] - r[d][0]
                    c.assume(f < 0.5 if (p + d) % 2 else f > 0.5)
    if form == 'nomass':
        M = [1.0] * npart
    elif form == 'scalar':
        M = [c.real('m', -100, 100)] * npart
    elif form == 'intmass':
        M = [c.int('m0', -2, 1), 3, -2][:npart]
    else:
        M = [c.real('m%d' % p, -100, 100) for p in range(npart)]
    H = None
    if form == 'hsml':
        H = [1.25, 1.0, 0.75][:npart]
    if form == 'hscalar':
        H = [1.25] * npart
    T = W.Affine(nd, period=np.array(N))
    cells = 1
    for n in N:
        cells *= n
    base = [c.real('b%d' % i, -10, 10) for i in range(cells)]
    dt = cfg.get('dtype', 'f8')
    if form == 'complex':
        canvas = np.zeros(N, 'c16')
        canvas.real[...] = np.array(base).reshape(N)
        canvas.imag[...] = 3.0
    else:
        canvas = np.zeros(N, dt)
        canvas[...] = np.array(base).reshape(N)

    # expected: one by one
    sep = np.zeros(N)
    for p in range(npart):
        kw = {} if H is None else dict(hsml=np.array([H[p]]))
        w.paint(sep, np.array([[x * 1.0 for x in P[p]]]), mass=np.array([M[p] * 1.0]), transform=T, diffdir=diff, **kw)

    kw = {}
    arrs = []

    def arr(x, dtype='f8'):
        a = np.array(x, dtype=dtype)
        if a.shape[0] == 0:
            a = a.reshape((0, nd)[:1 if np.ndim(x) == 1 and x is M else 2])
        arrs.append((a, list(a.ravel())))
        return a
    if form == 'list':
        pos, mass = [list(x) for x in P], list(M)
    elif form == 'tuple':
        pos, mass = tuple(tuple(x) for x in P), tuple(M)
    elif form == 'f4':
        pos, mass = arr(P, 'f4'), arr(M, 'f4')
    elif form == 'int':
        pos, mass = arr(P, 'i8'), arr(M)
    elif form == 'intmass':
        pos, mass = arr(P), arr(M, 'i4')
    elif form == 'strided':
        b = np.zeros((npart * 2, nd + 1))
        b[...] = 55.0
        b[::2, 1:] = np.array(P)
        q = np.zeros(npart * 3)
        q[...] = 66.0
        q[::3] = np.array(M)
        pos, mass = b[::2, 1:], q[::3]
        arrs += [(b, list(b.ravel())), (q, list(q.ravel()))]
    elif form == 'noncontig':
        b = arr([[P[p][d] for p in range(npart)] for d in range(nd)])
        pos, mass = b.T, arr(M)
    elif form == 'negstride':
        b, q = arr(P[::-1]), arr(M[::-1])
        pos, mass = b[::-1], q[::-1]
    elif form == 'readonly':
        pos, mass = arr(P), arr(M)
        pos.flags.writeable = False
        mass.flags.writeable = False
    elif form == 'scalar':
        pos, mass = arr(P), M[0]
    elif form == 'nomass':
        pos, mass = arr(P), None
    else:
        pos, mass = arr(P), arr(M)
    if form == 'hsml':
        kw['hsml'] = arr(H)
    if form == 'hscalar':
        kw['hsml'] = H[0]
    if mass is not None:
        w.paint(canvas, pos, mass=mass, transform=T, diffdir=diff, **kw)
    else:
        w.paint(canvas, pos, transform=T, diffdir=diff, **kw)
    got = list(canvas.real.ravel())
    c.check_all([c.close(g, b + s) for g, b, s in zip(got, base, sep.ravel())], 'batch painting is not the sum of single paintings')
    if form == 'complex':
        c.check_all([c.close(x, 3.0) for x in canvas.imag.ravel()], 'imaginary part modified')
    # readout
    field = np.array(base).reshape(N)
    fld = field
    if form == 'complex':
        fld = np.zeros(N, 'c16')
        fld.real[...] = field
        fld.imag[...] = 5.0
    want = []
    for p in range(npart):
        k1 = {} if H is None else dict(hsml=np.array([H[p]]))
        want.append(w.readout(field, np.array([[x * 1.0 for x in P[p]]]), transform=T, diffdir=diff, **k1)[0])
    r = w.readout(fld, pos, transform=T, diffdir=diff, **kw)
    c.check(tuple(r.shape) == (npart,), 'shape of the readout')
    c.check_all([c.close(a, b) for a, b in zip(r, want)], 'batch readout differs from single readouts')
    ob = np.zeros(2 * npart + 1, 'f4' if form == 'f4' else 'f8')
    ob[...] = 9.0
    o = ob[1::2]
    r2 = w.readout(fld, pos, out=o, transform=T, diffdir=diff, **kw)
    c.check_all([c.close(a, b) for a, b in zip(o, want)] + [c.close(a, b) for a, b in zip(r2, want)] + [c.close(ob[i], 9.0) for i in range(0, 2 * npart + 1, 2)],
                'readout into a supplied array')
    for a, old in arrs:
        c.check_all([c.close(x, y) for x, y in zip(a.ravel(), old)], 'input modified')
