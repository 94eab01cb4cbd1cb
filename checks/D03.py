"""Exchange delivers every item to its targets and gather inverts it"""
from checks._dom import *

LEVEL = 'model_checking'
BOUNDS = ('every set of target ranks for every item: 1 to 3 ranks with up to 5 items in total (4 on 3 ranks); layouts from decompose with symbolic positions; symbolic values; real, complex, integer, single precision, '
          '2-d and 3-d trailing shapes, lists, strided and Fortran-ordered input')
OUTSIDE = 'more ranks or items; MPI itself is an in-process stand-in; messages above 2 GB'

FORMS = ['f8', 'f4', 'c16', 'i8', 'i4', 'v3', 'm22', 'list', 'strided', 'fortran', 'fortran3']


def configs(tier):
    out = []
    for f in FORMS:
        out.append(dict(name='form-' + f, counts=(2, 1), form=f))
        out.append(dict(name='unpacked-' + f, counts=(1, 1), form=f, pack=0))
    out.append(dict(name='ranks1', counts=(3,), form='f8'))
    out.append(dict(name='ranks2', counts=(3, 2), form='f8', weight=5))
    out.append(dict(name='ranks2-empty', counts=(3, 0), form='v3', weight=3))
    out.append(dict(name='ranks2-empty0', counts=(0, 3), form='f8', weight=3))
    out.append(dict(name='ranks3', counts=(1, 1, 1), form='f8', weight=4))
    out.append(dict(name='ranks3-empty', counts=(2, 0, 1), form='i8', weight=4))
    out.append(dict(name='decompose-2', counts=(2, 1), form='f8', decompose=1, weight=6))
    out.append(dict(name='decompose-3', counts=(1, 1, 0), form='v3', decompose=1, weight=6))
    if tier == 'thorough':
        out.append(dict(name='ranks2-6', counts=(3, 3), form='f8', weight=9, budget=600))
        out.append(dict(name='ranks3-4', counts=(2, 1, 1), form='f8', weight=9, budget=700))
        out.append(dict(name='decompose-3-3', counts=(1, 1, 1), form='f8', decompose=1, weight=9, budget=700))
    return out


def make(c, np, form, tag, n):
    """(array to exchange, rows as nested lists)"""
    shape = {'v3': (3,), 'm22': (2, 2), 'fortran': (2,), 'fortran3': (2, 3)}.get(form, ())
    kind = 'i' if form in ('i8', 'i4') else 'c' if form == 'c16' else 'r'
    rows = values(c, tag, n, shape, kind)
    dt = form if form in ('f8', 'f4', 'c16', 'i8', 'i4') else 'f8'
    if not n:
        return np.empty((0,) + shape, dt), rows
    if form == 'list':
        return rows, rows
    if form == 'strided':
        a = np.zeros(2 * n, 'f8')
        a[::2] = np.array(rows, 'f8')
        return a[::2], rows
    if form == 'fortran':
        a = np.zeros((2, n), 'f8')
        for i in range(n):
            for j in range(2):
                a[j, i] = rows[i][j]
        return a.T, rows
    if form == 'fortran3':
        a = np.zeros((3, 2, n), 'f8')
        for i in range(n):
            for j in range(2):
                for k in range(3):
                    a[k, j, i] = rows[i][j][k]
        return a.T, rows
    return np.array(rows, dt), rows


def alike(c, a, b):
    a, b = flat(a), flat(b)
    return sand(len(a) == len(b), *[c.close(x, y) for x, y in zip(a, b)])


def layouts(c, env, cfg, D):
    """(function comm -> layout, function R -> targets)"""
    counts = cfg['counts']
    nr = len(counts)
    if not cfg.get('decompose'):
        T = targets(c, counts, nr)
        return (lambda comm: layout(env, D, comm, T)), T
    # positions on [0, nr), ghosts within s; particles outside go nowhere
    L = nr
    s = c.real('s', 0, Fraction(1, 2))
    X = [[c.real('p%d_%d' % (r, i), -1, nr + 1) for i in range(n)] for r, n in enumerate(counts)]
    T = [[[q for q in range(nr) if bool(sand(x + s >= q, x - s < q + 1))] for x in row] for row in X]

    def make(comm):
        g = D.GridND([env.np.array(list(range(nr + 1)), 'f8')], comm=comm, periodic=False)
        return g.decompose(arr(env, [[x] for x in X[comm.rank]], 1), smoothing=s)
    return make, T


def harness(c, env, cfg):
    D = env.load('domain')
    np = env.np
    nr = len(cfg['counts'])
    mk, T = layouts(c, env, cfg, D)
    data = {}
    rows = {}
    for r, n in enumerate(cfg['counts']):
        data[r], rows[r] = make(c, np, cfg['form'], 'v%d_' % r, n)
    pack = cfg.get('pack', 1)

    def rank(comm):
        lay = mk(comm)
        a = data[comm.rank]
        got = lay.exchange(a) if pack else lay.exchange(a, pack=False)
        # what is gathered may lie in memory in another order
        w = got
        if cfg['form'] in ('strided', 'fortran', 'fortran3', 'm22'):
            w = np.zeros(got.shape[::-1], got.dtype).T if cfg['form'] != 'strided' else np.zeros(2 * len(got), got.dtype)[::2]
            w[...] = got
        back = lay.gather(w, mode='any')
        mean = None
        if cfg['form'] not in ('c16', 'i8', 'i4') and all(T[comm.rank]) or not len(T[comm.rank]):
            pass
        if cfg['form'] not in ('c16', 'i8', 'i4'):
            mean = lay.gather(got, mode='mean') if all(all(t) for t in T) else None
        return got, back, mean, lay.get_exchange_cost()

    R = env.spmd(nr, rank)
    for r in range(nr):
        got, back, mean, cost = R[r]
        c.check([int(q) for q in cost] == [sum(1 for t in T[s] for q in t if q != s) for s in range(nr)], 'the exchange cost of a rank is not the number of items it sends elsewhere', dict(targets=T))
        want = [rows[s][i] for s, i in received(T, r)]
        c.check(len(got) == len(want), 'wrong number of items received', dict(got=len(got), want=len(want)))
        c.check(alike(c, got, want), 'a rank does not receive the items addressed to it, by source rank and in order', dict(targets=T))
        c.check(len(back) == len(rows[r]), 'gather does not return one value per item')
        c.check(alike(c, [back[i] for i, t in enumerate(T[r]) if t], [rows[r][i] for i, t in enumerate(T[r]) if t]), "gather(mode='any') does not return the original", dict(targets=T))
        if mean is not None:
            c.check(alike(c, mean, rows[r]), "gather(mode='mean') does not return the original", dict(targets=T))
        # the input is not modified
        c.check(alike(c, data[r], rows[r]), 'exchange modified its input')
