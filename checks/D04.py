"""Gather reduces ghost contributions by the stated rule"""
from checks._dom import *
from checks.D03 import layouts, alike

LEVEL = 'model_checking'
BOUNDS = ('every set of target ranks for every item: 1 to 3 ranks with up to 4 items in total; symbolic values, each copy different; sum, mean, any, all, local and ufunc reductions; trailing shapes (), (2,), (2,2); arrays in C and Fortran order, strided arrays and lists; '
          'with and without output array')
OUTSIDE = 'more ranks or items; integer sums above 2**53; user ufuncs for items that were sent nowhere (undefined in numpy); complex values'


def configs(tier):
    out = []
    modes = ['sum', 'mean', 'any', 'all', 'local', 'add', 'maximum']
    for m in modes:
        for o in (0, 1):
            out.append(dict(name='%s-2%s' % (m, '-out' if o else ''), mode=m, counts=(2, 1), shape=(), out=o))
        out.append(dict(name='%s-vec' % m, mode=m, counts=(1, 2), shape=(2,), out=0))
        out.append(dict(name='%s-mat' % m, mode=m, counts=(1, 1), shape=(2, 2), out=0))
        out.append(dict(name='%s-1' % m, mode=m, counts=(3,), shape=(), out=0))
        out.append(dict(name='%s-empty' % m, mode=m, counts=(2, 0), shape=(2,), out=0))
        out.append(dict(name='%s-3' % m, mode=m, counts=(1, 1, 1), shape=(), out=0, weight=4))
        for f in ('fortran', 'strided', 'list'):
            out.append(dict(name='%s-%s' % (m, f), mode=m, counts=(2, 1), shape=(2,), out=0, form=f))
        if m != 'mean':
            out.append(dict(name='%s-int' % m, mode=m, counts=(2, 1), shape=(), out=0, kind='i'))
        if tier == 'thorough':
            out.append(dict(name='%s-3-4' % m, mode=m, counts=(2, 1, 1), shape=(), out=0, weight=9, budget=700))
            out.append(dict(name='%s-2-5' % m, mode=m, counts=(3, 2), shape=(2,), out=1, weight=9, budget=700))
    out.append(dict(name='sum-decompose', mode='sum', counts=(2, 1), shape=(), out=0, decompose=1, weight=6))
    out.append(dict(name='local-decompose', mode='local', counts=(2, 1), shape=(), out=0, decompose=1, weight=6))
    return out


def harness(c, env, cfg):
    D = env.load('domain')
    np = env.np
    nr = len(cfg['counts'])
    mode = cfg['mode']
    mk, T = layouts(c, env, cfg, D)
    if mode in ('mean', 'add', 'maximum'):
        if not all(all(t) for t in T):
            return
    if mode == 'local':
        # an item that is not sent to its own rank has no local copy
        if not all(r in t for r in range(nr) for t in T[r]):
            return
    if mode == 'mean' and cfg.get('kind') == 'i':
        return
    shape = tuple(cfg['shape'])
    dt = 'i8' if cfg.get('kind') == 'i' else 'f8'
    V = [values(c, 'g%d_' % r, len(received(T, r)), shape, cfg.get('kind', 'r')) for r in range(nr)]

    def rank(comm):
        lay = mk(comm)
        r = comm.rank
        a = np.array(V[r], dt) if len(V[r]) else np.empty((0,) + shape, dt)
        if len(V[r]) and cfg.get('form') == 'list':
            a = V[r]
        elif len(V[r]) and cfg.get('form') == 'fortran':
            a = np.zeros(shape + (len(V[r]),), dt).T
            a[...] = np.array(V[r], dt)
        elif len(V[r]) and cfg.get('form') == 'strided':
            a = np.zeros((2 * len(V[r]),) + shape, dt)[::2]
            a[...] = np.array(V[r], dt)
        n = len(lay.indices) if mode == 'all' else len(T[r])
        o = None
        if cfg['out']:
            o = np.full((n,) + shape, 5, dt)
        m = getattr(np, mode) if mode in ('add', 'maximum') else mode
        g = lay.gather(a, mode=m, out=o)
        return g, o, a, [int(i) for i in lay.indices]

    R = env.spmd(nr, rank)
    for r in range(nr):
        g, o, a, ind = R[r]
        if mode == 'all':
            want = []
            for q in range(nr):
                for i in range(len(T[r])):
                    if q in T[r][i]:
                        want.append(V[q][received(T, q).index((r, i))])
            c.check(len(g) == len(want) and ind == [i for q in range(nr) for i in range(len(T[r])) if q in T[r][i]], "gather(mode='all') does not return every copy")
            c.check(alike(c, g, want), "gather(mode='all') does not return every copy")
        else:
            c.check(len(g) == len(T[r]), 'gather does not return one value per item')
            ok = []
            for i, t in enumerate(T[r]):
                cp = [V[q][received(T, q).index((r, i))] for q in t]
                for k, x in enumerate(flat(g[i])):
                    vals = [flat(v)[k] for v in cp]
                    if mode in ('sum', 'add'):
                        ok.append(c.close(x, sum(vals)))
                    elif mode == 'mean':
                        ok.append(c.close(x * len(vals), sum(vals)))
                    elif mode == 'any':
                        if vals:
                            ok.append(sor(*[c.close(x, v) for v in vals]))
                    elif mode == 'local':
                        ok.append(c.close(x, flat(V[r][received(T, r).index((r, i))])[k]))
                    elif mode == 'maximum':
                        ok.append(sand(*[sor(x > v, c.close(x, v)) for v in vals]))
                        ok.append(sor(*[c.close(x, v) for v in vals]))
            c.check(sand(*ok), "gather(mode='%s') is not the reduction over the copies" % mode, dict(targets=T))
        if o is not None and len(T[r]):
            c.check(alike(c, o, g), 'the output array does not hold the result')
        c.check(alike(c, a, V[r]), 'gather modified its input')
