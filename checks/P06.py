"""Slab-wise application visits every cell once with its own coordinates"""
from checks._pm import *
import math

LEVEL = 'model_checking'
BOUNDS = ('every content of the field and of the output; functions that combine the value with the coordinates of each axis, and the norm of the coordinates; 2-d and 3-d meshes of 1 to 6 cells per axis, even and odd; up to 4 ranks '
          'in any placement from a list; real, transposed and untransposed complex fields, every kind of coordinate, result into a new field, in place, into another field and into an array')
OUTSIDE = 'larger meshes; functions that look at several cells of a slab'


def configs(tier):
    out = []
    Ns = [(4, 3), (4, 2, 3), (3, 4, 4)] + ([(4, 4, 4), (5, 4, 3), (2, 6, 5), (1, 5, 2)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            if s in ('3x1', '1x2', '2x2') and tier == 'quick':
                continue
            for kind in KINDS:
                ks = ('relative', 'index', 'absolute') if kind == 'real' else ('wavenumber', 'circular', 'index')
                for k in ks:
                    for dt in ('f8', 'c16'):
                        if dt == 'c16' and (s != '2x2p' or kind != 'transposedcomplex'):
                            continue
                        out.append(dict(name='%s-%s-%s-%s-%s' % ('x'.join(map(str, N)), s, kind[:2], k[:4], dt), N=N, np=p, placement=pl, kind=kind, coord=k, pdtype=dt))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    real = cfg['kind'] == 'real'
    size = list(N)
    if not real and cfg['pdtype'] == 'f8':
        size[-1] = N[-1] // 2 + 1
    stored = cells([0] * nd, size)
    V = {q: (c.real if real else c.cplx)('v' + '_'.join(map(str, q)), -4, 4) for q in stored}
    L = [2.0, 4.0, 8.0][:nd]
    wt = [3, 50, 700][:nd]

    def coord(q):
        r = []
        for i, n, l in zip(q, N, L):
            s = signed(i, n)
            k = cfg['coord']
            r.append(i if k == 'index' else s * l / n if real else 2 * math.pi * s / l if k == 'wavenumber' else 2 * math.pi * s / n)
        return r

    def rank(comm):
        pm = mesh(env, comm, cfg, L)
        st = None
        outs = []

        def fresh():
            f = pm.create(cfg['kind'])
            s = [int(x) for x in f.start]
            for m in cells(s, f.shape):
                f.value[tuple(a - b for a, b in zip(m, s))] = V[m]
            return f, s

        def read(v, s):
            v = v.value if hasattr(v, 'value') else v
            return {m: v[tuple(a - b for a, b in zip(m, s))] for m in cells(s, v.shape)}
        calls = []

        def func(k, y):
            calls.append(int(np.prod(y.shape)))
            r = y * 2
            for w, kk in zip(wt, k):
                r = r + kk * w
            return r

        def norm(k, y):
            return y + k.normp(zeromode=1000.0)

        def norm1(k, y):
            return y + k.normp(p=1)
        f, s = fresh()
        r = f.apply(func, kind=cfg['coord'])
        outs.append(('into a new field', read(r, s), read(f, s), sum(calls) == int(np.prod(f.shape)), 0))
        f, s = fresh()
        r = f.apply(func, kind=cfg['coord'], out=Ellipsis)
        outs.append(('in place', read(f, s), None, r is f, 0))
        f, s = fresh()
        g, s = fresh()
        r = f.apply(func, kind=cfg['coord'], out=g)
        outs.append(('into a field', read(g, s), read(f, s), r is g, 0))
        f, s = fresh()
        a = np.zeros(f.shape, f.dtype)
        f.apply(func, kind=cfg['coord'], out=a)
        outs.append(('into an array', read(a, s), read(f, s), True, 0))
        f, s = fresh()
        r = f.apply(norm, kind=cfg['coord'])
        outs.append(('norm', read(r, s), read(f, s), True, 1))
        r = f.apply(norm1, kind=cfg['coord'])
        outs.append(('norm1', read(r, s), read(f, s), True, 2))
        return outs

    R = env.spmd(ranks(cfg), rank)
    for t in range(len(R[0])):
        now, was = {}, {}
        for r in R:
            what, a, b, ok, n = r[t]
            now.update(a)
            was.update(b or {})
            c.check(ok, 'the result of apply', what)
        c.check(set(now) == set(stored), 'a cell lives on no rank')
        for q in stored:
            k = coord(q)
            if n == 0:
                add, mul = sum(w * x for w, x in zip(wt, k)), 2
            elif n == 1:
                add, mul = sum(x * x for x in k) or 1000, 1
            else:
                add, mul = sum(abs(x) for x in k), 1
            c.check(near(c, now[q], V[q] * mul + add, 10000), 'a cell does not hold the function of its own value and coordinates', dict(cell=q, out=what))
        if was:
            c.check_all([c.close(was[q], V[q]) for q in stored], 'the input changed', what)
