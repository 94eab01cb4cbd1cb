"""Fourier inner products weigh compressed modes correctly"""
from checks._pm import *
import itertools

LEVEL = 'model_checking'
BOUNDS = ('every content of both fields; 2-d and 3-d meshes of 1 to 6 cells per axis, even and odd; up to 4 ranks in any placement from a list, also with ranks that hold no mode; transposed and untransposed, compressed and '
          'full complex fields, real fields; no metric and a metric that distinguishes the lengths of the wave vectors; the norm and a norm of one\'s own that returns a view')
OUTSIDE = 'larger meshes; the imaginary part of the inner product of compressed fields (undocumented)'


def configs(tier):
    out = []
    Ns = [(4, 4), (4, 3), (4, 2, 4), (3, 2, 3)] + ([(4, 4, 4), (5, 4, 3), (2, 6, 5)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            if s in ('3x1', '1x2') and tier == 'quick':
                continue
            for kind in KINDS:
                for dt in ('f8', 'c16'):
                    if dt == 'c16' and (kind != 'transposedcomplex' or s not in ('1', '2', '2x2p')):
                        continue
                    if kind == 'real' and s in ('1', '2x1'):
                        continue
                    out.append(dict(name='%s-%s-%s-%s' % ('x'.join(map(str, N)), s, kind[:2], dt), N=N, np=p, placement=pl, kind=kind, pdtype=dt))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    real = cfg['kind'] == 'real'
    full = cfg['pdtype'] == 'c16'
    size = list(N)
    if not real and not full:
        size[-1] = N[-1] // 2 + 1
    stored = cells([0] * nd, size)
    mkv = c.real if real else c.cplx
    V = {q: mkv('v' + '_'.join(map(str, q)), -4, 4) for q in stored}
    W = {q: mkv('w' + '_'.join(map(str, q)), -4, 4) for q in stored}
    L = [2.0, 4.0, 8.0][:nd]
    metric = lambda k: k ** 2 + 3

    def rank(comm):
        pm = mesh(env, comm, cfg, L)
        f, g = pm.create(cfg['kind']), pm.create(cfg['kind'])
        st = [int(s) for s in f.start]
        mine = cells(st, f.shape)
        loc = lambda q: tuple(a - b for a, b in zip(q, st))
        for m in mine:
            f.value[loc(m)] = V[m]
            g.value[loc(m)] = W[m]
        out = [f.cdot(g), f.cnorm()]
        if not real:
            out += [f.cdot(g, metric=metric), f.cnorm(metric=metric), f.cdot(f)]
            linear = [f.cnorm(norm=lambda x: x.real), f.cnorm(metric=metric, norm=lambda x: x.real)]
            j = g.cdot_vjp(2.0)
            out.append({m: j.value[loc(m)] for m in mine})
            j = g.cdot_vjp(2.0, metric=metric)
            out.append({m: j.value[loc(m)] for m in mine})
            j = f.decompress_vjp()
            out.append({m: j.value[loc(m)] for m in mine})
            h = pm.create(cfg['kind'], value=f)
            h.decompress_vjp(out=Ellipsis)
            out.append({m: h.value[loc(m)] for m in mine})
        if real:
            linear = None
        return out, {m: (f.value[loc(m)], g.value[loc(m)]) for m in mine}, f.cdot(g.value), linear

    R = env.spmd(ranks(cfg), rank)
    now = {}
    for r in R:
        now.update(r[1])
    c.check_all([c.close(now[k][0], V[k]) for k in stored] + [c.close(now[k][1], W[k]) for k in stored], 'an inner product changed its arguments')
    for r in R:
        c.check(c.close(r[2], r[0][0]), 'the inner product with an array differs from that with a field')
    if real:
        for r in R:
            c.check(c.close(r[0][0], total(V[q] * W[q] for q in stored)), 'the inner product is not the sum over the mesh')
            c.check(c.close(r[0][1], total(V[q] * V[q] for q in stored)), 'the norm is not the sum over the mesh')
        return
    import math

    def k2(q):
        return sum((2 * math.pi * signed(i, n) / l) ** 2 for i, n, l in zip(q, N, L))

    def spec(a, b, met):
        s = 0
        for q in cells([0] * nd, N):
            m = tuple(-x % n for x, n in zip(q, N))
            if q in a:
                t = prod(a[q], b[q])
            else:
                t = prod(a[m], b[m])                # the conjugate pair has the same real part
            if met:
                t = t * (core.rat(k2(q) + 3) if c.symbolic else k2(q) + 3)
            s = s + t
        return s

    def prod(x, y):
        return x.real * y.real + x.imag * y.imag

    exact = {}
    for r in R:
        o = r[0]
        c.check(c.close(real_(o[0]), spec(V, W, 0)), 'the inner product is not the sum over all modes')
        c.check(c.close(o[1], spec(V, V, 0)), 'the norm is not the sum over all modes')
        c.check(c.close(o[4], spec(V, V, 0)), 'the inner product of a field with itself is not its norm')
        c.check(same_poly(c, real_(o[2]), spec(V, W, 1)), 'the inner product with a metric is not the sum over all modes')
        c.check(same_poly(c, o[3], spec(V, V, 1)), 'the norm with a metric is not the sum over all modes')
        weight = lambda q: 1 if full or q[-1] == 0 or 2 * q[-1] == N[-1] else 2
        c.check(c.close(real_(r[3][0]), total(V[q].real * weight(q) for q in stored)), 'the sum of a given norm is not the sum over all modes')
        c.check(same_poly(c, real_(r[3][1]), total(V[q].real * weight(q) * (core.rat(k2(q) + 3) if c.symbolic else k2(q) + 3) for q in stored)),
                'the sum of a given norm with a metric is not the sum over all modes')
    for t, scale in ((5, lambda q: 2), (6, lambda q: 2 * (k2(q) + 3)), (7, None), (8, None)):
        got = {}
        for r in R:
            got.update(r[0][t])
        for q in stored:
            if scale is None:
                if full:
                    continue
                f = 1 if all(2 * x % n == 0 for x, n in zip(q, N)) else 2
                c.check(c.close(got[q], V[q] * f), 'the weight of a mode in the back-propagated decompression', dict(mode=q))
            else:
                z = got[q]
                s = scale(q)
                c.check(sand(near(c, z.real, W[q].real * (core.rat(s) if c.symbolic else s), 1000), near(c, z.imag, W[q].imag * (core.rat(s) if c.symbolic else s), 1000)),
                        'the back-propagated inner product', dict(mode=q))


def total(it):
    s = 0
    for x in it:
        s = s + x
    return s


def real_(z):
    return z.real if hasattr(z, 'real') else z


def same_poly(c, a, b):
    """equal up to the rounding of the coefficients"""
    if not c.symbolic:
        return c.close(a, b)
    if isinstance(a, core.SCplx):
        return sand(same_poly(c, a.real, b), same_poly(c, a.imag, 0))
    if isinstance(a, complex):
        a = a.real
    d = SNum.of(a) - b
    return all(abs(k) <= core.rat(1e-9) for k in d.t.values())
