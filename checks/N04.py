"""Unitary noise has unit amplitude, normal noise has the right amplitude"""
from checks._wn import *
import math

LEVEL = 'model_checking'
BOUNDS = 'every random stream (draws in the open unit interval, and zero as the first amplitude draw of a stream); 3-d meshes with up to 10 cells per axis (16 in the thorough tier), full and compressed, both precisions'
OUTSIDE = ('larger meshes; the 1-d and 2-d fields. In the replay, where the stream is the real generator, the amplitude law is confirmed statistically (mean square amplitude within 35 % of one on a mesh of 512 modes)')


def configs(tier):
    out = []
    Ns = [(2, 2, 2), (4, 4, 4), (2, 4, 6), (6, 6, 4), (3, 3, 3), (5, 2, 3), (4, 3, 2), (8, 8, 8), (6, 6, 6), (10, 4, 4)] + ([(10, 10, 10), (12, 12, 6), (16, 4, 8), (9, 9, 9), (4, 16, 5)] if tier == 'thorough' else [])
    for N in Ns:
        for comp in (0, 1):
            out.append(dict(name='%s-%s' % ('x'.join(map(str, N)), 'fc'[comp]), N=N, comp=comp, weight=N[0] * N[1]))
    out.append(dict(name='single', N=(4, 4, 4), comp=1, dtype='c8', weight=16))
    out.append(dict(name='zero-draw', N=(2, 2, 2), comp=1, zero=1, max_paths=4000, weight=30))
    return out


def harness(c, env, cfg):
    N, comp = cfg['N'], cfg['comp']
    dt = cfg.get('dtype', 'c16')
    size = (N[0], N[1], N[2] // 2 + 1 if comp else N[2])
    del LOG[:]
    if cfg.get('zero'):
        c.zero_draws = (1,)
    g, _ = gen(env, [0, 0, 0], size, N, 42, 0, dt)
    u, _ = gen(env, [0, 0, 0], size, N, 42, 1, dt)
    if not c.symbolic:
        return concrete(c, env, cfg, g, u, size, N)
    # the spec: pairs (phase, amplitude) of consecutive draws of a stream
    streams = {}
    for s, n, v in LOG:
        streams.setdefault(s.key(), {})[n] = v
    cosines = {}
    for st in streams.values():
        n = 0
        while n in st and n + 1 in st:
            ph, am = st[n], st[n + 1]
            n += 2
            while not c.implied(am > 0):
                # a zero draw is drawn again
                am = st[n]
                n += 1
            p = SNum.of(2) * ph * core.rat(math.pi)
            co, si = c.ufun('cos', p), c.ufun('sin', p)
            cosines.setdefault(SNum.of(co).key(), []).append((co, si, c.ufun('sqrt', -c.ufun('log', am))))
    for i in range(size[0]):
        for j in range(size[1]):
            for k in range(size[2]):
                if (i, j, k) == (0, 0, 0):
                    continue
                self = all(2 * x % n == 0 for x, n in zip((i, j, k), N))
                a, b = g[i, j, k], u[i, j, k]
                if self:
                    c.check(sand(c.close(b, 1), any_of(c, [c.close(a, am * co) for l in cosines.values() for co, si, am in l])), 'a self-conjugate mode does not follow the amplitude law', dict(mode=(i, j, k)))
                    continue
                cand = cosines.get(SNum.of(core.SCplx.of(b).real).key())
                if cand is None:
                    cand = [x for l in cosines.values() for x in l]
                c.check(any_of(c, [sand(c.close(b.real, co), sor(sand(c.close(b.imag, si), c.close(a.imag, am * si)), sand(c.close(b.imag, -si), c.close(a.imag, -(am * si)))), c.close(a.real, am * co)) for co, si, am in cand]),
                        'a mode is not sqrt(-log u) exp(2 pi i v) of its stream, or its unitary version is not exp(2 pi i v)', dict(mode=(i, j, k)))


def any_of(c, conds):
    for x in conds:
        if x is True:
            return True
    return sor(*conds)


def concrete(c, env, cfg, g, u, size, N):
    tol = 1e-4 if cfg.get('dtype') == 'c8' else 1e-9
    for i in range(size[0]):
        for j in range(size[1]):
            for k in range(size[2]):
                if (i, j, k) == (0, 0, 0):
                    continue
                a, b = complex(g[i, j, k]), complex(u[i, j, k])
                c.check(abs(a) < 1e3 and a == a, 'a mode is not finite', (i, j, k))
                if all(2 * x % n == 0 for x, n in zip((i, j, k), N)):
                    c.check(abs(b - 1) < tol, 'a self-conjugate mode does not follow the amplitude law', (i, j, k))
                    continue
                c.check(abs(abs(b) - 1) < tol, 'a unitary mode has not modulus one', (i, j, k))
                c.check(abs(a - abs(a) * b) < tol * 10, 'unitary and normal noise have different phases', (i, j, k))
    big, _ = gen(env, [0, 0, 0], (8, 8, 5 if cfg['comp'] else 8), (8, 8, 8), 42, 0)
    v = [abs(complex(z)) ** 2 for z in big.ravel()]
    m = sum(v) / (len(v) - 1)
    c.check(abs(m - 1) < 0.35, 'the mean square amplitude is not one', m)
    ub, _ = gen(env, [0, 0, 0], (8, 8, 5 if cfg['comp'] else 8), (8, 8, 8), 42, 1)
    # phases are uniform: the means of cos, sin, cos 2p and sin 2p vanish up to sampling noise
    for p in (1, 2, 3):
        s = sum(complex(z) ** p for (i, j, k), z in np_items(ub) if 0 < k < 4) / (64 * 3)
        c.check(abs(s) < 0.35, 'the phases are not uniform', s)


def np_items(a):
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            for k in range(a.shape[2]):
                yield (i, j, k), a[i, j, k]
