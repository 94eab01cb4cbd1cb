"""White noise is Hermitian with a real field behind it"""
from checks._wn import *

LEVEL = 'model_checking'
BOUNDS = 'every random stream; 3-d meshes of 1 to 12 cells per axis, even and odd, cubic and not (a list of shapes up to 8x8x8; up to 14x14x14 and 24x24x4 in the thorough tier), full and compressed storage, both precisions, unitary or not'
OUTSIDE = 'larger meshes; the 1-d and 2-d fields (a plain FFT of normal numbers)'


def configs(tier):
    out = []
    Ns = [(2, 2, 2), (4, 4, 4), (2, 4, 6), (4, 2, 2), (6, 4, 2), (6, 6, 6), (4, 6, 4), (2, 2, 4), (3, 3, 3), (5, 5, 5), (4, 4, 5), (5, 3, 4), (3, 4, 4), (1, 4, 2), (4, 1, 3),
          (8, 8, 8), (8, 4, 6), (10, 10, 4), (4, 4, 12), (2, 8, 8), (7, 7, 7), (9, 4, 7), (2, 9, 3)]
    if tier == 'thorough':
        Ns += [(10, 10, 10), (12, 12, 12), (16, 16, 6), (16, 4, 16), (6, 20, 4), (11, 11, 11), (13, 8, 5), (8, 15, 6), (14, 14, 14), (24, 24, 4)]
    for N in Ns:
        for u in (0, 1):
            out.append(dict(name='%s-%d' % ('x'.join(map(str, N)), u), N=N, unitary=u, weight=N[0] * N[1]))
    out.append(dict(name='single', N=(4, 4, 4), unitary=0, dtype='c8', weight=16))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    dt = cfg.get('dtype', 'c16')
    H = N[2] // 2 + 1
    f, _ = gen(env, [0, 0, 0], N, N, 42, cfg['unitary'], dt)
    h, _ = gen(env, [0, 0, 0], (N[0], N[1], H), N, 42, cfg['unitary'], dt)
    bad = []
    for i in range(N[0]):
        for j in range(N[1]):
            for k in range(N[2]):
                z = f[i, j, k]
                w = f[-i % N[0], -j % N[1], -k % N[2]]
                if not agree(c, z, conj(w)):
                    c.check(agree(c, z, conj(w)), 'a mode is not the conjugate of its mirror', dict(mode=(i, j, k)))
                    bad.append((i, j, k))
                if k < H:
                    c.check(agree(c, h[i, j, k], z), 'compressed and full storage differ', dict(mode=(i, j, k)))
                    if 2 * k % N[2] == 0:
                        c.check(agree(c, h[i, j, k], conj(h[-i % N[0], -j % N[1], k])), 'a compressed mode is not the conjugate of its mirror', dict(mode=(i, j, k)))
    c.check(not bad, 'modes that are not the conjugate of their mirror', dict(modes=bad[:5]))
    c.check(agree(c, f[0, 0, 0], 0) , 'the zero mode is not zero')
    c.check(agree(c, h[0, 0, 0], 0) , 'the zero mode is not zero')
    if c.symbolic:
        c.check(len(LOG) > 0, 'no random numbers were drawn')


def agree(c, a, b):
    r = c.close(a, b)
    return r if isinstance(r, bool) else bool(r) if not core.issym(r) else r


def conj(z):
    return z.conjugate() if hasattr(z, 'conjugate') else z
