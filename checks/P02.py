"""Fourier transforms are normalised inverses in every layout"""
from checks._pm import *

LEVEL = 'model_checking'
BOUNDS = ('every content of the real field and of the modes (hermitian where the storage is compressed); 2-d and 3-d meshes with axes of 1, 2 and 4 cells; up to 6 ranks in any placement from a list; transposed and untransposed modes, compressed '
          'and full; result in a new field, in a given field and in place; r2c, c2r, cast, and the back-propagation of r2c and c2r; the transform itself is a stand-in for pfft that computes the unnormalised Fourier sum')
OUTSIDE = 'axes of other sizes; the implementation of pfft; process meshes with as many axes as the mesh; floating-point rounding'


def configs(tier):
    out = []
    Ns = [(2, 4), (4, 2), (4, 2, 2), (2, 2, 4)] + ([(4, 4), (1, 4), (4, 1), (2, 4, 4), (4, 4, 2), (1, 4, 2), (4, 2, 1)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            for dt in ('f8', 'f4', 'c16'):
                if dt != 'f8' and s not in ('2x2p', '2', '1x2'):
                    continue
                if dt == 'f4' and N != Ns[0]:
                    continue
                out.append(dict(name='%s-%s-%s' % ('x'.join(map(str, N)), s, dt), N=N, np=p, placement=pl, pdtype=dt, f4=dt == 'f4'))
    return out


I = [1, 1j, -1, -1j]


def turn(c, z, n, m):
    """z * exp(2 pi i m / n)"""
    k = m % n * (4 // n) % 4
    z = core.SCplx.of(z) if c.symbolic else complex(z)
    if k == 0:
        return z
    if k == 2:
        return -z
    a, b = (-z.imag, z.real) if k == 1 else (z.imag, -z.real)
    return core.SCplx(a, b) if c.symbolic else complex(a, b)


def fourier(c, V, N, sign, todo):
    """the unnormalised Fourier sum of V for the listed indices"""
    r = {}
    for k in todo:
        s = 0
        for q, v in V.items():
            z = v
            for n, a, b in zip(N, k, q):
                z = turn(c, z, n, sign * a * b)
            s = s + z
        r[k] = s
    return r


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    full = cfg['pdtype'] == 'c16'
    size = list(N)
    if not full:
        size[-1] = N[-1] // 2 + 1
    cellsN = cells([0] * nd, N)
    stored = cells([0] * nd, size)
    V = {q: (c.cplx if full else c.real)('v' + '_'.join(map(str, q)), -4, 4) for q in cellsN}
    W = {q: (c.cplx if full else c.real)('w' + '_'.join(map(str, q)), -4, 4) for q in cellsN}
    total = len(cellsN)
    # modes of V (normalised); hermitian modes made from W (not normalised), whose transform back is W * total
    F = fourier(c, V, N, -1, stored)
    M = fourier(c, W, N, -1, stored)

    def shared(a, b):
        """the fields live in the same memory"""
        if 0 in [int(q) for q in a.shape] or 0 in [int(q) for q in b.shape]:
            return True
        if not env.symbolic:
            return np.shares_memory(a.value, b.value)
        x, y = getattr(a, '_base', None), getattr(b, '_base', None)
        return x is None or y is None or x in y

    def rank(comm):
        pm = mesh(env, comm, cfg, [1.0] * nd)
        L = []

        def put(kind, A, scale=None):
            f = pm.create(kind)
            s = [int(x) for x in f.start]
            for m in cells(s, f.shape):
                f.value[tuple(a - b for a, b in zip(m, s))] = A[m]
            return f

        def read(f):
            s = [int(x) for x in f.start]
            return {m: f.value[tuple(a - b for a, b in zip(m, s))] for m in cells(s, f.shape)}

        def is_(f, kind):
            return type(f).__name__ == dict(real='RealField', transposedcomplex='TransposedComplexField', untransposedcomplex='UntransposedComplexField')[kind]
        T, U = KINDS[1:]
        R = 'real'
        for k in (T, U):
            f = put(R, V)
            g = pm.create(k)
            r = f.r2c(out=g)
            L.append(('r2c into a field', 'F', read(g), r is g))
            L.append(('input of r2c', 'V', read(f), True))
            h = g.c2r()
            L.append(('r2c, c2r', 'V', read(h), is_(h, R)))
            L.append(('input of c2r', 'F', read(g), True))
            h = pm.create(R)
            r = g.c2r(out=h)
            L.append(('c2r into a field', 'V', read(h), r is h))
            g = put(k, M)
            h = g.c2r(out=Ellipsis)
            L.append(('c2r in place', 'W', read(h), is_(h, R) and shared(h, g)))
            f = put(R, V)
            r = f.cast(type=k)
            L.append(('cast to modes', 'F', read(r), is_(r, k)))
            L.append(('input of cast', 'V', read(f), True))
            g = put(k, M)
            r = g.cast(type='real')
            L.append(('cast to real', 'W', read(r), is_(r, R)))
            L.append(('input of cast', 'M', read(g), True))
            for k2 in (T, U):
                r = g.cast(type=k2)
                L.append(('cast between modes', 'M', read(r), is_(r, k2)))
                L.append(('input of cast', 'M', read(g), True))
            r = g.r2c_vjp()
            L.append(('r2c_vjp', 'Wn', read(r), is_(r, R)))
            L.append(('input of r2c_vjp', 'M', read(g), True))
            f = put(R, V)
            g = pm.create(k)
            r = f.c2r_vjp(out=g)
            L.append(('c2r_vjp', 'Fn', read(r), r is g))
            L.append(('input of c2r_vjp', 'V', read(f), True))
        f = put(R, V)
        g = f.r2c()
        L.append(('r2c', 'F', read(g), is_(g, T)))
        g = f.r2c(out=Ellipsis)
        L.append(('r2c in place', 'F', read(g), is_(g, T) and shared(g, f)))
        r = g.c2r(out=Ellipsis)
        L.append(('r2c, c2r in place', 'V', read(r), is_(r, R)))
        f = put(R, V)
        r = f.cast(type='real')
        L.append(('copy', 'V', read(r), is_(r, R) and r is not f))
        return L

    R = env.spmd(ranks(cfg), rank)
    for t in range(len(R[0])):
        what, key = R[0][t][:2]
        got = {}
        for r in R:
            got.update(r[t][2])
            c.check(r[t][3], 'the kind of the result', what)
        c.check(set(got) == set(stored if key[0] in 'FM' else cellsN), 'an element lives on no rank', what)
        # every quantity as (A, a): A == a * result
        A, m = dict(F=(F, total), V=(V, 1), W=(W, Fr(1, total)), M=(M, 1), Wn=(W, 1), Fn=(F, 1))[key]
        c.check_all([near(c, got[q] * (m if c.symbolic else float(m)) - A[q], 0) for q in got], 'the value of ' + what, dict(normalisation=key))


from fractions import Fraction as Fr
