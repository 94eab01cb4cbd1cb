"""Ravel and unravel are inverse global C-order permutations"""
from checks._pm import *

LEVEL = 'model_checking'
BOUNDS = ('every content of the field; 2-d and 3-d meshes of 1 to 6 cells per axis, even, odd and non-cubic; up to 6 ranks in any placement from a list, including ranks without cells; real, transposed and untransposed complex '
          'fields, compressed or not; result in a new array, in a given array, and in place; global positions sorted by a stand-in for mpsort that follows its documentation')
OUTSIDE = 'larger meshes; the implementation of mpsort'


def configs(tier):
    out = []
    Ns = [(4, 3), (4, 2, 3), (3, 4, 4)] + ([(5, 6), (1, 5), (4, 4, 4), (5, 4, 3), (2, 6, 5)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            for kind in KINDS:
                for dt in ('f8', 'c16'):
                    if dt == 'c16' and s not in ('2x2p', '3p'):
                        continue
                    out.append(dict(name='%s-%s-%s-%s' % ('x'.join(map(str, N)), s, kind[:2], dt), N=N, np=p, placement=pl, kind=kind, pdtype=dt))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    real = cfg['kind'] == 'real'
    size = list(N)
    if not real and cfg['pdtype'] == 'f8':
        size[-1] = N[-1] // 2 + 1
    order = cells([0] * nd, size)                # C order
    V = {q: (c.real if real and cfg['pdtype'] == 'f8' else c.cplx)('v' + '_'.join(map(str, q)), -4, 4) for q in order}
    L = [1.0] * nd

    def rank(comm):
        pm = mesh(env, comm, cfg, L)

        def fresh():
            f = pm.create(cfg['kind'])
            s = [int(x) for x in f.start]
            for m in cells(s, f.shape):
                f.value[tuple(a - b for a, b in zip(m, s))] = V[m]
            return f, s

        def read(f, s):
            return {m: f.value[tuple(a - b for a, b in zip(m, s))] for m in cells(s, f.shape)}
        f, s = fresh()
        n = len(read(f, s))
        a = list(f.ravel())
        keep = read(f, s)
        out = np.zeros(n, dtype=f.value.dtype)
        f.ravel(out=out)
        b = list(out)
        f.ravel(out=Ellipsis)
        d = list(f.value.flat)
        # back from an array that holds the global order
        k = sum(comm.allgather(n)[:comm.rank])
        part = np.zeros(n, dtype=f.value.dtype)
        for i in range(n):
            part[i] = V[order[k + i]]
        g = pm.create(cfg['kind'], value=0)
        g.unravel(part)
        h = pm.unravel(type(g), part.flat)
        same = [part[i] for i in range(n)]
        f2, s = fresh()
        u = f2.ravel()
        t = pm.create(cfg['kind'], value=0)
        t.unravel(u)
        return n, a, keep, b, d, read(g, s), read(h, s), same, read(t, s)

    R = env.spmd(ranks(cfg), rank)
    k = 0
    for r, (n, a, keep, b, d, g, h, same, t) in enumerate(R):
        want = [V[q] for q in order[k:k + n]]
        for name, got in (('new array', a), ('given array', b), ('in place', d)):
            c.check(len(got) == n, 'the number of elements of a ravelled field', dict(rank=r, out=name))
            c.check_all([c.close(x, y) for x, y in zip(got, want)], 'ravelling gives the wrong elements', dict(rank=r, out=name))
        c.check_all([c.close(x, y) for x, y in zip(same, want)], 'unravelling changed its input', dict(rank=r))
        c.check_all([c.close(keep[q], V[q]) for q in keep], 'ravelling changed the field', dict(rank=r))
        for name, got in (('field', g), ('new field', h), ('round trip', t)):
            c.check_all([c.close(got[q], V[q]) for q in got], 'unravelling does not restore the field', dict(rank=r, into=name))
        k += n
    c.check(k == len(order), 'elements are missing')
