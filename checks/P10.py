"""Preview, global sum and mean aggregate over all ranks"""
from checks._pm import *
import itertools

LEVEL = 'model_checking'
BOUNDS = ('every content of the field; 2-d and 3-d meshes of 1 to 6 cells per axis, even, odd and non-cubic; up to 6 ranks in any placement from a list, including ranks without cells; every ordered choice of axes; '
          'previews of complex fields on axes of 1, 2 and 4 cells; previews at half, twice and mixed resolution, compared with the field down- or upsampled to that resolution (P08)')
OUTSIDE = 'larger meshes; floating-point rounding'


def configs(tier):
    out = []
    Ns = [(4, 3), (4, 2, 3), (3, 4, 4)] + ([(5, 6), (1, 5), (5, 4, 3), (2, 6, 5)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            for dt in ('f8', 'f4', 'c16'):
                if dt != 'f8' and s not in ('2x2p', '3p'):
                    continue
                out.append(dict(name='%s-%s-%s' % ('x'.join(map(str, N)), s, dt), N=N, np=p, placement=pl, kind='real', pdtype=dt, f4=dt == 'f4'))
    for N in [(4, 2), (2, 4, 4)]:
        for s, p, pl in procs(len(N), tier):
            for kind in KINDS[1:]:
                out.append(dict(name='%s-%s-%s' % ('x'.join(map(str, N)), s, kind[:2]), N=N, np=p, placement=pl, kind=kind, pdtype='f8'))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    real = cfg['kind'] == 'real'
    order = cells([0] * nd, N)
    V = {q: (c.cplx if cfg['pdtype'] == 'c16' else c.real)('v' + '_'.join(map(str, q)), -4, 4) for q in order}
    L = [1.0] * nd
    choices = [a for k in range(1, nd + 1) for a in itertools.permutations(range(nd), k)]

    def rank(comm):
        pm = mesh(env, comm, cfg, L)
        f = pm.create('real')
        s = [int(x) for x in f.start]
        for m in cells(s, f.shape):
            f.value[tuple(a - b for a, b in zip(m, s))] = V[m]
        if not real:
            g = f.r2c() if cfg['kind'] == 'transposedcomplex' else f.cast(type=cfg['kind'])
        else:
            g = f
        out = [(None, g.preview()), (None, g.preview(Nmesh=np.array(N)))]
        if real:
            out += [(a, g.preview(axes=list(a))) for a in choices]
            out += [((d,), g.preview(axes=d)) for d in range(nd)]
        else:
            out += [((0,), g.preview(axes=[0])), ((1, 0), g.preview(axes=[1, 0]))]
        res = []
        if real and cfg['pdtype'] == 'f8' and cfg.get('other', True):
            half, twice = [-(-n // 2) for n in N], [2 * n for n in N]
            mixed = [half[0]] + twice[1:]
            one = [min(N)] * nd
            for M, how, kw in ((half, 'down', {}), (mixed, 'down', {}), (twice, 'up', {}), (half, 'up', dict(method='upsample')), (twice, 'down', dict(method='downsample')),
                               (half, 'down', dict(resampler='nnb')), (N, None, {}), (one, 'down', dict(scalar=1))):
                if len(order) > 30 and M == twice and how == 'down':
                    continue
                kw = dict(kw)
                a = one[0] if kw.pop('scalar', 0) else np.array(M)
                q = pm.reshape(Nmesh=np.array(M))
                t = g if list(M) == list(N) else getattr(q, how + 'sample')(g, resampler=kw.get('resampler'), keep_mean=True)
                res.append((M, g.preview(Nmesh=a, **kw), t.preview(), g.preview(Nmesh=a, axes=[nd - 1, 0], **kw), t.preview(axes=[nd - 1, 0])))
        keep = {m: f.value[tuple(a - b for a, b in zip(m, s))] for m in cells(s, f.shape)}
        return out, f.csum(), f.cmean(), keep, res

    R = env.spmd(ranks(cfg), rank)
    total = sum(V.values())
    for r, (out, csum, cmean, keep, res) in enumerate(R):
        c.check(near(c, csum, total), 'the global sum', dict(rank=r))
        c.check(near(c, cmean * len(order), total), 'the global mean', dict(rank=r))
        c.check_all([c.close(keep[q], V[q]) for q in keep], 'the field changed', dict(rank=r))
        for axes, p in out:
            d = dict(rank=r, axes=axes)
            ax = tuple(range(nd)) if axes is None else axes
            c.check(tuple(p.shape) == tuple(N[a] for a in ax), 'the shape of a preview', d)
            want = {}
            for q in order:
                k = tuple(q[a] for a in ax)
                want[k] = want.get(k, 0) + V[q]
            c.check_all([near(c, p[k], want[k]) for k in want], 'a preview differs from the sum over the other axes', d)
        for k, (M, a, b, x, y) in enumerate(res):
            d = dict(rank=r, resolution=list(M), case=k)
            c.check(tuple(a.shape) == tuple(M) and tuple(x.shape) == (M[-1], M[0]), 'the shape of a preview at another resolution', d)
            c.check_all([near(c, p, q) for p, q in zip(a.ravel(), b.ravel())] + [near(c, p, q) for p, q in zip(x.ravel(), y.ravel())], 'a preview at another resolution is not that of the resampled field', d)
