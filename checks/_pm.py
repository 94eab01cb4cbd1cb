"""shared by the checks of pmesh.pm: pfft and mpsort are replaced by stand-ins over symbolic arrays"""
from fractions import Fraction
from vsym import core, load, snp, pfftstub
from vsym.core import sand, sor, snot, SNum

PRELOAD = ['pm']
REAL = ['_domain', '_window', '_whitenoise']


def sym_env(cfg):
    pfft, mpsort = pfftstub.make(snp.snp, True)
    pfft.ProcMesh.placement = cfg.get('placement')
    e = load.SymEnv(pfft=pfft)
    e.stub['mpsort'] = mpsort
    return e


def real_env(path, cfg):
    import numpy
    pfft, mpsort = pfftstub.make(numpy, False)
    pfft.ProcMesh.placement = cfg.get('placement')
    return load.RealEnv(path, pfft=pfft, stub={'mpsort': mpsort})


def near(c, a, b, scale=1):
    """equal up to the rounding of constants such as pi"""
    if not c.symbolic:
        return c.close(a, b)
    if isinstance(a, (core.SCplx, complex)) or isinstance(b, (core.SCplx, complex)):
        a, b = core.SCplx.of(a), core.SCplx.of(b)
        return sand(near(c, a.real, b.real, scale), near(c, a.imag, b.imag, scale))
    d = SNum.of(a) - b
    t = core.rat(1e-9) * scale
    return sand(d <= t, d >= -t)


def signed(i, n):
    """the signed mode or cell number of index i: in [-n/2, n/2)"""
    i %= n
    return i if 2 * i < n else i - n


def conj(z):
    return z.conjugate() if hasattr(z, 'conjugate') else z


def box(c, nd, lo=1, hi=16):
    return [c.real('L%d' % d, lo, hi) for d in range(nd)]


def mesh(env, comm, cfg, L, **k):
    P = env.load('pm')
    a = dict(BoxSize=L, comm=comm, np=cfg.get('np'), dtype=cfg.get('pdtype', 'f8'))
    if 'resampler' in cfg:
        a['resampler'] = cfg['resampler']
    a.update(k)
    return P.ParticleMesh(a.pop('Nmesh', cfg['N']), **a)


def ranks(cfg):
    n = 1
    for p in cfg.get('np') or [1]:
        n *= p
    return n


def cells(start, shape):
    import itertools
    return list(itertools.product(*[range(int(s), int(s) + int(n)) for s, n in zip(start, shape)]))


# process meshes by the number of dimensions; (name suffix, np, placement)
def procs(nd, tier='quick'):
    o = [('1', [1] * min(2, nd - 1), None)]
    if nd == 3:
        o += [('2x1', [2, 1], None), ('1x2', [1, 2], None), ('2x2', [2, 2], None), ('2x2p', [2, 2], [2, 0, 3, 1]), ('3x1', [3, 1], None)]
        if tier == 'thorough':
            o += [('3x2', [3, 2], [5, 3, 1, 0, 2, 4]), ('1x4', [1, 4], None)]
    if nd == 2:
        o += [('2', [2], None), ('3p', [3], [1, 2, 0]), ('4', [4], None)]
    return o


KINDS = ['real', 'transposedcomplex', 'untransposedcomplex']
