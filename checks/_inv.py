from vsym import core, load, snp

PRELOAD = ['invariant']
REAL = ['_invariant']


def sym_env(cfg):
    snp.SYM_INTS[0] = True
    return load.SymEnv()


def vec(c, tag, nd, h, comp=False, top=64):
    """a mode of the mesh of 2h cells: components in (-h, h]"""
    x = [c.int('%s%d' % (tag, d), -top, top) for d in range(nd)]
    for d, q in enumerate(x):
        c.assume((q <= h) & (q > -h))
        if comp and d == nd - 1:
            c.assume(q >= 0)
    return x


def amax(x):
    m = 0
    for q in x:
        a = q if q >= 0 else -q
        m = a if a > m else m
    return m
