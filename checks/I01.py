"""Invariant mode ids are a bijection onto a dense range"""
from checks._inv import *

LEVEL = 'model_checking'
BOUNDS = ('symbolic mode vectors; range of the ids, and id 0: symbolic even mesh size up to 2^21 cells per axis in 1 and 2 dimensions, 8192 in 3 (128 in 4, thorough tier), and the fixed sizes '
          '2048 and 8192 (more in the thorough tier); pairwise distinct ids: symbolic size up to 2^21 cells in 1 dimension, 16 in 2, the fixed sizes 32 and 64 in 2 dimensions, and every size up to 4 (quick) or 8 (thorough) in 3; full and compressed')
OUTSIDE = 'larger meshes; odd mesh sizes; 64-bit overflow of the ids'
# distinct + all within a range as large as the number of modes = every id used exactly once


def configs(tier):
    out = []
    for comp in (0, 1):
        t = 'c' if comp else 'f'
        for nd, h in ((1, 2 ** 20), (2, 2 ** 20), (3, 4096)) + (((4, 64),) if tier == 'thorough' else ()):
            out.append(dict(name='range-%dd-%s' % (nd, t), kind='range', nd=nd, comp=comp, h=h, weight=nd))
        for nd in (1, 2, 3):
            for h in ((1024, 4096) if tier == 'quick' else (513, 1024, 4096, 2 ** 15, 2 ** 20)):
                out.append(dict(name='large-%dd-%s-%d' % (nd, t, 2 * h), kind='range', nd=nd, comp=comp, h=h, fixed=1, weight=nd))
        out.append(dict(name='distinct-1d-%s' % t, kind='pair', nd=1, comp=comp, h=2 ** 20))
        for s in range(3):
            out.append(dict(name='distinct-2d-%s-%d' % (t, s), kind='pair', nd=2, comp=comp, h=8, part=s, weight=3))
            for h in (16, 32) if tier == 'quick' else (16, 25, 32, 50):
                out.append(dict(name='distinct-2d-%s-%d-%d' % (t, s, 2 * h), kind='pair', nd=2, comp=comp, h=h, fixed=1, part=s, weight=3))
        for s in range(9):
            out.append(dict(name='distinct-3d-%s-%d' % (t, s), kind='pair', nd=3, comp=comp, h=2 if tier == 'quick' else 4, part=s, weight=5))
    out.append(dict(name='negative-c', kind='neg', nd=3, comp=1, h=16))
    return out


def harness(c, env, cfg):
    np = env.np
    I = env.load('invariant')
    nd, comp = cfg['nd'], cfg['comp']
    h = cfg['h'] if cfg.get('fixed') else c.int('h', 1, cfg['h'])
    if cfg['kind'] == 'pair' and nd == 3:
        h = int(h)                    # fork: keeps the arithmetic linear in the mesh size
    N = 2 * h
    total = N
    for d in range(nd - 2):
        total = total * N
    if nd > 1:
        total = total * (h + 1 if comp else N)
    else:
        total = h + 1 if comp else N
    if cfg['kind'] == 'neg':
        x = vec(c, 'x', nd, h, False, cfg['h'])
        c.assume((x[nd - 1] < 0) & (x[nd - 1] > -h))
        r = I.get_index(np.array([x]), np.array([N] * nd), compressed=True)
        c.check(r[0] == -1, 'a mode that is not stored has an id')
        return
    x = vec(c, 'x', nd, h, comp, cfg['h'])
    if cfg['kind'] == 'range':
        r = I.get_index(np.array([x]), np.array([N] * nd), compressed=bool(comp))
        i = r[0]
        c.check((i >= 0) & (i < total), 'id outside the dense range')
        if i == 0:
            c.check_all([q == 0 for q in x], 'id 0 is not the zero mode')
        return
    if 'part' in cfg:
        # split the work: sign of the first components
        p = cfg['part']
        for d in range(2 if nd == 3 else 1):
            k = p % 3
            p //= 3
            c.assume([x[d] > 0, x[d] < 0, x[d] == 0][k])
    y = vec(c, 'y', nd, h, comp, cfg['h'])
    r = I.get_index(np.array([x, y]), np.array([N] * nd), compressed=bool(comp))
    c.check_all([(r[0] != r[1]) | core.sand(*[a == b for a, b in zip(x, y)])], 'two modes share an id')
