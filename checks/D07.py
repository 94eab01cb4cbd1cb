"""Packed multi-column exchange equals separate exchanges"""
from checks._dom import *
from checks.D03 import layouts, alike, make

LEVEL = 'model_checking'
BOUNDS = ('every set of target ranks for every item: 1 to 3 ranks with up to 3 items in total; 2, 3, 11 and 12 columns of differing type (double, single, complex, integer) and trailing shape; symbolic values')
OUTSIDE = 'more ranks, items or columns'


def configs(tier):
    cols = [('f8', 'v3'), ('i8', 'f8', 'm22'), ('f4', 'i4'), ('c16', 'f8'), ('list', 'strided', 'fortran'), ('i4', 'v3', 'i8'), ('i8', 'i8')]
    out = []
    for k in cols:
        t = '-'.join(k)
        out.append(dict(name='2r-' + t, cols=k, counts=(2, 1), weight=2))
        out.append(dict(name='1r-' + t, cols=k, counts=(2,)))
    out.append(dict(name='3r', cols=('f8', 'i8'), counts=(1, 1, 1), weight=5))
    out.append(dict(name='empty', cols=('v3', 'i8'), counts=(2, 0), weight=2))
    out.append(dict(name='empty0', cols=('v3', 'i8'), counts=(0, 2), weight=2))
    out.append(dict(name='decompose', cols=('v3', 'i8'), counts=(2, 1), weight=6, decompose=1))
    out.append(dict(name='wide-12', cols=('i8', 'f8', 'i4') * 4, counts=(2, 0), weight=2))
    out.append(dict(name='wide-11', cols=('f8',) * 11, counts=(1, 1), weight=2))
    if tier == 'thorough':
        out.append(dict(name='wide-101', cols=('f8',) * 101, counts=(1, 1), weight=9))
        out.append(dict(name='3r-4', cols=('f8', 'i8', 'v3'), counts=(2, 1, 1), weight=9, budget=700))
        out.append(dict(name='2r-5', cols=('m22', 'i4', 'f4'), counts=(3, 2), weight=9, budget=700))
    return out


def harness(c, env, cfg):
    D = env.load('domain')
    np = env.np
    nr = len(cfg['counts'])
    mk, T = layouts(c, env, cfg, D)
    data, rows = {}, {}
    for r, n in enumerate(cfg['counts']):
        q = [make(c, np, f, 'v%d_%d_' % (r, j), n) for j, f in enumerate(cfg['cols'])]
        data[r] = [a for a, b in q]
        rows[r] = [b for a, b in q]

    def rank(comm):
        lay = mk(comm)
        a = data[comm.rank]
        packed = lay.exchange(*a)
        plain = lay.exchange(*a, pack=False)
        alone = [lay.exchange(x) for x in a]
        return packed, plain, alone

    R = env.spmd(nr, rank)
    for r in range(nr):
        packed, plain, alone = R[r]
        c.check(len(packed) == len(plain) == len(cfg['cols']), 'number of returned columns')
        for j in range(len(cfg['cols'])):
            c.check(tuple(packed[j].shape) == tuple(alone[j].shape) == tuple(plain[j].shape) and packed[j].dtype == alone[j].dtype, 'shape or type of an exchanged column')
            want = [rows[s][j][i] for s, i in received(T, r)]
            c.check(alike(c, alone[j], want), 'exchange of one column', dict(targets=T))
            c.check(alike(c, packed[j], alone[j]), 'packed exchange differs from separate exchange', dict(targets=T))
            c.check(alike(c, plain[j], alone[j]), 'unpacked exchange of several columns differs from separate exchange', dict(targets=T))
            c.check(alike(c, data[r][j], rows[r][j]), 'exchange modified its input')
