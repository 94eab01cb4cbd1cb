"""Line integral convolution integrates the texture along the flow"""
from checks._pm import *
from checks.P08 import stencil
from fractions import Fraction as Fr

LEVEL = 'model_checking'
BOUNDS = ('every texture; given flow fields (uniform, sheared, rotating, at rest in places; normalised or not, faster on one rank than on the others), 2-d meshes of 2 to 8 cells per axis with cells of size 1/2, 1 and 2, lengths of up to 4 pixels, '
          'steps of 1/2 to 2 pixels; 1 to 4 ranks, including ranks without cells; nearest, linear and quadratic windows')
OUTSIDE = 'symbolic flow fields; larger meshes; the default texture; floating-point rounding'


def configs(tier):
    out = []

    def add(N, np, flow, win='cic', length=3.0, ds=1.0, cell=1.0, norm=False, ker='flat', pl=None):
        out.append(dict(name='%s-%s-%s-%s-%g-%g-%g-%d-%s' % ('x'.join(map(str, N)), np, flow, win, length, ds, cell, norm, ker), N=N, np=[np], flow=flow, win=win, length=length, ds=ds, cell=cell, norm=norm, ker=ker, placement=pl))
    for np, pl in ((2, None), (3, [1, 2, 0]), (4, None)):
        for flow in ('x', 'y', 'shear', 'rest', 'jump'):
            for norm in (False, True):
                add((5, 3), np, flow, norm=norm, pl=pl)
        add((6, 2), np, 'jump', 'nnb', ds=2.0, length=4.0)
        add((6, 3), np, 'jump', 'tsc', ds=0.5, length=1.0, ker='ramp')
        add((4, 4), np, 'jump', cell=0.5)
        add((4, 3), np, 'x', cell=2.0, length=4.0, ds=2.0)
        add((4, 4), np, 'shear', norm=True, ker='ramp')
        if tier == 'thorough':
            for cell in (0.5, 1.0, 2.0):
                for win in ('nnb', 'cic', 'tsc', 'pcs'):
                    for flow in ('jump', 'shear', 'rest', 'x'):
                        for norm in (False, True):
                            add((8, 3), np, flow, win, length=4.0, ds=0.5, cell=cell, norm=norm, ker='ramp', pl=pl)
    return out


FLOW = {'x': lambda i, N: (1.0, 0.0), 'y': lambda i, N: (0.0, -1.0), 'shear': lambda i, N: (0.0, 0.5 * (i[0] - 1)), 'rest': lambda i, N: (1.0, 0.0) if i[1] else (0.0, 0.0),
        'jump': lambda i, N: (3.0, 0.0) if 2 * i[0] >= N[0] else (0.25, 0.0)}
KER = {'flat': lambda s: 1.0, 'ramp': lambda s: 1.0 + 0.5 * s}


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    L = [n * cfg['cell'] for n in N]
    order = cells([0] * nd, N)
    T = {q: c.real('t' + '_'.join(map(str, q)), -4, 4) for q in order}
    flow = FLOW[cfg['flow']]

    def run(comm, pnp):
        pm = mesh(env, comm, cfg, L, np=pnp)
        lic = env.load('lic').lic
        fs = [pm.create('real') for d in range(nd)]
        t = pm.create('real')
        s = [int(x) for x in t.start]
        loc = lambda q: tuple(a - b for a, b in zip(q, s))
        mine = cells(s, t.shape)
        for q in mine:
            t.value[loc(q)] = T[q]
            for d in range(nd):
                fs[d].value[loc(q)] = flow(q, N)[d]
        r = lic(fs, KER[cfg['ker']], cfg['length'], cfg['ds'], resampler=cfg['win'], texture=t, normalize=cfg['norm'])
        return {q: r.value[loc(q)] for q in mine}, {q: (t.value[loc(q)], [f.value[loc(q)] for f in fs]) for q in mine}

    one = env.spmd(1, lambda comm: run(comm, [1]))[0]
    R = env.spmd(ranks(cfg), lambda comm: run(comm, cfg['np']))
    got = {}
    for r in R + [one]:
        c.check_all([c.close(v[0], T[q]) for q, v in r[1].items()], 'the texture changed')
        c.check(all(float(a) == float(b) for q, v in r[1].items() for a, b in zip(v[1], flow(q, N))), 'the flow changed')
    for r in R:
        got.update(r[0])
    c.check(set(got) == set(order), 'a cell lives on no rank')
    for q in order:
        c.check(near(c, got[q], one[0][q]), 'the image differs from that on one rank', dict(cell=q))
    if cfg['cell'] != 1:
        return
    V = {q: [Fr(x) for x in flow(q, N)] for q in order}
    if cfg['norm']:
        for q, v in V.items():
            n = sum(abs(x) for x in v)           # the flows are along an axis
            V[q] = [x / n if n else x for x in v]
    ds = Fr(cfg['ds'])
    half = Fr(cfg['length']) / 2
    for q in order:
        coef = {q: Fr(1)}
        for sign in (-1, 1):
            x = [Fr(i) for i in q]
            s = Fr(0)
            while s < half:
                k = Fr(KER[cfg['ker']](float(sign * s / half)))
                st = list(stencil(cfg['win'], x, N))
                v = [sum(w * V[p][d] for p, w in st) for d in range(nd)]
                y = [a + sign * ds * b / 2 for a, b in zip(x, v)]
                for p, w in stencil(cfg['win'], y, N):
                    coef[p] = coef.get(p, 0) + w * k * ds
                x = [a + sign * ds * b for a, b in zip(x, v)]
                s += ds
        want = 0
        for p, w in coef.items():
            want = want + T[p] * (w if c.symbolic else float(w))
        c.check(near(c, got[q], want, 100), 'the image is not the integral of the texture along the flow', dict(cell=q))
