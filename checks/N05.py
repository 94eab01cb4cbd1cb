"""White noise of a particle mesh: the same modes for every rank layout and kind of field, with the mean asked for"""
from checks import _pm, _wn
from checks._pm import *

LEVEL = 'model_checking'
BOUNDS = ('every random stream, every mean; 3-d meshes of 1 to 6 cells per axis, even and odd, cubic and not; up to 6 ranks in any placement from a list, including ranks without cells; real, transposed and untransposed complex '
          'fields (the real ones on meshes of 1, 2 or 4 cells per axis), compressed or not, both precisions; unitary or not; into a new field or into the memory of a given one')
OUTSIDE = 'larger meshes; the 2-d fields beyond what N01 says of the generator'


def sym_env(cfg):
    e = _pm.sym_env(cfg)
    e.externs.update(_wn.EXT)
    return e


def configs(tier):
    out = []
    Ns = [(4, 2, 3), (3, 4, 4), (4, 4, 2)] + ([(4, 4, 4), (5, 4, 3), (2, 6, 5), (6, 6, 6), (1, 5, 2)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(3, tier):
            for dt in ('f8', 'f4', 'c16'):
                if dt != 'f8' and (s not in ('2x2p', '2x1') or N == (4, 2, 3)):
                    continue
                for u in (0, 1):
                    if tier == 'quick' and u == (s in ('1', '2x2p', '1x2')):
                        continue
                    out.append(dict(name='%s-%s-%s-%d' % ('x'.join(map(str, N)), s, dt, u), N=N, np=p, placement=pl, pdtype=dt, unitary=u, weight=N[0] * N[1]))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    np = env.np
    H = N[2] if cfg['pdtype'] == 'c16' else N[2] // 2 + 1
    L = [2.0, 4.0, 8.0]
    mean = c.real('mean', -4, 4)
    seed = 1234
    u = bool(cfg['unitary'])
    dt = 'c8' if cfg['pdtype'] == 'f4' else 'c16'
    want, _ = _wn.gen(env, [0, 0, 0], (N[0], N[1], H), N, seed, u, dt)
    other, _ = _wn.gen(env, [0, 0, 0], (N[0], N[1], H), N, seed + 1, u, dt)

    def rank(comm):
        pm = mesh(env, comm, cfg, L)

        def read(f):
            s = [int(x) for x in f.start]
            return {m: f.value[tuple(a - b for a, b in zip(m, s))] for m in cells(s, f.shape)}
        o = []
        for kind in ('transposedcomplex', 'untransposedcomplex'):
            f = pm.generate_whitenoise(seed, unitary=u, type=kind)
            o.append((kind, read(f), type(f) is type(pm.create(kind)), 0))
            f = pm.generate_whitenoise(seed, u, mean, kind)
            o.append((kind + ' with a mean', read(f), type(f) is type(pm.create(kind)), mean))
        f = pm.generate_whitenoise(seed, unitary=u, mean=mean)
        o.append(('default kind', read(f), type(f) is type(pm.create('complex')), mean))
        base = pm.create('untransposedcomplex', value=3)
        f = pm.generate_whitenoise(seed, unitary=u, mean=mean, type='untransposedcomplex', base=base._base)
        o.append(('given memory', read(f), env.symbolic or f.value.size == 0 or np.shares_memory(base.value, f.value), mean))
        f = pm.generate_whitenoise(seed + 1, unitary=u, mean=mean, type='transposedcomplex')
        o.append(('other seed', read(f), True, mean))
        # the real field is the transform of those modes
        if env.symbolic and not set(N) <= {1, 2, 4}:
            return o, True, {}, {}, {}
        r = pm.generate_whitenoise(seed, unitary=u, mean=mean, type='real')
        q = pm.generate_whitenoise(seed, unitary=u, mean=mean, type='untransposedcomplex').c2r()
        d = pm.generate_whitenoise(seed, unitary=u, mean=mean, mode='real')
        return o, type(r) is type(pm.create('real')), read(r), read(q), read(d)

    R = env.spmd(ranks(cfg), rank)
    for t in range(len(R[0][0])):
        got = {}
        for r in R:
            what, a, ok, m = r[0][t]
            got.update(a)
            c.check(ok, 'the field is of another kind, or not in the memory given', what)
        full = cells([0] * 3, (N[0], N[1], H))
        c.check(set(got) == set(full), 'a mode lives on no rank', what)
        ref = other if what == 'other seed' else want
        for q in full:
            w = m if q == (0, 0, 0) else ref[q]
            c.check(near(c, got[q], w), 'a mode is not the one of the generator', dict(mode=q, field=what))
    real, trans, old = {}, {}, {}
    for r in R:
        c.check(r[1], 'the field is of another kind', 'real')
        real.update(r[2])
        trans.update(r[3])
        old.update(r[4])
    if env.symbolic and not set(N) <= {1, 2, 4}:
        return
    c.check(set(real) == set(cells([0] * 3, N)), 'a cell lives on no rank')
    for q in real:
        c.check(near(c, real[q], trans[q]), 'the real field is not the transform of the modes', dict(cell=q))
        c.check(near(c, old[q], trans[q]), 'the real field is not the transform of the modes', dict(cell=q, argument='mode'))
