"""Global mode access is consistent with Hermitian symmetry"""
from checks._pm import *
import itertools

LEVEL = 'model_checking'
BOUNDS = ('every value and every previous content of the field; every global index including negative ones, with and without the component index; 2-d and 3-d meshes of 1 to 6 cells per axis, even and odd; '
          'up to 4 ranks in any placement from a list; transposed and untransposed, compressed and full complex fields and real fields')
OUTSIDE = 'larger meshes; the value returned for a mode that a compressed field does not store'


def configs(tier):
    out = []
    Ns = [(4, 4), (3, 4), (4, 2, 4), (3, 3, 3)] + ([(4, 4, 4), (5, 4, 3), (2, 6, 4)] if tier == 'thorough' else [])
    for N in Ns:
        for s, p, pl in procs(len(N), tier):
            if s in ('3x1', '1x2') and tier == 'quick':
                continue
            for kind in KINDS:
                for dt in ('f8', 'c16'):
                    if dt == 'c16' and (kind != 'transposedcomplex' or s not in ('1', '2', '2x2p')):
                        continue
                    if kind == 'real' and s in ('1', '2x1'):
                        continue
                    out.append(dict(name='%s-%s-%s-%s' % ('x'.join(map(str, N)), s, kind[:2], dt), N=N, np=p, placement=pl, kind=kind, pdtype=dt))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    real = cfg['kind'] == 'real' and cfg['pdtype'] == 'f8'
    size = list(N)
    if cfg['kind'] != 'real' and cfg['pdtype'] == 'f8':
        size[-1] = N[-1] // 2 + 1
    stored = cells([0] * nd, size)
    V = {q: (c.real if real else c.cplx)('v' + '_'.join(map(str, q)), -4, 4) for q in stored}
    y = (c.real if real else c.cplx)('y', -4, 4)
    yr = c.real('yr', -4, 4)
    todo = []
    for q in cells([0] * nd, N):
        todo.append((list(q), None))
        if cfg['kind'] != 'real':
            todo.append((list(q), 0))
            todo.append((list(q), 1))
    # negative indices name the same modes
    for q in cells([0] * nd, N)[::3]:
        todo.append(([a - n if (a + d) % 2 else a for d, (a, n) in enumerate(zip(q, N))], None))
        todo.append(([a - n for a, n in zip(q, N)], None))
        if cfg['kind'] != 'real':
            todo.append(([a - n for a, n in zip(q, N)], 1))

    def rank(comm):
        pm = mesh(env, comm, cfg, [1.0] * nd)
        f = pm.create(cfg['kind'])
        st = [int(s) for s in f.start]
        mine = cells(st, f.shape)
        loc = lambda q: tuple(a - b for a, b in zip(q, st))
        out = []
        for q, comp in todo:
            for m in mine:
                f.value[loc(m)] = V[m]
            idx = q + ([] if comp is None else [comp])
            g0 = f.cgetitem(idx)
            r = f.csetitem(idx, y if comp is None else yr)
            g1 = f.cgetitem(idx)
            out.append(({m: f.value[loc(m)] for m in mine}, g0, r, g1))
        return out

    R = env.spmd(ranks(cfg), rank)
    for t, (q, comp) in enumerate(todo):
        q = tuple(a % n for a, n in zip(q, N))
        m = tuple(-a % n for a, n in zip(q, N))
        now = {}
        for r in R:
            now.update(r[t][0])
        c.check(set(now) == set(stored), 'a mode lives on no rank')
        want = dict(V)

        def put(at, sign):
            old = core.SCplx.of(V[at]) if c.symbolic else complex(V[at])
            if comp is None:
                want[at] = y if sign > 0 else conj(y)
            elif comp == 0:
                want[at] = mk(c, yr, old.imag)
            else:
                want[at] = mk(c, old.real, yr if sign > 0 else -yr)
        if cfg['kind'] == 'real':
            want[q] = y
        else:
            if q in want:
                put(q, 1)
            if m in want and m != q:
                put(m, -1)
            if m == q:
                old = core.SCplx.of(V[q]) if c.symbolic else complex(V[q])
                # kept real
                if comp is None:
                    want[q] = mk(c, y.real, 0)
                elif comp == 1:
                    want[q] = mk(c, old.real, 0)
        d = dict(mode=q, component=comp)
        c.check_all([c.close(now[k], want[k]) for k in stored], 'setting a mode changed the wrong modes', d)
        if q in want:
            part = lambda z: z if comp is None else (z.real if comp == 0 else z.imag)
            for r in R:
                c.check(c.close(r[t][1], part(V[q])), 'the value of a mode', d)
                c.check(c.close(r[t][3], part(want[q])), 'the value of a mode after it is set', d)
                c.check(c.close(r[t][2], part(want[q])), 'the value returned by setting a mode', d)


def mk(c, a, b):
    return core.SCplx(a, b) if c.symbolic else complex(a, b)
