"""White noise is independent of how the mesh is partitioned"""
from checks._wn import *

LEVEL = 'model_checking'
BOUNDS = ('every random stream; 3-d meshes of 2 and 4 cells (cubic, full and compressed; every block), 4x6x2, 6x6x4, 2x4x6, 3x3x3, 5x3x4, 3x4x5 (blocks along one or two axes); 1-d and 2-d meshes of 4 cells; both precisions, transposed and '
          'strided storage, unitary or not; reset of the generator from every previous state for sample seeds')
OUTSIDE = 'larger meshes; the statistical quality of the generator'


def configs(tier):
    out = []
    Ns = [(2, 2, 2), (4, 4, 4)]
    for N in Ns:
        for comp in (0, 1):
            t = 'c' if comp else 'f'
            if N[0] == 2:
                out.append(dict(name='all-2-%s' % t, N=N, comp=comp, axes=(0, 1, 2), weight=3))
                continue
            for ax in ((0,), (1,), (2,)):
                out.append(dict(name='axis%d-4-%s' % (ax[0], t), N=N, comp=comp, axes=ax, weight=3))
            for ax in ((0, 1), (1, 2), (0, 2)):
                out.append(dict(name='axes%d%d-4-%s' % (ax + (t,)), N=N, comp=comp, axes=ax, sizes=None if tier == 'thorough' else (1, 2, 3), weight=9, budget=300))
    for u in (0, 1):
        out.append(dict(name='unitary%d' % u, N=(4, 4, 4), comp=u, axes=(2,), unitary=u))
    for o in 'TS':
        out.append(dict(name='order-' + o, N=(4, 4, 4), comp=0, axes=(0,), order=o, weight=2))
        out.append(dict(name='order-c-' + o, N=(4, 4, 4), comp=1, axes=(2,), order=o, weight=2))
    out.append(dict(name='single', N=(4, 4, 4), comp=0, axes=(1,), dtype='c8', weight=2))
    out.append(dict(name='single-c', N=(4, 4, 4), comp=1, axes=(0,), dtype='c8', weight=2))
    out.append(dict(name='noncubic', N=(4, 6, 2), comp=0, axes=(0, 2), sizes=(1, 2), weight=4))
    out.append(dict(name='noncubic-c', N=(2, 4, 6), comp=1, axes=(1, 2), sizes=(1, 2), weight=4))
    out.append(dict(name='odd', N=(3, 3, 3), comp=0, axes=(0, 1, 2), weight=4))
    out.append(dict(name='odd-c', N=(5, 3, 4), comp=1, axes=(0, 1), sizes=(1, 2), weight=4))
    out.append(dict(name='odd-last', N=(3, 4, 5), comp=0, axes=(1, 2), sizes=(1, 2), weight=4))
    out.append(dict(name='six', N=(6, 6, 4), comp=0, axes=(0, 1), sizes=(2, 3), weight=9))
    if tier == 'thorough':
        out.append(dict(name='four-all', N=(4, 4, 4), comp=0, axes=(0, 1, 2), sizes=(1, 2), weight=20, budget=700))
        out.append(dict(name='six-all', N=(6, 6, 6), comp=0, axes=(0, 1, 2), sizes=(3,), weight=20, budget=700))
        out.append(dict(name='six-c', N=(6, 6, 6), comp=1, axes=(0, 1), sizes=(1, 2, 4), weight=20, budget=700))
        out.append(dict(name='eight', N=(8, 8, 8), comp=0, axes=(0, 1), sizes=(4, 3), weight=20, budget=700))
    for s in (1, 12345, 2 ** 31 - 1):
        out.append(dict(name='reset-%d' % s, kind='reset', seed=s, N=(4, 4, 4), comp=0))
    for N in ((4,), (4, 4), (2, 4)):
        for u in (0, 1):
            out.append(dict(name='low-%s-%d' % ('x'.join(map(str, N)), u), kind='low', N=N, comp=0, unitary=u, axes=tuple(range(len(N)))))
    return out


def block(c, cfg, full):
    start, size = [0] * len(full), list(full)
    for ax in cfg['axes']:
        n = full[ax]
        if cfg.get('sizes'):
            s = cfg['sizes'][int(c.int('n%d' % ax, 0, len(cfg['sizes']) - 1))]
            s = min(s, n)
        else:
            s = int(c.int('n%d' % ax, 1, n))
        a = int(c.int('a%d' % ax, 0, n - s))
        start[ax], size[ax] = a, s
    return start, size


def harness(c, env, cfg):
    N = cfg['N']
    np = env.np
    seed = cfg.get('seed', 42)
    if cfg.get('kind') == 'reset':
        return reset(c, env, cfg, seed)
    full = list(N)
    if cfg['comp']:
        full[-1] = N[-1] // 2 + 1
    start, size = block(c, cfg, full)
    dt = cfg.get('dtype', 'c16')
    if cfg.get('kind') == 'low':
        W = env.load('whitenoise')
        whole = np.full(tuple(full), MARK, dt)
        part = np.full(tuple(size), MARK, dt)
        W.generate(whole, [0] * len(N), list(N), seed, bool(cfg['unitary']))
        W.generate(part, start, list(N), seed, bool(cfg['unitary']))
    else:
        whole, _ = gen(env, [0, 0, 0], full, N, seed, cfg.get('unitary', 0), dt)
        part, base = gen(env, start, size, N, seed, cfg.get('unitary', 0), dt, cfg.get('order', 'C'))
        if cfg.get('order') == 'S':
            n = sum(1 for z in base.ravel() if marked(z))
            tot = 1
            for k in base.shape:
                tot *= k
            c.check(n == tot - size[0] * size[1] * size[2], 'memory outside the block was written', dict(start=start, size=size))
    w = whole[tuple(slice(a, a + b) for a, b in zip(start, size))]
    c.check(not any(marked(z) for z in whole.ravel()), 'a mode of the whole mesh is not written')
    c.check(not any(marked(z) for z in part.ravel()), 'a stored mode is not written', dict(start=start, size=size))
    c.check(sand(*[c.close(a, b) for a, b in zip(part.ravel(), w.ravel())]), 'a mode of the block differs from the same mode of the whole mesh', dict(start=start, size=size))


def marked(z):
    return not core.issym(z) and z == MARK


def reset(c, env, cfg, seed):
    """seeding leaves no trace of the previous state of the generator"""
    if not env.symbolic:
        # history dependence shows when a block skips draws that the whole mesh makes
        whole, _ = gen(env, [0, 0, 0], cfg['N'], cfg['N'], seed, 0)
        for i in range(cfg['N'][0]):
            for j in range(cfg['N'][1]):
                part, _ = gen(env, [i, j, 0], [1, 1, cfg['N'][2]], cfg['N'], seed, 0)
                c.check(bool(np_close(part.ravel(), whole[i, j].ravel())), 'the generator remembers draws made before it was seeded')
        return
    vm = llvm.VM(load.cmodule('_whitenoise', env.repo))
    f = lambda n, *a: vm.callref(llvm.FRef('@' + n), list(a))
    kind = next(iter(vm.glob('@gsl_rng_ranlxd1').m.cells.values()))[1]
    get = kind.m.cells[48][1]       # gsl_rng_type.get_double, applied to gsl_rng.state
    runs = []
    for dirty in (0, 1):
        g = f('gsl_rng_alloc', kind)
        if dirty:
            # every number in the state becomes an arbitrary one
            seen = set()
            n = 0
            todo = [g.m]
            while todo:
                m = todo.pop()
                for o, (sz, v) in list(m.cells.items()):
                    if isinstance(v, llvm.Ptr):
                        if v.m is not None and v.m.name == 'heap' and id(v.m) not in seen:
                            seen.add(id(v.m))
                            todo.append(v.m)
                    elif isinstance(v, int):
                        m.cells[o] = (sz, c.int('s%d' % n, 0, 400))
                        n += 1
                    elif isinstance(v, (Fraction, float)):
                        m.cells[o] = (sz, c.real('s%d' % n, 0, 1))
                        n += 1
            c.check(n > 0, 'no state found')
        f('gsl_rng_set', g, seed)
        runs.append([vm.callref(get, [g.m.cells[8][1]]) for k in range(26)])
    c.check(sand(*[a == b for a, b in zip(*runs)]), 'the generator remembers draws made before it was seeded')
    c.check(all(0 <= v < 1 for v in runs[0]), 'a draw is outside [0, 1)')


def np_close(a, b):
    return all(abs(x - y) < 1e-6 for x, y in zip(a, b))
