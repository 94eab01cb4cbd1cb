"""Resampling copies modes to the same wave number, and samples images"""
from checks._pm import *
from checks.P02 import fourier
from fractions import Fraction as Fr

LEVEL = 'model_checking'
BOUNDS = ('every content of the field; pairs of 2-d and 3-d meshes of 1 to 8 cells per axis, even, odd and mixed, finer and coarser; up to 6 ranks in any placement from a list, including ranks without cells; '
          'transposed modes to transposed modes at every size, all other kinds of fields on axes of 1, 2 and 4 cells; up- and downsampling of images with the nearest, linear, quadratic and cubic windows, keeping the mean or not')
OUTSIDE = 'larger meshes; the values at and beyond the Nyquist frequency of a mesh resampled to its own size; other windows; floating-point rounding'


def configs(tier):
    out = []
    big = tier == 'thorough'
    pairs = [((4, 4), (2, 8)), ((5, 4), (8, 3)), ((4, 5), (3, 3)), ((3, 3), (4, 5)), ((8, 4), (4, 4)), ((4, 2, 4), (2, 4, 4)), ((3, 4, 5), (5, 3, 4)), ((1, 4), (4, 1)), ((4, 3), (4, 3)), ((8, 2), (6, 4))]
    if big:
        pairs += [((7, 2), (5, 6)), ((5, 7), (7, 5)), ((4, 4, 4), (3, 3, 3)), ((3, 3, 3), (4, 4, 4)), ((6, 5, 4), (4, 7, 2)), ((2, 2, 2), (5, 4, 4)), ((4, 4, 4), (4, 4, 4)), ((8, 8), (6, 4)), ((6, 4), (8, 8))]
    for A, B in pairs:
        for s, p, pl in procs(len(A), tier):
            if not big and s in ('3x1', '1x2', '4'):
                continue
            for dt in ('f8', 'c16'):
                if dt == 'c16' and s not in ('1', '2', '2x2p'):
                    continue
                out.append(dict(name='modes-%s-%s-%s-%s' % ('x'.join(map(str, A)), 'x'.join(map(str, B)), s, dt), N=A, M=B, np=p, placement=pl, pdtype=dt, what='modes'))
    pairs = [((4, 4), (2, 4)), ((2, 4), (4, 4)), ((4, 2), (1, 4)), ((4, 2, 4), (2, 4, 2))] + ([((4, 4), (2, 2)), ((2, 2), (4, 4)), ((4, 4, 2), (2, 4, 4)), ((2, 2, 4), (4, 4, 2)), ((1, 4), (4, 2))] if big else [])
    for A, B in pairs:
        for s, p, pl in procs(len(A), tier):
            if not big and s in ('3x1', '1x2', '4', '2x1'):
                continue
            for k1 in KINDS:
                for k2 in KINDS:
                    out.append(dict(name='%s-%s-%s-%s-%s' % (k1[:2], k2[:2], 'x'.join(map(str, A)), 'x'.join(map(str, B)), s), N=A, M=B, np=p, placement=pl, what='kinds', k1=k1, k2=k2))
    pairs = [((4, 4), (2, 4)), ((4, 3), (8, 3)), ((6, 4), (4, 4)), ((3, 5), (6, 5)), ((4, 2, 4), (2, 4, 2))] + ([((8, 2), (2, 8)), ((5, 6), (7, 4)), ((4, 4, 3), (6, 2, 3)), ((2, 2, 4), (4, 4, 2))] if big else [])
    for A, B in pairs:
        for s, p, pl in procs(len(A), tier):
            if not big and s in ('3x1', '1x2', '2x1'):
                continue
            for win in ('nnb', 'cic', 'tsc', 'pcs'):
                if len(A) == 3 and win in ('tsc', 'pcs') and not big:
                    continue
                out.append(dict(name='image-%s-%s-%s-%s' % (win, 'x'.join(map(str, A)), 'x'.join(map(str, B)), s), N=A, M=B, np=p, placement=pl, what='image', win=win))
                if win == 'cic':
                    out.append(dict(out[-1], name=out[-1]['name'] + '-box', box=0.5 if len(A) == 2 else 2))
    return out


def harness(c, env, cfg):
    (image if cfg['what'] == 'image' else modes)(c, env, cfg)


def put(f, A):
    s = [int(x) for x in f.start]
    for m in cells(s, f.shape):
        f.value[tuple(a - b for a, b in zip(m, s))] = A[m]
    return f


def read(f):
    s = [int(x) for x in f.start]
    return {m: f.value[tuple(a - b for a, b in zip(m, s))] for m in cells(s, f.shape)}


def half(N, full):
    size = list(N)
    if not full:
        size[-1] = N[-1] // 2 + 1
    return cells([0] * len(N), size)


def modes(c, env, cfg):
    A, B = cfg['N'], cfg['M']
    nd = len(A)
    full = cfg.get('pdtype') == 'c16'
    L = [2.0, 4.0, 8.0][:nd]
    sa, sb = half(A, full), half(B, full)
    if cfg['what'] == 'modes':
        V = {q: c.cplx('v' + '_'.join(map(str, q)), -4, 4) for q in sa}
        k1 = k2 = 'transposedcomplex'
        src = V
    else:
        W = {q: c.real('w' + '_'.join(map(str, q)), -4, 4) for q in cells([0] * nd, A)}
        k1, k2 = cfg['k1'], cfg['k2']
        V = fourier(c, W, A, -1, sa)                 # len(W) * the modes
        src = W if k1 == 'real' else V

    def rank(comm):
        p = mesh(env, comm, cfg, L)
        q = mesh(env, comm, cfg, L, Nmesh=B)
        f = put(p.create(k1), src)
        g = put(q.create(k2), dict.fromkeys(cells([0] * nd, [max(b, 8) for b in B]), 5))
        r = f.resample(g)
        return read(f), read(g), r is g

    R = env.spmd(ranks(cfg), rank)
    got, kept = {}, {}
    for r in R:
        kept.update(r[0])
        got.update(r[1])
        c.check(r[2], 'resampling returns its output')
    c.check_all([c.close(kept[q], src[q]) for q in kept], 'resampling changed its input')
    unit = 1 if cfg['what'] == 'modes' or k1 != 'real' else Fr(1, len(W))
    want = {}
    for q in cells([0] * nd, B):
        s = [signed(i, n) for i, n in zip(q, B)]
        if any(2 * abs(x) >= n or 2 * abs(x) >= m for x, n, m in zip(s, A, B)):
            want[q] = None
            continue
        k = tuple(x % n for x, n in zip(s, A))
        v = V.get(k)
        if v is None:
            v = V.get(tuple(-x % n for x, n in zip(s, A)))
            v = conj(v)
        if not full and all(x == 0 for x in s):
            v = core.SCplx(v.real, 0) if c.symbolic else complex(v.real, 0)
        want[q] = v
    if k2 == 'real':
        modes_ = {q: v for q, v in want.items() if v is not None}
        full_ = fourier(c, modes_, B, 1, cells([0] * nd, B))
        c.check(set(got) == set(full_), 'a cell lives on no rank')
        for q in full_:
            c.check(c.close(got[q], full_[q].real * (unit if c.symbolic else float(unit))), 'the value of a resampled cell', dict(cell=q))
        return
    c.check(set(got) == set(sb), 'a mode lives on no rank')
    for q in sb:
        if want[q] is None:
            if A != B:
                c.check(c.close(got[q], 0), 'a mode that one of the meshes does not resolve is not zero', dict(mode=q))
        else:
            c.check(c.close(got[q], want[q] * (unit if c.symbolic else float(unit))), 'the value of a resampled mode', dict(mode=q))


def image(c, env, cfg):
    A, B = cfg['N'], cfg['M']
    nd = len(A)
    np = env.np
    win = cfg['win']
    V = {q: c.real('v' + '_'.join(map(str, q)), -4, 4) for q in cells([0] * nd, A)}
    L = [2.0, 4.0, 8.0][:nd]

    def rank(comm):
        p = mesh(env, comm, cfg, L, resampler='cic')
        q = mesh(env, comm, cfg, [l * cfg.get('box', 1) for l in L], Nmesh=B, resampler='cic')
        out = []
        for keep in (False, True):
            f = put(p.create('real'), V)
            g = q.upsample(f, resampler=win, keep_mean=keep)
            h = q.downsample(f, resampler=win, keep_mean=keep)
            out.append((read(g), read(h), read(f)))
        v = f.preview(Nmesh=np.array(B), resampler=win, method='upsample')
        w = f.preview(Nmesh=np.array(B), resampler=win, method='downsample')
        return out, v, w

    R = env.spmd(ranks(cfg), rank)
    order = cells([0] * nd, A)
    dest = cells([0] * nd, B)
    up = dict.fromkeys(dest, 0)
    down = dict.fromkeys(dest, 0)
    for q in dest:
        for k, w in stencil(win, [Fr(x * a, b) for x, a, b in zip(q, A, B)], A):
            up[q] = up[q] + V[k] * (w if c.symbolic else float(w))
    for q in order:
        for k, w in stencil(win, [Fr(x * b, a) for x, a, b in zip(q, A, B)], B):
            down[k] = down[k] + V[q] * (w if c.symbolic else float(w))
    ratio = Fr(len(order), len(dest)) * Fr(cfg.get('box', 1)) ** nd
    for t, keep in enumerate((False, True)):
        gu, gd = {}, {}
        for r in R:
            gu.update(r[0][t][0])
            gd.update(r[0][t][1])
            c.check_all([c.close(r[0][t][2][q], V[q]) for q in r[0][t][2]], 'sampling an image changed it')
        c.check(set(gu) == set(gd) == set(dest), 'a cell lives on no rank')
        fu, fd = (1, 1 / ratio) if keep else (ratio, 1)
        fp = Fr(len(dest), len(order))
        for q in dest:
            c.check(near(c, gu[q], up[q] * (fu if c.symbolic else float(fu)), 100), 'an upsampled cell', dict(cell=q, keep_mean=keep))
            c.check(near(c, gd[q], down[q] * (fd if c.symbolic else float(fd)), 100), 'a downsampled cell', dict(cell=q, keep_mean=keep))
            if keep:
                for r in R:
                    c.check(near(c, r[1][q], up[q], 100), 'a preview sampled at another resolution', dict(cell=q))
                    c.check(near(c, r[2][q], down[q] * (fp if c.symbolic else float(fp)), 100), 'a preview painted at another resolution', dict(cell=q))


def weight(win, x):
    """the window functions by their definition"""
    x = abs(x)
    if win == 'cic':
        return max(1 - x, Fr(0))
    if win == 'tsc':
        return Fr(3, 4) - x * x if x < Fr(1, 2) else (Fr(3, 2) - x) ** 2 / 2 if x < Fr(3, 2) else Fr(0)
    return (4 - 6 * x * x + 3 * x ** 3) / 6 if x < 1 else (2 - x) ** 3 / 6 if x < 2 else Fr(0)


def stencil(win, x, N):
    """cells of a periodic mesh and weights for a position in cells"""
    import itertools
    import math
    axes = []
    for a, n in zip(x, N):
        if win == 'nnb':
            axes.append([(math.floor(a + Fr(1, 2)) % n, Fr(1))])
        else:
            f = math.floor(a)
            axes.append([(k % n, weight(win, a - k)) for k in range(f - 2, f + 4) if weight(win, a - k)])
    for t in itertools.product(*axes):
        w = Fr(1)
        for _, b in t:
            w *= b
        yield tuple(k for k, _ in t), w
