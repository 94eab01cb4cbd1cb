"""Back-propagation operators are adjoints of the forward operators"""
from checks._pm import *
import itertools

LEVEL = 'model_checking'
BOUNDS = ('every position of one coordinate (or two) of a particle within a box of the mesh, other coordinates from a list, every mass, mesh value and (co)tangent; one or two particles; 2-d and 3-d meshes of 2 to 6 cells per axis; '
          '1 to 4 ranks with and without a layout; nearest, linear, quadratic and cubic windows; the value of derivatives inside the pieces of the window between multiples of half a cell; outputs new and in place; gradient= where it is supported')
OUTSIDE = 'larger meshes, more particles, other windows; the value of derivatives at the kinks of a window (where only adjointness is checked); floating-point rounding'


def configs(tier):
    out = []

    def add(name, N, p, win, sym, **k):
        k.setdefault('weight', 3)
        out.append(dict(name=name, N=N, np=p, win=win, sym=sym, **k))
    big = tier == 'thorough'
    for win in ('nnb', 'cic', 'tsc', 'pcs'):
        for s, p, pl in (('1', [1], None), ('2', [2], None), ('3p', [3], [1, 2, 0])) + ((('4', [4], None),) if big else ()):
            for ax in (0, 1):
                add('adjoint-%s-%s-%d' % (win, s, ax), (5, 4), p, win, (ax,), placement=pl, parts=2 if s == '2' and win == 'cic' else 1)
            if win != 'nnb' and s != '3p':
                for ax in (0, 1):
                    add('value-%s-%s-%d' % (win, s, ax), (5, 4), p, win, (ax,), placement=pl, value=1)
    add('adjoint-cic-3d', (4, 4, 3), [2, 2], 'cic', (1,), placement=[2, 0, 3, 1], weight=6)
    add('value-cic-3d', (4, 4, 3), [2, 2], 'cic', (2,), value=1, weight=6)
    for win, p in (('cic', [2]), ('tsc', [1])):
        add('forms-%s' % win, (4, 3), p, win, (0,), forms=1)
    add('adjoint-tuned-f4', (4, 3), [2], 'tsc', (0,), pdtype='f4', f4=True)
    if big:
        add('adjoint-cic-xy', (4, 3), [2], 'cic', (0, 1), weight=10)
        add('adjoint-tsc-xy', (4, 3), [2], 'tsc', (0, 1), weight=10)
        add('adjoint-tsc-3d', (4, 4, 3), [2, 2], 'tsc', (0,), weight=10)
        add('adjoint-pcs-3d', (5, 4, 4), [2, 1], 'pcs', (2,), weight=10)
        add('value-tsc-3d', (4, 4, 3), [2, 2], 'tsc', (1,), value=1, weight=10)
        add('value-cubic', (5, 4), [2], 'cubic', (1,), value=1)
        add('adjoint-cubic', (5, 4), [2], 'cubic', (0,))
        add('adjoint-two', (4, 3), [2], 'tsc', (0,), parts=2, weight=20)
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    H = 2.0
    L = [H * n for n in N]
    nr = ranks(cfg)
    n = cfg.get('parts', 1)
    fixed = (0.25, 1.75, 2.875)
    order = cells([0] * nd, N)
    if cfg.get('value'):
        # a position inside one of the pieces of the window
        k = int(c.int('piece', 0, 2 * N[cfg['sym'][0]] - 1))
        base = k * 0.5
        pos = [[H * (base + 0.0) + c.real('x0', 0.25, 0.75) if d in cfg['sym'] else H * fixed[d] for d in range(nd)]]
    else:
        pos = [[c.real('x%d_%d' % (i, d), 0, L[d]) if d in cfg['sym'] else H * fixed[(d + i) % 3] for d in range(nd)] for i in range(n)]
    mass = [c.real('m%d' % i, -4, 4) for i in range(n)]
    vm = [c.real('vm%d' % i, -4, 4) for i in range(n)]
    vp = [[c.real('vp%d_%d' % (i, d), -4, 4) for d in range(nd)] for i in range(n)]
    ct = [c.real('ct%d' % i, -4, 4) for i in range(n)]
    A = {q: c.real('a' + '_'.join(map(str, q)), -4, 4) for q in order}
    B = {q: c.real('b' + '_'.join(map(str, q)), -4, 4) for q in order}
    owner = [int(c.int('owner%d' % i, 0, nr - 1)) if nr > 1 and not cfg.get('value') and len(cfg['sym']) == 1 and n == 1 and nd == 2 else (i + 1) % nr for i in range(n)]
    win = cfg['win']
    f4 = cfg.get('f4')

    def rank(comm):
        pm = mesh(env, comm, cfg, L)
        mine = [i for i in range(n) if owner[i] == comm.rank]

        def arr(rows, cols=None):
            a = np.zeros((len(mine), cols) if cols else (len(mine),), 'f8')
            for j, i in enumerate(mine):
                if cols:
                    for d in range(cols):
                        a[j, d] = rows[i][d]
                else:
                    a[j] = rows[i]
            return a
        P, M, VM, VP, CT = arr(pos, nd), arr(mass), arr(vm), arr(vp, nd), arr(ct)

        def put(X):
            f = pm.create('real')
            s = [int(x) for x in f.start]
            for m in cells(s, f.shape):
                f.value[tuple(a - b for a, b in zip(m, s))] = X[m]
            return f

        def read(f):
            s = [int(x) for x in f.start]
            return {m: f.value[tuple(a - b for a, b in zip(m, s))] for m in cells(s, f.shape)}

        def vals(a):
            return {i: ([a[j, d] for d in range(nd)] if len(a.shape) == 2 else a[j]) for j, i in enumerate(mine)}
        a, b = put(A), put(B)
        lay = pm.decompose(P, smoothing=win)
        kw = dict(resampler=win, layout=lay)
        if cfg.get('value'):
            d = cfg['sym'][0]
            h = 0.03125
            S = []
            for t in (-2, -1, 1, 2):
                Q = P.copy()
                Q[:, d] += t * h
                lq = pm.decompose(Q, smoothing=win)
                S.append((read(pm.paint(Q, mass=M, resampler=win, layout=lq)), vals(a.readout(Q, resampler=win, layout=lq))))
            E = np.zeros((len(mine), nd), 'f8')
            for j, i in enumerate(mine):
                E[j, d] = vp[i][d]
            return (S, read(pm.paint_jvp(P, mass=M, v_pos=E, **kw)), vals(a.readout_jvp(P, v_pos=E, **kw)),
                    read(pm.paint_jvp(P, mass=M, v_mass=VM, **kw)), read(pm.paint(P, mass=VM, **kw)), vals(a.readout_jvp(P, v_self=b, **kw)), vals(b.readout(P, **kw)))
        o = {}
        o['paint_jvp'] = read(pm.paint_jvp(P, mass=M, v_pos=VP, v_mass=VM, **kw))
        x, y = pm.paint_vjp(a, P, mass=M, **kw)
        o['paint_vjp'] = vals(x), vals(y)
        x1, y1 = pm.paint_vjp(a, P, mass=M, out_pos=False, **kw)
        x2, y2 = pm.paint_vjp(a, P, mass=M, out_mass=False, **kw)
        ok = x1 is False and y2 is False
        Q, W = P.copy(), M.copy()
        x3, y3 = pm.paint_vjp(a, Q, mass=W, out_pos=Ellipsis, out_mass=Ellipsis, **kw)
        ok = ok and x3 is Q and y3 is W
        o['paint_vjp again'] = [(vals(x2), vals(y1)), (vals(x3), vals(y3))]
        forms = [('in place', 'no'), ('no', 'in place'), ('given', 'given'), ('in place', 'new'), ('new', 'in place'), ('given', 'no'), ('in place', 'given')] if cfg.get('forms') else []

        def form(how, arg):
            return {'in place': Ellipsis, 'no': False, 'new': None}[how] if how != 'given' else arg
        for fp, fm in forms:
            Q, W = P.copy(), M.copy()
            GP, GM = np.zeros(P.shape, 'f8') + 7.0, np.zeros(M.shape, 'f8') + 7.0
            x, y = pm.paint_vjp(a, Q, mass=W, out_pos=form(fp, GP), out_mass=form(fm, GM), **kw)
            ok = ok and {'in place': x is Q, 'no': x is False, 'given': x is GP, 'new': x is not Q}[fp] and {'in place': y is W, 'no': y is False, 'given': y is GM, 'new': y is not W}[fm]
            o['paint_vjp again'].append((vals(x2) if x is False else vals(x), vals(y1) if y is False else vals(y)))
            if fp != 'in place':
                o.setdefault('unchanged', []).append((vals(Q), pos))
            if fm != 'in place':
                o.setdefault('unchanged', []).append((vals(W), mass))
        o['readout_jvp'] = vals(a.readout_jvp(P, v_self=b, v_pos=VP, **kw))
        s, x = a.readout_vjp(P, CT, **kw)
        o['readout_vjp'] = read(s), vals(x)
        s1, x1 = a.readout_vjp(P, CT, out_pos=False, **kw)
        s2, x2 = a.readout_vjp(P, CT, out_self=False, **kw)
        ok = ok and x1 is False and s2 is False
        Q = P.copy()
        e = put(A)
        s3, x3 = e.readout_vjp(Q, CT, out_self=Ellipsis, out_pos=Ellipsis, **kw)
        ok = ok and s3 is e and x3 is Q
        o['readout_vjp again'] = [(read(s1), vals(x2)), (read(s3), vals(x3))]
        for fs, fp in forms:
            Q = P.copy()
            e = put(A)
            GS, GP = pm.create('real', value=7), np.zeros(P.shape, 'f8') + 7.0
            s, x = e.readout_vjp(Q, CT, out_self=form(fs, GS), out_pos=form(fp, GP), **kw)
            ok = ok and {'in place': s is e, 'no': s is False, 'given': s is GS, 'new': s is not e}[fs] and {'in place': x is Q, 'no': x is False, 'given': x is GP, 'new': x is not Q}[fp]
            o['readout_vjp again'].append((read(s1) if s is False else read(s), vals(x2) if x is False else vals(x)))
            if fp != 'in place':
                o.setdefault('unchanged', []).append((vals(Q), pos))
            if fs != 'in place':
                o.setdefault('unchanged', []).append((read(e), A))
        g = nd - 1
        o['grad'] = [(vals(pm.paint_vjp(a, P, mass=M, gradient=g, out_pos=False, **kw)[1]), read(pm.paint(P, mass=VM, gradient=g, **kw))),
                     (vals(a.readout_jvp(P, v_self=b, gradient=g, **kw)), read(a.readout_vjp(P, CT, gradient=g, out_pos=False, **kw)[0]))]
        o['kept'] = read(a), vals(P), vals(M)
        o['ok'] = ok
        return o

    R = env.spmd(nr, rank)

    def merge(get):
        r = {}
        for x in R:
            r.update(get(x))
        return r

    def eq(a, b, what):
        c.check(c.close(a, b) if c.symbolic else abs(a - b) <= (1e-2 if f4 else 1e-7), what)
    if cfg.get('value'):
        d = cfg['sym'][0]
        S = [merge(lambda r: r[0][t][0]) for t in range(4)]
        T = [merge(lambda r: r[0][t][1]) for t in range(4)]
        k = 1 / (12 * 0.03125)
        diff = lambda m2, m1, p1, p2: ((p1 - m1) * 8 - (p2 - m2)) * (core.rat(Frac(8, 3)) if c.symbolic else k)
        J, Jr, Jm, Pm, Js, Rs = [merge(lambda r: r[i]) for i in range(1, 7)]
        for q in order:
            eq(J[q], diff(*[s[q] for s in S]) * vp[0][d], 'the derivative of painting with the position')
            eq(Jm[q], Pm[q], 'the derivative of painting with the mass')
        for i in range(n):
            eq(Jr[i], diff(*[s[i] for s in T]) * vp[i][d], 'the derivative of reading with the position')
            eq(Js[i], Rs[i], 'the derivative of reading with the mesh')
        return
    J = merge(lambda r: r['paint_jvp'])
    X, Y = merge(lambda r: r['paint_vjp'][0]), merge(lambda r: r['paint_vjp'][1])
    eq(total(A[q] * J[q] for q in order), total(total(X[i][d] * vp[i][d] for d in range(nd)) + Y[i] * vm[i] for i in range(n)), 'the back-propagation of painting is not the adjoint of its derivative')
    K = merge(lambda r: r['readout_jvp'])
    S, Z = merge(lambda r: r['readout_vjp'][0]), merge(lambda r: r['readout_vjp'][1])
    eq(total(K[i] * ct[i] for i in range(n)), total(S[q] * B[q] for q in order) + total(Z[i][d] * vp[i][d] for i in range(n) for d in range(nd)),
       'the back-propagation of reading is not the adjoint of its derivative')
    for t in range(len(R[0]['paint_vjp again'])):
        x, y = merge(lambda r: r['paint_vjp again'][t][0]), merge(lambda r: r['paint_vjp again'][t][1])
        s, z = merge(lambda r: r['readout_vjp again'][t][0]), merge(lambda r: r['readout_vjp again'][t][1])
        for i in range(n):
            eq(y[i], Y[i], 'the gradient of painting depends on where it is stored')
            for d in range(nd):
                eq(x[i][d], X[i][d], 'the gradient of painting depends on where it is stored')
                eq(z[i][d], Z[i][d], 'the gradient of reading depends on where it is stored')
        for q in order:
            eq(s[q], S[q], 'the gradient of reading depends on where it is stored')
    y, p = merge(lambda r: r['grad'][0][0]), merge(lambda r: r['grad'][0][1])
    eq(total(A[q] * p[q] for q in order), total(y[i] * vm[i] for i in range(n)), 'the back-propagation of painting a gradient is not its adjoint')
    k, s = merge(lambda r: r['grad'][1][0]), merge(lambda r: r['grad'][1][1])
    eq(total(k[i] * ct[i] for i in range(n)), total(s[q] * B[q] for q in order), 'the back-propagation of reading a gradient is not its adjoint')
    for r in R:
        for got, want in r.get('unchanged', []):
            for i in got:
                if isinstance(got[i], list):
                    c.check_all([c.close(x, y) for x, y in zip(got[i], want[i])], 'an argument changed')
                else:
                    eq(got[i], want[i], 'an argument changed')
    a, P, M = merge(lambda r: r['kept'][0]), merge(lambda r: r['kept'][1]), merge(lambda r: r['kept'][2])
    c.check_all([c.close(a[q], A[q]) for q in order] + [c.close(M[i], mass[i]) for i in range(n)] + [c.close(P[i][d], pos[i][d]) for i in range(n) for d in range(nd)], 'the arguments changed')
    c.check(all(r['ok'] for r in R), 'the kind of the result')


from fractions import Fraction as Frac


def total(it):
    s = 0
    for x in it:
        s = s + x
    return s
