"""Field arithmetic acts cell by cell and keeps the kind of field"""
from checks._pm import *

LEVEL = 'model_checking'
BOUNDS = ('every content of the two fields (divisors at least 1/2 away from zero) and every scalar; 2-d and 3-d meshes of 2 to 4 cells per axis; 1 to 4 ranks; real, transposed and untransposed complex fields; sums, differences, products, quotients, squares, '
          'negation, absolute value, comparison, in-place operators, numpy ufuncs with out=, reductions, copy, indexed access, creation from a value, field or array')
OUTSIDE = 'other ufuncs; floating-point rounding'


def configs(tier):
    out = []
    for N in [(4, 3), (2, 2, 3)] + ([(3, 4, 4)] if tier == 'thorough' else []):
        for s, p, pl in procs(len(N), tier):
            if s in ('3x1', '1x2', '2x1', '4'):
                continue
            for kind in KINDS:
                out.append(dict(name='%s-%s-%s' % ('x'.join(map(str, N)), s, kind[:2]), N=N, np=p, placement=pl, kind=kind))
    return out


def harness(c, env, cfg):
    N = cfg['N']
    nd = len(N)
    np = env.np
    real = cfg['kind'] == 'real'
    size = list(N)
    if not real:
        size[-1] = N[-1] // 2 + 1
    order = cells([0] * nd, size)
    mk = c.real if real else c.cplx
    V = {q: mk('v' + '_'.join(map(str, q)), -4, 4) for q in order}
    W = {q: mk('w' + '_'.join(map(str, q)), -4, 4) for q in order}
    D = {q: c.real('d' + '_'.join(map(str, q)), 0.5, 4) for q in order}
    s = c.real('s', -4, 4)
    z = mk('z', -4, 4)
    free = [order[1], order[-1]]

    def rank(comm):
        pm = mesh(env, comm, cfg, [1.0] * nd)
        out = []

        def put(A):
            f = pm.create(cfg['kind'])
            st = [int(x) for x in f.start]
            for m in cells(st, f.shape):
                f.value[tuple(a - b for a, b in zip(m, st))] = A[m]
            return f

        f, g, d = put(V), put(W), put(D)
        st = [int(x) for x in f.start]

        def read(f):
            v = f.value if hasattr(f, 'value') else f
            return {m: v[tuple(a - b for a, b in zip(m, st))] for m in cells(st, v.shape)}
        same = lambda r: type(r) is type(f) and r.pm is pm and r is not f and r is not g

        def rec(what, r, ok=None):
            out.append((what, read(r), same(r) if ok is None else ok))
        rec('a+b', f + g)
        rec('a-b', f - g)
        rec('a*b', f * g)
        rec('a/d', f / d)
        rec('a+s', f + s)
        rec('a+s', s + f)
        rec('a-s', f - s)
        rec('s-a', s - f)
        rec('a*s', f * s)
        rec('a*s', s * f)
        rec('a*z', z * f)
        rec('s/d', s / d)
        rec('-a', -f)
        rec('a*a', f ** 2)
        rec('a+b', f + g.value)
        rec('a+b', np.add(f, g))
        h = pm.create(cfg['kind'])
        r = np.multiply(f, g, out=h)
        rec('a*b', h, True)
        rec('a', f.copy())
        rec('a', pm.create(cfg['kind'], value=f))
        rec('a', pm.create(cfg['kind'], value=f.value))
        rec('s', pm.create(cfg['kind'], value=s))
        r = f.copy()
        r += g
        rec('a+b', r, True)
        r = f.copy()
        r *= s
        rec('a*s', r, True)
        r = f.copy()
        r -= g
        rec('a-b', r, True)
        r = f.copy()
        r /= d
        rec('a/d', r, True)
        r = f.copy()
        r[...] = g
        rec('b', r, True)
        r = f.copy()
        r[...] += s
        rec('a+s', r, True)
        rec('a', f[...], True)
        if real:
            # few undecided comparisons
            few = {q: V[q] if q in free else i - 3 for i, q in enumerate(order)}
            e = put(few)
            rec('|a|', abs(e))
            q = e < g * 0 + 1
            out.append(('a<1', read(q), not hasattr(q, 'pm')))
        else:
            rec('a', f.real + 1j * f.imag, True)
        t = np.add.reduce(f, axis=0)
        out.append(('sum', {m: t[tuple(a - b for a, b in zip(m, st[1:]))] for m in cells(st[1:], t.shape)}, not hasattr(t, 'pm')))
        for what, x in (('a', f), ('b', g), ('d', d)):
            rec(what, x, True)
        return out, st[0], int(f.shape[0])

    R = env.spmd(ranks(cfg), rank)
    spec = {'a': lambda a, b, d: a, 'b': lambda a, b, d: b, 'd': lambda a, b, d: d, 's': lambda a, b, d: s,
            'a+b': lambda a, b, d: a + b, 'a-b': lambda a, b, d: a - b, 'a*b': lambda a, b, d: a * b,
            'a+s': lambda a, b, d: a + s, 'a-s': lambda a, b, d: a - s, 's-a': lambda a, b, d: s - a, 'a*s': lambda a, b, d: a * s, 'a*z': lambda a, b, d: a * z,
            '-a': lambda a, b, d: -a, 'a*a': lambda a, b, d: a * a}
    for t in range(len(R[0][0])):
        what = R[0][0][t][0]
        got = {}
        for r, s0, n0 in R:
            c.check(r[t][2], 'the kind of the result of ' + what)
            if what == 'sum':
                for m, v in r[t][1].items():
                    w = 0
                    for x in range(s0, s0 + n0):
                        w = w + V[(x,) + m]
                    c.check(c.close(v, w), 'the sum along an axis', dict(at=m))
                continue
            got.update(r[t][1])
        if what == 'sum':
            continue
        c.check(set(got) == set(order), 'an element lives on no rank', what)
        for q in order:
            a, b, d, v = V[q], W[q], D[q], got[q]
            w = dict(op=what, at=q)
            if what in ('a/d', 's/d'):
                c.check(c.close(v * d, a if what == 'a/d' else s), 'the value of an expression', w)
            elif what == '|a|':
                a = a if q in free else order.index(q) - 3
                c.check(sand(sor(c.close(v, a), c.close(v, -a)), v >= 0), 'the value of an expression', w)
            elif what == 'a<1':
                a = a if q in free else order.index(q) - 3
                c.check(sor(sand(v, a < 1), sand(snot(v), a >= 1)), 'the value of an expression', w)
            else:
                c.check(c.close(v, spec[what](a, b, d)), 'the value of an expression', w)
