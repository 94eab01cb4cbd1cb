"""shared by the checks of pmesh.domain"""
from fractions import Fraction
import itertools
from vsym import core, load, snp
from vsym.core import sand, sor, snot

PRELOAD = ['domain']
REAL = ['_domain']


def lin(n, L):
    return [L * Fraction(i, n) for i in range(n + 1)]


def mkedges(c, shape, L, fixed=False):
    """ascending edges from 0 to L; interior ones are symbolic"""
    out = []
    for d, n in enumerate(shape):
        e = [0]
        for i in range(1, n):
            if fixed:
                x = Fraction(L * i, n)
            else:
                x = c.real('e%d_%d' % (d, i), 0, L)
                if i > 1:
                    c.assume(x >= e[-1])
            e.append(x)
        out.append(e + [L])
    return out


def domains(edges):
    """[(lo, hi) per axis] in C order"""
    axes = [list(zip(e[:-1], e[1:])) for e in edges]
    return list(itertools.product(*axes))


def positions(c, n, nd, L, lo=-2, hi=3, tag='x'):
    return [[c.real('%s%d_%d' % (tag, i, d), lo * L, hi * L) for d in range(nd)] for i in range(n)]


def arr(env, rows, ncol):
    return env.np.array(rows, 'f8') if len(rows) else env.np.empty((0, ncol), 'f8')


def default_assign(size, nr):
    if nr >= size:
        return list(range(size))
    r = [0] * size
    for i in range(nr):
        for k in range(i * size // nr, (i + 1) * size // nr):
            r[k] = i
    return r


def inside(dom, x, L, periodic, K=4):
    """position x lies in [lo, hi) on every axis (of some periodic image)"""
    r = []
    for (lo, hi), q in zip(dom, x):
        ks = range(-K, K + 1) if periodic else (0,)
        r.append(sor(*[sand(q >= lo + k * L, q < hi + k * L) for k in ks]))
    return sand(*r)


def near(dom, x, s, L, periodic, K=8, closed=False):
    r = []
    for (lo, hi), q, t in zip(dom, x, s):
        ks = range(-K, K + 1) if periodic else (0,)
        # an empty domain is nowhere
        if closed:
            r.append(sand(lo < hi, sor(*[sand(q + t >= lo + k * L, q - t <= hi + k * L) for k in ks])))
            continue
        r.append(sand(lo < hi, sor(*[sand(q + t > lo + k * L, q - t < hi + k * L) for k in ks])))
    return sand(*r)


def copies(recv, tag):
    """how many entries of a received id array are tag"""
    return sum(1 for q in recv if int(q) == tag)


def targets(c, counts, nr, must=False):
    """a symbolic set of target ranks for every item of every rank"""
    T = []
    for r, n in enumerate(counts):
        t = []
        for i in range(n):
            k = int(c.int('t%d_%d' % (r, i), 1 if must else 0, 2 ** nr - 1))
            t.append([q for q in range(nr) if k >> q & 1])
        T.append(t)
    return T


def layout(env, D, comm, T):
    np = env.np
    t = T[comm.rank]
    idx = [i for q in range(comm.size) for i in range(len(t)) if q in t[i]]
    cnt = [sum(1 for i in t if q in i) for q in range(comm.size)]
    return D.Layout(comm, len(t), np.array(cnt, 'int32'), np.array(idx, 'int32'))


def received(T, r):
    """(source rank, item) in the order in which rank r must receive them"""
    return [(s, i) for s in range(len(T)) for i in range(len(T[s])) if r in T[s][i]]


def same(a, b):
    """arrays equal element by element (a condition)"""
    return sand(*[x == y for x, y in zip(flat(a), flat(b))])


def flat(a):
    if isinstance(a, (list, tuple)):
        return [y for x in a for y in flat(x)]
    if hasattr(a, 'shape') and a.shape:
        return [a[i] for i in itertools.product(*[range(k) for k in a.shape])]
    return [a]


def values(c, tag, n, shape, kind):
    """n rows of the given trailing shape, as nested lists"""
    def rec(pre, sh):
        if not sh:
            t = tag + '_'.join(map(str, pre))
            if kind == 'i':
                return sum((k + 1) * 10 ** j for j, k in enumerate(reversed(pre))) + hash_tag(tag)
            if kind == 'c':
                return c.cplx(t, -8, 8)
            return c.real(t, -8, 8)
        return [rec(pre + [k], sh[1:]) for k in range(sh[0])]
    return [rec([i], list(shape)) for i in range(n)]


def hash_tag(tag):
    return 100000 * sum((i + 1) * ord(ch) for i, ch in enumerate(tag)) % 9000000
