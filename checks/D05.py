"""Domain load counts primaries and load balancing keeps a valid assignment"""
from checks._dom import *

LEVEL = 'model_checking'
BOUNDS = ('up to 3 particles at symbolic positions up to one box outside the box on 1 to 3 ranks, symbolic ascending edges, up to 5 domains in 1 and 2x2 in 2 dimensions; balancing: every load pattern with '
          'symbolic non-negative loads of up to 5 domains (4 in the quick tier) on 2 or 3 ranks')
OUTSIDE = ('rounding of the positions, except that the remainder of a tiny negative number is modelled as the period itself; many particles (one configuration has one particle in a second chunk of 49152)')


def configs(tier):
    out = []
    for per in (1, 0):
        for sh, nr, src in (((1,), 1, (0,)), ((2,), 1, (0, 0)), ((3,), 2, (0, 1)), ((3,), 2, (0, 0)), ((4,), 3, (0, 2)), ((2, 2), 2, (1,)), ((2,), 2, (0, 1, 1))):
            t = '%s-r%d-n%d%s-%s' % ('x'.join(map(str, sh)), nr, len(src), ''.join(map(str, src)), 'p' if per else 'n')
            out.append(dict(name='load-' + t, kind='load', shape=sh, nr=nr, src=src, per=per, fixed=len(src) > 2 or (len(src) > 1 and sh[0] > 2), weight=len(src) * 2 + sh[0]))
    for sh, nr, src in (((1,), 1, (0,)), ((3,), 2, (0, 1)), ((2, 2), 2, (1,)), ((3, 1, 2), 2, (1,))):
        out.append(dict(name='load-outside-%s-r%d' % ('x'.join(map(str, sh)), nr), kind='load', shape=sh, nr=nr, src=src, per=0, fixed=True, outside=1, weight=4))
    out.append(dict(name='load-chunk', kind='load', shape=(2,), nr=1, src=(0,), per=0, fixed=True, chunk=1, weight=20))
    out.append(dict(name='load-tiny', kind='load', shape=(2,), nr=2, src=(0, 1), per=1, tiny=1))
    out.append(dict(name='load-gamma', kind='load', shape=(2,), nr=2, src=(0, 1), per=1, gamma=2, fixed=True))
    out.append(dict(name='load-transform', kind='load', shape=(2,), nr=2, src=(0, 1), per=1, scale=2, fixed=True))
    for sh, nr in (((3,), 2), ((4,), 2), ((4,), 3), ((2, 2), 2), ((2,), 3)) + ((((5,), 2), ((5,), 3)) if tier == 'thorough' else ()):
        out.append(dict(name='balance-%s-r%d' % ('x'.join(map(str, sh)), nr), kind='balance', shape=sh, nr=nr, per=1, weight=6, budget=500))
    out.append(dict(name='route-3-r2', kind='route', shape=(3,), nr=2, per=1, weight=5))
    out.append(dict(name='route-2x2-r2', kind='route', shape=(2, 2), nr=2, per=1, weight=5))
    return out


def harness(c, env, cfg):
    L = 4
    nd = len(cfg['shape'])
    nr, per = cfg['nr'], cfg['per']
    snp.FLOAT_REM[0] = bool(cfg.get('tiny'))
    D = env.load('domain')
    np = env.np
    kind = cfg['kind']
    edges = mkedges(c, cfg['shape'], L, cfg.get('fixed') or kind != 'load')
    doms = domains(edges)

    def grid(comm):
        return D.GridND([np.array(e, 'f8') for e in edges], comm=comm, periodic=bool(per))

    if kind == 'load':
        n = len(cfg['src'])
        if cfg.get('tiny'):
            x = [[c.real('x%d_%d' % (i, d), Fraction(-1, 2 ** 70), Fraction(1, 2 ** 70)) for d in range(nd)] for i in range(n)]
        else:
            x = positions(c, n, nd, L, -1, 2) if per and n < 3 or cfg.get('outside') else positions(c, n, nd, L, 0, 1)
            if not per and not cfg.get('outside'):
                for p in x:
                    for q in p:
                        c.assume(q < L)
        k = cfg.get('scale', 1)
        tr = (lambda p: p * k) if k != 1 else None

        def rank(comm):
            g = grid(comm)
            mine = [[q * Fraction(1, k) for q in x[i]] for i in range(n) if cfg['src'][i] == comm.rank]
            if cfg.get('chunk'):
                # the code works on chunks of 49152 particles
                mine = [[1.0]] * 49152 + mine
            pos = arr(env, mine, nd)
            ld = g.load(pos, transform=tr, gamma=cfg.get('gamma', 1))
            prim = g.isprimary(arr(env, [[q * Fraction(1, k) for q in p] for p in x], nd), tr)
            return [int(v) for v in ld], [bool(b) for b in prim], [int(a) for a in g.DomainAssign]
        R = env.spmd(nr, rank)
        ld = R[0][0]
        c.check(all(r[0] == ld for r in R), 'ranks disagree on the loads')
        if 'gamma' not in cfg:
            c.check(sum(ld) == n + (49152 if cfg.get('chunk') else 0), 'the loads do not add up to the number of particles', dict(load=ld))
        for j, dom in enumerate(doms):
            m = 49152 if cfg.get('chunk') and j == 0 else 0
            if cfg.get('tiny'):
                # only the first domain or the last one can be meant; isprimary tells which rank
                continue
            for p in x:
                if cfg.get('outside'):
                    # the outermost domains reach out to infinity
                    if sand(*[sand(sor(lo == 0, q >= lo), sor(hi == L, q < hi)) for (lo, hi), q in zip(dom, p)]):
                        m += 1
                elif inside(dom, p, L, per):
                    m += 1
            c.check(ld[j] == m ** cfg.get('gamma', 1), 'a load is not the number of particles in the domain', dict(domain=j, load=ld, number=m))
        if cfg.get('outside'):
            return
        for r in range(nr):
            have = sum(R[r][1]) + (49152 if cfg.get('chunk') else 0)
            c.check(have == sum(v for v, a in zip(ld, R[r][2]) if a == r) or 'gamma' in cfg, 'loads disagree with the primary test')
        return

    w = [c.int('w%d' % i, 0, 6) for i in range(len(doms))] if kind == 'balance' else None
    if kind == 'balance':
        before = default_assign(len(doms), nr)

        def rank(comm):
            g = grid(comm)
            g.loadbalance(w)
            return [int(a) for a in g.DomainAssign]
        R = env.spmd(nr, rank)
        A = R[0]
        c.check(all(a == A for a in R), 'ranks disagree on the assignment')
        c.check(len(A) == len(doms) and all(0 <= a < nr for a in A), 'a domain is assigned to no valid rank', dict(assign=A))
        if len(doms) <= nr:
            c.check(sorted(A) == list(range(len(doms))), 'domains share a rank although there are enough ranks', dict(assign=A))
            return
        tot = [0] * nr
        for a, q in zip(A, w):
            tot[a] = tot[a] + q
        # greedy bound: a rank carries at most the mean plus its largest domain
        for r in range(nr):
            mine = [q for a, q in zip(A, w) if a == r]
            c.check(sor(*([tot[r] * nr <= sum(w) + nr * q for q in mine] or [True])), 'a rank carries more than the mean load plus one domain', dict(assign=A))
        return

    # routing after balancing
    w = [c.int('w%d' % i, 0, 3 if nd == 1 else 1) for i in range(len(doms))]
    x = positions(c, 1, nd, L, 0, 1)

    def rank(comm):
        g = grid(comm)
        g.loadbalance(w)
        pos = arr(env, x if comm.rank == 0 else [], nd)
        lay = g.decompose(pos)
        got = lay.exchange(pos)
        prim = g.isprimary(arr(env, x, nd))
        return len(got), bool(prim[0]), [int(a) for a in g.DomainAssign]
    R = env.spmd(nr, rank)
    A = R[0][2]
    for j, dom in enumerate(doms):
        if inside(dom, x[0], L, per):
            for r in range(nr):
                c.check(R[r][0] == int(A[j] == r), 'a particle is not routed to the rank its domain is assigned to', dict(domain=j, assign=A))
                c.check(R[r][1] == (A[j] == r), 'the primary test does not follow the assignment', dict(domain=j, assign=A))
