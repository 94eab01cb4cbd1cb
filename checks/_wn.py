"""shared by the checks of pmesh.whitenoise: the random generator is an uninterpreted stream"""
from fractions import Fraction
from vsym import core, load, snp, llvm
from vsym.core import sand, sor, snot, SNum

PRELOAD = ['whitenoise']
REAL = ['_whitenoise']

# any generator: draw number n after seeding with s is an arbitrary number in (0, 1) that depends
# on s and n only
LOG = []


def rng_alloc(vm, kind):
    m = llvm.Mem('rng', 8)
    m.rng = None
    return llvm.Ptr(m, 0)


def rng_free(vm, p):
    if p.m.freed:
        raise core.CodeFault('double free')
    p.m.freed = True


def rng_set(vm, p, seed):
    p.m.rng = [seed, 0]


def rng_uniform(vm, p):
    c = core.ctx()
    if p.m.freed:
        raise core.CodeFault('use after free')
    if p.m.rng is None:
        raise core.CodeFault('the generator is used before it is seeded')
    seed, n = p.m.rng
    p.m.rng[1] = n + 1
    v = c.ufun('draw', SNum.of(seed), SNum.of(n))
    a = next(iter(v.atoms()))
    if a not in c.bounds:
        zero = getattr(c, 'zero_draws', None)
        if zero is not None and n in zero:
            c.assume(v >= 0)
        else:
            c.assume(v > 0)
        c.assume(v < 1)
        LOG.append((SNum.of(seed), n, v))
    return v


EXT = {'_whitenoise': {'gsl_rng_alloc': rng_alloc, 'gsl_rng_free': rng_free, 'gsl_rng_set': rng_set, 'gsl_rng_uniform': rng_uniform}}


def sym_env(cfg):
    return load.SymEnv(externs=EXT)


MARK = 77


def gen(env, start, size, N, seed, unitary, dt='c16', order='C', base=None):
    """generate one block; cells that were not written hold the mark"""
    np = env.np
    W = env.load('whitenoise')
    if order == 'T':                      # transposed memory layout (axes 1, 2, 0)
        a = np.full((size[1], size[2], size[0]), MARK, dt)
        v = np.transpose(a, (2, 0, 1))
    elif order == 'S':                    # a view into a larger array
        a = np.full((size[0] + 1, size[1] + 2, size[2] + 1), MARK, dt)
        v = a[1:, 1:-1, :size[2]]
    else:
        a = np.full(tuple(size), MARK, dt)
        v = a
    W.generate(v, np.array(start, 'intp'), np.array(N, 'intp'), seed, unitary)
    return v, a
