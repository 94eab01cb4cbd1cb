"""
Symbolic values and the path explorer.

Numbers are exact: a symbolic number is a multivariate polynomial with rational
coefficients over *atoms* (symbolic inputs, floor() results, uninterpreted function
applications).  Control flow is explored by re-execution: every comparison on a symbolic
value calls `Ctx.branch`, which asks z3 which outcomes are feasible under the path
condition, follows one and queues the other.  Assertions are `Ctx.check`: z3 is asked for
an assignment satisfying the path condition and the negated assertion.
"""
import random
import sys
import time
import itertools
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

QUERY_TIMEOUT_MS = 15000


class PathEnd(BaseException):
    """The current path ends here (infeasible, pruned, or its violation was recorded)."""


class Unsupported(BaseException):
    """The engine cannot execute something symbolically."""


class CodeFault(Exception):
    """The code under test did something no execution may do (OOB, abort, ...)."""


# --------------------------------------------------------------------------- rationals

def rat(x):
    """A machine number read as an exact rational.

    A float constant stands for the simplest rational that rounds to it (so 1.0/6.0 is
    1/6), so that source literals mean what they say; rounding itself is outside the model.
    """
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    f = float(x)
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant %r' % f)
    if f == int(f) and abs(f) < 2 ** 53:
        return Fraction(int(f))
    e = Fraction(f)
    if e.denominator <= 4096:
        return e
    s = e.limit_denominator(1000000)
    if float(s) == f:
        return s
    d = repr(f)
    if sum(ch.isdigit() for ch in d.split('e')[0].lstrip('-0.')) <= 15:
        return Fraction(d)
    return e


# --------------------------------------------------------------------------- atoms

class Atom(object):
    __slots__ = ('name', 'isint', 'z', 'key', 'uid')
    _n = itertools.count()

    def __init__(self, name, isint, z):
        self.name = name
        self.isint = isint
        self.z = z
        self.uid = next(Atom._n)

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.uid < o.uid


_ZERO = Fraction(0)
_ONE = Fraction(1)


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for at, p in b:
        d[at] = d.get(at, 0) + p
    return tuple(sorted(d.items(), key=_mkey))


def _mkey(t):
    return t[0].uid


class SNum(object):
    """Polynomial over atoms."""
    __slots__ = ('t', '_z', '_int')
    __array_priority__ = -1000

    def __init__(self, t):
        self.t = t
        self._z = None
        self._int = None

    # -- structure
    @staticmethod
    def of(x):
        if isinstance(x, SNum):
            return x
        if isinstance(x, SBool):
            x = bool(x)
        r = rat(x)
        return SNum({(): r} if r else {})

    @staticmethod
    def atom(a):
        return SNum({((a, 1),): _ONE})

    def const(self):
        """Fraction if constant, else None"""
        if not self.t:
            return _ZERO
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    @property
    def isint(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(a.isint for a, p in m)
                            for m, c in self.t.items())
        return self._int

    def key(self):
        return frozenset(self.t.items())

    def z(self):
        if self._z is None:
            terms = []
            isint = self.isint
            for m, c in self.t.items():
                fac = []
                if isint:
                    cz = z3.IntVal(c.numerator)
                else:
                    cz = z3.RealVal(c)
                if c != 1 or not m:
                    fac.append(cz)
                for a, p in m:
                    az = a.z
                    if a.isint and not isint:
                        az = z3.ToReal(az)
                    fac.extend([az] * p)
                e = fac[0]
                for f in fac[1:]:
                    e = e * f
                terms.append(e)
            if not terms:
                self._z = z3.IntVal(0)
            elif len(terms) == 1:
                self._z = terms[0]
            else:
                self._z = z3.Sum(terms)
        return self._z

    def zreal(self):
        z = self.z()
        if z.sort() == z3.IntSort():
            c = self.const()
            if c is not None:
                return z3.RealVal(c)
            return z3.ToReal(z)
        return z

    def atoms(self):
        s = set()
        for m in self.t:
            for a, p in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t.items():
            out.append('*'.join([str(c)] + [a.name + ('^%d' % p if p > 1 else '') for a, p in m]))
        return ' + '.join(out)

    # -- arithmetic
    def _coerce(self, o):
        if isinstance(o, SNum):
            return o
        if isinstance(o, SBool):
            return SNum.of(bool(o))
        if isinstance(o, SCplx):
            return None
        if isinstance(o, (int, float, Fraction)):
            return SNum.of(o)
        if isinstance(o, complex):
            return None
        import numpy as np
        if isinstance(o, (np.integer, np.floating, np.bool_)):
            return SNum.of(o.item())
        return None

    def __add__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        if not q.t:
            return self
        if not self.t:
            return q
        a, b = self.t, q.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return SNum(r)
    __radd__ = __add__

    def __neg__(self):
        return SNum({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return self + (-q)

    def __rsub__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return q + (-self)

    def __mul__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        a, b = self.t, q.t
        if not a or not b:
            return SNum({})
        if len(b) == 1 and () in b:
            c = b[()]
            if c == 1:
                return self
            return SNum({m: v * c for m, v in a.items()})
        if len(a) == 1 and () in a:
            c = a[()]
            if c == 1:
                return q
            return SNum({m: v * c for m, v in b.items()})
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mmul(m1, m2)
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        if len(r) > 20000:
            raise Unsupported('polynomial too large')
        return SNum({m: c for m, c in r.items() if c})
    __rmul__ = __mul__

    def __truediv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        c = q.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError('division by zero')
            return self * (1 / c)
        return ctx().divide(self, q)

    def __rtruediv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return q.__truediv__(self)

    def __pow__(self, n):
        if isinstance(n, SNum):
            n = n.const()
            if n is None:
                raise Unsupported('symbolic exponent')
        n = rat(n)
        if n.denominator != 1:
            if n == Fraction(1, 2):
                return ctx().sqrt(self)
            raise Unsupported('fractional power')
        n = int(n)
        if n < 0:
            return SNum.of(1) / (self ** (-n))
        r = SNum.of(1)
        for i in range(n):
            r = r * self
        return r

    def __floordiv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return ctx().floor(self / q)

    def __rfloordiv__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return ctx().floor(q / self)

    def __mod__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return self - q * ctx().floor(self / q)

    def __rmod__(self, o):
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        return q % self

    def __divmod__(self, o):
        return self // o, self % o

    def __abs__(self):
        if self < 0:
            return -self
        return self

    # numpy object-array hooks
    def floor(self):
        return ctx().floor(self)

    def ceil(self):
        return -ctx().floor(-self)

    def rint(self):
        f = ctx().floor(self)
        r = self - f
        if r < Fraction(1, 2):
            return f
        if r > Fraction(1, 2):
            return f + 1
        return f if int(f) % 2 == 0 else f + 1

    def trunc(self):
        if self >= 0:
            return self.floor()
        return self.ceil()
    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def sqrt(self):
        return ctx().sqrt(self)

    def __getattr__(self, name):
        if name in ('sin', 'cos', 'exp', 'log', 'tan', 'arctan', 'log10'):
            return lambda: ctx().ufun(name, self)
        raise AttributeError(name)

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # -- relations
    def _rel(self, o, op):
        q = self._coerce(o)
        if q is None:
            if isinstance(o, (float,)) :
                return NotImplemented
            return NotImplemented
        d = self - q
        c = d.const()
        if c is not None:
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        return SBool((op, d))

    def __lt__(self, o):
        if isinstance(o, float) and (o == float('inf')): return True
        if isinstance(o, float) and (o == -float('inf')): return False
        return self._rel(o, '<')

    def __le__(self, o):
        if isinstance(o, float) and (o == float('inf')): return True
        if isinstance(o, float) and (o == -float('inf')): return False
        return self._rel(o, '<=')

    def __gt__(self, o):
        if isinstance(o, float) and (o == float('inf')): return False
        if isinstance(o, float) and (o == -float('inf')): return True
        return self._rel(o, '>')

    def __ge__(self, o):
        if isinstance(o, float) and (o == float('inf')): return False
        if isinstance(o, float) and (o == -float('inf')): return True
        return self._rel(o, '>=')

    def __eq__(self, o):
        r = self._rel(o, '==')
        return r

    def __ne__(self, o):
        return self._rel(o, '!=')

    __hash__ = object.__hash__

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return bool(self != 0)

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        e = self
        if not e.isint:
            e = self.trunc()
        return ctx().concretize(e)

    def __index__(self):
        if not self.isint:
            raise TypeError('float used as an index')
        return int(self)

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported('a symbolic real was converted to a machine float')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self


class SBool(object):
    """Lazy boolean: ('op', poly) with op relative to zero, or connectives."""
    __slots__ = ('f', '_z', '_v')

    def __init__(self, f):
        self.f = f
        self._z = None

    def z(self):
        if self._z is None:
            op = self.f[0]
            if op == 'and':
                self._z = z3.And([bz(x) for x in self.f[1]])
            elif op == 'or':
                self._z = z3.Or([bz(x) for x in self.f[1]])
            elif op == 'not':
                self._z = z3.Not(bz(self.f[1]))
            elif op == 'z':
                self._z = self.f[1]
            else:
                d = self.f[1]
                # scale to integer coefficients; separates nicely for the arithmetic solver
                l = 1
                for c in d.t.values():
                    l = l * c.denominator // _gcd(l, c.denominator)
                if l != 1:
                    d = d * l
                e = d.z()
                zero = z3.IntVal(0) if e.sort() == z3.IntSort() else z3.RealVal(0)
                self._z = {'<': e < zero, '<=': e <= zero, '>': e > zero, '>=': e >= zero,
                           '==': e == zero, '!=': e != zero}[op]
        return self._z

    def __bool__(self):
        return ctx().branch(self)

    def __and__(self, o):
        return sand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def _i(self):
        return int(bool(self))

    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __int__(self): return self._i()
    __index__ = __int__
    def __eq__(self, o): return bool(self) == bool(o)
    def __ne__(self, o): return bool(self) != bool(o)
    __hash__ = object.__hash__
    def __repr__(self): return 'SBool(%r)' % (self.f,)


class SCplx(object):
    """symbolic complex number; parts are SNum or machine numbers"""
    __slots__ = ('real', 'imag')
    __array_priority__ = -1000

    def __init__(self, re, im=0):
        self.real = re
        self.imag = im

    @staticmethod
    def of(x):
        if isinstance(x, SCplx):
            return x
        if isinstance(x, SNum):
            return SCplx(x, 0)
        import numpy as np
        if isinstance(x, (complex, np.complexfloating)):
            return SCplx(x.real, x.imag)
        return SCplx(x, 0)

    def _c(self, o):
        if isinstance(o, SCplx):
            return o
        import numpy as np
        if isinstance(o, np.ndarray) or not isinstance(o, (SNum, np.generic)) and hasattr(o, '__array_ufunc__'):
            return None
        return SCplx.of(o)

    def __add__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        return SCplx(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        return SCplx(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        return o - self

    def __mul__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        return SCplx(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        if isinstance(o.imag, (int, float)) and o.imag == 0:
            return SCplx(sdiv(self.real, o.real), sdiv(self.imag, o.real))
        n = o.real * o.real + o.imag * o.imag
        r = self * o.conjugate()
        return SCplx(sdiv(r.real, n), sdiv(r.imag, n))

    def __rtruediv__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        return o / self

    def __neg__(self):
        return SCplx(-self.real, -self.imag)

    def __pos__(self):
        return self

    def conjugate(self):
        return SCplx(self.real, -self.imag)
    conj = conjugate

    def __abs__(self):
        return ssqrt(self.real * self.real + self.imag * self.imag)

    def __pow__(self, n):
        r = SCplx(1, 0)
        for i in range(int(n)):
            r = r * self
        return r

    def __eq__(self, o):
        o = self._c(o)
        if o is None: return NotImplemented
        return sand(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        return snot(self == o)
    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __complex__(self):
        raise Unsupported('symbolic complex converted to machine complex')

    def __repr__(self):
        return '(%r + %rj)' % (self.real, self.imag)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def sdiv(a, b):
    """exact a / b also for machine numbers"""
    if isinstance(a, SNum) or isinstance(b, SNum):
        return a / b
    return a / b


def ssqrt(a):
    if isinstance(a, SNum):
        return a.sqrt()
    return a ** 0.5


def issym(x):
    return isinstance(x, (SNum, SBool, SCplx))


def bz(x):
    if isinstance(x, SBool):
        return x.z()
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def sand(*xs):
    xs = [x for x in _flat(xs)]
    out = []
    for x in xs:
        if isinstance(x, (SBool, z3.BoolRef)):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return SBool(('and', out))


def sor(*xs):
    xs = [x for x in _flat(xs)]
    out = []
    for x in xs:
        if isinstance(x, (SBool, z3.BoolRef)):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return SBool(('or', out))


def snot(x):
    if isinstance(x, SBool):
        f = x.f
        neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
        if f[0] in neg:
            return SBool((neg[f[0]], f[1]))
        return SBool(('not', x))
    if isinstance(x, z3.BoolRef):
        return SBool(('z', z3.Not(x)))
    return not x


def simplies(a, b):
    return sor(snot(a), b)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
            for y in _flat(x):
                yield y
        else:
            yield x


# --------------------------------------------------------------------------- context

_CTX = None


def ctx():
    if _CTX is None:
        raise Unsupported('symbolic operation outside a path')
    return _CTX


def in_ctx():
    return _CTX is not None


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.retried = 0
        self.paths = 0
        self.pruned = 0
        self.assertions = 0
        self.reached = 0
        self.branches = 0
        self.concretized = 0
        self.notes = {}

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def asdict(self):
        return dict(self.__dict__)


class Violation(object):
    def __init__(self, label, values, prefix, cfg=None, detail=None, alts=()):
        self.label = label
        self.values = values
        self.prefix = prefix
        self.cfg = cfg
        self.detail = detail
        self.alts = list(alts)

    def asdict(self):
        return dict(label=self.label, values=self.values, cfg=self.cfg, detail=self.detail, alts=self.alts)


class Ctx(object):
    symbolic = True

    def __init__(self, prefix, stats, deadline):
        self.prefix = prefix
        self.nprefix = len(prefix)
        self.trace = []
        self.alternatives = []
        self.stats = stats
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', QUERY_TIMEOUT_MS)
        self.ranges = {}
        self.inputs = {}       # name -> Atom
        self.atoms = {}
        self.memo = {}         # canonical function applications
        self.uf = {}
        self.floors = []
        self.violations = []
        self.assumptions = []
        self.inconclusive = []
        self.nonlinear = False
        self.bounds = {}
        self.pc = []
        self.nfresh = 0
        self.on_violation = None

    # -- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        a = Atom(name, False, z3.Real(name))
        self.inputs[name] = a
        self.ranges[name] = (lo, hi)
        x = SNum.atom(a)
        if lo is not None:
            self.assume(x > lo if lo_open else x >= lo)
        if hi is not None:
            self.assume(x < hi if hi_open else x <= hi)
        return x

    def int(self, name, lo=None, hi=None):
        a = Atom(name, True, z3.Int(name))
        self.inputs[name] = a
        self.ranges[name] = (lo, hi)
        x = SNum.atom(a)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def cplx(self, name, lo=None, hi=None):
        return SCplx(self.real(name + 'r', lo, hi), self.real(name + 'i', lo, hi))

    def fresh(self, base, isint):
        self.nfresh += 1
        name = '%s!%d' % (base, self.nfresh)
        return Atom(name, isint, z3.Int(name) if isint else z3.Real(name))

    # -- interval reasoning on single inputs (a cheap sound filter before the solver)
    def _ival(self, d):
        lo = hi = Fraction(0)
        ls = hs = False
        B = self.bounds
        for m, c in d.t.items():
            if len(m) == 1 and m[0][1] == 1:
                b = B.get(m[0][0])
                if b is None:
                    return None, False, None, False
                l, lst, h, hst = b
            elif not m:
                l = h = Fraction(1)
                lst = hst = False
            else:
                l = h = Fraction(1)
                lst = hst = False
                for a, p in m:
                    b = B.get(a)
                    if b is None or b[0] is None or b[2] is None:
                        if p % 2 == 0 and len(m) == 1:
                            l, h = Fraction(0), None
                            break
                        return None, False, None, False
                    x, y = b[0] ** p, b[2] ** p
                    if p % 2 == 0:
                        pl = Fraction(0) if b[0] <= 0 <= b[2] else min(x, y)
                        ph = max(x, y)
                    else:
                        pl, ph = x, y
                    q = (l * pl, l * ph, h * pl, h * ph)
                    l, h = min(q), max(q)
            if c < 0:
                l, lst, h, hst = h, hst, l, lst
            if lo is not None:
                if l is None:
                    lo = None
                else:
                    lo += c * l
                    ls = ls or lst
            if hi is not None:
                if h is None:
                    hi = None
                else:
                    hi += c * h
                    hs = hs or hst
            if lo is None and hi is None:
                return None, False, None, False
        return lo, ls, hi, hs

    def decide(self, c):
        """truth of a condition from the bounds of single inputs, or None"""
        if not isinstance(c, SBool):
            return None if isinstance(c, z3.BoolRef) else bool(c)
        op = c.f[0]
        if op == 'and' or op == 'or':
            r = op == 'and'
            for x in c.f[1]:
                v = self.decide(x)
                if v is None:
                    r = None
                elif v is (op == 'or'):
                    return v
            return r
        if op == 'not':
            v = self.decide(c.f[1])
            return None if v is None else not v
        if op == 'z':
            return None
        lo, ls, hi, hs = self._ival(c.f[1])
        if op == '<':
            if hi is not None and (hi < 0 or hi == 0 and hs): return True
            if lo is not None and lo >= 0: return False
        elif op == '<=':
            if hi is not None and hi <= 0: return True
            if lo is not None and (lo > 0 or lo == 0 and ls): return False
        elif op == '>':
            if lo is not None and (lo > 0 or lo == 0 and ls): return True
            if hi is not None and hi <= 0: return False
        elif op == '>=':
            if lo is not None and lo >= 0: return True
            if hi is not None and (hi < 0 or hi == 0 and hs): return False
        else:
            out = (hi is not None and (hi < 0 or hi == 0 and hs)) or (lo is not None and (lo > 0 or lo == 0 and ls))
            if out:
                return op == '!='
            if lo is not None and lo == 0 and hi == 0:
                return op == '=='
        return None

    def learn(self, c, truth=True):
        if not isinstance(c, SBool):
            return
        op = c.f[0]
        if op == 'and' and truth or op == 'or' and not truth:
            for x in c.f[1]:
                self.learn(x, truth)
            return
        if op == 'not':
            self.learn(c.f[1], not truth)
            return
        if op in ('and', 'or', 'z'):
            return
        if not truth:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
        if op == '!=':
            return
        t = c.f[1].t
        a = k = None
        b = Fraction(0)
        for m, v in t.items():
            if not m:
                b = v
            elif len(m) == 1 and m[0][1] == 1 and a is None:
                a, k = m[0][0], v
            else:
                return
        if a is None:
            return
        x = -b / k
        if k < 0:
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[op]
        B = self.bounds.get(a)
        if B is None:
            B = [None, False, None, False]
        else:
            B = list(B)
        if op in ('<', '<=', '=='):
            h, st = x, op == '<'
            if a.isint:
                f = h.numerator // h.denominator
                h = Fraction(f - 1 if st and f == h else f)
                st = False
            if B[2] is None or h < B[2] or h == B[2] and st:
                B[2], B[3] = h, st
        if op in ('>', '>=', '=='):
            l, st = x, op == '>'
            if a.isint:
                f = -((-l.numerator) // l.denominator)
                l = Fraction(f + 1 if st and f == l else f)
                st = False
            if B[0] is None or l > B[0] or l == B[0] and st:
                B[0], B[1] = l, st
        self.bounds[a] = B

    # -- constraints
    def assume(self, c):
        if isinstance(c, SBool):
            self.add(c.z())
            self.learn(c)
        elif isinstance(c, z3.BoolRef):
            self.add(c)
        elif not c:
            raise PathEnd('assumption false')

    def add(self, z):
        self.pc.append(z)
        self.solver.add(z)

    def check_sat(self, *extra):
        t = time.time()
        if t > self.deadline:
            raise Budget()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        if r == z3.unknown and self.pc:
            # a fresh, non incremental solver often decides what the incremental one does not
            s = z3.SolverFor('QF_NIRA') if False else z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s.set('timeout', QUERY_TIMEOUT_MS)
            s.add(*self.pc)
            s.add(*extra)
            r = s.check()
            self._last = s
        else:
            self._last = self.solver
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def retry(self, *extra):
        """an undecided assertion again, with more time (a few times per configuration)"""
        left = self.deadline - time.time() - 10
        if left < 20 or self.stats.retried >= 4:
            return z3.unknown
        self.stats.retried += 1
        t = time.time()
        s = z3.Then('simplify', 'solve-eqs', 'smt').solver()
        s.set('timeout', int(1000 * min(60, left)))
        s.add(*self.pc)
        s.add(*extra)
        r = s.check()
        self._last = s
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r != z3.unknown:
            self.stats.unknown -= 1
            if r == z3.sat:
                self.stats.sat += 1
            else:
                self.stats.unsat += 1
        return r

    def feasible(self):
        if self.check_sat() == z3.unsat:
            raise PathEnd('infeasible')

    # -- forks
    def branch(self, c):
        d = self.decide(c)
        if d is not None:
            return d
        d = self._branch(c)
        self.learn(c, d)
        return d

    def _branch(self, c):
        z = bz(c)
        self.stats.branches += 1
        if len(self.trace) < self.nprefix:
            d = self.prefix[len(self.trace)]
            self.trace.append(d)
            self.add(z if d else z3.Not(z))
            return d
        s = z3.simplify(z)
        if z3.is_true(s):
            d = True
        elif z3.is_false(s):
            d = False
        else:
            rt = self.check_sat(z)
            if rt == z3.unsat:
                d = False
                self.add(z3.Not(z))
            else:
                rf = self.check_sat(z3.Not(z))
                if rf == z3.unsat:
                    d = True
                    self.add(z)
                else:
                    d = True
                    self.alternatives.append(list(self.trace) + [False])
                    self.add(z)
        self.trace.append(d)
        return d

    def implied(self, c):
        """does the path condition entail c (no fork)"""
        d = self.decide(c)
        if d is not None:
            return d
        z = bz(c)
        s = z3.simplify(z)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.check_sat(z3.Not(z)) == z3.unsat

    def possible(self, c):
        d = self.decide(c)
        if d is not None:
            return d
        return self.check_sat(bz(c)) != z3.unsat

    def concretize(self, e, limit=4096):
        """fork over every feasible integer value of e"""
        c = e.const()
        if c is not None:
            return int(c)
        lo, ls, hi, hs = self._ival(e)
        if lo is not None and lo == hi:
            return int(lo)
        self.stats.concretized += 1
        for i in range(limit):
            # the candidate order must be deterministic under re-execution: it is stored
            # in the decision trace as ('v', value)
            if len(self.trace) < self.nprefix:
                d = self.prefix[len(self.trace)]
                v, taken = d[1], d[2]
                self.trace.append(d)
                if taken:
                    self.assume(e == v)
                    return v
                self.assume(e != v)
                continue
            r = self.check_sat()
            if r == z3.unsat:
                raise PathEnd('infeasible')
            if r == z3.unknown:
                raise Unsupported('cannot concretise')
            m = self._last.model()
            v = m.eval(e.z(), model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else int(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            d = ('v', v, True)
            if self.possible(e != v):
                self.alternatives.append(list(self.trace) + [('v', v, False)])
            self.trace.append(d)
            self.assume(e == v)
            return v
        raise Unsupported('unbounded concretisation')

    # -- functions
    def floor(self, x):
        """exact floor of a polynomial: integer part split off structurally, the rest located by
        the solver"""
        if not isinstance(x, SNum):
            import math
            return math.floor(x)
        if x.isint:
            return x
        ip, rest = {}, {}
        for m, c in x.t.items():
            if c.denominator == 1 and all(a.isint for a, p in m):
                ip[m] = c
            elif m == ():
                fl = c.numerator // c.denominator
                if fl:
                    ip[m] = Fraction(fl)
                rest[m] = c - fl
            else:
                rest[m] = c
        rest = {m: c for m, c in rest.items() if c}
        ipart = SNum(ip)
        r = SNum(rest)
        c = r.const()
        if c is not None:
            return ipart + (c.numerator // c.denominator)
        lo, ls, hi, hs = self._ival(r)
        if lo is not None and hi is not None:
            fl = lo.numerator // lo.denominator
            fh = hi.numerator // hi.denominator
            if hs and fh == hi:
                fh -= 1
            if fl == fh:
                return ipart + fl
        k = ('floor', r.key())
        if k in self.memo:
            return ipart + self.memo[k]
        a = self.fresh('fl', True)
        n = SNum.atom(a)
        self.add(bz(n <= r))
        self.add(bz(r < n + 1))
        # bounded small range: fork to a constant, so values stay polynomial in the inputs
        if lo is not None and hi is not None and hi - lo > 10000:
            small = False
        elif len(self.trace) < self.nprefix:
            small = self.prefix[len(self.trace)]
            self.trace.append(small)
            small = small[1]
        else:
            small = False
            if self.check_sat() == z3.sat:
                v = self._last.model().eval(n.z(), model_completion=True).as_long()
                if self.implied(sand(n >= v - 3, n <= v + 3)):
                    small = True
            self.trace.append(('small', small))
        if small:
            v = SNum.of(self.concretize(n))
        else:
            v = n
        self.memo[k] = v
        return ipart + v

    def divide(self, a, b):
        k = ('div', a.key(), b.key())
        if k in self.memo:
            return self.memo[k]
        # a / b == (c*b) / b
        if a.t and b.t:
            m0 = next(iter(b.t))
            if m0 in a.t:
                c = a.t[m0] / b.t[m0]
                if not (a - b * c).t:
                    return SNum.of(c)
        if self.possible(b == 0):
            if b == 0:
                raise ZeroDivisionError('division by (symbolic) zero')
        q = SNum.atom(self.fresh('quot', False))
        self.add(bz(q * b == a))
        self.memo[k] = q
        return q

    def sqrt(self, a):
        c = a.const()
        if c is not None:
            import math
            n, d = math.isqrt(c.numerator) if c >= 0 else -1, math.isqrt(c.denominator)
            if n >= 0 and n * n == c.numerator and d * d == c.denominator:
                return SNum.of(Fraction(n, d))
        k = ('sqrt', a.key())
        if k in self.memo:
            return self.memo[k]
        q = SNum.atom(self.fresh('sqrt', False))
        self.add(bz(q * q == a))
        self.add(bz(q >= 0))
        self.memo[k] = q
        return q

    def ufun(self, name, *args):
        """uninterpreted function of canonical polynomials"""
        args = [SNum.of(a) if not isinstance(a, SNum) else a for a in args]
        k = (name,) + tuple(a.key() for a in args)
        if k in self.memo:
            return self.memo[k]
        f = self.uf.get((name, len(args)))
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
            self.uf[(name, len(args))] = f
        self.nfresh += 1
        at = Atom('%s(%s)' % (name, ', '.join(map(repr, args))), False, f(*[a.zreal() for a in args]))
        v = SNum.atom(at)
        self.memo[k] = v
        return v

    # -- assertions
    def close(self, a, b, f4=False):
        """equality in the real-number model (a tolerance in the concrete replay)"""
        if isinstance(a, SCplx) or isinstance(b, SCplx):
            a, b = SCplx.of(a), SCplx.of(b)
            return sand(self.close(a.real, b.real), self.close(a.imag, b.imag))
        if isinstance(a, SNum) or isinstance(b, SNum):
            a = SNum.of(a)
            return a == b
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
        return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))

    def reach(self, tag='assert'):
        self.stats.reached += 1

    def check(self, cond, label, detail=None):
        """assert cond on this path"""
        self.stats.assertions += 1
        self.stats.reached += 1
        d = self.decide(cond)
        if d is not None:
            cond = d
        if not isinstance(cond, (SBool, z3.BoolRef)):
            if cond:
                return True
            # the path itself is the counterexample (if feasible)
            r = self.check_sat()
            if r == z3.unsat:
                raise PathEnd('infeasible')
            if r == z3.unknown:
                self.inconclusive.append(label)
                return False
            self._record(label, detail, [])
            return False
        z = z3.Not(bz(cond))
        r = self.check_sat(z)
        if r == z3.unknown:
            r = self.retry(z)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.inconclusive.append(label)
            return False
        self._record(label, detail, [z])
        return False

    def check_all(self, pairs, label, detail=None):
        """pairs: list of conditions, asserted together"""
        return self.check(sand([p for p in pairs]), label, detail)

    def fail(self, label, detail=None):
        return self.check(False, label, detail)

    def _model(self, extra):
        r = self.check_sat(*extra)
        if r != z3.sat:
            return None
        m = self._last.model()
        vals = {}
        for name, a in self.inputs.items():
            v = m.eval(a.z, model_completion=True)
            if z3.is_int_value(v):
                vals[name] = int(v.as_long())
            elif z3.is_rational_value(v):
                f = Fraction(v.numerator_as_long(), v.denominator_as_long())
                vals[name] = '%d/%d' % (f.numerator, f.denominator)
            elif z3.is_algebraic_value(v):
                f = v.approx(20)
                f = Fraction(f.numerator_as_long(), f.denominator_as_long())
                vals[name] = '%d/%d' % (f.numerator, f.denominator)
            else:
                vals[name] = str(v)
        return vals

    def nice_model(self):
        """a witness of the path with short dyadic inputs"""
        reals = [a for a in self.inputs.values() if not a.isint]
        for den in (8, 64, 1024):
            nice = [a.z * den == z3.ToReal(z3.Int('nice!%d!%s' % (den, a.name))) for a in reals]
            try:
                self.solver.set('timeout', 2000)
                m = self._model(nice)
            except Budget:
                return None
            finally:
                self.solver.set('timeout', QUERY_TIMEOUT_MS)
            if m is not None:
                return self._diverse(m)
        return None

    def _diverse(self, m):
        """the witness m with as many inputs as the path allows moved to arbitrary values: a solver
        likes to give every free input the same value, which would hide a permutation"""
        rng = random.Random('%s %s %s' % (SEED, self.stats.paths, len(self.trace)))
        want = {}
        for name, a in self.inputs.items():
            lo, hi = self.ranges.get(name) or (None, None)
            lo = Fraction(lo) if lo is not None else Fraction(hi) - 8 if hi is not None else Fraction(-8)
            hi = Fraction(hi) if hi is not None else lo + 16
            n = int((hi - lo) * (1 if a.isint else 8))
            v = lo + Fraction(rng.randint(0, max(n, 0)), 1 if a.isint else 8)
            if (v * 1024).denominator == 1:
                want[name] = v
        fixed = {n: Fraction(v) for n, v in m.items() if n in self.inputs}
        end = time.time() + 3
        try:
            self.solver.set('timeout', 500)
            for _ in range(16):
                if not want or time.time() > end:
                    break
                cons = {}
                for n, a in self.inputs.items():
                    v = want.get(n, fixed.get(n))
                    if v is None:
                        return m
                    cons[n] = a.z == (z3.IntVal(int(v)) if a.isint else z3.RealVal(v))
                r = self.check_sat(*cons.values())
                if r == z3.sat:
                    return {n: int(want.get(n, fixed[n])) if a.isint else '%d/%d' % (want.get(n, fixed[n]).numerator, want.get(n, fixed[n]).denominator)
                            for n, a in self.inputs.items()}
                core = set(str(x) for x in self._last.unsat_core()) if r == z3.unsat and self._last is self.solver else ()
                drop = [n for n in want if str(cons[n]) in core]
                if not drop:
                    drop = rng.sample(sorted(want), (len(want) + 1) // 2)
                for n in drop:
                    del want[n]
        except (Budget, z3.Z3Exception):
            pass
        finally:
            self.solver.set('timeout', QUERY_TIMEOUT_MS)
        return m

    def _record(self, label, detail, extra):
        """a counterexample; prefer dyadic inputs so that the replay is exact in doubles"""
        models = []
        base = self._model(extra)
        reals = [a for a in self.inputs.values() if not a.isint]
        for den in (8, 64, 4096):
            nice = []
            for i, a in enumerate(reals):
                k = z3.Int('nice!%d!%s' % (den, a.name))
                nice.append(a.z * den == z3.ToReal(k))
            try:
                self.solver.set('timeout', 4000)
                m = self._model(list(extra) + nice)
            finally:
                self.solver.set('timeout', QUERY_TIMEOUT_MS)
            if m is not None:
                models.append(m)
                break
        if base is not None:
            models.append(base)
        # a second, different witness
        if base is not None and reals:
            diff = [z3.Or([a.z != z3.RealVal(Fraction(base[a.name])) for a in reals if '/' in str(base[a.name])] or [z3.BoolVal(True)])]
            m = self._model(list(extra) + diff)
            if m is not None:
                models.append(m)
        if not models:
            self.inconclusive.append(label)
            return
        v = Violation(label, models[0], list(self.trace), detail=detail, alts=models[1:])
        self.violations.append(v)


class Budget(BaseException):
    pass


def explore(fn, budget_s=60.0, max_paths=100000, stats=None, max_violations=3, tag=''):
    """run fn(ctx) along every feasible path; returns (violations, stats, complete, problems)"""
    global _CTX
    stats = stats or Stats()
    deadline = time.time() + budget_s
    work = [[]]
    violations = []
    problems = []
    complete = True
    while work:
        if time.time() > deadline or stats.paths >= max_paths:
            complete = False
            problems.append('budget exhausted with %d pending prefixes' % len(work))
            break
        prefix = work.pop()
        c = Ctx(prefix, stats, deadline)
        _CTX = c
        try:
            try:
                fn(c)
                stats.paths += 1
            except PathEnd:
                stats.pruned += 1
            except Unsupported as e:
                stats.paths += 1
                complete = False
                problems.append('unsupported: %s' % (e,))
                import traceback
                problems.append(traceback.format_exc()[-1500:])
                if len(problems) > 6:
                    break
            except Budget:
                complete = False
                problems.append('budget exhausted inside a path')
                break
        finally:
            _CTX = None
        work.extend(c.alternatives)
        violations.extend(c.violations)
        if c.inconclusive:
            complete = False
            problems.extend('solver unknown: ' + str(x) for x in c.inconclusive[:2])
        if len(violations) >= max_violations:
            break
    return violations, stats, complete, problems


# --------------------------------------------------------------------------- concrete twin

class ConcreteCtx(object):
    """The same harness API over machine numbers, for the replay on the real build."""
    symbolic = False

    def __init__(self, values):
        self.values = {}
        for k, v in values.items():
            self.values[k] = v
        self.failures = []
        self.checked = 0
        self.violations = []

    f4 = False

    def _get(self, name, lo, hi, whole):
        if name not in self.values:
            # created after the point where the counterexample failed
            lo = Fraction(lo) if lo is not None else Fraction(hi) - 1 if hi is not None else Fraction(0)
            hi = Fraction(hi) if hi is not None else lo + 1
            v = lo + (hi - lo) * Fraction(37, 128)
            self.values[name] = v = int(v) if whole else '%d/%d' % (v.numerator, v.denominator)
        v = self.values[name]
        if isinstance(v, str):
            v = Fraction(v)
        return v

    def real(self, name, lo=None, hi=None, **k):
        return float(self._get(name, lo, hi, False))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo, hi, True))

    def cplx(self, name, lo=None, hi=None):
        return complex(self.real(name + 'r', lo, hi), self.real(name + 'i', lo, hi))

    def assume(self, c):
        if not c:
            raise PathEnd('assumption false')

    def close(self, a, b, f4=False):
        tol = 2e-4 if f4 or self.f4 else 1e-9
        a, b = complex(a), complex(b)
        if not (abs(a) < float('inf') and abs(b) < float('inf')):
            return a == b
        return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))

    def check(self, cond, label, detail=None):
        self.checked += 1
        if not cond:
            self.failures.append((label, detail))
            return False
        return True

    def check_all(self, pairs, label, detail=None):
        return self.check(all(bool(p) for p in pairs), label, detail)

    def fail(self, label, detail=None):
        return self.check(False, label, detail)

    def reach(self, tag=''):
        pass

    def feasible(self):
        pass

    def implied(self, c):
        return bool(c)

    def possible(self, c):
        return bool(c)


def derivative(x, name):
    """formal derivative of a polynomial with respect to the input called name"""
    out = SNum({})
    for m, k in SNum.of(x).t.items():
        rest, pw = [], 0
        for a, p in m:
            if a.name == name:
                pw = p
                at = a
            else:
                rest.append((a, p))
        if pw:
            if pw > 1:
                rest.append((at, pw - 1))
            t = SNum.of(k * pw)
            for a, p in rest:
                for _ in range(p):
                    t = t * SNum.atom(a)
            out = out + t
    return out


import numbers as _numbers
_numbers.Number.register(SNum)
_numbers.Number.register(SCplx)
