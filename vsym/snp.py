"""
numpy facade: arrays whose logical dtype is float or complex are object arrays that may hold
symbolic numbers (SArr); everything else is real numpy.  Comparisons on symbolic elements
fork the path, so boolean and integer arrays are concrete on every path.
"""
import math
import numbers
import numpy as np
from fractions import Fraction
from .core import SNum, SBool, SCplx, ctx, issym, rat, Unsupported, sand, sor, snot, in_ctx

_ND = np.ndarray
_OBJ = np.dtype(object)
F8 = np.dtype('f8')


def _isfloat(dt):
    return dt.kind in 'fc'


SYM_INTS = [False]      # integer arrays hold symbolic integers too (per harness)


def _wants_sym(dt):
    if dt.kind in 'fc':
        return True
    if SYM_INTS[0] and dt.kind in 'iu':
        return True
    return False


def has_sym(a):
    if isinstance(a, (SNum, SBool, SCplx)):
        return True
    if isinstance(a, _ND) and _ND.dtype.__get__(a) == _OBJ:
        for x in _raw(a).flat:
            if isinstance(x, (SNum, SBool, SCplx)):
                return True
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def _raw(a):
    return a.view(_ND) if type(a) is not _ND else a


def _rawview(a):
    return _ND.view(a, _ND)


def coerce(x, dt):
    """value stored into an array of logical dtype dt"""
    k = dt.kind
    if k == 'f':
        if isinstance(x, SNum):
            return x
        if isinstance(x, SBool):
            return float(bool(x))
        if isinstance(x, SCplx):
            return x.real
        if isinstance(x, Fraction):
            return x
        if isinstance(x, complex) or isinstance(x, np.complexfloating):
            return float(x.real)
        if dt.itemsize == 4 and isinstance(x, (float, np.floating)):
            # real-number model: no rounding for exactly representable or symbolic data
            return float(x)
        return float(x)
    if k == 'c':
        if isinstance(x, SCplx):
            return x
        if isinstance(x, SNum):
            return SCplx(x, 0)
        if isinstance(x, SBool):
            return complex(bool(x))
        if isinstance(x, Fraction):
            return SCplx(x, 0)
        return complex(x)
    if k in 'iu':
        if isinstance(x, SNum):
            return x if x.isint else x.trunc()
        return int(x)
    if k == 'b':
        return bool(x)
    return x


class SArr(np.ndarray):
    """object ndarray with a logical dtype"""
    _ld = F8

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, '_ld', F8)

    # logical metadata
    @property
    def dtype(self):
        return self._ld

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self.size * self._ld.itemsize

    @property
    def strides(self):
        s = _ND.strides.__get__(self)
        return tuple(x // 8 * self._ld.itemsize for x in s)

    @property
    def real(self):
        if self._ld.kind == 'c':
            return PartView(self, 'real')
        return self

    @real.setter
    def real(self, v):
        if self._ld.kind == 'c':
            PartView(self, 'real')[...] = v
        else:
            self[...] = v

    @property
    def imag(self):
        if self._ld.kind == 'c':
            return PartView(self, 'imag')
        r = zeros(self.shape, self._ld)
        return r

    @imag.setter
    def imag(self, v):
        PartView(self, 'imag')[...] = v

    # elements
    def __getitem__(self, k):
        k = _index(k)
        r = _rawview(self)[k]
        if isinstance(r, _ND) and r.dtype == _OBJ:
            return mk(r, self._ld)
        return scal(r, self._ld)

    def __setitem__(self, k, v):
        k = _index(k)
        raw = _rawview(self)
        if isinstance(v, PartView):
            v = v.get()
        if hasattr(v, '__array__') and not isinstance(v, (_ND, np.generic)):
            v = v.__array__()
        if isinstance(v, SArr):
            vv = _rawview(v)
            if v._ld != self._ld:
                vv = _cmap(vv, self._ld)
            raw[k] = vv
            return
        if isinstance(v, (SNum, SBool, SCplx, numbers.Number, np.generic)):
            x = coerce(v, self._ld)
            if isinstance(raw[k], _ND):
                o = np.empty((), object)
                o[()] = x
                raw[k] = o
            else:
                raw[k] = x
            return
        v = _tomixed(v)
        raw[k] = _cmap(v, self._ld)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def item(self, *a):
        return _rawview(self).item(*a)

    def tolist(self):
        return _rawview(self).tolist()

    def __float__(self):
        return float(_rawview(self).item())

    def __int__(self):
        return int(_rawview(self).item())

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(_rawview(self).item())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        if name in SPECIAL:
            return SPECIAL[name](*args, **kwargs)
        return generic(func, args, kwargs)

    # methods
    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        copy = k.get('copy', True)
        if dt == self._ld and not copy:
            return self
        raw = _rawview(self)
        order = k.get('order', a[0] if a else 'K')
        if _wants_sym(dt):
            out = np.empty_like(raw, order=order, subok=False)
            out[...] = _cmap(raw, dt).reshape(raw.shape)
            return mk(out, dt)
        if dt.kind in 'iu':
            out = np.empty_like(raw, dtype=dt, order=order, subok=False)
            for i in np.ndindex(*raw.shape):
                x = raw[i]
                out[i] = int(x) if not isinstance(x, SNum) else int(x)
            return out
        if dt.kind == 'b':
            out = np.empty_like(raw, dtype=dt, order=order, subok=False)
            for i in np.ndindex(*raw.shape):
                out[i] = bool(raw[i])
            return out
        if dt == _OBJ:
            return raw.copy()
        raise Unsupported('astype %s' % dt)

    def copy(self, order='C'):
        return mk(_rawview(self).copy(order), self._ld)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if len(a) == 1 and a[0] is _ND and not k:
            return _rawview(self)
        if len(a) == 1 and isinstance(a[0], type) and issubclass(a[0], _ND) and not k:
            if a[0] is np.ndarray:
                return _rawview(self)
            r = _ND.view(self, a[0])
            return r
        dt = k.get('dtype', a[0] if a else None)
        if dt is None:
            return self[...]
        dt = np.dtype(dt)
        if dt == self._ld:
            return self[...]
        if dt.subdtype is not None and dt.subdtype[0] == self._ld:
            n = int(np.prod(dt.subdtype[1]))
            return self.reshape(self.shape[:-1] + (self.shape[-1] // n,) + dt.subdtype[1])
        if dt.subdtype is not None and dt.subdtype[1] == (2,) and self._ld.kind == 'c' and dt.subdtype[0].itemsize * 2 == self._ld.itemsize and dt.subdtype[0].kind == 'f':
            return PlainView(self)
        raise Unsupported('view %s as %s' % (self._ld, dt))

    def conj(self):
        return conj(self)
    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SPECIAL['sum'](self, axis=axis, dtype=dtype, out=out, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SPECIAL['prod'](self, axis=axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SPECIAL['mean'](self, axis=axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return self.astype(bool).all(axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return self.astype(bool).any(axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        r = mk(np.add.accumulate(_rawview(self).ravel() if axis is None else _rawview(self), axis=0 if axis is None else axis), self._ld)
        if out is not None:
            out[...] = r
            return out
        return r

    def max(self, axis=None, **k):
        return _red(np.maximum, self, axis)

    def min(self, axis=None, **k):
        return _red(np.minimum, self, axis)

    def clip(self, lo=None, hi=None, out=None, **k):
        r = _rawview(self)
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        r = mk(r, self._ld)
        if out is not None:
            out[...] = r
            return out
        return r

    def take(self, indices, axis=None, out=None, mode='raise'):
        indices = _index(indices)
        r = mk(_rawview(self).take(indices, axis=axis, mode=mode), self._ld)
        if out is not None:
            out[...] = r
            return out
        return r

    def nonzero(self):
        return self.astype(bool).nonzero()

    def argsort(self, *a, **k):
        return _rawview(self).argsort(*a, **k)

    def dot(self, b):
        return SPECIAL['dot'](self, b)

    def fill(self, v):
        self[...] = v

    def tofile(self, *a):
        raise Unsupported('tofile')

    def round(self, *a, **k):
        return mk(_emap(_rawview(self), lambda x: x.rint() if isinstance(x, SNum) else round(x)), self._ld)

    def __reduce__(self):
        return (_unpickle, (self.tolist(), self._ld.str))


def _unpickle(l, s):
    return array(l, s)


class PartView(object):
    """.real / .imag of a complex SArr, as a writable view"""

    def __init__(self, base, part):
        self.base = base
        self.part = part
        self._ld = np.dtype('f%d' % (base._ld.itemsize // 2))

    def get(self):
        p = self.part
        return mk(_emap(_rawview(self.base), lambda x: getattr(x, p)), self._ld)

    def _set(self, idx, v):
        """write v into base[idx].part"""
        b = _rawview(self.base)
        tgt = b[idx]
        if not isinstance(tgt, _ND):
            b[idx] = self._one(tgt, v)
            return
        vv = np.empty(tgt.shape, object)
        vv[...] = _rawview(v) if isinstance(v, SArr) else _tomixed(v) if isinstance(v, (_ND, list, tuple)) else _box(v)
        new = np.empty(tgt.shape, object)
        for i in np.ndindex(*tgt.shape):
            new[i] = self._one(tgt[i], vv[i])
        b[idx] = new

    def _one(self, c, v):
        v = coerce(v, self._ld)
        if self.part == 'real':
            r, i = v, c.imag
        else:
            r, i = c.real, v
        if issym(r) or issym(i) or isinstance(r, Fraction) or isinstance(i, Fraction):
            return SCplx(r, i)
        return complex(r, i)

    def __getitem__(self, k):
        r = self.base[k]
        if isinstance(r, SArr):
            return PartView(r, self.part)
        return getattr(r, self.part)

    def __setitem__(self, k, v):
        if isinstance(v, PartView):
            v = v.get()
        self._set(_index(k), v)

    def __getattr__(self, n):
        if n.startswith('__array') and n not in ('__array_ufunc__',):
            raise AttributeError(n)
        return getattr(self.get(), n)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    @property
    def strides(self):
        return self.base.strides

    @property
    def flags(self):
        return self.base.flags

    def __len__(self):
        return len(self.base)

    def __iter__(self):
        return iter(self.get())


class PlainView(object):
    """a complex SArr seen as reals with a trailing axis of two, as a writable view"""

    def __init__(self, base):
        self.base = base
        self.shape = tuple(base.shape) + (2,)
        self.ndim = base.ndim + 1
        self.dtype = np.dtype('f%d' % (base._ld.itemsize // 2))

    def get(self):
        return stack([self.base.real.get(), self.base.imag.get()], axis=self.ndim - 1)

    def __getitem__(self, k):
        return self.get()[k]

    def __setitem__(self, k, v):
        n = int(np.prod(self.shape))
        idx = np.arange(n).reshape(self.shape)[_index(k)]
        v = np.broadcast_to(_rawview(v) if isinstance(v, SArr) else _tomixed(v) if isinstance(v, (_ND, list, tuple)) else _box(v), np.shape(idx)) if np.ndim(idx) else v
        for at in np.ndindex(np.shape(idx)):
            p = np.unravel_index(int(idx[at] if np.ndim(idx) else idx), self.shape)
            PartView(self.base, 'imag' if p[-1] else 'real')._set(tuple(int(q) for q in p[:-1]), v[at] if np.ndim(idx) else v)

    def __getattr__(self, n):
        if n.startswith('__array') and n not in ('__array_ufunc__',):
            raise AttributeError(n)
        return getattr(self.get(), n)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __len__(self):
        return len(self.base)


def _pv_binop(name):
    def f(self, o):
        if isinstance(o, PartView):
            o = o.get()
        return getattr(self.get(), name)(o)
    return f


def _pv_iop(name):
    op = '__' + name[3:]

    def f(self, o):
        if isinstance(o, PartView):
            o = o.get()
        self[...] = getattr(self.get(), op)(o)
        return self
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'mod', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(PartView, '__%s__' % _n, _pv_binop('__%s__' % _n))
for _n in ('__iadd__', '__isub__', '__imul__', '__itruediv__'):
    setattr(PartView, _n, _pv_iop(_n))
PartView.__neg__ = lambda s: -s.get()
PartView.__abs__ = lambda s: abs(s.get())


def _box(v):
    o = np.empty((), object)
    o[()] = v
    return o


def mk(raw, dt):
    if not isinstance(raw, _ND):
        return scal(raw, dt)
    if _ND.dtype.__get__(raw) != _OBJ:
        o = np.empty(raw.shape, object)
        o[...] = raw
        if raw.dtype.kind in 'fciu':
            o = _cmap(o, np.dtype(dt))
        raw = o
    r = _ND.view(raw, SArr)
    r._ld = np.dtype(dt)
    return r


def scal(x, dt):
    """scalar taken out of an SArr; concrete ones become numpy scalars"""
    if isinstance(x, (SNum, SCplx, SBool, Fraction)):
        if isinstance(x, SNum):
            c = x.const()
            if c is None:
                return x
            x = c
        if isinstance(x, Fraction):
            if dt.kind in 'iu':
                return dt.type(int(x))
            return SNum.of(x) if float(x) != x else np.float64(float(x))
        return x
    if dt.kind == 'O':
        return x
    try:
        return dt.type(x)
    except Exception:
        return x


def _emap(raw, f):
    out = np.empty(raw.shape, object)
    of = out.reshape(-1)
    for i, x in enumerate(raw.flat):
        of[i] = f(x)
    return out


def _cmap(raw, dt):
    return _emap(raw, lambda x: coerce(x, dt))


def _index(k):
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    if isinstance(k, SArr):
        if k._ld.kind == 'b':
            return k.astype(bool)
        return k.astype('intp') if not SYM_INTS[0] else np.array([int(x) for x in _rawview(k).ravel()], 'intp').reshape(k.shape)
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, SNum):
        return int(k)
    if isinstance(k, list):
        return [_index(x) for x in k]
    return k


def _tomixed(v):
    """anything -> object ndarray"""
    if isinstance(v, PartView):
        v = v.get()
    if isinstance(v, SArr):
        return _rawview(v)
    if isinstance(v, _ND):
        o = np.empty(v.shape, object)
        o[...] = v
        return o
    if isinstance(v, (list, tuple)):
        return _fromseq(v)
    return _box(v)


def _fromseq(v):
    parts = [_tomixed(x) for x in v]
    if not parts:
        return np.empty((0,), object)
    sh = parts[0].shape
    if any(p.shape != sh for p in parts):
        raise ValueError('inhomogeneous shape')
    o = np.empty((len(parts),) + sh, object)
    for i, p in enumerate(parts):
        if p.shape == ():
            o[i] = p.item() if not isinstance(p.item(), np.generic) else p.item()
        else:
            o[i] = p
    return o


def ldtype(x):
    """logical dtype of anything"""
    if isinstance(x, (SArr, PartView)):
        return x._ld
    if isinstance(x, _ND):
        return x.dtype
    if isinstance(x, SNum):
        return np.dtype('i8') if x.isint and SYM_INTS[0] else F8
    if isinstance(x, SCplx):
        return np.dtype('c16')
    if isinstance(x, Fraction):
        return F8
    if isinstance(x, SBool):
        return np.dtype('?')
    if isinstance(x, (list, tuple)):
        if not len(x):
            return F8
        return np.result_type(*[ldtype(y) for y in x])
    return np.asarray(x).dtype


def unsym(a):
    """SArr without symbolic elements -> real ndarray (else the raw object array)"""
    if isinstance(a, PartView):
        a = a.get()
    if isinstance(a, SArr):
        if not has_sym(a):
            raw = _rawview(a)
            if any(isinstance(x, Fraction) for x in raw.flat):
                raw = _emap(raw, lambda x: float(x) if isinstance(x, Fraction) else x)
            return raw.astype(a._ld)
        return _rawview(a)
    if isinstance(a, tuple):
        return tuple(unsym(x) for x in a)
    if isinstance(a, list):
        return [unsym(x) for x in a]
    return a


def wrap(r, dt=None):
    if isinstance(r, SArr):
        return r
    if isinstance(r, _ND):
        if r.dtype == _OBJ:
            return mk(r, dt or F8)
        if _isfloat(r.dtype) and r.dtype.names is None and r.dtype.itemsize in (4, 8, 16):
            return mk(r, r.dtype)
        return r
    if isinstance(r, (tuple, list)) and len(r) and any(isinstance(x, _ND) for x in r):
        return type(r)(wrap(x, dt) for x in r) if type(r) in (tuple, list) else r
    return r


# ----------------------------------------------------------------------------- ufuncs

def _u1(f, symf):
    def g(x):
        if issym(x):
            return symf(x)
        if isinstance(x, Fraction):
            x = SNum.of(x)
            return symf(x)
        return f(x)
    return g


def _isreal_zero(x):
    return isinstance(x, (int, float)) and x == 0


def _cexp(x):
    if isinstance(x, SCplx):
        re, im = x.real, x.imag
        m = 1 if _isreal_zero(re) else ctx().ufun('exp', SNum.of(re))
        im = SNum.of(im)
        return SCplx(m * ctx().ufun('cos', im), m * ctx().ufun('sin', im))
    return ctx().ufun('exp', x)


def _sabs(x):
    return abs(x)


UNARY = {
    'floor': _u1(lambda x: float(math.floor(x)), lambda x: ctx().floor(x)),
    'ceil': _u1(lambda x: float(math.ceil(x)), lambda x: x.ceil()),
    'trunc': _u1(lambda x: float(math.trunc(x)), lambda x: x.trunc()),
    'rint': _u1(lambda x: float(np.rint(x)), lambda x: x.rint()),
    'sqrt': _u1(lambda x: np.sqrt(x), lambda x: x.sqrt()),
    'exp': _u1(lambda x: np.exp(x), _cexp),
    'log': _u1(lambda x: np.log(x), lambda x: ctx().ufun('log', x)),
    'log10': _u1(lambda x: np.log10(x), lambda x: ctx().ufun('log10', x)),
    'sin': _u1(lambda x: np.sin(x), lambda x: ctx().ufun('sin', x)),
    'cos': _u1(lambda x: np.cos(x), lambda x: ctx().ufun('cos', x)),
    'tan': _u1(lambda x: np.tan(x), lambda x: ctx().ufun('tan', x)),
    'arctan': _u1(lambda x: np.arctan(x), lambda x: ctx().ufun('arctan', x)),
    'absolute': _u1(abs, _sabs), 'fabs': _u1(abs, _sabs),
    'square': _u1(lambda x: x * x, lambda x: x * x),
    'negative': _u1(lambda x: -x, lambda x: -x),
    'positive': _u1(lambda x: x, lambda x: x),
    'conjugate': _u1(lambda x: x.conjugate() if hasattr(x, 'conjugate') else x, lambda x: x.conjugate()),
    'sign': _u1(lambda x: float(np.sign(x)), lambda x: (1.0 if x > 0 else (-1.0 if x < 0 else 0.0))),
    'reciprocal': _u1(lambda x: 1 / x, lambda x: 1 / x),
    'deg2rad': _u1(lambda x: np.deg2rad(x), lambda x: x * rat(math.pi / 180)),
}
UNARY_BOOL = {
    'isnan': _u1(lambda x: x != x, lambda x: False),
    'isfinite': _u1(lambda x: bool(np.isfinite(x)), lambda x: True),
    'isinf': _u1(lambda x: bool(np.isinf(x)), lambda x: False),
    'signbit': _u1(lambda x: bool(np.signbit(x)), lambda x: bool(x < 0)),
    'logical_not': _u1(lambda x: not x, lambda x: not bool(x)),
}


FLOAT_REM = [False]     # remainder(-tiny, L) rounds to L in floating point


def _pmod(a, b):
    if issym(a) or issym(b):
        if FLOAT_REM[0] and a < 0 and a > -b * Fraction(1, 2 ** 55):
            return SNum.of(b)
        return a % b
    return math.fmod(a, b) if False else np.remainder(a, b)


def _fmod(a, b):
    if issym(a) or issym(b):
        q = SNum.of(a) / b
        return a - b * q.trunc()
    return np.fmod(a, b)


def _div(a, b):
    if isinstance(b, (float, np.floating)) and np.isinf(b) and (issym(a) or isinstance(a, Fraction)):
        return a * 0            # a is finite
    if not issym(a) and not issym(b):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            if b == 0:
                return float('nan')
            return rat(a) / rat(b) if not isinstance(a, complex) and not isinstance(b, complex) else a / b
        with np.errstate(all='ignore'):
            return np.true_divide(a, b)
    if not issym(b) and b == 0:
        return _nonfinite(a)
    return a / b


def _nonfinite(a):
    return float('nan')


def _num(x):
    """numpy scalar / bool -> python number so Fractions and SNum mix"""
    if isinstance(x, np.generic):
        return x.item()
    return x


def _arith(op):
    def f(a, b):
        a, b = _num(a), _num(b)
        if isinstance(a, Fraction) and isinstance(b, (float, complex)):
            a = SNum.of(a)
        elif isinstance(b, Fraction) and isinstance(a, (float, complex)):
            b = SNum.of(b)
        if isinstance(a, SNum) and isinstance(b, complex) or isinstance(b, SNum) and isinstance(a, complex):
            a, b = SCplx.of(a), SCplx.of(b)
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return float('nan')
        return op(a, b)
    return f


import operator as _op


def _pow(a, b):
    if isinstance(b, float) and b == int(b) and issym(a):
        b = int(b)
    if issym(a) or issym(b):
        if issym(b):
            c = b.const() if isinstance(b, SNum) else None
            if c is None:
                return ctx().ufun('pow', SNum.of(a), b)
            b = c
        if b == 0.5:
            return a.sqrt()
        return a ** b
    if isinstance(a, Fraction):
        a = float(a)
    with np.errstate(all='ignore'):
        return np.power(a, b)


BINARY = {
    'add': _arith(_op.add), 'subtract': _arith(_op.sub), 'multiply': _arith(_op.mul), 'true_divide': _arith(_div), 'divide': _arith(_div),
    'remainder': _arith(_pmod), 'fmod': _arith(_fmod), 'power': _arith(_pow), 'float_power': _arith(_pow),
    'floor_divide': _arith(lambda a, b: a // b),
    'maximum': _arith(lambda a, b: a if a >= b else b), 'minimum': _arith(lambda a, b: a if a <= b else b),
    'fmax': _arith(lambda a, b: a if a >= b else b), 'fmin': _arith(lambda a, b: a if a <= b else b),
    'arctan2': lambda a, b: ctx().ufun('arctan2', SNum.of(a), SNum.of(b)) if issym(a) or issym(b) else np.arctan2(a, b),
    'hypot': lambda a, b: (a * a + b * b).sqrt() if issym(a) or issym(b) else np.hypot(a, b),
}
_ORDER = ('less', 'less_equal', 'greater', 'greater_equal')
CMP = {'less': _op.lt, 'less_equal': _op.le, 'greater': _op.gt, 'greater_equal': _op.ge, 'equal': _op.eq, 'not_equal': _op.ne,
       'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b), 'logical_xor': lambda a, b: bool(a) != bool(b)}


def _bcast(a, b):
    a, b = _tomixed(a), _tomixed(b)
    return np.broadcast_arrays(a, b)


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if method == '__call__' and len(inputs) > ufunc.nin:         # positional out
        kw = dict(kw, out=inputs[ufunc.nin])
        inputs = inputs[:ufunc.nin]
    inputs = [i.get() if isinstance(i, PartView) else i for i in inputs]
    out = kw.pop('out', None)
    if out is not None and isinstance(out, tuple):
        out = out[0]
    where = kw.pop('where', True)
    dts = [ldtype(i) for i in inputs]
    r = None
    if method == 'reduce':
        a = inputs[0]
        ax = kw.get('axis', 0)
        if name in ('add', 'multiply'):
            r = SPECIAL['sum' if name == 'add' else 'prod'](a, axis=ax, keepdims=kw.get('keepdims', False))
        elif name in ('maximum', 'minimum'):
            r = _red(ufunc, a, ax)
        elif name in ('logical_and', 'logical_or'):
            r = getattr(ufunc, 'reduce')(a.astype(bool), axis=ax)
        else:
            raise Unsupported('ufunc reduce ' + name)
    elif method == 'reduceat':
        raw = _tomixed(inputs[0])
        idx = _index(inputs[1])
        parts = []
        n = len(raw)
        f = BINARY[name]
        idx = np.asarray(idx)
        for j in range(len(idx)):
            s = int(idx[j])
            if s < 0 or s >= n:
                raise IndexError('index %d out-of-bounds in %s.reduceat [0, %d)' % (s, name, n))
            e = int(idx[j + 1]) if j + 1 < len(idx) else n
            acc = raw[s]
            for t in range(s + 1, e):
                acc = _ew2(f, acc, raw[t])
            parts.append(acc)
        o = np.empty((len(parts),) + raw.shape[1:], object)
        for j, p in enumerate(parts):
            o[j] = p
        r = mk(o, dts[0])
    elif method == 'accumulate':
        if name != 'add':
            raise Unsupported('accumulate ' + name)
        r = inputs[0].cumsum(axis=kw.get('axis', 0))
    elif method == 'at':
        a, idx, v = inputs
        idx = _index(idx)
        raw = _rawview(a)
        vv = np.broadcast_to(_tomixed(v), np.shape(raw[idx])) if np.ndim(raw[idx]) else v
        if isinstance(idx, np.ndarray) and idx.ndim == 1:
            for j, i in enumerate(idx):
                raw[i] = _ew2(BINARY[name], raw[i], vv[j])
            return None
        raise Unsupported('ufunc.at')
    elif method == 'outer':
        a, b = inputs
        a, b = _tomixed(a), _tomixed(b)
        aa = a.reshape(a.shape + (1,) * b.ndim)
        return ufunc_dispatch(ufunc, '__call__', [mk(aa, dts[0]), mk(b, dts[1])], kw)
    elif method != '__call__':
        raise Unsupported('ufunc method ' + method)
    elif name in UNARY:
        raw = _tomixed(inputs[0])
        dt = dts[0]
        if name in ('absolute',) and dt.kind == 'c':
            dt = np.dtype('f%d' % (dt.itemsize // 2))
        elif dt.kind not in 'fc' and name in ('sqrt', 'exp', 'log', 'sin', 'cos', 'log10', 'tan'):
            dt = F8
        r = mk(_emap(raw, lambda x: UNARY[name](_num(x))), dt)
    elif name in UNARY_BOOL:
        raw = _tomixed(inputs[0])
        r = np.empty(raw.shape, bool)
        rf = r.reshape(-1)
        for i, x in enumerate(raw.flat):
            rf[i] = bool(UNARY_BOOL[name](_num(x)))
        r = rf.reshape(raw.shape)
    elif name in BINARY:
        a, b = _bcast(*inputs)
        f = BINARY[name]
        if where is not True:
            raise Unsupported('ufunc where=')
        dt = _rt(inputs, dts)
        if name in ('true_divide', 'divide', 'arctan2', 'hypot') and dt.kind not in 'fc':
            dt = F8
        o = np.empty(a.shape, object)
        of = o.reshape(-1)
        for i, (x, y) in enumerate(zip(a.flat, b.flat)):
            of[i] = f(x, y)
        r = mk(o, dt)
    elif name in CMP:
        a, b = _bcast(*inputs)
        f = CMP[name]
        r = np.empty(a.shape, bool)
        rf = r.reshape(-1)
        for i, (x, y) in enumerate(zip(a.flat, b.flat)):
            x, y = _num(x), _num(y)
            if isinstance(x, Fraction) and isinstance(y, float):
                x = SNum.of(x)
            if isinstance(y, Fraction) and isinstance(x, float):
                x, y = SNum.of(x), SNum.of(y)
            if name in _ORDER and (isinstance(x, (complex, SCplx)) or isinstance(y, (complex, SCplx))):
                # numpy orders complex numbers lexicographically
                x, y = SCplx.of(x), SCplx.of(y)
                v = f(x.imag, y.imag) if bool(x.real == y.real) else f(x.real, y.real)
            else:
                v = f(x, y)
            rf[i] = bool(v)
        r = rf.reshape(a.shape)
    elif name in ('divmod',):
        a, b = inputs
        return a // b, a % b
    elif name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert', 'left_shift', 'right_shift', 'isnat', 'gcd'):
        conv = [i.astype('intp') if isinstance(i, SArr) and not has_sym(i) else i for i in inputs]
        if any(isinstance(i, SArr) for i in conv):
            raise Unsupported('bit operation on symbolic array')
        r = ufunc(*conv)
    elif name == 'matmul':
        r = SPECIAL['dot'](*inputs)
    elif name in ('sinc',):
        raise Unsupported(name)
    else:
        conv = [unsym(i) for i in inputs]
        if any(isinstance(i, _ND) and i.dtype == _OBJ for i in conv):
            raise Unsupported('ufunc ' + name)
        r = wrap(ufunc(*conv, **kw))
    if out is not None:
        if isinstance(out, SArr):
            if out._ld.kind in 'iu' and isinstance(r, SArr) and r._ld.kind in 'fc':
                raise TypeError("Cannot cast ufunc '%s' output" % name)
            out[...] = r
        elif isinstance(out, PartView):
            out[...] = r
        else:
            rr = unsym(r) if isinstance(r, SArr) else r
            if isinstance(rr, _ND) and rr.dtype == _OBJ:
                if out.dtype.kind in 'iu':
                    raise TypeError("Cannot cast ufunc '%s' output from float to int" % name)
                raise Unsupported('symbolic values written to a machine array (out=)')
            np.copyto(out, rr, casting='same_kind')
        return out
    if isinstance(r, _ND) and r.ndim == 0:
        return r[()] if isinstance(r, SArr) else r[()]
    return r


def _rt(inputs, dts):
    """numpy value-based-ish promotion: python scalars are weak"""
    strong = []
    weakk = ''
    for i, d in zip(inputs, dts):
        nd = getattr(i, 'ndim', 0)
        if nd == 0 and not isinstance(i, (list, tuple)):
            weakk += d.kind
        else:
            strong.append(d)
    if not strong:
        return np.result_type(*dts)
    r = np.result_type(*strong)
    if 'c' in weakk and r.kind != 'c':
        r = np.result_type(r, np.dtype('c8') if r.itemsize <= 4 and r.kind == 'f' else np.dtype('c16'))
    elif 'f' in weakk and r.kind not in 'fc':
        r = F8
    return r


def _ew2(f, a, b):
    if isinstance(a, _ND):
        o = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape):
            o[i] = f(a[i], b[i])
        return o
    return f(a, b)


def _red(uf, a, axis):
    f = BINARY[uf.__name__]
    raw = _tomixed(a)
    if axis is None:
        raw = raw.reshape(-1)
        axis = 0
    raw = np.moveaxis(raw, axis, 0)
    if len(raw) == 0:
        raise ValueError('zero-size array to reduction operation')
    acc = raw[0]
    for i in range(1, len(raw)):
        acc = _ew2(f, acc, raw[i])
    dt = ldtype(a)
    return mk(acc, dt) if isinstance(acc, _ND) else scal(acc, dt)


# ----------------------------------------------------------------------------- functions

SPECIAL = {}


def special(f):
    SPECIAL[f.__name__.rstrip('_')] = f
    return f


@special
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    raw = _tomixed(a)
    dt = np.dtype(dtype) if dtype is not None else ldtype(a)
    if dt.kind == 'b':
        dt = np.dtype('i8')
    axes = tuple(range(raw.ndim)) if axis is None else (axis if isinstance(axis, tuple) else (axis,))
    axes = tuple(x % raw.ndim for x in axes) if raw.ndim else ()
    rest = [i for i in range(raw.ndim) if i not in axes]
    t = raw.transpose(rest + list(axes)).reshape([raw.shape[i] for i in rest] + [int(np.prod([raw.shape[i] for i in axes]))]) if raw.ndim else raw.reshape(-1)
    add = BINARY['add']
    o = np.empty(t.shape[:-1], object)
    for i in np.ndindex(*t.shape[:-1]):
        acc = 0
        for x in t[i]:
            acc = add(acc, x)
        o[i] = coerce(acc, dt) if dt.kind in 'fc' else acc
    if keepdims:
        o = o.reshape([1 if i in axes else raw.shape[i] for i in range(raw.ndim)])
    r = mk(o, dt)
    if r.ndim == 0:
        r = r[()]
    if out is not None:
        out[...] = r
        return out
    return r


@special
def prod(a, axis=None, dtype=None, **k):
    if not isinstance(a, (SArr, PartView)) and not has_sym(a):
        return np.prod(unsym(a), axis=axis, dtype=dtype)
    raw = _tomixed(a)
    dt = ldtype(a)
    mul = BINARY['multiply']
    if axis is None:
        acc = 1
        for x in raw.flat:
            acc = mul(acc, x)
        return scal(coerce(acc, dt), dt)
    raw = np.moveaxis(raw, axis, 0)
    acc = raw[0]
    for i in range(1, len(raw)):
        acc = _ew2(mul, acc, raw[i])
    return mk(acc, dt) if isinstance(acc, _ND) else scal(acc, dt)


SPECIAL['product'] = prod


@special
def mean(a, axis=None, dtype=None, out=None, **k):
    raw = _tomixed(a)
    n = raw.size if axis is None else raw.shape[axis]
    return sum_(a, axis=axis) / n


@special
def dot(a, b, out=None):
    A, B = _tomixed(a), _tomixed(b)
    dt = np.result_type(ldtype(a), ldtype(b))
    if A.ndim == 0 or B.ndim == 0:
        return a * b
    if B.ndim == 1:
        r = sum_(mk(A, ldtype(a)) * mk(B, ldtype(b)), axis=-1)
        return r
    if A.ndim == 2 and B.ndim == 2 or A.ndim == 1 and B.ndim == 2:
        r = sum_(mk(A[..., :, None], ldtype(a)) * mk(B if A.ndim == 1 else B[None], ldtype(b)), axis=-2)
        return r
    raise Unsupported('dot')


@special
def vdot(a, b):
    return sum_(conj(mk(_tomixed(a).ravel(), ldtype(a))) * mk(_tomixed(b).ravel(), ldtype(b)))


@special
def inner(a, b):
    return dot(a, b)


@special
def einsum(sub, *ops, **k):
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, o = sub.split('->')
    else:
        ins = sub
        o = ''.join(sorted(c for c in set(ins.replace(',', '').replace('.', '')) if ins.count(c) == 1))
    ins = ins.split(',')
    arrs = [_tomixed(x) for x in ops]
    if '...' in sub:
        nd = max(a.ndim - len(i.replace('...', '')) for a, i in zip(arrs, ins) if '...' in i)
        ell = 'ABCDEFGH'[:nd]
        ins = [i.replace('...', ell[nd - (a.ndim - len(i.replace('...', ''))):] if '...' in i else '') for a, i in zip(arrs, ins)]
        o = o.replace('...', ell)
    dims = {}
    for a, i in zip(arrs, ins):
        for c, n in zip(i, a.shape):
            dims[c] = max(n, dims.get(c, 1))
    inner_ = [c for c in dims if c not in o]
    out = np.empty([dims[c] for c in o], object)
    add, mul = BINARY['add'], BINARY['multiply']
    for oi in np.ndindex(*out.shape):
        env = dict(zip(o, oi))
        acc = 0.0
        for ii in np.ndindex(*[dims[c] for c in inner_]):
            env.update(zip(inner_, ii))
            p = 1.0
            for a, s in zip(arrs, ins):
                p = mul(p, a[tuple(env[c] if a.shape[j] > 1 else 0 for j, c in enumerate(s))])
            acc = add(acc, p)
        out[oi] = acc
    dt = np.result_type(*[ldtype(x) for x in ops])
    if out.ndim == 0:
        return scal(out[()], dt)
    return mk(out, dt)


@special
def digitize(x, bins, right=False):
    xs = _tomixed(x)
    bins_ = [b for b in _tomixed(bins)]
    if any(issym(b) for b in bins_):
        inc = True
    else:
        inc = all(a <= b for a, b in zip(bins_, bins_[1:]))
        if not inc and not all(a >= b for a, b in zip(bins_, bins_[1:])):
            raise ValueError('bins must be monotonically increasing or decreasing')
    if not inc:
        raise Unsupported('decreasing bins')
    out = np.empty(xs.shape, 'intp')
    of = out.reshape(-1)
    for i, v in enumerate(xs.flat):
        of[i] = _search(bins_, _num(v), 'right' if not right else 'left')
    return of.reshape(xs.shape)


def _search(bins, v, side):
    """number of bins <= v (right) or < v (left)"""
    lo, hi = 0, len(bins)
    while lo < hi:
        mid = (lo + hi) // 2
        b = _num(bins[mid])
        if isinstance(v, (SNum,)) or isinstance(b, SNum):
            c = (SNum.of(b) <= v) if side == 'right' else (SNum.of(b) < v)
        else:
            c = b <= v if side == 'right' else b < v
        if c:
            lo = mid + 1
        else:
            hi = mid
    return lo


@special
def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        raise Unsupported('searchsorted sorter')
    bins_ = list(_tomixed(a))
    vs = _tomixed(v)
    if vs.ndim == 0:
        return _search(bins_, _num(vs.item()), side)
    return np.array([_search(bins_, _num(x), side) for x in vs.flat], 'intp').reshape(vs.shape)


def _machine_ints(a):
    if isinstance(a, (tuple, list)):
        return type(a)(_machine_ints(x) for x in a)
    if isinstance(a, SArr):
        if a._ld.kind not in 'iub':
            raise TypeError('only int indices permitted')
        r = np.empty(a.shape, 'intp')
        for i in np.ndindex(*a.shape):
            r[i] = int(_num(_rawview(a)[i]))
        return r
    return int(a) if isinstance(a, SNum) else a


@special
def ravel_multi_index(multi_index, dims, mode='raise', order='C'):
    if isinstance(multi_index, np.ndarray):
        multi_index = tuple(multi_index)
    return np.ravel_multi_index(_machine_ints(multi_index), _machine_ints(dims), mode=mode, order=order)


def _machine_floats(a):
    r = np.asarray(unsym(a))
    if r.dtype != object:
        return r
    o = np.empty(r.shape, 'f8')
    for i in np.ndindex(*r.shape):
        x = r[i]
        if isinstance(x, SNum):
            x = x.const()
            if x is None:
                raise Unsupported('transcendental function of a symbolic value')
        o[i] = float(x)
    return o


@special
def sinc(x):
    return wrap(np.sinc(_machine_floats(x)))


@special
def trapz(y, x=None, dx=1.0, axis=-1):
    return wrap(np.trapz(_machine_floats(y), None if x is None else _machine_floats(x), dx, axis))


@special
def unravel_index(indices, shape, order='C'):
    return np.unravel_index(_machine_ints(indices), _machine_ints(shape), order=order)


@special
def bincount(x, weights=None, minlength=0):
    x = np.asarray(unsym(x))
    if weights is None:
        return np.bincount(x.astype('intp') if x.size == 0 else x, minlength=minlength)
    w = _tomixed(weights)
    if len(x) != len(w):
        raise ValueError('The weights and list don\'t have the same length.')
    n = max(int(minlength), int(x.max()) + 1 if len(x) else 0)
    out = [0.0] * n
    add = BINARY['add']
    for i, v in zip(x, w):
        if i < 0:
            raise ValueError("'list' argument must have no negative elements")
        out[i] = add(out[i], coerce(v, F8))
    return mk(_fromseq(out) if n else np.empty(0, object), F8)


@special
def where(c, *ab):
    if not ab:
        if isinstance(c, SArr):
            c = c.astype(bool)
        return np.where(c)
    a, b = ab
    if isinstance(c, SArr):
        c = c.astype(bool)
    if not (has_sym(a) or has_sym(b) or isinstance(a, SArr) or isinstance(b, SArr)):
        return wrap(np.where(c, unsym(a), unsym(b)))
    C = np.asarray(c)
    dt = np.result_type(ldtype(a), ldtype(b))
    A, B = _tomixed(a), _tomixed(b)
    sh = np.broadcast_shapes(C.shape, A.shape, B.shape)
    C, A, B = np.broadcast_to(C, sh), np.broadcast_to(A, sh), np.broadcast_to(B, sh)
    o = np.empty(sh, object)
    for i in np.ndindex(*sh):
        o[i] = coerce(A[i] if bool(C[i]) else B[i], dt)
    return mk(o, dt)


@special
def real(a):
    if isinstance(a, SArr):
        return a.real.get() if a._ld.kind == 'c' else a
    if isinstance(a, PartView):
        return a
    return a.real


@special
def imag(a):
    if isinstance(a, SArr):
        return a.imag.get() if a._ld.kind == 'c' else a.imag
    return a.imag


@special
def conj(a):
    if isinstance(a, (SArr, PartView)):
        return ufunc_dispatch(np.conjugate, '__call__', [a], {})
    if issym(a):
        return a.conjugate()
    return wrap(np.conjugate(a))


SPECIAL['conjugate'] = conj


@special
def iscomplexobj(a):
    if isinstance(a, (SArr, PartView)):
        return a._ld.kind == 'c'
    if isinstance(a, SCplx):
        return True
    if isinstance(a, SNum):
        return False
    return np.iscomplexobj(unsym(a))


@special
def isrealobj(a):
    return not iscomplexobj(a)


@special
def isscalar(a):
    if issym(a):
        return True
    return np.isscalar(a)


@special
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not has_sym(a) and not has_sym(b):
        return np.allclose(unsym(a), unsym(b), rtol, atol)
    d = a - b
    raw = _tomixed(d)
    return all(bool(abs(x) <= atol) for x in raw.flat)


@special
def clip(a, lo, hi, out=None, **k):
    if isinstance(a, SArr):
        return a.clip(lo, hi, out)
    return wrap(np.clip(unsym(a), lo, hi, out=out))


@special
def concatenate(seq, axis=0, **k):
    seq = list(seq)
    if not any(isinstance(s, SArr) or has_sym(s) for s in seq):
        return wrap(np.concatenate([unsym(s) for s in seq], axis=axis))
    dt = np.result_type(*[ldtype(s) for s in seq])
    if any(isinstance(s, SStruct) for s in seq):
        raise Unsupported('concatenate structured')
    return mk(_cmap(np.concatenate([_tomixed(s) for s in seq], axis=axis), dt), dt)


@special
def stack(seq, axis=0):
    seq = list(seq)
    if not any(isinstance(s, SArr) or has_sym(s) for s in seq):
        return wrap(np.stack([unsym(s) for s in seq], axis=axis))
    dt = np.result_type(*[ldtype(s) for s in seq])
    return mk(np.stack([_tomixed(s) for s in seq], axis=axis), dt)


@special
def shape(a):
    if isinstance(a, (SArr, PartView, SStruct)):
        return a.shape
    if issym(a):
        return ()
    if isinstance(a, (list, tuple)) and has_sym(a):
        return _tomixed(a).shape
    return np.shape(a)


@special
def ndim(a):
    return len(shape(a))


@special
def size(a, axis=None):
    s = shape(a)
    return int(np.prod(s)) if axis is None else s[axis]


@special
def copyto(dst, src, **k):
    dst[...] = src


@special
def array_equal(a, b):
    if shape(a) != shape(b):
        return False
    return bool(np.all(unsym(asarray(a) == asarray(b))))


@special
def angle(z):
    raw = _tomixed(z)
    def f(x):
        if isinstance(x, SCplx):
            return ctx().ufun('arctan2', SNum.of(x.imag), SNum.of(x.real))
        return float(np.angle(complex(x)))
    r = mk(_emap(raw, f), F8)
    return r if raw.ndim else r[()]


@special
def all_(a, axis=None, **k):
    if isinstance(a, SArr):
        a = a.astype(bool)
    return np.all(a, axis=axis, **k)


@special
def any_(a, axis=None, **k):
    if isinstance(a, SArr):
        a = a.astype(bool)
    return np.any(a, axis=axis, **k)


@special
def cumsum(a, axis=None, dtype=None, out=None):
    if isinstance(a, SArr):
        return a.cumsum(axis, dtype, out)
    return np.cumsum(a, axis=axis, dtype=dtype, out=out)


@special
def max_(a, axis=None, **k):
    if isinstance(a, SArr):
        return a.max(axis)
    if has_sym(a):
        return asarray(a).max(axis)
    return np.max(unsym(a), axis=axis, **k)


@special
def min_(a, axis=None, **k):
    if isinstance(a, SArr):
        return a.min(axis)
    if has_sym(a):
        return asarray(a).min(axis)
    return np.min(unsym(a), axis=axis, **k)


SPECIAL['amax'] = max_
SPECIAL['amin'] = min_


@special
def linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    if has_sym(a) or has_sym(b):
        n = num - 1 if endpoint else num
        return array([a + (b - a) * i / n for i in range(num)])
    # exact rationals: rounding of the edges is outside the model
    n = num - 1 if endpoint else num
    if 'dtype' in k or k.get('retstep'):
        return wrap(np.linspace(unsym(a), unsym(b), num, endpoint, **k))
    if np.ndim(a) == 0 and np.ndim(b) == 0 and n > 0:
        ra, rb = rat(float(a)), rat(float(b))
        o = np.empty(num, object)
        for i in range(num):
            v = ra + (rb - ra) * i / n
            o[i] = float(v) if Fraction(float(v)) == v else v
        return mk(o, F8)
    return wrap(np.linspace(a, b, num, endpoint))


def empty(shape, dtype=float, order='C', **k):
    dt = np.dtype(dtype)
    return _alloc(shape, dt, None, order)


def _alloc(shape, dt, fill, order='C'):
    if isinstance(shape, (SArr,)):
        shape = tuple(int(x) for x in shape)
    if dt.names is not None:
        return SStruct.alloc(shape, dt, fill)
    if dt.subdtype is not None:
        base, sub = dt.subdtype
        if np.isscalar(shape) or isinstance(shape, (int, np.integer)):
            shape = (int(shape),)
        return _alloc(tuple(int(s) for s in np.ravel(shape)) + sub, base, fill, order)
    if not _wants_sym(dt):
        if fill is None:
            return np.empty(shape, dt, order)
        return np.full(shape, fill, dt, order)
    if np.ndim(shape) == 0:
        shape = (int(shape),)
    r = np.empty(tuple(int(s) for s in shape), object, order if order in 'CF' else 'C')
    if fill is None:
        r[...] = _uninit(dt)
    else:
        r[...] = coerce(fill, dt)
    return mk(r, dt)


GARBAGE = 987654.25


def _uninit(dt):
    """uninitialised memory: a recognisable value"""
    return coerce(GARBAGE, dt) if dt.kind in 'fc' else 987654


def zeros(shape, dtype=float, order='C', **k):
    return _alloc(shape, np.dtype(dtype), 0, order)


def ones(shape, dtype=float, order='C', **k):
    return _alloc(shape, np.dtype(dtype), 1, order)


def full(shape, fill, dtype=None, order='C', **k):
    dt = np.dtype(dtype) if dtype is not None else ldtype(fill)
    return _alloc(shape, dt, fill, order)


def empty_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return _alloc(SPECIAL['shape'](a) if shape is None else shape, np.dtype(dtype) if dtype is not None else ldtype(a), None)


def zeros_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return _alloc(SPECIAL['shape'](a) if shape is None else shape, np.dtype(dtype) if dtype is not None else ldtype(a), 0)


def ones_like(a, dtype=None, order='K', subok=True, shape=None, **k):
    return _alloc(SPECIAL['shape'](a) if shape is None else shape, np.dtype(dtype) if dtype is not None else ldtype(a), 1)


def full_like(a, fill, dtype=None, **k):
    return _alloc(SPECIAL['shape'](a), np.dtype(dtype) if dtype is not None else ldtype(a), fill)


def array(a, dtype=None, copy=True, order='K', ndmin=0, **k):
    r = _asarray(a, dtype)
    if copy and r is not None and isinstance(r, (_ND, SStruct)):
        if r is a or (isinstance(a, _ND) and isinstance(r, _ND) and np.shares_memory(_nd(r), _nd(a))):
            r = r.copy()
    while isinstance(r, _ND) and r.ndim < ndmin:
        r = r[None]
    return r


def _nd(a):
    return _rawview(a) if isinstance(a, SArr) else a


def _asarray(a, dtype=None):
    if isinstance(a, SStruct):
        return a if dtype is None else a.astype(dtype)
    if isinstance(a, PartView):
        a = a.get()
    if hasattr(a, '__array__') and not isinstance(a, (_ND, np.generic)):
        a = a.__array__()
        if isinstance(a, PartView):
            a = a.get()
    if isinstance(a, SArr):
        if dtype is None or np.dtype(dtype) == a._ld:
            return a if type(a) is SArr else _ND.view(a, SArr) if False else a
        return a.astype(dtype)
    if isinstance(a, _ND):
        dt = np.dtype(dtype) if dtype is not None else a.dtype
        if dt.subdtype is not None or dt.names is not None:
            return np.asarray(a, dt)
        if _wants_sym(dt):
            return mk(_cmap(_tomixed(a), dt), dt)
        return np.asarray(a, dt)
    if issym(a) or isinstance(a, Fraction):
        dt = np.dtype(dtype) if dtype is not None else ldtype(a)
        if _wants_sym(dt):
            return mk(_box(coerce(a, dt)), dt)
        return np.array(coerce(a, dt), dt)
    if isinstance(a, (list, tuple)) and (has_sym(a) or any(isinstance(x, (SArr, Fraction)) for x in a)):
        dt = np.dtype(dtype) if dtype is not None else ldtype(a)
        raw = _fromseq(a)
        if _wants_sym(dt):
            return mk(_cmap(raw, dt), dt)
        out = np.empty(raw.shape, dt)
        for i in np.ndindex(*raw.shape):
            out[i] = coerce(raw[i], dt)
        return out
    r = np.asarray(a, dtype)
    if _wants_sym(r.dtype) and r.dtype.names is None and r.dtype.subdtype is None:
        return mk(_cmap(_tomixed(r), r.dtype), r.dtype)
    return r


def asarray(a, dtype=None, order=None, **k):
    return _asarray(a, dtype)


def asfarray(a, dtype=np.float64):
    a = _asarray(a)
    dt = ldtype(a)
    if dtype is not np.float64 and dtype is not None:
        return _asarray(a, dtype)
    # numpy: keeps inexact dtypes?  np.asfarray(a) converts to dtype=float64 only when a is not inexact
    if dt.kind in 'fc':
        return a if dtype is np.float64 and dt == F8 else _asarray(a, F8)
    return _asarray(a, F8)


def ascontiguousarray(a, dtype=None):
    a = _asarray(a, dtype)
    if isinstance(a, SArr):
        if not _rawview(a).flags.c_contiguous:
            return a.copy()
        return a
    return np.ascontiguousarray(a)


def copy(a, order='K', **k):
    return array(a, copy=True)


def arange(*a, **k):
    a = [int(x) if isinstance(x, SNum) else x for x in a]
    return wrap(np.arange(*a, **k))


def generic(func, args, kwargs):
    out = kwargs.get('out')
    dts = [ldtype(a) for a in args if isinstance(a, (SArr, PartView))]
    cargs = [unsym(a) for a in args]
    ckw = {k: unsym(v) for k, v in kwargs.items() if k != 'out'}
    if out is not None:
        r = generic(func, args, {k: v for k, v in kwargs.items() if k != 'out'})
        out[...] = r
        return out
    r = func(*cargs, **ckw)
    dt = np.result_type(*dts) if dts else None
    if issym(r):
        return r
    return wrap(r, dt)


# ----------------------------------------------------------------------------- structured

class SStruct(object):
    """1-d structured array stored by column"""

    def __init__(self, n, dt, cols):
        self._n = n
        self._dt = dt
        self.cols = cols

    @staticmethod
    def alloc(shape, dt, fill):
        n = int(shape) if np.ndim(shape) == 0 else int(shape[0])
        cols = {}
        for name in dt.names:
            f = dt.fields[name][0]
            base, sub = f.subdtype if f.subdtype is not None else (f, ())
            if base.names is not None:
                cols[name] = SStruct.alloc(n, base, fill)
            else:
                cols[name] = _alloc((n,) + sub, base, fill)
        return SStruct(n, dt, cols)

    dtype = property(lambda s: s._dt)
    shape = property(lambda s: (s._n,))
    ndim = 1
    size = property(lambda s: s._n)
    itemsize = property(lambda s: s._dt.itemsize)
    nbytes = property(lambda s: s._n * s._dt.itemsize)

    def __len__(self):
        return self._n

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        k = _index(k)
        cols = {n: c[k] for n, c in self.cols.items()}
        if isinstance(k, (int, np.integer)):
            return cols
        n = len(np.arange(self._n)[k])
        return SStruct(n, self._dt, cols)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.cols[k][...] = v
            return
        k = _index(k)
        for n in self.cols:
            self.cols[n][k] = v.cols[n] if isinstance(v, SStruct) else v[n]

    def take(self, idx, axis=0, **k):
        idx = np.asarray(_index(idx)).astype('intp')
        return SStruct(len(idx), self._dt, {n: c.take(idx, axis=0) for n, c in self.cols.items()})

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        if dt == self._dt:
            return self.copy()
        raise Unsupported('structured astype')

    def copy(self, *a):
        return SStruct(self._n, self._dt, {n: c.copy() for n, c in self.cols.items()})

    def mpi_columns(self):
        return [self.cols[n] for n in self._dt.names]


# ----------------------------------------------------------------------------- module facade

class _StrideTricks(object):
    @staticmethod
    def as_strided(x, shape=None, strides=None, **k):
        x = _asarray(x)
        if isinstance(x, SArr):
            it = x._ld.itemsize
            if strides is not None:
                strides = tuple(int(s) * 8 // it for s in strides)
            r = np.lib.stride_tricks.as_strided(_rawview(x), shape=shape, strides=strides)
            return mk(r, x._ld)
        return np.lib.stride_tricks.as_strided(x, shape=shape, strides=strides)
    @staticmethod
    def sliding_window_view(*a, **k):
        raise Unsupported('sliding_window_view')


class _Lib(object):
    stride_tricks = _StrideTricks()
    recfunctions = None

    def __getattr__(self, n):
        return getattr(np.lib, n)


class Facade(object):
    """stands for the numpy module in the code under test"""
    ndarray = np.ndarray
    lib = _Lib()
    __name__ = 'numpy'

    def __init__(self):
        self._cache = {}
        for f in (empty, zeros, ones, full, empty_like, zeros_like, ones_like, full_like, array, asarray,
                  asfarray, ascontiguousarray, arange, copy):
            setattr(self, f.__name__, f)
        self.asanyarray = asarray
        for n, f in SPECIAL.items():
            setattr(self, n, self._special(n, f))

    def _special(self, n, f):
        rf = getattr(np, n, None)

        def g(*a, **k):
            if any(isinstance(x, (SArr, PartView, SStruct)) or has_sym(x) for x in a) or n in ('linspace',):
                return f(*a, **k)
            return wrap(rf(*a, **k))
        g.__name__ = n
        return g

    def __getattr__(self, n):
        if n in self._cache:
            return self._cache[n]
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            r = UFacade(v)
        elif isinstance(v, type) or not callable(v):
            r = v
        else:
            def r(*a, **k):
                if any(isinstance(x, (SArr, PartView)) or has_sym(x) for x in a) or any(isinstance(x, (SArr, PartView)) for x in k.values()):
                    return generic(v, a, k)
                return wrap(v(*a, **k))
            r.__name__ = n
        self._cache[n] = r
        return r


class _UMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ufunc, UFacade0))


class UFacade0(object):
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        if any(isinstance(x, (SArr, PartView)) or has_sym(x) for x in a) or isinstance(k.get('out'), (SArr, PartView)):
            return ufunc_dispatch(self._u, '__call__', a, k)
        return wrap(self._u(*a, **k))

    def _m(self, m, a, k):
        if any(isinstance(x, (SArr, PartView)) or has_sym(x) for x in a) or isinstance(k.get('out'), (SArr, PartView)):
            return ufunc_dispatch(self._u, m, a, k)
        return wrap(getattr(self._u, m)(*a, **k))

    def reduce(self, *a, **k): return self._m('reduce', a, k)
    def reduceat(self, *a, **k): return self._m('reduceat', a, k)
    def accumulate(self, *a, **k): return self._m('accumulate', a, k)
    def at(self, *a, **k): return self._m('at', a, k)
    def outer(self, *a, **k): return self._m('outer', a, k)

    def __getattr__(self, n):
        return getattr(self._u, n)


UFacade = UFacade0


class UfuncType(metaclass=_UMeta):
    pass


snp = Facade()
snp.ufunc = UfuncType


class _Math(object):
    """the math module over symbolic numbers"""

    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(issym(x) for x in a):
                if n == 'floor':
                    return a[0].floor()
                if n == 'ceil':
                    return a[0].ceil()
                if n == 'trunc':
                    return a[0].trunc()
                if n == 'fabs':
                    return abs(a[0])
                if n == 'sqrt':
                    return a[0].sqrt()
                if n == 'pow':
                    return a[0] ** a[1]
                if n == 'fmod':
                    return _fmod(*a)
                if n in ('sin', 'cos', 'exp', 'log', 'tan'):
                    return getattr(snp, n)(a[0])
                raise Unsupported('math.%s of a symbolic value' % n)
            return f(*a)
        return g


MATH = _Math()
BUILTINS = {}
