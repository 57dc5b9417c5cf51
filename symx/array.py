"""numpy arrays of symbolic scalars.

SymArray is an ndarray subclass (object storage, so views, broadcasting and
aliasing are numpy's own) that claims a float64 or bool dtype.  IArray is an
ordinary integer array that accepts symbolic masks and indices.
"""
import functools
import math
import operator
from fractions import Fraction

import numpy as np

from . import core
from .core import (SymNum, SymInt, SymBool, is_sym, Unsupported, F64, NAN,
                   arith, compare, ite, mkbool, as_zbool, b_and, b_or, b_not,
                   cur, parts, to_int, num_of)
from .zz import z3

np.seterr(all='ignore')
ND = np.ndarray
_DT = {'f': np.dtype(float), 'b': np.dtype(bool), 'i': np.dtype(int)}



def _o0(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray) if type(x) is not np.ndarray else x
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def pyf(fn, nin, nout=1):
    """frompyfunc that is not sent back to the operands' __array_ufunc__"""
    g = np.frompyfunc(fn, nin, nout)

    def f(*args):
        if not any(isinstance(a, np.ndarray) and a.ndim for a in args):
            return fn(*[a[()] if isinstance(a, np.ndarray) else a for a in args])
        return g(*[_o0(a) for a in args])
    return f


def kind_of_dtype(t):
    if t is None:
        return None
    if t is float or t is np.float64:
        return 'f'
    if t is bool or t is np.bool_:
        return 'b'
    if t is int:
        return 'i'
    try:
        k = np.dtype(t).kind
    except TypeError:
        return 'o'
    if k == 'u':
        return 'i'
    return k if k in 'fbiO' else k


def elem_kind(x):
    t = type(x)
    if t is SymBool or t is bool or t is np.bool_:
        return 'b'
    if t is SymNum:
        return 'f'
    if t is SymInt:
        return 'i'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Fraction)):
        return 'f'
    return 'o'


def cast_elem(x, kind):
    t = type(x)
    if kind == 'f':
        if t is SymNum or t is F64:
            return x
        if t is SymInt or t is SymBool:
            v, nan = parts(x)
            return SymNum(v, nan)
        if x is None:
            return NAN
        return F64(x)
    if kind == 'b':
        if t is SymBool or t is np.bool_:
            return x
        if is_sym(x):
            return mkbool(as_zbool(x))
        return np.bool_(x)
    if kind == 'i':
        if t is SymInt:
            return x
        if is_sym(x):
            return to_int(x)
        return int(x)
    return x


def _cast_f(k):
    return pyf(lambda x: cast_elem(x, k), 1, 1)


_CASTS = {k: _cast_f(k) for k in 'fbi'}


def raw(a):
    """plain object/number ndarray view of an array"""
    return a.view(ND) if type(a) is not ND else a


def objs(a):
    """object ndarray (python/np scalars) of anything array-like"""
    if isinstance(a, SymArray):
        return a.view(ND)
    if isinstance(a, ND):
        a = a.view(ND)
        return a if a.dtype == object else a.astype(object)
    r = np.empty((), dtype=object)
    r[()] = a
    return r


def has_sym(a):
    if isinstance(a, SymArray):
        for x in a.view(ND).flat:
            if type(x) is SymNum or type(x) is SymBool or type(x) is SymInt:
                return True
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    if isinstance(a, dict):
        return any(has_sym(x) for x in a.values())
    if type(a) in (ND, OArray) and a.dtype == object:
        return any(is_sym(x) or has_sym(x) for x in a.flat)
    if isinstance(a, slice):
        return has_sym(a.start) or has_sym(a.stop) or has_sym(a.step)
    return is_sym(a)


def lower(a):
    """concrete symarrays -> ordinary numpy arrays (no symbolic content)"""
    if isinstance(a, SymArray):
        r = a.view(ND)
        return r.astype(_DT[a._kind]) if a._kind in _DT else r
    if isinstance(a, IArray):
        return a.view(ND)
    if isinstance(a, list):
        return [lower(x) for x in a]
    if type(a) is tuple:
        return tuple(lower(x) for x in a)
    if isinstance(a, dict):
        return {k: lower(v) for k, v in a.items()}
    if isinstance(a, W):
        return a.real
    return a


def lift(a):
    """ordinary numpy results -> the array classes of the engine"""
    if isinstance(a, (SymArray, IArray)):
        return a
    if isinstance(a, np.ma.MaskedArray):
        return a
    if isinstance(a, ND):
        k = a.dtype.kind
        if k == 'f' or k == 'b':
            r = np.empty(a.shape, dtype=object)
            conv = F64 if k == 'f' else np.bool_
            rf = r.reshape(-1) if r.size else r
            if r.size:
                rf[:] = [conv(x) for x in a.ravel().tolist()]
                r = rf.reshape(a.shape)
            return mkarr(r, k)
        if k in 'iu' and type(a) is ND:
            return a.view(IArray)
        if k == 'O' and type(a) is ND:
            return a.view(OArray)
        return a
    if type(a) is tuple:
        return tuple(lift(x) for x in a)
    if type(a) is list:
        return [lift(x) for x in a]
    return a


def mkarr(o, kind):
    """wrap an object ndarray"""
    if kind == 'i':
        if not any(is_sym(x) for x in o.flat):
            return o.astype(int).view(IArray)
    if kind == 'o':
        return o.view(OArray)
    r = o.view(SymArray)
    r._kind = kind
    return r


def infer(o, default='f'):
    ks = set(elem_kind(x) for x in o.flat)
    if not ks:
        return default
    if 'o' in ks:
        return 'o'
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    return 'b'


def wrap_obj(o, default='f'):
    """object ndarray of any shape -> engine array, elements normalised"""
    k = infer(o, default)
    if k == 'o':
        return o.view(OArray)
    if o.size == 0:
        return mkarr(o, k)
    r = _CASTS[k](o)
    if not isinstance(r, ND):
        t = np.empty((), dtype=object)
        t[()] = r
        r = t
    return mkarr(r, k)


def mk(lst, kind=None):
    o = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        o[i] = x
    if kind is None:
        return wrap_obj(o)
    return mkarr(_CASTS[kind](o) if len(lst) else o, kind)


def akind(a):
    if isinstance(a, SymArray):
        return a._kind
    if isinstance(a, ND):
        return {'f': 'f', 'b': 'b', 'i': 'i', 'u': 'i'}.get(a.dtype.kind, 'o')
    return elem_kind(a)


# ------------------------------------------------------------------- keys
def norm_key(k):
    if type(k) is tuple:
        return tuple(norm_key(x) for x in k)
    if isinstance(k, SymArray):
        if k._kind == 'b':
            return bools_of(k)
        if k._kind == 'i':
            return np.array([int(x) for x in k.view(ND).flat],
                            dtype=int).reshape(k.shape)
        if k.size == 0 and k._kind == 'f':
            raise IndexError('arrays used as indices must be of integer (or '
                             'boolean) type')
        raise IndexError('arrays used as indices must be of integer (or '
                         'boolean) type')
    t = type(k)
    if t is SymInt:
        return k.__index__()
    if t is SymBool:
        return bool(k)
    if t is SymNum:
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), '
                         'numpy.newaxis (`None`) and integer or boolean '
                         'arrays are valid indices')
    if t is list and has_sym(k):
        return norm_key(asarray(k))
    if t is list and any(isinstance(x, (list, SymArray)) for x in k):
        return norm_key(asarray(k)) if not isinstance(k[0], slice) else k
    if t is slice and has_sym(k):
        f = (lambda x: None if x is None else operator.index(x))
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, ND) and type(k) is not ND:
        return k.view(ND)
    return k


def bools_of(a):
    """real bool array of a (symbolic) boolean array, forking"""
    r = a.view(ND)
    out = np.empty(r.shape, dtype=bool)
    for idx in np.ndindex(*r.shape):
        out[idx] = bool(r[idx])
    return out


class _Mix(object):
    def __array_function__(self, func, types, args, kwargs):
        from . import npf
        return npf.array_function(func, types, args, kwargs)


class IArray(_Mix, ND):
    """integer array accepting symbolic keys"""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __getitem__(self, k):
        r = ND.__getitem__(self.view(ND), norm_key(k))
        return r.view(IArray) if isinstance(r, ND) else r

    def __setitem__(self, k, v):
        if has_sym(v):
            if isinstance(v, SymArray):
                v = np.array([int(x) for x in v.view(ND).flat]).reshape(v.shape)
            elif is_sym(v):
                v = int(v)
            else:
                v = np.array([int(x) for x in v])
        ND.__setitem__(self.view(ND), norm_key(k), lower(v))

    def __deepcopy__(self, memo):
        return self.view(ND).copy().view(IArray)

    def __copy__(self):
        return self.view(ND).copy().view(IArray)

    def astype(self, t, *a, **k):
        return lift(self.view(ND).astype(t, *a, **k))

    def __contains__(self, x):
        if is_sym(x):
            return bool(mkbool(b_or(*[as_zbool(compare('eq', x, int(v)))
                                      for v in self.view(ND).flat])))
        return x in self.view(ND)


class OArray(ND):
    """array of arbitrary objects accepting symbolic keys"""

    def __getitem__(self, k):
        r = ND.__getitem__(self.view(ND), norm_key(k))
        return r.view(OArray) if type(r) is ND and r.dtype == object else r

    def __setitem__(self, k, v):
        ND.__setitem__(self.view(ND), norm_key(k), v)

    def __deepcopy__(self, memo):
        return ND.__deepcopy__(self.view(ND), memo).view(OArray)


def _lowered(name):
    def f(self, *a, **k):
        a, k = lower(a), lower(k)
        return lift(getattr(self.view(ND), name)(*a, **k))
    f.__name__ = name
    return f


for _n in ('sum', 'mean', 'std', 'var', 'min', 'max', 'any', 'all', 'argsort',
           'argmin', 'argmax', 'nonzero', 'cumsum', 'prod', 'round', 'clip',
           'searchsorted', 'ptp', 'dot'):
    setattr(IArray, _n, _lowered(_n))


class SymArray(_Mix, ND):
    _kind = 'f'

    def __array_finalize__(self, obj):
        if obj is not None:
            self._kind = getattr(obj, '_kind', 'f')

    @property
    def dtype(self):
        return _DT[self._kind]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    # -- items
    def __getitem__(self, k):
        r = ND.__getitem__(self.view(ND), norm_key(k))
        if isinstance(r, ND):
            r = r.view(SymArray)
            r._kind = self._kind
        return r

    def __setitem__(self, k, v):
        r = self.view(ND)
        kind = self._kind
        if isinstance(k, list) and has_sym(k):
            k = asarray(k)
        # masked write of one value: no fork
        if isinstance(k, SymArray) and k._kind == 'b' and k.shape == r.shape \
                and has_sym(k):
            if not isinstance(v, (ND, list, tuple)) or \
                    (isinstance(v, ND) and v.ndim == 0):
                if isinstance(v, ND):
                    v = v[()]
                v = cast_elem(v, kind)
                kk = k.view(ND)
                for idx in np.ndindex(*r.shape):
                    r[idx] = ite(as_zbool(kk[idx]), v, r[idx])
                return
        key = norm_key(k)
        if isinstance(v, SymArray):
            vv = v.view(ND)
            if v._kind != kind:
                vv = _CASTS[kind](vv)
        elif isinstance(v, (list, tuple, ND)):
            vv = objs(asarray(v))
            vv = _CASTS[kind](vv)
        else:
            vv = cast_elem(v, kind)
        ND.__setitem__(r, key, vv)

    def __contains__(self, x):
        return bool(mkbool(b_or(*[as_zbool(_eq(v, x))
                                  for v in self.view(ND).flat])))

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(ND).flat[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python '
                            'scalars')
        return self.view(ND).flat[0].__float__()

    def __int__(self):
        return int(self.view(ND).flat[0])

    def __index__(self):
        raise TypeError('only integer scalar arrays can be converted to a '
                        'scalar index')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order='C'):
        r = self.view(ND).copy().view(SymArray)
        r._kind = self._kind
        return r

    def __repr__(self):
        return 'SymArray%s' % (self.view(ND).tolist(),)
    __str__ = __repr__

    def __reduce__(self):
        if core.CUR is None:
            raise Unsupported('pickling a symbolic array')
        core.CUR.texts.append(self.copy())
        return core.stored, (len(core.CUR.texts) - 1,)

    def astype(self, t, *a, **k):
        kind = kind_of_dtype(t)
        if kind == 'o' or kind == 'O':
            return self.view(ND).copy()
        if kind == 'i' and np.dtype(t) != np.dtype(int) and has_sym(self):
            raise Unsupported('astype(%s)' % t)
        if kind not in 'fbi':
            if has_sym(self):
                raise Unsupported('astype(%s)' % t)
            return lower(self).astype(t)
        if kind == 'i' and not has_sym(self):
            return lift(lower(self).astype(t))
        if not self.size:
            return mkarr(self.view(ND).copy(), kind)
        r = _CASTS[kind](self.view(ND))
        if not isinstance(r, ND):
            t = np.empty((), dtype=object)
            t[()] = r
            r = t
        return mkarr(r, kind)

    def tolist(self):
        def f(x):
            if isinstance(x, list):
                return [f(y) for y in x]
            return x if is_sym(x) else x.item() if hasattr(x, 'item') else x
        return f(self.view(ND).tolist())

    def item(self, *a):
        return self.view(ND).item(*a)

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if dtype in (bool, np.bool_):
            return self.astype(bool).any(axis, keepdims=keepdims, **k)
        return reduce_(np.add, self, axis, keepdims, **_redkw(k))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_(np.multiply, self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.minimum, self, axis, keepdims, **_redkw(k))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.maximum, self, axis, keepdims, **_redkw(k))

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_or, self, axis, keepdims, **_redkw(k))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.logical_and, self, axis, keepdims, **_redkw(k))

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else \
            int(np.prod([self.shape[i] for i in np.atleast_1d(axis)]))
        s = reduce_(np.add, self, axis, keepdims)
        return array_ufunc(np.true_divide, '__call__', (s, F64(n)), {})

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis, keepdims=True)
        d = (self - m)
        d = asarray(d * d)
        n = self.size if axis is None else \
            int(np.prod([self.shape[i] for i in np.atleast_1d(axis)]))
        s = reduce_(np.add, d, axis, keepdims)
        return array_ufunc(np.true_divide, '__call__', (s, F64(n - ddof)), {})

    def std(self, *a, **k):
        return array_ufunc(np.sqrt, '__call__', (self.var(*a, **k),), {})

    def cumsum(self, axis=None, **k):
        return array_ufunc(np.add, 'accumulate',
                           (self.ravel() if axis is None else self,),
                           {'axis': 0 if axis is None else axis})

    def argmin(self, axis=None, out=None, **k):
        return _argext(self, axis, 'lt')

    def argmax(self, axis=None, out=None, **k):
        return _argext(self, axis, 'gt')

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = sort(self, axis)

    def nonzero(self):
        return tuple(lift(x) for x in bools_of(self.astype(bool)).nonzero())

    def round(self, decimals=0, out=None):
        f = pyf(lambda x: core.f_round(x, decimals), 1, 1)
        return _fin(f(self.view(ND)), self._kind)

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return r

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def conj(self):
        return self.copy()
    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(np.zeros(self.shape))

    def dot(self, o):
        from . import npf
        return npf.dot(self, o)

    def tobytes(self, *a):
        return lower(self).tobytes()


def _eq(a, b):
    if is_sym(a) or is_sym(b):
        if b is None or a is None or not (core.is_scalar(a) and core.is_scalar(b)):
            return False
        return compare('eq', a, b)
    return np.bool_(a == b)


# ------------------------------------------------------------------- ufuncs
def _l2(uf, sym):
    def g(a, b):
        if is_sym(a) or is_sym(b):
            return sym(a, b)
        return uf(a, b)
    return g


def _l1(uf, sym):
    def g(a):
        if is_sym(a):
            return sym(a)
        return uf(a)
    return g


def _fcast(x):
    return cast_elem(x, 'f')


def _sign(x):
    v, nan = parts(x)
    return SymNum(z3.If(v > 0, core.rv(1), z3.If(v < 0, core.rv(-1), core.rv(0))), nan)


def _trunc(x):
    if type(x) is not SymNum:
        return x
    v = x.v
    return SymNum(z3.ToReal(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))), x.nan)


def _atan2(a, b):
    (va, na), (vb, nb) = parts(a), parts(b)
    return SymNum(cur().ufun('arctan2', va, vb), b_or(na, nb))


def _hypot(a, b):
    return core.f_sqrt(arith('add', arith('mul', a, a), arith('mul', b, b)))


def _tan(x):
    return arith('div', core.f_unary('sin')(x), core.f_unary('cos')(x))


def _fmax(a, b):
    na, nb = as_zbool(core.f_isnan(a)), as_zbool(core.f_isnan(b))
    return ite(na, b, ite(nb, a, core.f_max(a, b)))


def _fmin(a, b):
    na, nb = as_zbool(core.f_isnan(a)), as_zbool(core.f_isnan(b))
    return ite(na, b, ite(nb, a, core.f_min(a, b)))


def _abs(x):
    if type(x) is SymBool:
        return x
    return abs(x)


BIN = {
    'add': lambda a, b: arith('add', a, b),
    'subtract': lambda a, b: arith('sub', a, b),
    'multiply': lambda a, b: arith('mul', a, b),
    'divide': lambda a, b: arith('div', a, b),
    'true_divide': lambda a, b: arith('div', a, b),
    'floor_divide': core.f_floordiv,
    'remainder': core.f_mod, 'mod': core.f_mod,
    'power': core.f_pow, 'float_power': core.f_pow,
    'maximum': core.f_max, 'minimum': core.f_min,
    'fmax': _fmax, 'fmin': _fmin,
    'arctan2': _atan2, 'hypot': _hypot,
}
CMP = {'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge',
       'equal': 'eq', 'not_equal': 'ne'}
LOG = {
    'logical_and': lambda a, b: mkbool(b_and(as_zbool(a), as_zbool(b))),
    'logical_or': lambda a, b: mkbool(b_or(as_zbool(a), as_zbool(b))),
    'logical_xor': lambda a, b: mkbool(core.b_ite(as_zbool(a), b_not(as_zbool(b)),
                                                  as_zbool(b))),
}
UN = {
    'negative': lambda x: -x, 'positive': lambda x: x,
    'absolute': _abs, 'fabs': _abs,
    'sqrt': core.f_sqrt, 'square': lambda x: arith('mul', x, x),
    'reciprocal': lambda x: arith('div', F64(1.), x),
    'sign': _sign, 'floor': core.f_floor, 'ceil': core.f_ceil,
    'trunc': _trunc, 'rint': lambda x: core.f_round(x, 0),
    'exp': core.f_unary('exp'), 'log': core.f_unary('log'),
    'log10': core.f_unary('log10'), 'log2': core.f_unary('log2'),
    'sin': core.f_unary('sin'), 'cos': core.f_unary('cos'), 'tan': _tan,
    'arcsin': core.f_unary('arcsin'), 'arccos': core.f_unary('arccos'),
    'arctan': core.f_unary('arctan'), 'tanh': core.f_unary('tanh'),
    'sinh': core.f_unary('sinh'), 'cosh': core.f_unary('cosh'),
    'deg2rad': lambda x: arith('mul', x, F64(np.pi / 180)),
    'radians': lambda x: arith('mul', x, F64(np.pi / 180)),
    'rad2deg': lambda x: arith('mul', x, F64(180 / np.pi)),
    'degrees': lambda x: arith('mul', x, F64(180 / np.pi)),
    'conjugate': lambda x: x, 'cbrt': core.f_unary('cbrt'),
}
UNB = {
    'isnan': core.f_isnan, 'isfinite': core.f_isfinite,
    'isinf': lambda x: np.False_,
    'logical_not': lambda x: mkbool(b_not(as_zbool(x))),
    'signbit': lambda x: compare('lt', x, 0),
}
_PYF = {}


def _cmpfn(uf, op):
    def g(a, b):
        if is_sym(a) or is_sym(b):
            if not (core.is_scalar(a) and core.is_scalar(b)):
                return np.bool_(op == 'ne')
            return compare(op, a, b)
        return uf(a, b)
    return g


def scalar_fn(uf, kinds):
    """(python function on scalars, result kind) of a ufunc"""
    n = uf.__name__
    allb = all(k == 'b' for k in kinds)
    alli = all(k in 'bi' for k in kinds)
    if n in CMP:
        return _cmpfn(uf, CMP[n]), 'b'
    if n in LOG:
        return _l2(uf, LOG[n]), 'b'
    if n in UNB:
        return _l1(uf, UNB[n]), 'b'
    if n in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'):
        if 'f' in kinds:
            raise TypeError("ufunc '%s' not supported for the input types" % n)
        if allb:
            if n == 'invert':
                return _l1(np.logical_not, UNB['logical_not']), 'b'
            nn = n.replace('bitwise', 'logical')
            return _l2(getattr(np, nn), LOG[nn]), 'b'
        return _l2(uf, _unsup(n)), 'i'
    if n in BIN:
        if allb:
            if n in ('add', 'maximum', 'fmax'):
                return _l2(np.logical_or, LOG['logical_or']), 'b'
            if n in ('multiply', 'minimum', 'fmin'):
                return _l2(np.logical_and, LOG['logical_and']), 'b'
            if n == 'subtract':
                raise TypeError('numpy boolean subtract, the `-` operator, is '
                                'not supported')
        fl = n in ('divide', 'true_divide', 'arctan2', 'hypot', 'float_power')
        if n == 'power' and alli:
            # integer powers of integer arrays
            return _l2(uf, BIN[n]), 'i'
        if n == 'power' or n == 'float_power':
            g = BIN[n]

            def pw(a, b):
                if is_sym(a) or is_sym(b):
                    return g(a, b)
                return np.power(F64(a), b)
            return pw, 'f'
        return _l2(uf, BIN[n]), ('i' if alli and not fl else 'f')
    if n in UN:
        if allb and n == 'negative':
            raise TypeError('The numpy boolean negative, the `-` operator, is '
                            'not supported')
        keep = n in ('negative', 'positive', 'absolute', 'square', 'sign',
                     'conjugate')
        if allb and n == 'absolute':
            return _l1(uf, UN[n]), 'b'
        return _l1(uf, UN[n]), ('i' if alli and keep else 'f')
    return None, None


def _unsup(n):
    def f(*a):
        raise Unsupported('ufunc %s' % n)
    return f


def _fin(r, kind):
    """result of frompyfunc -> engine value"""
    if isinstance(r, ND):
        return mkarr(r, kind)
    return r


_OPS = {'add': operator.add, 'subtract': operator.sub,
        'multiply': operator.mul, 'divide': operator.truediv,
        'true_divide': operator.truediv, 'power': operator.pow}


def foreign(x):
    """an operand that is not a number nor an array of numbers (a unit...)"""
    if isinstance(x, (SymArray, IArray)) or is_sym(x):
        return False
    if isinstance(x, ND):
        return x.dtype.kind in 'OUS' and any(
            elem_kind(e) == 'o' for e in x.flat)
    return not core.is_scalar(x) and not isinstance(x, (list, tuple, complex,
                                                        np.complexfloating))


def array_ufunc(uf, method, inputs, kw):
    kw = dict(kw)
    for x in inputs:
        if type(x).__name__ == 'MaskedConst':
            return x
    out = kw.pop('out', None)
    inputs = [asarray(x) if isinstance(x, (list, tuple)) else x for x in inputs]
    sym = any(has_sym(x) for x in inputs) or has_sym(kw.get('where'))
    if any(foreign(x) for x in inputs):
        ins = [objs(x) for x in inputs]
        op = _OPS.get(uf.__name__)
        if uf.__name__ in CMP:
            f, k = _cmpfn(uf, CMP[uf.__name__]), 'b'
            return _fin(pyf(f, 2, 1)(*ins), k)
        if uf.__name__ == 'absolute' and out is None:
            return pyf(abs, 1, 1)(*ins)
        if op is None or out is not None:
            raise Unsupported('%s with %s' % (uf.__name__,
                                              [type(x) for x in inputs]))
        return pyf(op, 2, 1)(*ins)
    if not sym:
        # concrete data: numpy itself
        args = [lower(x) for x in inputs]
        kw = {k: lower(v) for k, v in kw.items()}
        if out is not None and method == '__call__':
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SymArray):
                r = lift(getattr(uf, method)(*args, **kw))
                _store(o, r, uf)
                return o
            kw['out'] = tuple(lower(x) for x in out) \
                if isinstance(out, tuple) else lower(out)
            getattr(uf, method)(*args, **kw)
            return o
        r = getattr(uf, method)(*args, **kw)
        return lift(r)
    kinds = [akind(x) for x in inputs]
    if method == 'reduce':
        r = reduce_(uf, inputs[0], kw.get('axis', 0), kw.get('keepdims', False),
                    initial=kw.get('initial'))
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                _store(o, r, uf)
                return o
        return r
    if 'o' in kinds:
        raise Unsupported('ufunc %s on objects/complex' % uf.__name__)
    fn, rk = scalar_fn(uf, kinds)
    if fn is None:
        raise Unsupported('ufunc %s' % uf.__name__)
    ins = [objs(x) for x in inputs]
    if method == 'outer':
        a, b = ins
        a = a.reshape(a.shape + (1,) * b.ndim)
        ins = [a, b]
    elif method == 'accumulate':
        return _accumulate(fn, rk, ins[0], kw.get('axis', 0), kinds[0], uf)
    elif method != '__call__':
        raise Unsupported('ufunc method ' + method)
    r = pyf(fn, len(ins), 1)(*ins)
    where = kw.get('where', True)
    if where is not True:
        o = out[0] if isinstance(out, tuple) else out
        if o is None:
            o = lift(np.zeros(np.shape(r)))
        w = np.broadcast_to(objs(asarray(where)), np.shape(r))
        old = objs(o)
        r = pyf(lambda c, x, y: ite(as_zbool(c), x, y), 3, 1)(w, r, old)
        out = (o,)
    r = _fin(r, rk)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        _store(o, r, uf)
        return o
    return r


def _store(o, r, uf):
    rk = akind(r)
    if isinstance(o, SymArray):
        if np.shape(r) != o.shape:
            np.broadcast_shapes(np.shape(r), o.shape)
            if np.broadcast_shapes(np.shape(r), o.shape) != o.shape:
                raise ValueError('non-broadcastable output operand with shape '
                                 "%s doesn't match the broadcast shape %s"
                                 % (o.shape, np.shape(r)))
        order = 'bif'
        if order.index(rk) > order.index(o._kind):
            raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to "
                            "dtype('%s') with casting rule 'same_kind'"
                            % (uf.__name__, _DT[rk], _DT[o._kind]))
        o[...] = r
        return
    if o.dtype.kind in 'iu' and rk == 'f':
        raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') "
                        "to dtype('int64') with casting rule 'same_kind'"
                        % uf.__name__)
    if has_sym(r) and o.dtype.kind not in 'iu':
        raise Unsupported('output into a plain array')
    o[...] = r if o.dtype.kind in 'iu' else lower(r)


def _accumulate(fn, rk, a, axis, kind, uf):
    if uf is np.add and kind == 'b':
        fn, rk = _l2(np.add, lambda x, y: arith('add', num_of(x), num_of(y))), 'i'
    b = np.moveaxis(a, axis, 0)
    out = np.empty(b.shape, dtype=object)
    f = pyf(fn, 2, 1)
    for i in range(b.shape[0]):
        out[i] = b[i] if i == 0 else f(out[i - 1], b[i])
    return mkarr(np.moveaxis(out, 0, axis), rk)


def _redkw(k):
    """keywords of reductions: initial is done, a mask is not"""
    k = {q: v for q, v in k.items() if v is not np._NoValue}
    if k.pop('where', True) is not True:
        raise Unsupported('reduction with where')
    i = k.pop('initial', None)
    if k:
        raise Unsupported('reduction with ' + ', '.join(k))
    return {} if i is None else {'initial': i}


def reduce_(uf, a, axis=None, keepdims=False, initial=None):
    if initial is not None:
        if axis is not None or keepdims:
            raise Unsupported('initial along an axis')
        a = asarray(list(asarray(a).ravel()) + [initial])
    if not isinstance(a, ND):
        a = asarray(a)
    kind = akind(a)
    if not isinstance(a, SymArray) or not has_sym(a):
        r = uf.reduce(lower(a), axis=None if axis is None else axis,
                      keepdims=keepdims) if uf not in (np.add,) else \
            np.sum(lower(a), axis=axis, keepdims=keepdims)
        return lift(r)
    o = a.view(ND)
    if uf is np.add and kind == 'b':
        fn = _l2(np.add, lambda x, y: arith('add', num_of(x), num_of(y)))
        o = pyf(lambda x: num_of(x) if is_sym(x) else int(x), 1, 1)(o)
        rk = 'i'
    elif uf is np.multiply and kind == 'b':
        raise Unsupported('product of booleans')
    elif uf in (np.logical_or, np.logical_and):
        return _boolred(uf, o, axis, keepdims)
    else:
        fn, rk = scalar_fn(uf, [kind, kind])
        if fn is None:
            raise Unsupported('reduce ' + uf.__name__)
    nd = o.ndim
    axes = tuple(range(nd)) if axis is None else \
        tuple(x % nd for x in (axis if isinstance(axis, tuple) else (axis,)))
    f = pyf(fn, 2, 1)
    r = o
    for ax in sorted(axes, reverse=True):
        b = np.moveaxis(r, ax, 0)
        if b.shape[0] == 0:
            if uf is np.add:
                acc = np.zeros(b.shape[1:], dtype=object)
                if rk == 'f':
                    acc = _CASTS['f'](acc)
            else:
                raise ValueError('zero-size array to reduction operation %s '
                                 'which has no identity' % uf.__name__)
        else:
            acc = b[0]
            if uf is np.add and len(b) > 2 and np.ndim(acc) == 0 and rk == 'f':
                acc = _sumlist(list(b))
            else:
                for i in range(1, b.shape[0]):
                    acc = f(acc, b[i])
        if keepdims:
            t = np.empty(np.shape(acc), dtype=object)
            t[...] = acc
            acc = np.expand_dims(t, ax)
        r = acc if isinstance(acc, ND) else _box(acc)
    if r.ndim == 0:
        return r[()]
    return mkarr(r, rk)


def _sumlist(xs):
    acc = xs[0]
    for x in xs[1:]:
        acc = _ADD(acc, x)
    return acc


_ADD = _l2(np.add, BIN['add'])


def _box(x):
    t = np.empty((), dtype=object)
    t[()] = x
    return t


def _boolred(uf, o, axis, keepdims):
    comb = b_or if uf is np.logical_or else b_and

    def red(v):
        return mkbool(comb(*[as_zbool(x) for x in v]))
    nd = o.ndim
    axes = tuple(range(nd)) if axis is None else \
        tuple(x % nd for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(nd) if i not in axes]
    b = np.transpose(o, rest + list(axes))
    shp = b.shape[:len(rest)]
    b = b.reshape(shp + (-1,)) if b.size or shp else b.reshape(-1)
    out = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        out[idx] = red(b[idx])
    if keepdims:
        out = out.reshape([1 if i in axes else o.shape[i] for i in range(nd)])
    if out.ndim == 0:
        return out[()]
    return mkarr(out, 'b')


# ------------------------------------------------------------------- ordering
def _less_nan(a, b):
    """sort order: NaN last (forks)"""
    if not is_sym(a) and not is_sym(b):
        if a != a:
            return False
        return bool(b != b) or bool(a < b)
    na, nb = as_zbool(core.f_isnan(a)), as_zbool(core.f_isnan(b))
    lt = as_zbool(compare('lt', a, b))
    return cur().fork(b_and(b_not(na), b_or(nb, lt)))


def _order(v):
    idx = []
    for i in range(len(v)):
        j = len(idx)
        while j > 0 and _less_nan(v[i], v[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def argsort(a, axis=-1):
    a = asarray(a)
    if not has_sym(a):
        return lift(np.argsort(lower(a), axis=axis, kind='stable'))
    o = objs(a)
    if axis is None:
        o, axis = o.ravel(), -1
    b = np.moveaxis(o, axis, -1)
    out = np.empty(b.shape, dtype=int)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = _order(list(b[idx]))
    return np.moveaxis(out, -1, axis).view(IArray)


def sort(a, axis=-1):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), -1
    if not has_sym(a):
        return lift(np.sort(lower(a), axis=axis))
    ind = argsort(a, axis)
    return mkarr(np.take_along_axis(objs(a), ind.view(ND), axis), akind(a))


def _argext(a, axis, op):
    a = asarray(a)
    if not has_sym(a):
        f = np.argmin if op == 'lt' else np.argmax
        return lift(f(lower(a), axis=axis))
    o = objs(a)

    def one(v):
        best = 0
        for i in range(1, len(v)):
            x, y = v[i], v[best]
            nx, ny = as_zbool(core.f_isnan(x)), as_zbool(core.f_isnan(y))
            if op == 'lt':
                c = compare('lt', x, y) if is_sym(x) or is_sym(y) else np.bool_(x < y)
            else:
                c = compare('gt', x, y) if is_sym(x) or is_sym(y) else np.bool_(x > y)
            if cur().fork(b_and(b_not(ny), b_or(nx, as_zbool(c)))):
                best = i
        return best
    if o.size == 0:
        raise ValueError('attempt to get argmin of an empty sequence')
    if axis is None:
        return np.int64(one(list(o.ravel())))
    b = np.moveaxis(o, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = one(list(b[idx]))
    return lift(out) if out.ndim else np.int64(out[()])


def searchsorted(a, v, side='left', sorter=None):
    a = asarray(a)
    if not has_sym(a) and not has_sym(v):
        return lift(np.searchsorted(lower(a), lower(v), side))
    if sorter is not None:
        raise Unsupported('searchsorted sorter')
    o = list(objs(a))

    def one(x):
        # number of elements strictly before the insertion point
        for i, y in enumerate(o):
            stop = not _less_nan(y, x) if side == 'left' else _less_nan(x, y)
            if stop:
                return i
        return len(o)
    if isinstance(v, (ND, list, tuple)):
        v = asarray(v)
        return lift(np.array([one(x) for x in objs(v).flat],
                             dtype=int).reshape(v.shape))
    return np.int64(one(v))


# ------------------------------------------------------------------- creation
class W(object):
    """wrapper of a numpy callable in the facade (see npf)"""


def asarray(a, dtype=None):
    """no copy when a is already an engine array of the right kind"""
    kind = kind_of_dtype(dtype)
    if isinstance(a, (SymArray, IArray)):
        if kind is None or (kind == akind(a) and
                            (isinstance(a, SymArray) or
                             np.dtype(dtype) == a.view(ND).dtype)):
            return a
        return a.astype(dtype)
    return array(a, dtype)


def _iterables(a):
    """ranges, generators... inside -> lists"""
    if isinstance(a, (list, tuple)):
        return [_iterables(x) for x in a]
    return a


def array(a, dtype=None, copy=True, ndmin=0, order=None, subok=False, like=None):
    kind = kind_of_dtype(dtype)
    if isinstance(a, (SymArray, IArray)):
        r = a.astype(dtype) if kind is not None and kind != akind(a) else \
            (a.copy() if copy else a)
        if isinstance(a, IArray) and dtype is not None and kind == 'i':
            r = a.view(ND).astype(dtype).view(IArray)
        if ndmin > r.ndim:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r
    if isinstance(a, np.ma.MaskedArray) or type(a).__name__ == 'SymMasked':
        a = a.data
        return array(a, dtype, copy, ndmin)
    if not has_sym(a):
        la = lower(a)
        try:
            r = np.array(la, dtype=dtype, ndmin=ndmin)
        except TypeError:
            raise
        return lift(r)
    if is_sym(a):
        o = _box(a)
    else:
        o = np.array(_iterables(a), dtype=object) if isinstance(a, (list, tuple)) \
            else np.array(a, dtype=object)
        o = _unbox(o, a)
    if kind in ('O', 'o'):
        return o
    if kind is not None and kind not in 'fbi':
        raise Unsupported('array dtype %s' % dtype)
    r = wrap_obj(o)
    if kind is not None and akind(r) != kind:
        r = r.astype(dtype)
    if ndmin > r.ndim:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def _unbox(o, a):
    """np.array(list of arrays, dtype=object): numpy gives either a full array
    of elements or (ragged) an array of sequences"""
    return o.view(ND)
