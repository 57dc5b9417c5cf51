"""The numpy that the code under test sees."""
import types

import numpy as np
import z3

from . import core, array as A
from .array import (SymArray, IArray, ND, asarray, lift, lower, has_sym, objs,
                    mkarr, wrap_obj, akind, W, _box)
from .core import (is_sym, Unsupported, F64, NAN, ite, as_zbool, mkbool, b_and,
                   b_or, b_not, arith, compare, SymNum, SymInt, SymBool)

OVER = {}          # name -> function
HAND = {}          # real numpy function -> function
STRUCT = set('''reshape transpose rot90 flip fliplr flipud ravel squeeze
swapaxes moveaxis expand_dims atleast_1d atleast_2d tile repeat roll take diag
split array_split hsplit vsplit diff trapz broadcast_to ndim shape size
triu tril rollaxis diagonal broadcast_arrays resize take_along_axis'''.split())


def over(*names):
    def d(f):
        for n in names:
            OVER[n] = f
            r = getattr(np, n, None)
            if r is not None:
                HAND[r] = f
        return f
    return d


def _arrays(x):
    """lists holding symbolic scalars become arrays"""
    if isinstance(x, list) and has_sym(x):
        return asarray(x)
    return x


def _post(r, default='f'):
    if isinstance(r, (SymArray, IArray)):
        return r
    if isinstance(r, ND):
        if r.dtype == object:
            return wrap_obj(r, default)
        return lift(r)
    if type(r) is tuple:
        return tuple(_post(x, default) for x in r)
    if type(r) is list:
        return [_post(x, default) for x in r]
    return r


def array_function(func, types_, args, kwargs):
    """numpy's own python code, called on engine arrays"""
    h = HAND.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if not has_sym(args) and not has_sym(kwargs) and \
            func.__name__ not in STRUCT:
        return lift(func(*lower(args), **lower(kwargs)))
    impl = getattr(func, '_implementation', None)
    if impl is None:
        raise Unsupported('numpy function %s' % func.__name__)
    if func.__name__ not in STRUCT:
        raise Unsupported('numpy function %s' % func.__name__)
    return _post(impl(*args, **kwargs), _dk(args))


def _dk(args):
    for x in args:
        if isinstance(x, SymArray):
            return x._kind
        if isinstance(x, (list, tuple)):
            r = _dk(x)
            if r:
                return r
    return 'f'


class Func(W):
    """generic wrapper of a numpy/scipy function"""

    def __init__(self, real, name):
        self.real = real
        self.__name__ = name

    def __call__(self, *args, **kw):
        args = tuple(_arrays(x) for x in args)
        if has_sym(args) or has_sym(kw) or \
                (self.__name__ in STRUCT and
                 any(isinstance(x, (SymArray, IArray)) for x in args)):
            if hasattr(self.real, '_implementation'):
                return array_function(self.real, (), args, kw)
            raise Unsupported('function %s on symbolic data' % self.__name__)
        return lift(self.real(*lower(args), **lower(kw)))

    def __getattr__(self, n):
        return getattr(self.real, n)


class UF(W):
    def __init__(self, real):
        self.real = real
        self.__name__ = real.__name__

    def _go(self, method, a, kw):
        a = list(a)
        if method == '__call__' and len(a) > self.real.nin:
            kw = dict(kw, out=tuple(a[self.real.nin:]))
            a = a[:self.real.nin]
        if 'out' in kw and kw['out'] is not None and \
                not isinstance(kw['out'], tuple):
            kw = dict(kw, out=(kw['out'],))
        a = [asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
        return A.array_ufunc(self.real, method, a, kw)

    def __call__(self, *a, **k):
        return self._go('__call__', a, k)

    def reduce(self, a, axis=0, **k):
        return A.reduce_(self.real, asarray(a), axis, k.get('keepdims', False))

    def accumulate(self, a, axis=0, **k):
        return self._go('accumulate', (a,), {'axis': axis})

    def outer(self, a, b, **k):
        return self._go('outer', (asarray(a), asarray(b)), k)

    def __getattr__(self, n):
        return getattr(self.real, n)


# ------------------------------------------------------------------ creation
@over('array')
def f_array(a, dtype=None, *args, **k):
    return A.array(a, dtype, *args, **k)


@over('asarray', 'asanyarray', 'ascontiguousarray')
def f_asarray(a, dtype=None, order=None, **k):
    if hasattr(a, 'filled') and type(a).__name__ == 'SymMasked':
        a = a.data
    return asarray(a, dtype)


def _creator(name):
    real = getattr(np, name)

    def f(*a, **k):
        if has_sym(a) or has_sym(k):
            if name == 'arange':
                return _arange(*a, **k)
            if name == 'linspace':
                return _linspace(*a, **k)
            a = tuple(_ints(x) for x in a)
            if has_sym(a):
                raise Unsupported(name)
        return lift(real(*lower(a), **lower(k)))
    f.__name__ = name
    OVER[name] = f
    HAND[real] = f


def _ints(x):
    if type(x) is SymInt:
        return int(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_ints(y) for y in x)
    return x


for _n in ('zeros', 'ones', 'arange', 'linspace', 'indices', 'eye',
           'identity', 'logspace'):
    _creator(_n)


@over('empty')
def f_empty(shape, dtype=float, order='C'):
    # arbitrary contents: a value no result may depend on
    r = np.empty(_ints(shape), dtype=dtype)
    if r.dtype.kind == 'f':
        r[...] = 7.77e77
    elif r.dtype.kind in 'iub':
        r[...] = 1
    return lift(r)


def _arange(*a, **k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[:3]
    if all(core._isint(x) for x in (lo, hi, st)):
        return lift(np.arange(int(lo), int(hi), int(st)))
    q = (hi - lo) / st
    n = core.f_ceil(q) if is_sym(q) else np.ceil(q)
    n = int(core.to_int(n))
    return A.mk([lo + st * i for i in range(max(0, n))], 'f')


def _linspace(lo, hi, num=50, endpoint=True, retstep=False, **k):
    num = int(num)
    step = (hi - lo) / (num - 1 if endpoint else num) if num > 1 else hi - lo
    r = A.mk([lo + step * i if i < num - 1 or not endpoint or num == 1 else hi
              for i in range(num)], 'f')
    return (r, step) if retstep else r


@over('full')
def f_full(shape, v, dtype=None, **k):
    if not is_sym(v):
        return lift(np.full(_ints(shape), v, dtype))
    o = np.empty(_ints(shape), dtype=object)
    o[...] = v
    return wrap_obj(o)


def _like(name, fill):
    def f(a, dtype=None, *x, **k):
        a = asarray(a)
        dt = a.dtype if dtype is None else dtype
        shape = k.get('shape') or a.shape
        return OVER[name](shape, dtype=dt)
    OVER[name + '_like'] = f
    HAND[getattr(np, name + '_like')] = f


for _n in ('zeros', 'ones', 'empty'):
    _like(_n, None)


@over('full_like')
def f_full_like(a, v, dtype=None, **k):
    a = asarray(a)
    return f_full(a.shape, v, a.dtype if dtype is None else dtype)


@over('copy')
def f_copy(a, order='K', subok=False):
    return asarray(a).copy()


# ------------------------------------------------------------------ reductions
def _red(name, meth):
    def f(a, axis=None, *args, **k):
        if not isinstance(a, (SymArray,)):
            if isinstance(a, (list, tuple)) or is_sym(a):
                a = asarray(a)
            elif isinstance(a, ND) and has_sym(a):
                a = asarray(a)
        if isinstance(a, SymArray):
            k.pop('out', None)
            dt = k.pop('dtype', None)
            if meth == 'sum' and dt is not None:
                if dt in (bool, np.bool_):
                    return a.astype(bool).any(axis, *args, **k)
                a = a.astype(dt)
            return getattr(a, meth)(axis, *args, **k)
        return lift(getattr(np, name)(lower(a), axis, *args, **lower(k)))
    f.__name__ = name
    over(name)(f)


for _n, _m in (('sum', 'sum'), ('prod', 'prod'), ('min', 'min'), ('max', 'max'),
               ('amin', 'min'), ('amax', 'max'), ('any', 'any'), ('all', 'all'),
               ('mean', 'mean'), ('std', 'std'), ('var', 'var'), ('ptp', 'ptp'),
               ('argmin', 'argmin'), ('argmax', 'argmax'),
               ('cumsum', 'cumsum')):
    _red(_n, _m)
OVER['alltrue'] = OVER['all']
OVER['sometrue'] = OVER['any']


def _nanred(name, fill, red):
    def f(a, axis=None, **k):
        a = asarray(a)
        if not has_sym(a):
            return lift(getattr(np, name)(lower(a), axis=axis, **k))
        isn = OVER_UF('isnan')(a)
        if name in ('nanmean', 'nanstd', 'nanvar'):
            cnt = OVER['sum'](OVER_UF('logical_not')(isn), axis=axis)
            s = OVER['sum'](where(isn, F64(0.), a), axis=axis)
            m = s / cnt
            if name == 'nanmean':
                return m
            if axis is not None:
                raise Unsupported(name)
            d = where(isn, F64(0.), a - m)
            v = OVER['sum'](d * d) / cnt
            return v if name == 'nanvar' else OVER_UF('sqrt')(v)
        if name == 'nansum':
            return OVER['sum'](where(isn, F64(0.), a), axis=axis)
        if axis is not None:
            raise Unsupported(name)
        uf = A._fmax if name == 'nanmax' else A._fmin
        acc = NAN
        for x in objs(a).flat:
            acc = uf(acc, x) if (is_sym(acc) or is_sym(x)) else \
                (np.fmax if name == 'nanmax' else np.fmin)(acc, x)
        return acc
    over(name)(f)


def OVER_UF(n):
    return UF(getattr(np, n))


for _n in ('nanmean', 'nanstd', 'nanvar', 'nansum', 'nanmax', 'nanmin'):
    _nanred(_n, None, None)


@over('median')
def f_median(a, axis=None, **k):
    a = asarray(a)
    if not has_sym(a):
        return lift(np.median(lower(a), axis=axis))
    if axis is not None:
        raise Unsupported('median axis')
    s = A.sort(a.ravel())
    n = s.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.


@over('average')
def f_average(a, axis=None, weights=None, **k):
    a = asarray(a)
    if weights is None:
        return OVER['mean'](a, axis)
    w = asarray(weights)
    if axis is not None:
        if w.ndim != a.ndim:
            raise Unsupported('average')
    return OVER['sum'](a * w, axis) / OVER['sum'](w, axis)


@over('count_nonzero')
def f_count_nonzero(a, axis=None, **k):
    return OVER['sum'](asarray(a).astype(bool), axis)


# ------------------------------------------------------------------ selection
@over('where')
def where(c, *xy):
    c = asarray(c)
    if not xy:
        return nonzero(c)
    x, y = xy
    if not has_sym(c) and not has_sym(x) and not has_sym(y):
        return lift(np.where(lower(c), lower(x), lower(y)))
    x, y = asarray(x), asarray(y)
    kx, ky = akind(x), akind(y)
    k = 'f' if 'f' in (kx, ky) else 'i' if 'i' in (kx, ky) else 'b'
    f = A.pyf(lambda a, b, d: ite(as_zbool(a), A.cast_elem(b, k),
                                          A.cast_elem(d, k)), 3, 1)
    r = f(objs(c), objs(x), objs(y))
    return mkarr(r if isinstance(r, ND) else _box(r), k)


@over('nonzero')
def nonzero(a):
    a = asarray(a)
    if a.ndim == 0:
        a = a.reshape(1)
    b = A.bools_of(a.astype(bool)) if isinstance(a, SymArray) else lower(a)
    return tuple(lift(x) for x in b.nonzero())


@over('argwhere')
def argwhere(a):
    a = asarray(a)
    b = A.bools_of(a.astype(bool)) if isinstance(a, SymArray) else lower(a)
    return lift(np.argwhere(b))


@over('flatnonzero')
def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


@over('argsort')
def f_argsort(a, axis=-1, kind=None, order=None):
    return A.argsort(a, axis)


@over('sort')
def f_sort(a, axis=-1, kind=None, order=None):
    return A.sort(a, axis)


@over('searchsorted')
def f_searchsorted(a, v, side='left', sorter=None):
    return A.searchsorted(a, v, side, sorter)


@over('unique')
def f_unique(a, return_index=False, return_inverse=False, return_counts=False,
             axis=None, **k):
    a = asarray(a)
    if not has_sym(a):
        return lift(np.unique(lower(a), return_index, return_inverse,
                              return_counts, axis))
    if axis is not None:
        raise Unsupported('unique axis')
    o = list(objs(a).ravel())
    order = A._order(o)
    vals, idx, cnt = [], [], []
    inv = [0] * len(o)
    for i in order:
        if vals and bool(mkbool(as_zbool(A._eq(vals[-1], o[i])))):
            cnt[-1] += 1
            idx[-1] = min(idx[-1], i)
        else:
            vals.append(o[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    res = [A.mk(vals, akind(a))]
    if return_index:
        res.append(lift(np.array(idx)))
    if return_inverse:
        res.append(lift(np.array(inv)))
    if return_counts:
        res.append(lift(np.array(cnt)))
    return res[0] if len(res) == 1 else tuple(res)


@over('isin', 'in1d')
def f_isin(a, b, invert=False, **k):
    a, b = asarray(a), asarray(b)
    if not has_sym(a) and not has_sym(b):
        return lift(np.isin(lower(a), lower(b), invert=invert))
    bs = list(objs(b).flat)
    f = A.pyf(lambda x: mkbool(b_or(*[as_zbool(A._eq(x, y)) for y in bs])),
                      1, 1)
    r = mkarr(f(objs(a)), 'b')
    return ~r if invert else r


@over('interp')
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if not has_sym((x, xp, fp)):
        return lift(np.interp(lower(x), lower(xp), lower(fp), left, right,
                              period))
    if period is not None:
        raise Unsupported('interp period')
    xp, fp = list(objs(asarray(xp))), list(objs(asarray(fp)))

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (v - xp[i])
        return fp[-1]
    if isinstance(x, (ND, list, tuple)):
        x = asarray(x)
        r = A.mk([one(v) for v in objs(x).flat], 'f')
        return r.reshape(x.shape)
    return one(x)


# ------------------------------------------------------------------ assembly
def _join(args):
    ks = [akind(x) for x in args]
    if 'o' in ks:
        return None
    return 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'


@over('concatenate')
def concatenate(seq, axis=0, out=None, **k):
    arrs = [asarray(x) for x in seq]
    kind = _join(arrs)
    if kind is None:
        return lift(np.concatenate([raw_(x) for x in arrs], axis))
    if not any(isinstance(x, SymArray) for x in arrs):
        return lift(np.concatenate([lower(x) for x in arrs], axis))
    r = np.concatenate([objs(x) for x in arrs], axis)
    return mkarr(A._CASTS[kind](r) if r.size else r, kind)


def raw_(x):
    return objs(x)


@over('append')
def f_append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        a, v = a.ravel(), v.ravel()
        axis = 0
    return concatenate((a, v), axis)


@over('stack')
def f_stack(seq, axis=0, **k):
    arrs = [asarray(x) for x in seq]
    if len(set(x.shape for x in arrs)) != 1:
        raise ValueError('all input arrays must have the same shape')
    nd = arrs[0].ndim + 1
    ax = axis % nd
    return concatenate([x.reshape(x.shape[:ax] + (1,) + x.shape[ax:])
                        for x in arrs], ax)


def _atl(x, n):
    x = asarray(x)
    if x.ndim == 0:
        x = x.reshape((1,) * n)
    elif x.ndim < n:
        x = x.reshape((1,) + x.shape)
    return x


@over('vstack', 'row_stack')
def f_vstack(seq, **k):
    return concatenate([_atl(x, 2) for x in seq], 0)


@over('hstack')
def f_hstack(seq, **k):
    arrs = [_atl(x, 1) for x in seq]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


@over('column_stack')
def f_column_stack(seq):
    arrs = [asarray(x) for x in seq]
    return concatenate([x.reshape(-1, 1) if x.ndim < 2 else x for x in arrs], 1)


@over('dstack')
def f_dstack(seq):
    arrs = [asarray(x) for x in seq]
    return concatenate([x.reshape(1, -1, 1) if x.ndim == 1 else
                        x.reshape(x.shape + (1,)) if x.ndim == 2 else x
                        for x in arrs], 2)


@over('delete')
def f_delete(a, obj, axis=None):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    n = a.shape[axis]
    obj = A.norm_key(obj)
    keep = np.delete(np.arange(n), lower(obj))
    sl = [slice(None)] * a.ndim
    sl[axis] = keep
    return a[tuple(sl)]


@over('insert')
def f_insert(a, obj, values, axis=None):
    a = asarray(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported('insert axis')
    a = a.ravel()
    obj = lower(A.norm_key(obj))
    values = asarray(values)
    if np.ndim(obj) == 0:
        i = int(obj)
        if i < 0:
            i += len(a)
        return concatenate((a[:i], values.ravel(), a[i:]))
    n = len(a)
    tag = np.insert(np.arange(n), obj, -np.arange(1, len(obj) + 1))
    vals = list(objs(values).ravel())
    if len(vals) == 1:
        vals = vals * len(obj)
    return A.mk([a[t] if t >= 0 else vals[-t - 1] for t in tag], akind(a))


@over('meshgrid')
def f_meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [asarray(x).ravel() for x in xs]
    ind = np.meshgrid(*[np.arange(len(x)) for x in xs], indexing=indexing,
                      sparse=sparse)
    return [x[i] for x, i in zip(xs, ind)]


@over('fill_diagonal')
def f_fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[i, i] = v


def _masked_gradient(f, varargs, axis, edge_order):
    N = f.ndim
    axes = tuple(range(N)) if axis is None else tuple(
        x % N for x in (axis if isinstance(axis, tuple) else (axis,)))
    if edge_order != 1 or any(isinstance(d, (list, tuple)) or np.ndim(d) for d in varargs):
        raise Unsupported('gradient of a masked array')
    d = f_gradient(f._data, *varargs, axis=axis)
    d = d if isinstance(d, (list, tuple)) else [d]
    out = []
    for ax, g in zip(axes, d):
        m = np.moveaxis(objs(f.mask), ax, 0)
        n = len(m)
        r = np.empty(m.shape, dtype=object)
        for i in range(n):
            a, b = max(i - 1, 0), min(i + 1, n - 1)
            for k in np.ndindex(*m.shape[1:]):
                r[(i,) + k] = mkbool(b_or(as_zbool(m[(a,) + k]), as_zbool(m[(b,) + k])))
        out.append(SymMasked(g, mkarr(np.moveaxis(r, 0, ax).copy(), 'b')))
    return out if len(out) > 1 else out[0]


@over('gradient')
def f_gradient(f, *varargs, axis=None, edge_order=1):
    if type(f).__name__ == 'SymMasked':
        return _masked_gradient(f, varargs, axis, edge_order)
    f = asarray(f)
    if not has_sym(f) and not has_sym(varargs):
        return lift(np.gradient(lower(f), *lower(varargs), axis=axis,
                                edge_order=edge_order))
    if isinstance(f, IArray):
        f = f.astype(float)
    N = f.ndim
    if axis is None:
        axes = tuple(range(N))
    else:
        axes = tuple(x % N for x in (axis if isinstance(axis, tuple) else (axis,)))
    n = len(varargs)
    if n == 0:
        dx = [1.0] * len(axes)
    elif n == 1 and np.ndim(varargs[0]) == 0:
        dx = list(varargs) * len(axes)
    elif n == len(axes):
        dx = []
        for i, d in enumerate(varargs):
            if isinstance(d, (list, tuple)):
                d = asarray(d)
            if not isinstance(d, ND) or d.ndim == 0:
                dx.append(d)
                continue
            if len(d) != f.shape[axes[i]]:
                raise ValueError('when 1d, distances must match the length of '
                                 'the corresponding dimension')
            diffx = d[1:] - d[:-1]
            dl = list(objs(diffx))
            same = all(bool(mkbool(as_zbool(A._eq(dl[0], x)))) for x in dl[1:])
            dx.append(dl[0] if same else dl)
    else:
        raise TypeError('invalid number of arguments')
    out = []
    o = objs(f)
    for ax, d in zip(axes, dx):
        m = f.shape[ax]
        if m < edge_order + 1:
            raise ValueError('Shape of array too small to calculate a '
                             'numerical gradient, at least (edge_order + 1) '
                             'elements are required.')
        b = np.moveaxis(o, ax, 0)
        r = np.empty(b.shape, dtype=object)
        uni = not isinstance(d, list)

        def lin(cs, idx):
            acc = None
            for c, i in zip(cs, idx):
                t = mkarr(b[i].copy() if isinstance(b[i], ND) else
                          _box(b[i]), 'f') * c
                acc = t if acc is None else acc + t
            return objs(acc)
        for i in range(m):
            if 0 < i < m - 1:
                if uni:
                    v = objs((mkarr(_nd(b[i + 1]), 'f') - mkarr(_nd(b[i - 1]), 'f'))
                             / (2. * d))
                else:
                    d1, d2 = d[i - 1], d[i]
                    v = lin([-(d2) / (d1 * (d1 + d2)), (d2 - d1) / (d1 * d2),
                             d1 / (d2 * (d1 + d2))], [i - 1, i, i + 1])
            elif edge_order == 1:
                dd = d if uni else (d[0] if i == 0 else d[-1])
                p, q = (1, 0) if i == 0 else (m - 1, m - 2)
                v = objs((mkarr(_nd(b[p]), 'f') - mkarr(_nd(b[q]), 'f')) / dd)
            else:
                if i == 0:
                    ix = [0, 1, 2]
                    if uni:
                        cs = [-1.5 / d, 2. / d, -0.5 / d]
                    else:
                        d1, d2 = d[0], d[1]
                        cs = [-(2. * d1 + d2) / (d1 * (d1 + d2)),
                              (d1 + d2) / (d1 * d2), -d1 / (d2 * (d1 + d2))]
                else:
                    ix = [m - 3, m - 2, m - 1]
                    if uni:
                        cs = [0.5 / d, -2. / d, 1.5 / d]
                    else:
                        d1, d2 = d[-2], d[-1]
                        cs = [d2 / (d1 * (d1 + d2)), -(d2 + d1) / (d1 * d2),
                              (2. * d2 + d1) / (d2 * (d1 + d2))]
                v = lin(cs, ix)
            r[i] = v if v.ndim else v[()]
        out.append(mkarr(np.moveaxis(r, 0, ax).copy(), 'f'))
    return out[0] if len(axes) == 1 else out


def _nd(x):
    return x if isinstance(x, ND) else _box(x)


# ------------------------------------------------------------------ predicates
@over('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym((a, b, rtol, atol)):
        return lift(np.isclose(lower(a), lower(b), rtol, atol, equal_nan))
    a = asarray(a) if isinstance(a, (list, tuple)) else a
    b = asarray(b) if isinstance(b, (list, tuple)) else b
    uf = OVER_UF
    r = uf('less_equal')(uf('absolute')(uf('subtract')(a, b)),
                         uf('add')(atol, uf('multiply')(rtol, uf('absolute')(b))))
    if equal_nan:
        r = uf('logical_or')(r, uf('logical_and')(uf('isnan')(a), uf('isnan')(b)))
    return r


@over('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return OVER['all'](asarray(isclose(a, b, rtol, atol, equal_nan)))


@over('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return OVER['all'](asarray(a == b))


@over('array_equiv')
def array_equiv(a, b):
    return OVER['all'](asarray(asarray(a) == asarray(b)))


@over('real')
def f_real(a):
    if type(a).__name__ == 'SymCplx':
        return a.real
    if is_sym(a) or isinstance(a, SymArray):
        return a
    return lift(np.real(lower(a)))


@over('imag')
def f_imag(a):
    if type(a).__name__ == 'SymCplx':
        return a.imag
    if is_sym(a):
        return F64(0.)
    if isinstance(a, SymArray):
        return a.imag
    return lift(np.imag(lower(a)))


@over('iscomplex')
def f_iscomplex(a):
    if is_sym(a):
        return np.False_
    if isinstance(a, SymArray):
        return lift(np.zeros(a.shape, bool))
    return lift(np.iscomplex(lower(a)))


@over('iscomplexobj')
def f_iscomplexobj(a):
    return False if (is_sym(a) or isinstance(a, (SymArray, IArray))) else \
        np.iscomplexobj(a)


@over('isscalar')
def f_isscalar(a):
    return True if is_sym(a) else np.isscalar(a)


@over('round', 'around', 'round_')
def f_round(a, decimals=0, out=None):
    if is_sym(a):
        return core.f_round(a, decimals)
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    if isinstance(a, SymArray):
        return a.round(decimals)
    return lift(np.round(lower(a), decimals))


@over('clip')
def f_clip(a, lo=None, hi=None, **k):
    lo = k.get('a_min', lo)
    hi = k.get('a_max', hi)
    r = a
    if lo is not None:
        r = OVER_UF('maximum')(r, lo)
    if hi is not None:
        r = OVER_UF('minimum')(r, hi)
    return r


@over('nan_to_num')
def f_nan_to_num(a, copy=True, nan=0.0, **k):
    a = asarray(a)
    return where(OVER_UF('isnan')(a), F64(nan), a)


@over('isneginf', 'isposinf')
def f_isinf2(a):
    if has_sym(a):
        raise Unsupported('isneginf')
    return lift(np.isneginf(lower(a)))


@over('issubdtype')
def f_issubdtype(a, b):
    return np.issubdtype(a, b)


# ------------------------------------------------------------------ algebra
@over('dot', 'matmul')
def dot(a, b, out=None):
    if not has_sym(a) and not has_sym(b):
        return lift(np.dot(lower(a), lower(b)))
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('shapes not aligned')
        return OVER['sum'](a * b)
    if a.ndim == 1:
        a2, b2 = a.reshape(1, -1), b
    elif b.ndim == 1:
        a2, b2 = a, b.reshape(-1, 1)
    else:
        a2, b2 = a, b
    if a2.ndim != 2 or b2.ndim != 2:
        raise Unsupported('dot ndim')
    if a2.shape[1] != b2.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    o = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = OVER['sum'](a2[i, :] * b2[:, j])
    r = wrap_obj(o)
    if a.ndim == 1:
        return r[0]
    if b.ndim == 1:
        return r[:, 0]
    return r


@over('vdot', 'inner')
def vdot(a, b):
    return OVER['sum'](asarray(a).ravel() * asarray(b).ravel())


@over('outer')
def f_outer(a, b, out=None):
    return asarray(a).reshape(-1, 1) * asarray(b).reshape(1, -1)


@over('cross')
def f_cross(a, b, **k):
    if not has_sym((a, b)):
        return lift(np.cross(lower(a), lower(b), **k))
    a, b = asarray(a), asarray(b)
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    if a.shape == (3,) and b.shape == (3,):
        return A.mk([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                     a[0] * b[1] - a[1] * b[0]])
    raise Unsupported('cross')


@over('convolve')
def f_convolve(a, v, mode='full'):
    if not has_sym((a, v)):
        return lift(np.convolve(lower(a), lower(v), mode))
    a, v = asarray(a), asarray(v)
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = [OVER['sum'](asarray([a[i] * v[k - i] for i in range(n)
                                 if 0 <= k - i < m]))
            for k in range(n + m - 1)]
    if mode == 'full':
        return A.mk(full, 'f')
    if mode == 'same':
        s = (m - 1) // 2
        return A.mk(full[s:s + n], 'f')
    return A.mk(full[m - 1:n], 'f')


@over('histogram')
def f_histogram(a, bins=10, range=None, density=None, weights=None, **k):
    if not has_sym((a, bins, range, weights)):
        return lift(np.histogram(lower(a), lower(bins), lower(range),
                                 density=density, weights=lower(weights)))
    if weights is not None or range is not None:
        raise Unsupported('histogram')
    a = list(objs(asarray(a)).ravel())
    if np.ndim(bins) == 0:
        lo, hi = OVER['min'](asarray(a)), OVER['max'](asarray(a))
        edges = _linspace(lo, hi, int(bins) + 1)
    else:
        edges = asarray(bins)
    e = list(objs(edges))
    cnt = [0] * (len(e) - 1)
    for x in a:
        for i in __builtins__['range'](len(e) - 1):
            last = i == len(e) - 2
            c = b_and(as_zbool(compare('ge', x, e[i])) if is_sym(x) or is_sym(e[i]) else bool(x >= e[i]),
                      as_zbool(compare('le' if last else 'lt', x, e[i + 1]))
                      if is_sym(x) or is_sym(e[i + 1])
                      else bool(x <= e[i + 1] if last else x < e[i + 1]))
            if core.cur().fork(c):
                cnt[i] += 1
                break
    if density:
        n = float(sum(cnt))
        return (A.mk([F64(c) / n / (e[i + 1] - e[i]) for i, c in enumerate(cnt)], 'f'),
                edges)
    return lift(np.array(cnt)), edges


@over('bincount')
def f_bincount(x, weights=None, minlength=0):
    if not has_sym((x, weights)):
        return lift(np.bincount(lower(x), lower(weights), minlength))
    raise Unsupported('bincount')


def det(a):
    a = asarray(a)
    if not has_sym(a):
        return np.linalg.det(lower(a))
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = F64(0.)
    for j in range(n):
        sub = f_delete(f_delete(a, 0, 0), j, 1)
        r = r + (-1.) ** j * a[0, j] * det(sub)
    return r


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if not has_sym(x):
        return lift(np.linalg.norm(lower(x), ord, axis, keepdims))
    if ord in (None, 2) and (axis is not None or x.ndim == 1 or ord is None):
        return OVER_UF('sqrt')(OVER['sum'](x * x, axis=axis, keepdims=keepdims))
    if ord == 1 and x.ndim == 1:
        return OVER['sum'](OVER_UF('absolute')(x))
    if ord == np.inf and x.ndim == 1:
        return OVER['max'](OVER_UF('absolute')(x))
    raise Unsupported('norm')


def solve(a, b):
    a, b = asarray(a), asarray(b)
    if not has_sym(a) and not has_sym(b):
        return lift(np.linalg.solve(lower(a), lower(b)))
    d = det(a)
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    n = a.shape[0]
    cols = b.reshape(n, -1)
    o = np.empty(cols.shape, dtype=object)
    for c in range(cols.shape[1]):
        for i in range(n):
            m = a.astype(float)
            m = m.copy()
            m[:, i] = cols[:, c]
            o[i, c] = det(m) / d
    return mkarr(o, 'f').reshape(b.shape)


def inv(a):
    a = asarray(a)
    return solve(a, lift(np.eye(a.shape[0])))


class SymCplx(object):
    """array of complex numbers, as its real and imaginary parts"""
    def __init__(self, re, im):
        self.real, self.imag = re, im

    shape = property(lambda self: self.real.shape)
    ndim = property(lambda self: self.real.ndim)

    def __len__(self):
        return len(self.real)

    def __getitem__(self, k):
        return SymCplx(self.real[k], self.imag[k])


def eigvals(a, b=None, **k):
    """eigenvalues of a 2x2 matrix; the order of real ones is left open"""
    a = asarray(a)
    if not has_sym(a):
        r = np.linalg.eigvals(lower(a))
        return SymCplx(lift(np.real(r)), lift(np.imag(r)))
    if a.shape != (2, 2) or b is not None:
        raise Unsupported('eigenvalues')
    t, d = (a[0, 0] + a[1, 1]) / 2., (a[0, 0] - a[1, 1]) / 2.
    d = d * d + a[0, 1] * a[1, 0]
    if bool(d < 0):
        s = OVER_UF('sqrt')(-d)
        return SymCplx(A.mk([t, t], 'f'), A.mk([s, -s], 'f'))
    s = OVER_UF('sqrt')(d)
    s = core.ite(core.cur().open_bool('eig_order'), -s, s)
    return SymCplx(A.mk([t + s, t - s], 'f'), lift(np.zeros(2)))


class NoVectors(object):
    """complex eigenvectors: not modelled, fine as long as nobody looks"""

    def __getattr__(self, n):
        raise Unsupported('complex eigenvectors')

    def __getitem__(self, k):
        raise Unsupported('complex eigenvectors')


def constants(a):
    """the array, as plain numbers if every element is a constant"""
    out = np.empty(a.shape)
    for i, x in np.ndenumerate(objs(a)):
        if core.is_sym(x):
            if not isinstance(x, core.SymNum) or x.nan is not False:
                return None
            v = z3.simplify(x.v, som=True)
            if not z3.is_rational_value(v):
                return None
            x = v.numerator_as_long() / v.denominator_as_long()
        out[i] = float(x)
    return out


def eig(a, b=None, left=None, right=None, **k):
    """2x2: order and sign of the eigenvectors are left open"""
    if right is False and not left:
        return eigvals(a, b)
    a = asarray(a)
    if not has_sym(a):
        return np.linalg.eig(lower(a))
    if a.shape != (2, 2) or b is not None or left:
        raise Unsupported('eigenvectors')
    c = constants(a)
    if c is not None:
        w, v = np.linalg.eig(c)
        if np.iscomplexobj(w):
            return SymCplx(lift(np.real(w)), lift(np.imag(w))), NoVectors()
        return lift(w), lift(v)
    w = eigvals(a)
    if core.is_sym(w.imag[0]) or w.imag[0] != 0:
        return w, NoVectors()
    return w.real, LazyVectors(a, w.real)


def _vectors(a, w):
    cols = []
    for l in w:
        x, y = (a[0, 1], l - a[0, 0])
        if bool(x == 0) and bool(y == 0):
            x, y = (l - a[1, 1], a[1, 0])
            if bool(x == 0) and bool(y == 0):
                raise Unsupported('eigenvectors of a multiple of the identity')
        n = OVER_UF('sqrt')(x * x + y * y)
        n = core.ite(core.cur().open_bool('eig_sign'), -n, n)
        cols.append((x / n, y / n))
    return A.mk([cols[0][0], cols[1][0], cols[0][1], cols[1][1]], 'f').reshape((2, 2))


class LazyVectors(object):
    """real eigenvectors, computed when they are used"""

    def __init__(self, a, w):
        self.__dict__.update(_a=a, _w=w, _v=None)

    def _vec(self):
        if self._v is None:
            self.__dict__['_v'] = _vectors(self._a, self._w)
        return self._v

    def __getattr__(self, n):
        return getattr(self._vec(), n)

    def __getitem__(self, k):
        return self._vec()[k]


class SubModule(types.ModuleType):
    def __init__(self, real, over):
        super(SubModule, self).__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over

    def __getattr__(self, n):
        o = self.__dict__['_over']
        if n in o:
            return o[n]
        r = getattr(self.__dict__['_real'], n)
        return wrap_real(r, n)


def wrap_real(r, n):
    if isinstance(r, np.ufunc):
        return UF(r)
    if isinstance(r, type) or isinstance(r, types.ModuleType):
        return r
    if callable(r):
        return Func(r, n)
    return r


LINALG = {'det': det, 'norm': norm, 'solve': solve, 'inv': inv, 'eigvals': eigvals, 'eig': eig}


class MaskedConst(object):
    """np.ma.masked: absorbs every operation, false as a condition"""
    __array_priority__ = 3e6
    __class__ = property(lambda self: type(np.ma.masked))
    mask = True
    shape = ()
    ndim = 0

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return self

    def __bool__(self):
        return False

    def __float__(self):
        return float('nan')

    def __hash__(self):
        return 0

    def __repr__(self):
        return 'masked'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


for _o in ('add sub mul truediv pow radd rsub rmul rtruediv rpow neg abs eq ne lt le gt ge').split():
    setattr(MaskedConst, '__%s__' % _o, lambda self, *a: self)
MASKED = MaskedConst()


class SymMasked(object):
    """minimal masked array (data + mask), enough for the code under test"""
    __array_priority__ = 2e6
    __class__ = property(lambda self: np.ma.MaskedArray)

    def __init__(self, data, mask=False, **k):
        self._data = asarray(data)
        if mask is False or mask is None or (isinstance(mask, np.bool_) and not mask):
            mask = lift(np.zeros(self._data.shape, bool))
        elif mask is True or isinstance(mask, np.bool_):
            mask = lift(np.ones(self._data.shape, bool))
        self.mask = asarray(mask, bool)
        if self.mask.shape != self._data.shape:
            raise np.ma.MaskError('Mask and data not compatible')

    data = property(lambda self: self._data)
    shape = property(lambda self: self._data.shape)
    ndim = property(lambda self: self._data.ndim)
    size = property(lambda self: self._data.size)
    dtype = property(lambda self: self._data.dtype)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        if method != '__call__' or kw:
            raise Unsupported('masked ufunc')
        return masked_ufunc(uf, inputs)

    def __len__(self):
        return len(self._data)

    def filled(self, v=None):
        return where(self.mask, F64(1e20 if v is None else v), self._data)

    def compressed(self):
        return self._data[~self.mask]

    def __getitem__(self, k):
        d, m = self._data[k], self.mask[k]
        if isinstance(d, ND):
            return SymMasked(d, m)
        return MASKED if bool(m) else d

    def __setitem__(self, k, v):
        if v is MASKED or v is np.ma.masked:
            self.mask[k] = True
        elif type(v) is SymMasked:
            self._data[k] = v._data
            self.mask[k] = v.mask
        else:
            self._data[k] = v
            self.mask[k] = False

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def copy(self):
        return SymMasked(self._data.copy(), self.mask.copy())

    def _kept(self):
        return self._data[~self.mask]

    def min(self, *a, **k):
        return self._kept().min()

    def max(self, *a, **k):
        return self._kept().max()

    def sum(self, *a, **k):
        return self._kept().sum()

    def mean(self, *a, **k):
        return self._kept().mean()

    def transpose(self, *a):
        return SymMasked(self._data.transpose(*a), self.mask.transpose(*a))
    T = property(transpose)

    def reshape(self, *a):
        return SymMasked(self._data.reshape(*a), self.mask.reshape(*a))

    def flatten(self):
        return SymMasked(self._data.flatten(), self.mask.flatten())

    def __deepcopy__(self, memo):
        return self.copy()


def masked_ufunc(uf, inputs):
    ds = [x._data if type(x) is SymMasked else x for x in inputs]
    m = None
    for x in inputs:
        if type(x) is SymMasked:
            m = x.mask if m is None else np.logical_or(m, x.mask)
    return SymMasked(A.array_ufunc(uf, '__call__', ds, {}), m)


for _o, _u in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply),
               ('truediv', np.true_divide), ('pow', np.power), ('eq', np.equal),
               ('ne', np.not_equal), ('lt', np.less), ('le', np.less_equal),
               ('gt', np.greater), ('ge', np.greater_equal)):
    setattr(SymMasked, '__%s__' % _o,
            (lambda u: lambda s, o: masked_ufunc(u, (s, o)))(_u))
    if len(_o) > 2:
        setattr(SymMasked, '__r%s__' % _o,
                (lambda u: lambda s, o: masked_ufunc(u, (o, s)))(_u))
for _o, _u in (('neg', np.negative), ('abs', np.absolute)):
    setattr(SymMasked, '__%s__' % _o,
            (lambda u: lambda s: masked_ufunc(u, (s,)))(_u))


def masked_array(data, mask=False, *a, **k):
    return SymMasked(data, mask)


def getmaskarray(a):
    return a.mask if type(a) is SymMasked else lift(np.zeros(np.shape(a), bool))


def getdata(a, subok=True):
    return a._data if type(a) is SymMasked else asarray(a)


def masked_where(c, a, copy=True):
    return SymMasked(getdata(a).copy(), np.logical_or(asarray(c, bool), getmaskarray(a)))


def masked_invalid(a, copy=True):
    return masked_where(np.isnan(getdata(a)), a)


MA = {'masked_array': masked_array, 'array': masked_array, 'masked': MASKED,
      'getmaskarray': getmaskarray, 'getmask': getmaskarray, 'getdata': getdata,
      'masked_where': masked_where, 'masked_invalid': masked_invalid}


def read_text(name, fname, k, dtype=float, comments='#', delimiter=None, skip_header=0, skiprows=0, usecols=None, unpack=False, names=None):
    """genfromtxt, loadtxt: values written by the program under symbolic execution come back as they were"""
    txt = None
    if isinstance(fname, str):
        try:
            txt = open(fname, errors='replace').read()
        except OSError:
            pass
    if txt is None or '<sym' not in txt:
        return None
    if k or names is not None or dtype is not float:
        raise Unsupported(name + ' ' + ' '.join(k))
    rows = []
    for n, l in enumerate(txt.split('\n')):
        if n < skip_header + skiprows:
            continue
        l = l.split(comments)[0].strip() if comments else l.strip()
        if l:
            rows.append([text_value(w.strip()) for w in l.split(delimiter)])
    if len(set(len(r) for r in rows)) > 1:
        raise ValueError('Some errors were detected !')
    if usecols is not None:
        rows = [[r[c] for c in np.atleast_1d(usecols)] for r in rows]
    r = A.mk([x for q in rows for x in q], 'f').reshape((len(rows), len(rows[0])))
    if 1 in r.shape:
        r = r.reshape((-1,)) if r.size > 1 else r.reshape(())
    return r.T if unpack else r


def text_value(w):
    if w.startswith('<sym') and w.endswith('>') and w[4:-1].isdigit():
        return core.cur().texts[int(w[4:-1])]
    if '<sym' in w:
        raise Unsupported('text of a symbolic value')
    try:
        return F64(w)
    except ValueError:
        return F64('nan')


@over('genfromtxt')
def f_genfromtxt(fname, *a, **k):
    known = {q: k[q] for q in ('dtype', 'comments', 'delimiter', 'skip_header', 'usecols', 'unpack', 'names') if q in k}
    r = read_text('genfromtxt', fname, {q: v for q, v in k.items() if q not in known} or dict.fromkeys('a' * len(a)), **known)
    return lift(np.genfromtxt(fname, *a, **k)) if r is None else r


@over('loadtxt')
def f_loadtxt(fname, *a, **k):
    known = {q: k[q] for q in ('dtype', 'comments', 'delimiter', 'skiprows', 'usecols', 'unpack') if q in k}
    r = read_text('loadtxt', fname, {q: v for q, v in k.items() if q not in known} or dict.fromkeys('a' * len(a)), **known)
    return lift(np.loadtxt(fname, *a, **k)) if r is None else r


@over('savetxt')
def f_savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
    if not has_sym(X):
        return np.savetxt(fname, lower(X), fmt=fmt, delimiter=delimiter, newline=newline, header=header, footer=footer, comments=comments, **k)
    X = asarray(X)
    if X.ndim == 1:
        X = X.reshape((-1, 1))
    if k or fmt not in ('%.18e', '%r', '%s', '%.17g') or not isinstance(fname, str):
        raise Unsupported('savetxt')
    with open(fname, 'w') as f:
        if header:
            f.write(comments + header.replace('\n', '\n' + comments) + newline)
        for r in objs(X):
            f.write(delimiter.join(str(x) for x in r) + newline)
        if footer:
            f.write(comments + footer + newline)


class NumpyFacade(types.ModuleType):
    def __init__(self):
        super(NumpyFacade, self).__init__('numpy')
        self.__dict__['linalg'] = SubModule(np.linalg, LINALG)
        self.__dict__['ma'] = SubModule(np.ma, MA)
        self.__dict__['random'] = SubModule(np.random, {})
        self.__dict__['fft'] = SubModule(np.fft, {})

    def __getattr__(self, n):
        if n in OVER:
            return OVER[n]
        return wrap_real(getattr(np, n), n)


NP = NumpyFacade()
