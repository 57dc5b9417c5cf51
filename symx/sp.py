"""scipy as the code under test sees it: concrete data goes to scipy itself;
on symbolic data the few functions below are modelled, the others are
unsupported."""
import types

import numpy as np
import scipy.interpolate
import scipy.ndimage
import scipy.integrate
import scipy.io

from . import core, array as A, npf
from .array import SymArray, IArray, ND, asarray, lift, lower, has_sym, objs, mkarr, mk
from .core import is_sym, Unsupported, F64, NAN, mkbool, as_zbool, b_or

OV = {}


def ov(name):
    def d(f):
        OV[name] = f
        return f
    return d


OV['eigvals'], OV['eig'] = npf.eigvals, npf.eig


class Proxy(object):
    """a scipy object built on concrete data"""

    def __init__(self, obj):
        self.__dict__['_o'] = obj

    def __call__(self, *a, **k):
        if has_sym(a) or has_sym(k):
            raise Unsupported('scipy object called on symbolic data')
        return lift(self._o(*lower(a), **lower(k)))

    def __getattr__(self, n):
        r = getattr(self._o, n)
        if callable(r):
            return npf.Func(r, n)
        return lift(r)


class Cls(npf.W):
    def __init__(self, real, name):
        self.real = real
        self.__name__ = name

    def __call__(self, *a, **k):
        if has_sym(a) or has_sym(k):
            raise Unsupported('scipy class %s on symbolic data' % self.__name__)
        return Proxy(self.real(*lower(a), **lower(k)))

    def __getattr__(self, n):
        return getattr(self.real, n)


_MODS = {}


class Mod(types.ModuleType):
    def __init__(self, real):
        super(Mod, self).__init__(real.__name__)
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        real = self.__dict__['_real']
        r = getattr(real, n)
        key = n
        if isinstance(r, types.ModuleType):
            return facade(r)
        if key in OV:
            o = OV[key]
            return o(r) if getattr(o, 'factory', False) else o
        if isinstance(r, type):
            return Cls(r, n)
        return npf.wrap_real(r, n)


def facade(m):
    if m.__name__ not in _MODS:
        _MODS[m.__name__] = Mod(m)
    return _MODS[m.__name__]


def linear_op(fn, y):
    """fn is linear in the 1-D/2-D array y (other arguments concrete): its
    matrix is read off scipy itself on unit arrays"""
    y = asarray(y)
    o = objs(y)
    shp = o.shape
    zero = np.asarray(fn(np.zeros(shp)), dtype=float)
    if np.any(zero != 0):
        raise Unsupported('not linear')
    acc = [None] * zero.size
    nan = [False] * zero.size
    for idx in np.ndindex(*shp):
        e = np.zeros(shp)
        e[idx] = 1.
        col = np.asarray(fn(e), dtype=float).ravel()
        x = o[idx]
        for k, c in enumerate(col):
            if abs(c) < 1e-15:
                continue
            t = A._l2(np.multiply, A.BIN['multiply'])(x, F64(c))
            acc[k] = t if acc[k] is None else A._ADD(acc[k], t)
    r = np.empty(zero.size, dtype=object)
    for k in range(zero.size):
        r[k] = F64(0.) if acc[k] is None else acc[k]
    return mkarr(r.reshape(zero.shape), 'f')


def _filter(name):
    real = getattr(scipy.ndimage, name)

    def f(a, *args, **k):
        a = asarray(a)
        if not has_sym(a):
            return lift(real(lower(a), *lower(args), **lower(k)))
        if has_sym(args) or has_sym(k):
            raise Unsupported(name)
        if k.get('output') is not None:
            raise Unsupported(name)
        return linear_op(lambda e: real(e, *lower(args), **lower(k)), a)
    OV[name] = f


for _n in ('uniform_filter', 'gaussian_filter', 'uniform_filter1d',
           'gaussian_filter1d', 'convolve', 'convolve1d'):
    _filter(_n)


def _morpho(name, dual):
    """dilations preserve unions, erosions intersections: read off scipy on
    unit arrays"""
    real = getattr(scipy.ndimage, name)

    def f(a, *args, **k):
        a = asarray(a)
        if not has_sym(a):
            return lift(real(lower(a), *lower(args), **lower(k)))
        if has_sym(args) or has_sym(k) or k.get('mask') is not None or k.get('output') is not None:
            raise Unsupported(name)
        args, k = lower(args), lower(k)
        o = objs(a)
        base = np.asarray(real(np.full(o.shape, dual), *args, **k), dtype=bool)
        cells = []
        for idx in np.ndindex(*o.shape):
            e = np.full(o.shape, dual)
            e[idx] = not dual
            cells.append((as_zbool(o[idx]), np.asarray(real(e, *args, **k), dtype=bool)))
        out = np.empty(o.shape, dtype=object)
        for idx in np.ndindex(*o.shape):
            if dual:
                r = core.b_and(bool(base[idx]), *[z for z, c in cells if not c[idx]])
            else:
                r = b_or(bool(base[idx]), *[z for z, c in cells if c[idx]])
            out[idx] = mkbool(r)
        return mkarr(out, 'b')
    OV[name] = f


_morpho('binary_dilation', False)
_morpho('binary_erosion', True)


@ov('interp1d')
class Interp1d(object):
    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=np.nan, assume_sorted=False):
        x, y = asarray(x), asarray(y)
        if x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if y.ndim == 0:
            raise ValueError('the y array must have at least one dimension.')
        if len(x) != y.shape[axis]:
            raise ValueError('x and y arrays must be equal in length along '
                             'interpolation axis.')
        self.kind = kind
        self.extrap = isinstance(fill_value, str)
        if bounds_error is None:
            bounds_error = not self.extrap and not _given(fill_value)
        self.berr = bounds_error
        self.fill = fill_value
        self.axis = axis
        self.real = None
        if not has_sym(x) and not has_sym(y):
            self.real = scipy.interpolate.interp1d(
                lower(x), lower(y), kind=kind, axis=axis,
                bounds_error=bounds_error, fill_value=lower(fill_value),
                assume_sorted=assume_sorted)
        if kind not in ('linear', 'nearest', 'slinear'):
            if has_sym(x):
                raise Unsupported('interp1d kind %s' % kind)
        if y.ndim != 1 and self.real is None:
            raise Unsupported('interp1d on nd data')
        if len(x) == 0 or (kind == 'linear' and len(x) < 1):
            raise ValueError('x and y arrays must have at least 1 entries')
        if self.real is None or y.ndim == 1:
            if not assume_sorted:
                i = A.argsort(x)
                x, y = x[i], y[i]
            self.x, self.y = x, y

    def __call__(self, v):
        if self.real is not None and not has_sym(v):
            return lift(np.asarray(self.real(lower(v))))
        if self.kind not in ('linear', 'nearest', 'slinear'):
            if has_sym(v):
                raise Unsupported('interp1d')
            xs, vv = lower(self.x), lower(v)
            return linear_op(lambda e: scipy.interpolate.interp1d(
                xs, e, kind=self.kind, bounds_error=self.berr,
                fill_value='extrapolate' if self.extrap else 0.)(vv), self.y)
        v = asarray(v)
        r = [self.one(t) for t in objs(v).ravel()]
        o = np.empty(len(r), dtype=object)
        for i, t in enumerate(r):
            o[i] = A.cast_elem(t, 'f')
        return mkarr(o.reshape(v.shape), 'f')

    def one(self, t):
        x, y = list(objs(self.x)), list(objs(self.y))
        n = len(x)
        lo, hi = bool(t < x[0]), bool(t > x[-1])
        if (lo or hi) and not self.extrap:
            if self.berr:
                raise ValueError('A value in x_new is %s the interpolation '
                                 'range.' % ('below' if lo else 'above'))
            fv = self.fill
            if isinstance(fv, tuple):
                fv = fv[0] if lo else fv[1]
            return fv
        if bool(core.f_isnan(t)):
            return NAN
        if n == 1:
            return y[0]
        if self.kind == 'nearest':
            for i in range(n - 1):
                if bool(t <= (x[i] + x[i + 1]) / 2.):
                    return y[i]
            return y[-1]
        for i in range(1, n):
            if i == n - 1 or bool(x[i] >= t):
                break
        sl = (y[i] - y[i - 1]) / (x[i] - x[i - 1])
        return sl * (t - x[i - 1]) + y[i - 1]


def _given(fv):
    if isinstance(fv, tuple):
        return True
    if is_sym(fv):
        return True
    return fv is not None and not (isinstance(fv, float) and fv != fv)


@ov('UnivariateSpline')
class USpline(object):
    def __init__(self, x, y, w=None, bbox=None, k=3, s=None, ext=0, **kw):
        x, y = asarray(x), asarray(y)
        self.x, self.y, self.k, self.s, self.ext = x, y, k, s, ext
        self.kw = dict(w=w, k=k, s=s, ext=ext, **kw)
        self.sym = has_sym(x) or has_sym(y)
        if not self.sym:
            self.real = scipy.interpolate.UnivariateSpline(lower(x), lower(y),
                                                           **self.kw)
        elif k == 1 and s == 0:
            self.lin = Interp1d(x, y, fill_value='extrapolate',
                                bounds_error=False)
        elif k == 1 and s is None and w is None and bbox is None:
            self._smooth(list(objs(x)), list(objs(y)))
        elif s != 0 or has_sym(x):
            raise Unsupported('spline')

    def _smooth(self, x, y):
        """smoothing spline of degree 1: the least-squares line, when it is
        close enough to the points (what FITPACK tries first)"""
        n = len(x)
        if n < 2:
            raise ValueError('m > k must hold')
        sub, mul, add, div = (A._l2(getattr(np, q), A.BIN[q]) for q in
                              ('subtract', 'multiply', 'add', 'divide'))

        def mean(l):
            r = l[0]
            for q in l[1:]:
                r = add(r, q)
            return div(r, F64(n))
        mx, my = mean(x), mean(y)
        dx, dy = [sub(q, mx) for q in x], [sub(q, my) for q in y]
        a = div(mean([mul(p, q) for p, q in zip(dx, dy)]),
                mean([mul(p, p) for p in dx]))
        res = [sub(q, mul(a, p)) for p, q in zip(dx, dy)]
        if mean([mul(q, q) for q in res]) > .999:
            raise Unsupported('smoothing spline')
        self.line = lambda v: add(my, mul(a, sub(v, mx)))
        self.s = 'line'

    def __call__(self, v, nu=0, ext=None):
        if not self.sym and not has_sym(v):
            return lift(self.real(lower(v), nu))
        if self.sym and self.k == 1 and self.s == 0 and nu == 0:
            return self.lin(v)
        if self.sym and self.s == 'line':
            if nu or self.ext or ext:
                raise Unsupported('spline')
            o = objs(asarray(v))
            r = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                r[i] = self.line(o[i])
            return mkarr(r, 'f')
        if has_sym(v):
            raise Unsupported('spline')
        xs, vv = lower(self.x), lower(v)
        return linear_op(lambda e: scipy.interpolate.UnivariateSpline(
            xs, e, **self.kw)(vv, nu), self.y)


@ov('RectBivariateSpline')
class RBS(object):
    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        self.x, self.y, self.z = asarray(x), asarray(y), asarray(z)
        self.kx, self.ky, self.s = kx, ky, s
        self.sym = has_sym(self.x) or has_sym(self.y) or has_sym(self.z)
        if not self.sym:
            self.real = scipy.interpolate.RectBivariateSpline(
                lower(self.x), lower(self.y), lower(self.z), kx=kx, ky=ky, s=s)
        elif s != 0 or has_sym(self.x) or has_sym(self.y):
            raise Unsupported('RectBivariateSpline')

    def cell(self, ax, p):
        """index of the cell, weight of its end (outside: clamped)"""
        ax = [ax[i] for i in range(len(ax))]
        if bool(p <= ax[0]):
            return 0, 0.
        for i in range(len(ax) - 1):
            if bool(p <= ax[i + 1]):
                return i, (p - ax[i]) / (ax[i + 1] - ax[i])
        return len(ax) - 2, 1.

    def one(self, px, py):
        (i, s), (j, t) = self.cell(self.x, px), self.cell(self.y, py)
        z = self.z
        return (z[i, j] * (1. - s) * (1. - t) + z[i + 1, j] * s * (1. - t)
                + z[i, j + 1] * (1. - s) * t + z[i + 1, j + 1] * s * t)

    def __call__(self, px, py, dx=0, dy=0, grid=True):
        if has_sym(px) or has_sym(py):
            if self.kx != 1 or self.ky != 1 or dx or dy:
                raise Unsupported('RectBivariateSpline')
            if np.ndim(px) == 0 and np.ndim(py) == 0:
                v = self.one(px, py)
                return mk([v], 'f').reshape((1, 1)) if grid else mk([v], 'f')[0]
            px, py = asarray(px), asarray(py)
            if grid:
                return mk([self.one(px[i], py[j]) for i in range(len(px)) for j in range(len(py))], 'f').reshape((len(px), len(py)))
            return mk([self.one(px[i], py[i]) for i in range(len(px))], 'f')
        px, py = lower(px), lower(py)
        if not self.sym:
            return lift(self.real(px, py, dx=dx, dy=dy, grid=grid))
        return linear_op(lambda e: scipy.interpolate.RectBivariateSpline(
            lower(self.x), lower(self.y), e, kx=self.kx, ky=self.ky, s=0)(
                px, py, dx=dx, dy=dy, grid=grid), self.z)

    def ev(self, px, py, dx=0, dy=0):
        return self(px, py, dx, dy, grid=False)


@ov('LinearNDInterpolator')
class LNDI(object):
    """Piecewise linear interpolation.  On symbolic data only the case of the
    four corners of a rectangle is modelled; which diagonal splits the
    rectangle is left open (it is qhull's choice)."""

    def __init__(self, pts, vals, fill_value=np.nan, **k):
        self.pts, self.vals, self.fill = asarray(pts), asarray(vals), fill_value
        self.sym = has_sym(self.pts) or has_sym(self.vals)
        if not self.sym:
            self.real = scipy.interpolate.LinearNDInterpolator(
                lower(self.pts), lower(self.vals), fill_value)
        elif self.pts.shape != (4, 2) and has_sym(self.pts):
            raise Unsupported('LinearNDInterpolator')

    CLS = scipy.interpolate.LinearNDInterpolator

    def __call__(self, *xi):
        if self.sym and not has_sym(self.pts) and not has_sym(xi) and \
                (self.pts.shape != (4, 2) or len(xi) == 1):
            # linear in the values on a given triangulation
            x, P = lower(xi), lower(self.pts)
            r = np.asarray(self.CLS(P, np.zeros(len(P)))(*x), dtype=float)
            out = np.isnan(r)
            v = linear_op(lambda e: np.nan_to_num(np.asarray(self.CLS(P, e)(*x))),
                          self.vals)
            if out.any():
                o = objs(v).copy()
                o[out] = NAN
                v = mkarr(o, 'f')
            return v
        if len(xi) == 1:
            p = asarray(xi[0])
            if p.ndim != 1 and p.shape[0] != 1:
                raise Unsupported('LinearNDInterpolator points')
            p = p.ravel()
            px, py = p[0], p[1]
        else:
            px, py = xi
        if not self.sym and not has_sym((px, py)):
            return lift(np.asarray(self.real(lower(px), lower(py))))
        if self.pts.shape != (4, 2):
            raise Unsupported('LinearNDInterpolator')
        if isinstance(px, ND):
            raise Unsupported('LinearNDInterpolator points')
        return mk([self.one(px, py)], 'f')

    def one(self, px, py):
        P = [(self.pts[i, 0], self.pts[i, 1], self.vals[i]) for i in range(4)]
        # corners: lowest/highest x and y
        x0 = x1 = P[0][0]
        y0 = y1 = P[0][1]
        for x, y, _ in P[1:]:
            x0, x1 = core.f_min(x0, x), core.f_max(x1, x)
            y0, y1 = core.f_min(y0, y), core.f_max(y1, y)
        c = {}
        for x, y, v in P:
            ix = 0 if bool(A._cmpfn(np.equal, 'eq')(x, x0)) else 1
            iy = 0 if bool(A._cmpfn(np.equal, 'eq')(y, y0)) else 1
            c[(ix, iy)] = v
        if len(c) != 4:
            raise Unsupported('LinearNDInterpolator: not a rectangle')
        if bool(px < x0) or bool(px > x1) or bool(py < y0) or bool(py > y1):
            return self.fill
        s, t = (px - x0) / (x1 - x0), (py - y0) / (y1 - y0)
        diag = core.cur().internal_bool('qhull_diag')
        if diag:        # diagonal (0,0)-(1,1)
            if bool(t <= s):
                return c[0, 0] + s * (c[1, 0] - c[0, 0]) + t * (c[1, 1] - c[1, 0])
            return c[0, 0] + t * (c[0, 1] - c[0, 0]) + s * (c[1, 1] - c[0, 1])
        if bool(s + t <= 1):
            return c[0, 0] + s * (c[1, 0] - c[0, 0]) + t * (c[0, 1] - c[0, 0])
        return c[1, 1] + (1 - s) * (c[0, 1] - c[1, 1]) + (1 - t) * (c[1, 0] - c[1, 1])


@ov('NearestNDInterpolator')
class NNDI(LNDI):
    CLS = scipy.interpolate.NearestNDInterpolator

    def __init__(self, pts, vals, **k):
        self.pts, self.vals = asarray(pts), asarray(vals)
        self.sym = has_sym(self.pts) or has_sym(self.vals)
        if has_sym(self.pts):
            raise Unsupported('NearestNDInterpolator')

    def __call__(self, *xi):
        if not self.sym:
            return lift(np.asarray(self.CLS(lower(self.pts), lower(self.vals))(*lower(xi))))
        if has_sym(xi):
            raise Unsupported('NearestNDInterpolator')
        idx = np.asarray(self.CLS(lower(self.pts), np.arange(len(self.pts)))(*lower(xi)))
        return mkarr(objs(self.vals)[idx.astype(int)], 'f')


@ov('interp2d')
class Interp2d(object):
    """linear in the values for given axes"""

    def __init__(self, x, y, z, kind='linear', **k):
        self.x, self.y, self.z, self.kind, self.k = x, y, asarray(z), kind, k
        if has_sym((x, y)):
            raise Unsupported('interp2d on symbolic axes')

    def __call__(self, px, py, *a, **k):
        if has_sym((px, py)):
            raise Unsupported('interp2d at a symbolic position')
        x, y, px, py = lower(self.x), lower(self.y), lower(px), lower(py)

        def f(z):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return np.asarray(scipy.interpolate.interp2d(
                    x, y, z, kind=self.kind, **self.k)(px, py, *a, **k))
        if not has_sym(self.z):
            return lift(f(lower(self.z)))
        return linear_op(f, self.z)


def simpson(y, x=None, dx=1.0, axis=-1, even=None):
    y = asarray(y)
    if not has_sym((y, x, dx)):
        return lift(scipy.integrate.simpson(lower(y), lower(x), dx, axis))
    if y.ndim == 2 and axis in (-1, 1):
        return mk([simpson(r, x, dx) for r in y], 'f')
    if x is None and has_sym(dx) and y.ndim == 1:
        return simpson(y) * dx
    if has_sym((x, dx)) or y.ndim != 1:
        raise Unsupported('simpson')
    return linear_op(lambda e: scipy.integrate.simpson(e, lower(x), dx), y)[()] \
        if False else _lin_scalar(lambda e: scipy.integrate.simpson(
            e, lower(x), dx), y)


def _lin_scalar(fn, y):
    return linear_op(lambda e: np.atleast_1d(fn(e)), y)[0]


OV['simps'] = OV['simpson'] = simpson


def trapezoid(y, x=None, dx=1.0, axis=-1):
    return npf.NP.trapz(y, x, dx, axis)


OV['trapz'] = OV['trapezoid'] = trapezoid


def cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = asarray(y)
    if not has_sym((y, x)):
        return lift(scipy.integrate.cumulative_trapezoid(lower(y), lower(x), dx,
                                                         axis, initial))
    if y.ndim != 1:
        raise Unsupported('cumtrapz')
    d = [dx] * (len(y) - 1) if x is None else list(objs(asarray(x)[1:] - asarray(x)[:-1]))
    out = [] if initial is None else [F64(initial)]
    acc = None
    for i in range(len(y) - 1):
        t = (y[i] + y[i + 1]) * d[i] / 2.
        acc = t if acc is None else acc + t
        out.append(acc)
    return mk(out, 'f')


OV['cumtrapz'] = OV['cumulative_trapezoid'] = cumtrapz


@ov('label')
def label(a, structure=None, output=None):
    """connected zones: which points are in a zone is decided by forking"""
    a = asarray(a)
    if has_sym(a):
        o = objs(a)
        c = np.empty(o.shape, dtype=bool)
        for i in np.ndindex(*o.shape):
            c[i] = bool(o[i])
        a = c
    r = scipy.ndimage.label(lower(a), lower(structure))
    return lift(r[0]), r[1]


@ov('center_of_mass')
def center_of_mass(a, labels=None, index=None):
    a = asarray(a)
    if not has_sym((a, labels)):
        return scipy.ndimage.center_of_mass(lower(a), lower(labels), lower(index))
    if has_sym(labels) or has_sym(index):
        raise Unsupported('center_of_mass')
    if index is not None:
        lab, ind = np.asarray(lower(labels)), np.asarray(lower(index))
        if ind.ndim:
            return [center_of_mass(a, lift((lab == k).astype(int))) for k in ind]
        return center_of_mass(a, lift((lab == ind).astype(int)))
    o = objs(a)
    lab = np.ones(o.shape, dtype=bool) if labels is None else np.asarray(lower(labels)) > 0
    mul, div = (A._l2(getattr(np, q), A.BIN[q]) for q in ('multiply', 'divide'))
    pts = [i for i in np.ndindex(*o.shape) if lab[i]]

    def total(l):
        r = F64(0.)
        for q in l:
            r = A._ADD(r, q)
        return r
    m = total([o[i] for i in pts])
    return tuple(div(total([mul(o[i], F64(float(i[k]))) for i in pts]), m)
                 for k in range(o.ndim))


@ov('savemat')
def savemat(fname, d, *a, **k):
    if core.CUR is None or not has_sym(d):
        return scipy.io.savemat(fname, {q: lower(v) for q, v in d.items()}, *a, **k)
    core.CUR.texts.append(mat_file(d))
    with open(fname, 'w') as f:
        f.write('<symmat%d>' % (len(core.CUR.texts) - 1))


@ov('loadmat')
def loadmat(fname, *a, **k):
    if core.CUR is not None:
        with open(fname, 'rb') as f:
            t = f.read(20)
        if t.startswith(b'<symmat'):
            return dict(core.CUR.texts[int(t[7:-1])])
    return {q: lift(v) if isinstance(v, np.ndarray) and v.dtype.kind in 'biuf' else v
            for q, v in scipy.io.loadmat(fname, *a, **k).items()}


def mat_file(d):
    """what a file of matlab holds: arrays of at least two dimensions, texts as arrays of texts, booleans as integers"""
    r = {'__header__': b'', '__version__': '1.0', '__globals__': []}
    for q, v in d.items():
        if isinstance(v, str):
            r[q] = np.array([v] if v else [], dtype='<U%d' % max(1, len(v)))
            continue
        if isinstance(v, dict) or (isinstance(v, (list, tuple)) and any(isinstance(w, dict) for w in v)):
            raise Unsupported('savemat of a structure')
        v = asarray(v)
        if v.size == 0:
            v = v.reshape((0, 0))
        while v.ndim < 2:
            v = v.reshape((1,) + v.shape)
        r[q] = v.astype(int) if np.dtype(v.dtype).kind == 'b' else v.copy()
    return r
