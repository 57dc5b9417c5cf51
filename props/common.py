"""Helpers shared by the property modules (symbolic and concrete mode)."""
import numpy as _np
from symx.core import is_sym

NAN = float('nan')


def lst(a):
    """nested python lists of an array (elements stay what they are)"""
    if isinstance(a, _np.ndarray) and a.ndim >= 1:
        return [lst(a[i]) for i in range(len(a))]
    return a


def g2(nx, ny, f):
    """nx by ny nested list"""
    return [[f(i, j) for j in range(ny)] for i in range(nx)]


def f64(h, rows):
    return h.np.array(rows, dtype=float)


def b_(h, rows):
    return h.np.array(rows, dtype=bool)


def raw(h, nx, ny, name='v', mask='all', lo=-8, hi=8):
    """values and mask as nested lists.  mask: none | some | all: which points
    may be masked"""
    vals = g2(nx, ny, lambda i, j: h.real('%s_%d_%d' % (name, i, j), lo, hi))
    if mask == 'none':
        free = []
    elif mask == 'some':
        free = [(0, 0), (nx - 1, ny // 2), (nx // 2, ny - 1)]
    elif mask == 'one':
        free = [(nx // 2, 0)]
    else:
        free = [(i, j) for i in range(nx) for j in range(ny)]
    msk = g2(nx, ny, lambda i, j: h.boolean('m%s_%d_%d' % (name, i, j))
             if (i, j) in free else False)
    return vals, msk


def axes(h, nx, ny, uniform=False, name='', **kw):
    f = h.uaxis if uniform else h.axis
    return lst(f(name + 'x', nx, **kw)), lst(f(name + 'y', ny, **kw))


def mk_sf(h, xs, ys, vals, msk=None, ux='m', uy='mm', uv='m/s'):
    sf = h.imt.ScalarField()
    sf.import_from_arrays(h.np.array(xs, dtype=float), h.np.array(ys, dtype=float),
                          f64(h, vals), mask=None if msk is None else b_(h, msk),
                          unit_x=ux, unit_y=uy, unit_values=uv)
    return sf


def mk_vf(h, xs, ys, vx, vy, msk=None, ux='m', uy='mm', uv='m/s'):
    vf = h.imt.VectorField()
    vf.import_from_arrays(h.np.array(xs, dtype=float), h.np.array(ys, dtype=float),
                          f64(h, vx), f64(h, vy),
                          mask=False if msk is None else b_(h, msk),
                          unit_x=ux, unit_y=uy, unit_values=uv)
    return vf


def masked(h, vals, msk):
    """values with NaN at the masked points"""
    return [[h.ite(m, NAN, v) for v, m in zip(rv, rm)] for rv, rm in zip(vals, msk)]


def chk_mask(h, got, msk, label):
    got = lst(got)
    h.check(len(got) == len(msk) and all(len(a) == len(b) for a, b in zip(got, msk)),
            label + ': shape of the mask')
    h.check(h.And(*[h.Iff(a, b) for ra, rb in zip(got, msk) for a, b in zip(ra, rb)]),
            label + ': mask')


def chk_axes(h, f, xs, ys, label, tol=None):
    h.eq(f.axe_x, h.np.array(xs, dtype=float), label + ': x axis', tol)
    h.eq(f.axe_y, h.np.array(ys, dtype=float), label + ': y axis', tol)


def unit_str(u):
    """a unit as (number, unit in SI)"""
    return u


def chk_unit(h, got, want, label):
    """got and want are the same unit, up to the writing (want: str or Unum)"""
    if isinstance(want, str):
        want = h.imt.make_unit(want)
    try:
        n = (got / want).asNumber(h.imt.make_unit(''))
        m = (got / want).asNumber()
        if is_sym(n) or is_sym(m):
            ok = h.And(abs(n - 1.) < 1e-9, abs(m - 1.) < 1e-9)
        else:
            ok = abs(float(m) - 1.) < 1e-9 and abs(float(n) - 1.) < 1e-9
    except Exception:
        ok = False
    h.check(ok, '%s: unit %s instead of %s' % (label, got, want))


def chk_sf(h, sf, xs, ys, vals, msk, label, ux=None, uy=None, uv=None, tol=None):
    h.check(tuple(sf.shape) == (len(xs), len(ys)), label + ': shape')
    chk_axes(h, sf, xs, ys, label)
    chk_mask(h, sf.mask, msk, label)
    h.eq(sf.values, f64(h, masked(h, vals, msk)), label + ': values', tol)
    for got, want, n in ((sf.unit_x, ux, 'unit_x'), (sf.unit_y, uy, 'unit_y'),
                         (sf.unit_values, uv, 'unit_values')):
        if want is not None:
            chk_unit(h, got, want, label + ' ' + n)


def chk_vf(h, vf, xs, ys, vx, vy, msk, label, ux=None, uy=None, uv=None, tol=None):
    h.check(tuple(vf.shape) == (len(xs), len(ys)), label + ': shape')
    chk_axes(h, vf, xs, ys, label)
    chk_mask(h, vf.mask, msk, label)
    # components are compared at the valid points only
    mz = lambda v: [[h.ite(m, 0., x) for x, m in zip(rv, rm)] for rv, rm in zip(v, msk)]
    h.eq(f64(h, mz(lst(vf.comp_x))), f64(h, mz(vx)), label + ': comp_x', tol)
    h.eq(f64(h, mz(lst(vf.comp_y))), f64(h, mz(vy)), label + ': comp_y', tol)
    for got, want, n in ((vf.unit_x, ux, 'unit_x'), (vf.unit_y, uy, 'unit_y'),
                         (vf.unit_values, uv, 'unit_values')):
        if want is not None:
            chk_unit(h, got, want, label + ' ' + n)


def rev(l, on=True):
    return list(l)[::-1] if on else list(l)


def rev2(rows, fx, fy):
    return [rev(r, fy) for r in rev(rows, fx)]


def tr(rows):
    return [list(c) for c in zip(*rows)]


def sub2(rows, I, J):
    return [[rows[i][j] for j in J] for i in I]


class Fld(object):
    """raw data of a random field (nested lists), and constructors"""

    def __init__(self, h, nx, ny, kind='sf', mask='all', uniform=False, name='',
                 lo=-8, hi=8, units=('m', 'mm', 'm/s'), **kw):
        self.h, self.kind, self.nx, self.ny = h, kind, nx, ny
        self.xs, self.ys = axes(h, nx, ny, uniform, name, **kw)
        self.vx, self.m = raw(h, nx, ny, name + 'v', mask, lo, hi)
        if kind == 'vf':
            self.vy, _ = raw(h, nx, ny, name + 'w', 'none', lo, hi)
        self.u = units

    def make(self):
        if self.kind == 'sf':
            return mk_sf(self.h, self.xs, self.ys, self.vx, self.m, *self.u)
        return mk_vf(self.h, self.xs, self.ys, self.vx, self.vy, self.m, *self.u)

    def chk(self, f, label, I=None, J=None, xs=None, ys=None):
        I = list(range(self.nx)) if I is None else I
        J = list(range(self.ny)) if J is None else J
        self.chk_is(f, label, [self.xs[i] for i in I], [self.ys[j] for j in J],
                    lambda k, l: (I[k], J[l]))

    def chk_is(self, f, label, xs, ys, src, sx=1., sy=1., u=None, tol=None):
        """f is the field with axes xs, ys whose sample (k, l) is the original
        sample src(k, l), components times sx, sy"""
        h, u = self.h, u or self.u
        n = g2(len(xs), len(ys), src)
        gx = [[self.vx[i][j] * sx for i, j in r] for r in n]
        m = [[self.m[i][j] for i, j in r] for r in n]
        if self.kind == 'sf':
            chk_sf(h, f, xs, ys, gx, m, label, *u, tol=tol)
        else:
            gy = [[self.vy[i][j] * sy for i, j in r] for r in n]
            chk_vf(h, f, xs, ys, gx, gy, m, label, *u, tol=tol)


def mk_tf(h, kind, nt, nx, ny, mask='all', times=None, units=('m', 'mm', 'm/s'),
          ut='s', uniform=False, lo=-8, hi=8):
    """temporal field with nt fields on the same axes -> (object, [Fld], times)"""
    F = [Fld(h, nx, ny, kind, mask, uniform, '', lo, hi, units)]
    for t in range(1, nt):
        f = Fld.__new__(Fld)
        f.__dict__.update(F[0].__dict__)
        f.vx, f.m = raw(h, nx, ny, 't%dv' % t, mask, lo, hi)
        if kind == 'vf':
            f.vy, _ = raw(h, nx, ny, 't%dw' % t, 'none', lo, hi)
        F.append(f)
    if times is None:
        times = lst(h.axis('t', nt))
    tf = h.imt.TemporalScalarFields() if kind == 'sf' else h.imt.TemporalVectorFields()
    for f, t in zip(F, times):
        tf.add_field(f.make(), time=t, unit_times=ut)
    return tf, F, times


def chk_tf(h, tf, times, n, label, ut=None):
    """container consistency: times, one field per time, common axes"""
    h.check(len(tf.fields) == n and len(tf.times) == n, label + ': one field per time')
    h.eq(tf.times, h.np.array(times, dtype=float), label + ': times')
    for f in tf.fields:
        h.check(tuple(f.shape) == tuple(tf.shape), label + ': shape of the fields')
        h.eq(f.axe_x, tf.axe_x, label + ': common x axis')
        h.eq(f.axe_y, tf.axe_y, label + ': common y axis')
    if ut is not None:
        chk_unit(h, tf.unit_times, ut, label + ' unit_times')
