"""cropping keeps exactly the points of the window"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids up to 4x3 (thorough 5x4), arbitrary increasing axes, arbitrary window '
          'bounds inside, across and beyond the axes, all index windows, any subset of '
          'masked points on the free positions, temporal fields of 3 instants')
ASSUMPTIONS = ['the window contains at least one point along each cropped axis']


def inside(h, axis, a, b):
    I = [i for i, x in enumerate(axis) if bool(h.And(a <= x, x <= b))]
    h.assume(len(I) > 0)
    return I


@harness('C04', cases=grid(kind=['sf', 'vf'], shape=[[4, 2], [2, 4], [3, 3]], along=['x', 'y'],
                           inplace=[False, True]),
         thorough=grid(kind=['sf', 'vf'], shape=[[5, 3], [3, 5]], along=['x', 'y'],
                       inplace=[False, True]))
def by_value_one_axis(h, kind, shape, along, inplace):
    F = Fld(h, shape[0], shape[1], kind)
    a = h.real('a', -6, 16)
    b = h.real('b', -6, 16)
    h.assume(a <= b)
    I = inside(h, F.xs, a, b) if along == 'x' else None
    J = inside(h, F.ys, a, b) if along == 'y' else None
    f = F.make()
    kw = {'intervx' if along == 'x' else 'intervy': [a, b]}
    r = f.crop(inplace=inplace, **kw)
    F.chk(f if inplace else r, 'cropped', I, J)
    if inplace:
        h.check(r is None, 'in-place crop returns nothing')
    else:
        F.chk(f, 'original')


@harness('C04', cases=grid(kind=['sf', 'vf'], shape=[[3, 3]], inplace=[False, True]),
         thorough=grid(kind=['sf', 'vf'], shape=[[4, 3], [3, 4]], inplace=[False, True]))
def by_value_both_axes(h, kind, shape, inplace):
    F = Fld(h, shape[0], shape[1], kind, mask='one')
    a, b = h.real('a', -6, 16), h.real('b', -6, 16)
    c, d = h.real('c', -6, 16), h.real('d', -6, 16)
    h.assume(h.And(a <= b, c <= d))
    I, J = inside(h, F.xs, a, b), inside(h, F.ys, c, d)
    f = F.make()
    r = f.crop(intervx=[a, b], intervy=[c, d], inplace=inplace)
    F.chk(f if inplace else r, 'cropped', I, J)
    if not inplace:
        F.chk(f, 'original')


@harness('C04', cases=grid(kind=['sf', 'vf'], inplace=[False, True]))
def bounds_on_grid_points(h, kind, inplace):
    """window ends that are grid coordinates are kept"""
    F = Fld(h, 4, 3, kind, mask='one')
    i, j = h.integer('i', 0, 3), h.integer('j', 0, 3)
    k, l = h.integer('k', 0, 2), h.integer('l', 0, 2)
    h.assume(i <= j and k <= l)
    f = F.make()
    r = f.crop(intervx=[F.xs[i], F.xs[j]], intervy=[F.ys[k], F.ys[l]], inplace=inplace)
    F.chk(f if inplace else r, 'cropped', list(range(i, j + 1)), list(range(k, l + 1)))


@harness('C04', cases=grid(kind=['sf', 'vf'], inplace=[False, True]))
def by_index(h, kind, inplace):
    F = Fld(h, 3, 4, kind, mask='some')
    i, j = h.integer('i', 0, 2), h.integer('j', 1, 2)
    k, l = h.integer('k', 0, 3), h.integer('l', 1, 3)
    h.assume(i <= j and k <= l)
    f = F.make()
    r = f.crop(intervx=[i, j], intervy=[k, l], ind=True, inplace=inplace)
    F.chk(f if inplace else r, 'cropped', list(range(i, j + 1)), list(range(k, l + 1)))
    if not inplace:
        F.chk(f, 'original')


@harness('C04', cases=grid(kind=['sf', 'vf'], side=['left', 'right', 'below', 'above']))
def windows_outside_are_rejected(h, kind, side):
    F = Fld(h, 2, 3, kind, mask='one')
    w = h.real('w', .01, 3)
    g = h.real('g', .01, 3)
    f = F.make()
    if side in ('left', 'below'):
        x0 = (F.xs if side == 'left' else F.ys)[0]
        iv = [x0 - g - w, x0 - g]
    else:
        x1 = (F.xs if side == 'right' else F.ys)[-1]
        iv = [x1 + g, x1 + g + w]
    kw = {'intervx' if side in ('left', 'right') else 'intervy': iv}
    h.raises(ValueError, lambda: f.crop(**kw), 'window outside the field')


@harness('C04', cases=grid(kind=['sf', 'vf'], along=['x', 'y', 't'], inplace=[False, True]))
def temporal_by_value(h, kind, along, inplace):
    tf, F, ts = mk_tf(h, kind, 3, 3 if along == 'x' else 2, 3 if along == 'y' else 2)
    a, b = h.real('a', -6, 14), h.real('b', -6, 14)
    h.assume(a <= b)
    xs, ys = F[0].xs, F[0].ys
    I = inside(h, xs, a, b) if along == 'x' else list(range(len(xs)))
    J = inside(h, ys, a, b) if along == 'y' else list(range(len(ys)))
    T = inside(h, ts, a, b) if along == 't' else [0, 1, 2]
    r = tf.crop(inplace=inplace, **{'interv' + along: [a, b]})
    g = tf if inplace else r
    chk_tf(h, g, [ts[t] for t in T], len(T), 'cropped', 's')
    chk_axes(h, g, [xs[i] for i in I], [ys[j] for j in J], 'cropped')
    for n, t in enumerate(T):
        F[t].chk(g.fields[n], 'cropped', I, J)
    if not inplace:
        chk_tf(h, tf, ts, 3, 'original', 's')
        for t in range(3):
            F[t].chk(tf.fields[t], 'original')


@harness('C04', cases=grid(kind=['sf', 'vf'], inplace=[False, True]))
def temporal_by_index(h, kind, inplace):
    tf, F, ts = mk_tf(h, kind, 3, 3, 2, mask='none')
    i, j = h.integer('i', 0, 2), h.integer('j', 1, 2)
    k, l = h.integer('k', 0, 2), h.integer('l', 0, 2)
    h.assume(i <= j and k <= l)
    r = tf.crop(intervx=[i, j], intervt=[k, l], ind=True, inplace=inplace)
    g = tf if inplace else r
    chk_tf(h, g, ts[k:l + 1], l + 1 - k, 'cropped', 's')
    for n, t in enumerate(range(k, l + 1)):
        F[t].chk(g.fields[n], 'cropped', list(range(i, j + 1)))
