"""scaling, unit changes and origin shifts"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids 2x3 and 3x2, arbitrary axes, values and masked points; scale factors any '
          'real of magnitude 0.125 to 4 and either sign; units m, mm, km, cm, s, ms, m/s, mm/s')


def factor(h, name):
    s = h.real(name, -4, 4)
    h.assume(h.Or(s >= .125, s <= -.125))
    return s


def order(ax, s):
    """scaled axis, increasing, and the index map"""
    n = len(ax)
    if bool(s < 0):
        return [v * s for v in reversed(ax)], [n - 1 - i for i in range(n)]
    return [v * s for v in ax], list(range(n))


@harness('C06', cases=grid(kind=['sf', 'vf'], shape=[[2, 3], [3, 2]], which=['x', 'y', 'v', 'xyv'],
                           inplace=[False, True]),
         thorough=grid(kind=['sf', 'vf'], shape=[[4, 3]], which=['x', 'y', 'v', 'xyv'],
                       inplace=[False, True]))
def scaling_by_numbers(h, kind, shape, which, inplace):
    F = Fld(h, shape[0], shape[1], kind)
    sx = factor(h, 'sx') if 'x' in which else None
    sy = factor(h, 'sy') if 'y' in which else None
    sv = factor(h, 'sv') if 'v' in which else None
    f = F.make()
    r = f.scale(scalex=sx, scaley=sy, scalev=sv, inplace=inplace)
    xs, I = order(F.xs, 1. if sx is None else sx)
    ys, J = order(F.ys, 1. if sy is None else sy)
    k = 1. if sv is None else sv
    # a mirrored axis mirrors the component along it
    kx = k * (-1. if kind == 'vf' and sx is not None and bool(sx < 0) else 1.)
    ky = k * (-1. if kind == 'vf' and sy is not None and bool(sy < 0) else 1.)
    F.chk_is(f if inplace else r, 'scaled', xs, ys, lambda a, b: (I[a], J[b]), kx, ky)
    if not inplace:
        F.chk(f, 'original')


@harness('C06', cases=grid(kind=['sf', 'vf'], which=['x', 'y', 'v'],
                           q=[[2.5, 'm', 1.], [4., '1/s', 1.], [-2., 'm', 1.]],
                           inplace=[False, True]))
def scaling_by_quantities(h, kind, which, q, inplace):
    F = Fld(h, 3, 2, kind, units=('m', 'm', 'm/s'))
    f = F.make()
    qty = h.imt.make_unit(q[1]) * q[0]
    r = f.scale(inplace=inplace, **{'scale' + which: qty})
    g = f if inplace else r
    s = q[0]
    u = list(F.u)
    u['xyv'.index(which)] = h.imt.make_unit(u['xyv'.index(which)]) * h.imt.make_unit(q[1])
    xs, I = order(F.xs, s if which == 'x' else 1.)
    ys, J = order(F.ys, s if which == 'y' else 1.)
    k = s if which == 'v' else 1.
    kx = k * (-1. if kind == 'vf' and which == 'x' and s < 0 else 1.)
    ky = k * (-1. if kind == 'vf' and which == 'y' and s < 0 else 1.)
    F.chk_is(g, 'scaled', xs, ys, lambda a, b: (I[a], J[b]), kx, ky, u=u)


CONV = [['m', 'mm', 1e3], ['mm', 'm', 1e-3], ['m', 'cm', 1e2], ['km', 'm', 1e3]]


@harness('C06', cases=grid(kind=['sf', 'vf'], axe=['x', 'y'], c=CONV) +
         grid(kind=['sf', 'vf'], axe=['values'], c=[['m/s', 'mm/s', 1e3], ['mm/s', 'm/s', 1e-3]]))
def unit_changes(h, kind, axe, c):
    u = ['m', 'mm', 'm/s']
    n = ['x', 'y', 'values'].index(axe)
    u[n] = c[0]
    F = Fld(h, 3, 2, kind, units=tuple(u))
    f = F.make()
    f.change_unit(axe, c[1])
    k = c[2]
    u[n] = c[1]
    xs = [v * k for v in F.xs] if axe == 'x' else F.xs
    ys = [v * k for v in F.ys] if axe == 'y' else F.ys
    kv = k if axe == 'values' else 1.
    F.chk_is(f, 'converted', xs, ys, lambda a, b: (a, b), kv, kv, u=u, tol=1e-4)
    # and back again
    f.change_unit(axe, c[0])
    F.chk(f, 'converted back')


@harness('C06', cases=grid(kind=['sf', 'vf'], axe=['x', 'y', 'values']))
def incompatible_conversion_rejected(h, kind, axe):
    F = Fld(h, 2, 2, kind, mask='none')
    f = F.make()
    h.raises(Exception, lambda: f.change_unit(axe, 'kg'), 'length to mass')
    F.chk(f, 'after the rejected conversion')


@harness('C06', cases=grid(kind=['sf', 'vf'], which=['x', 'y', 'xy']))
def origin(h, kind, which):
    F = Fld(h, 3, 2, kind)
    f = F.make()
    a = h.real('a', -5, 5) if 'x' in which else None
    b = h.real('b', -5, 5) if 'y' in which else None
    f.set_origin(x=a, y=b)
    F.chk_is(f, 'shifted', F.xs if a is None else [v - a for v in F.xs],
             F.ys if b is None else [v - b for v in F.ys], lambda i, j: (i, j))


@harness('C06', cases=grid(kind=['sf', 'vf'], op=['scale', 'scaleneg', 'scaleq', 'scalet', 'scaletq', 'unit_x',
                                                  'unit_time', 'unit_values', 'origin'],
                           inplace=[False, True]))
def temporal(h, kind, op, inplace):
    if not op.startswith('scale') and not inplace:
        h.check(True, 'these operations only exist in place')
        return
    tf, F, ts = mk_tf(h, kind, 2, 3, 2)
    xs, ys = F[0].xs, F[0].ys
    I, J = [0, 1, 2], [0, 1]
    u, ut, kx, ky = list(F[0].u), 's', 1., 1.
    wt, r = ts, None
    if op in ('scale', 'scaleneg'):
        sx, sy, sv = (h.real('sx', .125, 4), h.real('sy', .125, 4), h.real('sv', -4, 4))
        if op == 'scaleneg':
            sx = -sx
        r = tf.scale(scalex=sx, scaley=sy, scalev=sv, inplace=inplace)
        xs, I = order(xs, sx)
        ys = [v * sy for v in ys]
        kx = ky = sv
        if op == 'scaleneg' and kind == 'vf':
            kx = -sv
    elif op == 'scalet':
        st = h.real('st', .125, 4)
        r = tf.scale(scalet=st, inplace=inplace)
        wt = [t * st for t in ts]
    elif op == 'scaletq':
        r = tf.scale(scalet=h.imt.make_unit('m') * 2.5, inplace=inplace)
        wt, ut = [t * 2.5 for t in ts], 's*m'
    elif op == 'scaleq':
        q = h.imt.make_unit('s')
        r = tf.scale(scalex=q * 2.5, scaley=q * .75, scalev=q * -1.5, inplace=inplace)
        xs, ys = [v * 2.5 for v in xs], [v * .75 for v in ys]
        kx = ky = -1.5
        u = ['m*s', 'mm*s', 'm']
    elif op == 'unit_x':
        tf.change_unit('x', 'mm')
        xs, u[0] = [v * 1e3 for v in xs], 'mm'
    elif op == 'unit_time':
        tf.change_unit('time', 'ms')
        wt, ut = [t * 1e3 for t in ts], 'ms'
    elif op == 'unit_values':
        tf.change_unit('values', 'mm/s')
        kx = ky = 1e3
        u[2] = 'mm/s'
    else:
        a, b = h.real('a', -5, 5), h.real('b', -5, 5)
        tf.set_origin(x=a, y=b)
        xs, ys = [v - a for v in xs], [v - b for v in ys]
    g = tf if inplace else r
    chk_tf(h, g, wt, 2, op, ut)
    chk_axes(h, g, xs, ys, op)
    for n in range(2):
        F[n].chk_is(g.fields[n], op, xs, ys, lambda a, b: (I[a], J[b]), kx, ky, u=u, tol=1e-4)
    if not inplace:
        chk_tf(h, tf, ts, 2, 'original', 's')
        for n in range(2):
            F[n].chk(tf.fields[n], 'original')
