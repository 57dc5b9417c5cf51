"""rotation by quarter turns is a rotation of the plane"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids 2x3, 3x2, 3x3 (thorough 4x3), every multiple of 90 degrees between -720 '
          'and 720, arbitrary axes, values and masked points on the free positions')


def rot(h, F, q):
    """axes, source map, components, units of the field rotated by q quarter turns"""
    nx, ny, xs, ys = F.nx, F.ny, F.xs, F.ys
    neg = lambda l: [-v for v in reversed(l)]
    # a point (x, y) goes to (-y, x) at each quarter turn
    if q == 0:
        return xs, ys, lambda k, l: (k, l), (0, 1), (1, 1)
    if q == 1:
        return neg(ys), xs, lambda k, l: (l, ny - 1 - k), (1, 0), (-1, 1)
    if q == 2:
        return neg(xs), neg(ys), lambda k, l: (nx - 1 - k, ny - 1 - l), (0, 1), (-1, -1)
    return ys, neg(xs), lambda k, l: (nx - 1 - l, k), (1, 0), (1, -1)


def chk_rot(h, F, f, q, label):
    xs, ys, src, perm, sg = rot(h, F, q)
    u = F.u if perm == (0, 1) else (F.u[1], F.u[0], F.u[2])
    n = g2(len(xs), len(ys), src)
    m = [[F.m[i][j] for i, j in r] for r in n]
    if F.kind == 'sf':
        chk_sf(h, f, xs, ys, [[F.vx[i][j] for i, j in r] for r in n], m, label, *u)
    else:
        c = (F.vx, F.vy)
        gx = [[c[perm[0]][i][j] * sg[0] for i, j in r] for r in n]
        gy = [[c[perm[1]][i][j] * sg[1] for i, j in r] for r in n]
        chk_vf(h, f, xs, ys, gx, gy, m, label, *u)


@harness('C05', cases=grid(kind=['sf', 'vf'], shape=[[2, 3], [3, 2], [3, 3]],
                           angle=[-450, -270, -180, -90, 0, 90, 180, 270, 360, 630],
                           inplace=[False, True]),
         thorough=grid(kind=['sf', 'vf'], shape=[[4, 3], [2, 5]],
                       angle=[-720, -630, -540, -360, 450, 540, 720, 90, 180, 270],
                       inplace=[False, True]))
def rotation(h, kind, shape, angle, inplace):
    F = Fld(h, shape[0], shape[1], kind)
    f = F.make()
    r = f.rotate(angle, inplace=inplace)
    chk_rot(h, F, f if inplace else r, (angle // 90) % 4, 'rotated')
    if not inplace:
        F.chk(f, 'original')


@harness('C05', cases=grid(kind=['sf', 'vf'], angle=[90, 180, -90], inplace=[False, True]))
def temporal_rotation(h, kind, angle, inplace):
    tf, F, ts = mk_tf(h, kind, 2, 3, 2)
    r = tf.rotate(angle, inplace=inplace)
    g = tf if inplace else r
    chk_tf(h, g, ts, 2, 'rotated', 's')
    q = (angle // 90) % 4
    for n in range(2):
        chk_rot(h, F[n], g.fields[n], q, 'rotated')
    if not inplace:
        chk_tf(h, tf, ts, 2, 'original', 's')
        for n in range(2):
            F[n].chk(tf.fields[n], 'original')


@harness('C05', cases=grid(kind=['sf', 'vf']))
def four_quarter_turns(h, kind):
    F = Fld(h, 3, 2, kind)
    f = F.make()
    for _ in range(4):
        f.rotate(90, inplace=True)
    F.chk(f, 'after four quarter turns')


@harness('C05', cases=grid(kind=['sf', 'vf'], angle=[30, 45.5, 91]))
def other_angles_are_rejected(h, kind, angle):
    F = Fld(h, 2, 2, kind)
    f = F.make()
    h.raises(ValueError, lambda: f.rotate(angle), 'angle not a multiple of 90')
