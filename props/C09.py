"""looking up indices and values at arbitrary positions"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('axes of up to 4 points, arbitrary increasing coordinates, every position inside and '
          'outside of the field; values and masked points arbitrary on 3x3 grids')


@harness('C09', cases=grid(d=[1, 2], kind=['bounds', 'nearest', 'decimal'], n=[2, 4]))
def indices_on_axes(h, d, kind, n):
    F = Fld(h, *((n, 2) if d == 1 else (2, n)), mask='none')
    f = F.make()
    ax = F.xs if d == 1 else F.ys
    v = h.real('pos', -40, 40)
    h.assume(h.And(v >= ax[0], v <= ax[-1]))
    r = f.get_indice_on_axe(d, v, kind=kind)
    if kind == 'bounds':
        a, b = int(r[0]), int(r[1])
        h.check(0 <= a <= b <= a + 1 and b < n, 'two successive indices')
        h.check(h.And(ax[a] <= v, v <= ax[b]), 'the indices surround the position')
        h.check(h.Iff(a == b, h.Or(*[v == x for x in ax])), 'equal exactly on grid points')
    elif kind == 'nearest':
        k = int(r)
        dk = h.ite(v > ax[k], v - ax[k], ax[k] - v)
        for x in ax:
            h.check(dk <= h.ite(v > x, v - x, x - v), 'no other point is closer')
    else:
        for k in range(n - 1):
            if bool(h.And(v >= ax[k], v <= ax[k + 1])):
                h.check(h.close((r - k) * (ax[k + 1] - ax[k]), v - ax[k]), 'decimal index')
                break


@harness('C09', cases=grid(d=[1, 2], side=['low', 'high'], kind=['bounds', 'nearest', 'decimal']))
def positions_outside_are_rejected(h, d, side, kind):
    F = Fld(h, 3, 2, mask='none')
    f = F.make()
    ax = F.xs if d == 1 else F.ys
    e = h.real('e', .01, 5)
    v = ax[0] - e if side == 'low' else ax[-1] + e
    h.raises(Exception, lambda: f.get_indice_on_axe(d, v, kind=kind), 'position outside')
    x, y = (v, F.ys[0]) if d == 1 else (F.xs[0], v)
    h.raises(Exception, lambda: f.get_value(x, y), 'value outside')


@harness('C09', cases=grid(kind=['sf', 'vf'], ind=[False, True]))
def values_at_grid_points(h, kind, ind):
    F = Fld(h, 3, 2, kind)
    f = F.make()
    for i in range(3):
        for j in range(2):
            r = f.get_value(i, j, ind=True) if ind else f.get_value(F.xs[i], F.ys[j])
            for c, v in zip([r] if kind == 'sf' else [r[0], r[1]],
                            [F.vx] if kind == 'sf' else [F.vx, F.vy]):
                h.eq(c, h.ite(F.m[i][j], NAN, v[i][j]), 'value at a grid point')
    F.chk(f, 'field after the look-up')


@harness('C09', cases=grid(kind=['sf', 'vf'], d=['x', 'y'], cell=[0, 1]))
def values_on_grid_lines_are_linear(h, kind, d, cell):
    F = Fld(h, 3, 3, kind, mask='one')
    if d == 'x':
        a, b = (cell, 0), (cell + 1, 0)
    else:
        a, b = (1, cell), (1, cell + 1)
    f = F.make()
    k = 0 if d == 'x' else 1
    ax = F.xs if d == 'x' else F.ys
    t = h.real('t', .01, .99)
    lo, hi = ax[cell], ax[cell + 1]
    p = lo + t * (hi - lo)
    r = f.get_value(p, F.ys[0]) if d == 'x' else f.get_value(F.xs[1], p)
    msk = h.Or(F.m[a[0]][a[1]], F.m[b[0]][b[1]])
    for c, v in zip([r] if kind == 'sf' else [r[0], r[1]],
                    [F.vx] if kind == 'sf' else [F.vx, F.vy]):
        w = v[a[0]][a[1]] + t * (v[b[0]][b[1]] - v[a[0]][a[1]])
        h.check(h.Iff(h.isnan(c), msk), 'not a number exactly when an end is masked')
        h.check(h.Or(msk, h.close(c, w)), 'linear between the two ends')


@harness('C09', cases=grid(kind=['sf', 'vf'], cell=[[0, 0], [1, 1]]), max_s=90)
def values_in_cells(h, kind, cell):
    """no masked corner: between the corners, and exact on affine fields"""
    F = Fld(h, 3, 3, kind, mask='none')
    i, j = cell
    s, t = h.real('s', .01, .99), h.real('t', .01, .99)
    x = F.xs[i] + s * (F.xs[i + 1] - F.xs[i])
    y = F.ys[j] + t * (F.ys[j + 1] - F.ys[j])
    f = F.make()
    r = f.get_value(x, y)
    for c, v in zip([r] if kind == 'sf' else [r[0], r[1]],
                    [F.vx] if kind == 'sf' else [F.vx, F.vy]):
        cs = [v[i][j], v[i + 1][j], v[i][j + 1], v[i + 1][j + 1]]
        h.check(h.And(h.Or(*[c <= q + 1e-6 for q in cs]), h.Or(*[c >= q - 1e-6 for q in cs])),
                'between the values of the corners')
        h.check(h.Implies(h.close(cs[0] + cs[3], cs[1] + cs[2]),
                          h.close(c, cs[0] + s * (cs[1] - cs[0]) + t * (cs[2] - cs[0]), 1e-3)),
                'exact for affine data')


@harness('C09', cases=grid(c=[0, 1, 2, 3]), max_s=60)
def masked_corners(h, c):
    """a masked corner never leaks into the value"""
    F = Fld(h, 2, 2, 'sf', mask='none')
    F.m[c % 2][c // 2] = True
    f = F.make()
    s, t = h.real('s', .01, .99), h.real('t', .01, .99)
    r = f.get_value(F.xs[0] + s * (F.xs[1] - F.xs[0]), F.ys[0] + t * (F.ys[1] - F.ys[0]))
    cs = [F.vx[i][j] for i in range(2) for j in range(2) if not F.m[i][j]]
    h.check(h.Or(h.isnan(r), h.And(h.Or(*[r <= q + 1e-6 for q in cs]),
                                   h.Or(*[r >= q - 1e-6 for q in cs]))),
            'masked, or between the valid corners')


@harness('C09', cases=grid(rad=[1., 1.5, 2.3], c=[[2., 2.], [1.5, 2.], [0., 1.]]))
def points_around(h, rad, c):
    """all the grid points within the radius (unit steps), none outside"""
    F = Fld(h, 5, 5, 'sf', mask='none')
    F.xs, F.ys = [float(i) for i in range(5)], [float(i) for i in range(5)]
    f = F.make()
    e = h.real('e', 0, .05)
    r = f.get_points_around([c[0] + e, c[1]], rad)
    got = [(int(p[0]), int(p[1])) for p in lst(r)]
    h.check(len(got) == len(set(got)), 'each point once')
    for i in range(-3, 8):
        for j in range(-3, 8):
            d = (i - c[0] - e) * (i - c[0] - e) + (j - c[1]) * (j - c[1])
            if (i, j) in got:
                h.check(0 <= i < 5 and 0 <= j < 5, "points of the field")
                h.check(d <= rad * rad + 1e-6, 'points are within the radius')
            elif 0 <= i < 5 and 0 <= j < 5:
                h.check(d >= rad * rad - 1e-6, 'points within the radius are there')
