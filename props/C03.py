"""addition of fields whose grids only partly coincide"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('two fields of 2 or 3 points per axis sharing 1 or 2 consecutive coordinates '
          'along each axis, all offsets, arbitrary real values and coordinates, any '
          'subset of masked points on the free positions')
ASSUMPTIONS = ['coordinates that are not shared differ by at least 0.25']


def pair(h, name, na, nb, off):
    """two increasing axes: b[k] is a[k + off] where both exist"""
    lo, hi = min(0, off), max(na, off + nb)
    c = lst(h.axis(name, hi - lo))
    a = c[-lo:-lo + na]
    b = c[off - lo:off - lo + nb]
    return a, b


CASES = grid(n=[[2, 2, 1, 3, 2, 1], [3, 2, 1, 2, 3, -1], [3, 3, 2, 2, 2, 0],
                [2, 3, -1, 3, 3, -2], [3, 2, 0, 2, 2, 1], [2, 2, 0, 3, 2, 0],
                [3, 3, 1, 2, 2, 0], [2, 2, 0, 3, 3, -1], [3, 3, -1, 3, 3, 1]],
             kind=['sf', 'vf'], op=['add', 'sub'])
THO = grid(n=[[4, 3, 2, 3, 3, 1], [3, 4, -2, 3, 2, 1]], kind=['sf', 'vf'], op=['add', 'sub'])


@harness('C03', cases=CASES, thorough=THO)
def only_shared_points_are_added(h, n, kind, op):
    nax, nbx, ox, nay, nby, oy = n
    xa, xb = pair(h, 'x', nax, nbx, ox)
    ya, yb = pair(h, 'y', nay, nby, oy)
    sx = [(i, i - ox) for i in range(nax) if 0 <= i - ox < nbx]
    sy = [(j, j - oy) for j in range(nay) if 0 <= j - oy < nby]
    s = 1 if op == 'add' else -1
    a, ma = raw(h, nax, nay, 'a', 'all')
    b, mb = raw(h, nbx, nby, 'b', 'all')
    wx, wy = [xa[i] for i, _ in sx], [ya[j] for j, _ in sy]
    want = [[a[i][j] + s * b[k][l] * 1e-3 for j, l in sy] for i, k in sx]
    m = [[h.Or(ma[i][j], mb[k][l]) for j, l in sy] for i, k in sx]
    if kind == 'sf':
        fa = mk_sf(h, xa, ya, a, ma, uv='m/s')
        fb = mk_sf(h, xb, yb, b, mb, uv='mm/s')
        r = fa + fb if op == 'add' else fa - fb
        chk_sf(h, r, wx, wy, want, m, 'overlap', 'm', 'mm', 'm/s')
        chk_sf(h, fa, xa, ya, a, ma, 'left operand unchanged')
        chk_sf(h, fb, xb, yb, b, mb, 'right operand unchanged')
    else:
        a2, _ = raw(h, nax, nay, 'c', 'none')
        b2, _ = raw(h, nbx, nby, 'd', 'none')
        want2 = [[a2[i][j] + s * b2[k][l] * 1e-3 for j, l in sy] for i, k in sx]
        fa = mk_vf(h, xa, ya, a, a2, ma, uv='m/s')
        fb = mk_vf(h, xb, yb, b, b2, mb, uv='mm/s')
        r = fa + fb if op == 'add' else fa - fb
        chk_vf(h, r, wx, wy, want, want2, m, 'overlap', 'm', 'mm', 'm/s')
        chk_vf(h, fa, xa, ya, a, a2, ma, 'left operand unchanged')
        chk_vf(h, fb, xb, yb, b, b2, mb, 'right operand unchanged')


@harness('C03', cases=grid(kind=['sf', 'vf'], d=['x', 'y']))
def disjoint_grids_rejected(h, kind, d):
    xa, xb = pair(h, 'x', 2, 2, 2 if d == 'x' else 0)
    ya, yb = pair(h, 'y', 2, 2, 2 if d == 'y' else 1)
    a, ma = raw(h, 2, 2, 'a', 'one')
    b, mb = raw(h, 2, 2, 'b', 'all')
    if kind == 'sf':
        f, g = mk_sf(h, xa, ya, a, ma), mk_sf(h, xb, yb, b, mb)
    else:
        f, g = mk_vf(h, xa, ya, a, a, ma), mk_vf(h, xb, yb, b, b, mb)
    h.raises(ValueError, lambda: f + g, 'grids without a common point')
