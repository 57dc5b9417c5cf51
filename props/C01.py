"""import of raw arrays: every sample stays on its coordinates"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids 2x3, 3x2, 3x3 (thorough: 4x3, 2x4, 5x2); arbitrary real values and '
          'coordinates in the declared ranges; any subset of masked / NaN points on '
          'three free positions (thorough: on all); both directions of both axes; '
          'vector, meshgrid (both conventions) and transposed layouts')
ASSUMPTIONS = ['axes strictly monotonic, steps between 0.25 and 3']

SH = [[2, 3], [3, 2], [3, 3]]
TH = [[4, 3], [2, 4]]


def layout(h, xs, ys, rows, lay):
    """axes and data arrays the way the user may give them"""
    nx, ny = len(xs), len(ys)
    X, Y = xs, ys
    if lay == 'mesh_ij':
        X, Y = g2(nx, ny, lambda i, j: xs[i]), g2(nx, ny, lambda i, j: ys[j])
    elif lay == 'mesh_xy':
        X, Y = g2(ny, nx, lambda j, i: xs[i]), g2(ny, nx, lambda j, i: ys[j])
    if lay in ('mesh_xy', 'transposed'):
        rows = [tr(r) for r in rows]
    return f64(h, X), f64(h, Y), rows


@harness('C01', cases=grid(shape=SH, fx=[0, 1], fy=[0, 1], how=['mask', 'nan']) +
         grid(shape=SH[:2], fx=[0, 1], fy=[0, 1], how=['mask'],
              lay=['mesh_ij', 'mesh_xy', 'transposed']),
         thorough=grid(shape=TH, fx=[0, 1], fy=[0, 1], how=['mask', 'nan', 'all']))
def sf_samples_stay_on_their_coordinates(h, shape, fx, fy, how, lay='vec'):
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    vals, msk = raw(h, nx, ny, mask='all')
    ix, iy = rev(xs, fx), rev(ys, fy)
    ax, ay, (iv, im) = layout(h, ix, iy, [rev2(vals, fx, fy), rev2(msk, fx, fy)], lay)
    sf = h.imt.ScalarField()
    if how == 'nan':
        sf.import_from_arrays(ax, ay, f64(h, masked(h, iv, im)),
                              unit_x='m', unit_y='mm', unit_values='m/s')
    else:
        sf.import_from_arrays(ax, ay, f64(h, iv), mask=b_(h, im),
                              unit_x='m', unit_y='mm', unit_values='m/s')
    chk_sf(h, sf, xs, ys, vals, msk, 'imported field', 'm', 'mm', 'm/s')


@harness('C01', cases=grid(shape=SH, fx=[0, 1], fy=[0, 1], how=['mask', 'nanx', 'nany']) +
         grid(shape=SH[:2], fx=[0, 1], fy=[0, 1], how=['mask'],
              lay=['mesh_ij', 'mesh_xy', 'transposed']),
         thorough=grid(shape=TH, fx=[0, 1], fy=[0, 1], how=['mask', 'all']))
def vf_samples_stay_on_their_coordinates(h, shape, fx, fy, how, lay='vec'):
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    vx, msk = raw(h, nx, ny, mask='all')
    vy, _ = raw(h, nx, ny, name='w', mask='none')
    ix, iy = rev(xs, fx), rev(ys, fy)
    ax, ay, (ivx, ivy, im) = layout(h, ix, iy, [rev2(vx, fx, fy), rev2(vy, fx, fy),
                                                rev2(msk, fx, fy)], lay)
    vf = h.imt.VectorField()
    if how == 'nanx':
        ivx = masked(h, ivx, im)
    if how == 'nany':
        ivy = masked(h, ivy, im)
    kw = {} if how in ('nanx', 'nany') else {'mask': b_(h, im)}
    vf.import_from_arrays(ax, ay, f64(h, ivx), f64(h, ivy),
                          unit_x='m', unit_y='mm', unit_values='m/s', **kw)
    chk_vf(h, vf, xs, ys, vx, vy, msk, 'imported field', 'm', 'mm', 'm/s')
    h.eq(vf.comp_x, f64(h, masked(h, vx, msk)), 'x component, NaN where masked')
    h.eq(vf.comp_y, f64(h, masked(h, vy, msk)), 'y component, NaN where masked')


@harness('C01', cases=grid(shape=[[2, 3], [3, 3]], mask=[True, False]))
def sf_scalar_mask(h, shape, mask):
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    vals, _ = raw(h, nx, ny, mask='none')
    sf = h.imt.ScalarField()
    sf.import_from_arrays(f64(h, xs), f64(h, ys), f64(h, vals), mask=mask,
                          unit_x='m', unit_y='mm', unit_values='m/s')
    chk_sf(h, sf, xs, ys, vals, g2(nx, ny, lambda i, j: mask), 'scalar mask')
    vf = h.imt.VectorField()
    vf.import_from_arrays(f64(h, xs), f64(h, ys), f64(h, vals), f64(h, vals), mask=mask)
    chk_vf(h, vf, xs, ys, vals, vals, g2(nx, ny, lambda i, j: mask), 'scalar mask')


@harness('C01', cases=grid(shape=SH))
def views_agree_with_the_vector_field(h, shape):
    """components, magnitude and iteration give the samples back"""
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    vx, msk = raw(h, nx, ny, mask='all' if nx * ny < 7 else 'some')
    vy, _ = raw(h, nx, ny, name='w', mask='none')
    vf = mk_vf(h, xs, ys, vx, vy, msk)
    chk_sf(h, vf.comp_x_as_sf, xs, ys, vx, msk, 'comp_x_as_sf', 'm', 'mm', 'm/s')
    chk_sf(h, vf.comp_y_as_sf, xs, ys, vy, msk, 'comp_y_as_sf', 'm', 'mm', 'm/s')
    mag = vf.magnitude_as_sf
    chk_mask(h, mag.mask, msk, 'magnitude')
    chk_axes(h, mag, xs, ys, 'magnitude')
    chk_unit(h, mag.unit_values, 'm/s', 'magnitude')
    m = mag.values
    for i in range(nx):
        for j in range(ny):
            q = vx[i][j] * vx[i][j] + vy[i][j] * vy[i][j]
            h.check(h.Or(msk[i][j], h.And(m[i, j] >= 0, h.close(m[i, j] * m[i, j], q))),
                    'magnitude squared')
    n = 0
    for (i, j), (x, y), (a, b) in vf:
        n += 1
        h.check(h.Not(msk[i][j]), 'iteration over a masked point')
        h.eq([x, y, a, b], [xs[i], ys[j], vx[i][j], vy[i][j]], 'iteration')
    h.check(n == sum(1 for i in range(nx) for j in range(ny) if not bool(msk[i][j])),
            'iteration visits every valid point once')
    sf = mk_sf(h, xs, ys, vx, msk)
    seen = []
    for (i, j), (x, y), a in sf:
        seen.append((i, j))
        h.check(h.Not(msk[i][j]), 'iteration over a masked point')
        h.eq([x, y, a], [xs[i], ys[j], vx[i][j]], 'iteration')
    h.check(seen == [(i, j) for i in range(nx) for j in range(ny) if not bool(msk[i][j])],
            'iteration visits every valid point once')
