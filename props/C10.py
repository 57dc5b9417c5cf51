"""profiles and integrals of fields"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids up to 4x3, arbitrary axes and values, masked points anywhere (profiles) or on '
          'one point (integrals); every position, interval and index')


def other(F, d):
    return (F.ys, F.nx, F.ny) if d == 'x' else (F.xs, F.ny, F.nx)


def at(v, d, i, j):
    """sample number j along the profile at position number i"""
    return v[i][j] if d == 'x' else v[j][i]


def call(f, kind, comp, *a, **k):
    return f.get_profile(*a, **k) if kind == 'sf' else f.get_profile(comp, *a, **k)


def chk_prof(h, p, xs, ys, msk, label, ux, uy):
    h.check(len(p.x) == len(xs) and len(p.y) == len(xs), label + ': number of points')
    h.eq(p.x, h.np.array(xs, dtype=float), label + ': positions')
    h.check(h.And(*[h.Iff(a, b) for a, b in zip(lst(p.mask), msk)]), label + ': mask')
    h.eq(h.np.array([h.ite(m, 0., v) for v, m in zip(lst(p.y), msk)], dtype=float),
         h.np.array([h.ite(m, 0., v) for v, m in zip(ys, msk)], dtype=float), label + ': values')
    chk_unit(h, p.unit_x, ux, label + ' unit of x')
    chk_unit(h, p.unit_y, uy, label + ' unit of y')


CMP = [['sf', ''], ['vf', 'vx'], ['vf', 'vy']]


@harness('C10', cases=grid(c=CMP, d=['x', 'y'], interp=['linear', 'nearest'], ind=[False, True]))
def profiles_on_grid_lines(h, c, d, interp, ind):
    F = Fld(h, 3, 3, c[0], mask='some')
    o, n, m = other(F, d)
    ax = F.xs if d == 'x' else F.ys
    v = F.vy if c[1] == 'vy' else F.vx
    f = F.make()
    for i in range(n):
        p = call(f, c[0], c[1], d, i if ind else ax[i], ind=ind, interp=interp)
        chk_prof(h, p, o, [at(v, d, i, j) for j in range(m)], [at(F.m, d, i, j) for j in range(m)],
                 'profile', F.u[1] if d == 'x' else F.u[0], F.u[2])
    F.chk(f, 'field afterwards')


@harness('C10', cases=grid(c=CMP, d=['x', 'y'], interp=['linear', 'nearest']))
def profiles_between_grid_lines(h, c, d, interp):
    F = Fld(h, 3, 2, c[0], mask='one') if d == 'x' else Fld(h, 2, 3, c[0], mask='one')
    o, n, m = other(F, d)
    ax = F.xs if d == 'x' else F.ys
    v = F.vy if c[1] == 'vy' else F.vx
    f = F.make()
    t = h.real('t', .01, .99)
    for k in range(n - 1):
        p = call(f, c[0], c[1], d, ax[k] + t * (ax[k + 1] - ax[k]), interp=interp)
        a = [at(v, d, k, j) for j in range(m)]
        b = [at(v, d, k + 1, j) for j in range(m)]
        ma = [at(F.m, d, k, j) for j in range(m)]
        mb = [at(F.m, d, k + 1, j) for j in range(m)]
        if interp == 'linear':
            w = [x + t * (y - x) for x, y in zip(a, b)]
            mk = [h.Or(x, y) for x, y in zip(ma, mb)]
        else:
            h.assume(h.Or(t < .499, t > .501))
            w = [h.ite(t < .5, x, y) for x, y in zip(a, b)]
            mk = [h.ite(t < .5, x, y) for x, y in zip(ma, mb)]
        chk_prof(h, p, o, w, mk, 'profile', F.u[1] if d == 'x' else F.u[0], F.u[2])


@harness('C10', cases=grid(c=CMP[:2], d=['x', 'y'], w=['all', 'in', 'ind']))
def mean_profiles(h, c, d, w):
    """the profile on an interval is the mean of the lines of the interval"""
    F = Fld(h, 4, 2, c[0], mask='one') if d == 'x' else Fld(h, 2, 4, c[0], mask='one')
    o, n, m = other(F, d)
    ax = F.xs if d == 'x' else F.ys
    f = F.make()
    if w == 'all':
        I = list(range(4))
        p = call(f, c[0], 'vx', d, 'all')
    elif w == 'in':
        a, b = h.real('a', -50, 50), h.real('b', -50, 50)
        I = [i for i in range(4) if bool(h.And(ax[i] >= a, ax[i] <= b))]
        h.assume(len(I) > 0)
        p = call(f, c[0], 'vx', d, [a, b])
    else:
        I = [1, 2]
        p = call(f, c[0], 'vx', d, [1, 3], ind=True)
    ys = [sum(at(F.vx, d, i, j) for i in I) / float(len(I)) for j in range(m)]
    mk = [h.Or(*[at(F.m, d, i, j) for i in I]) for j in range(m)]
    chk_prof(h, p, o, ys, mk, 'mean profile', F.u[1] if d == 'x' else F.u[0], F.u[2])


@harness('C10', cases=grid(d=['x', 'y'], side=['low', 'high'], ind=[False, True]))
def positions_outside_are_rejected(h, d, side, ind):
    F = Fld(h, 3, 2, 'sf', mask='none')
    f = F.make()
    ax = F.xs if d == 'x' else F.ys
    if ind:
        p = -1 if side == 'low' else len(ax)
    else:
        e = h.real('e', .01, 5)
        p = ax[0] - e if side == 'low' else ax[-1] + e
    h.raises(Exception, lambda: f.get_profile(d, p, ind=ind), 'position outside')


def trap(x, y):
    s = 0.
    for k in range(len(x) - 1):
        s = s + (x[k + 1] - x[k]) * (y[k] + y[k + 1]) * .5
    return s


@harness('C10', cases=grid(d=['x', 'y']))
def line_integrals(h, d):
    """trapezoidal integral of the mean profile"""
    F = Fld(h, 3, 3, 'sf', mask='none', units=('m', 'm', 'm/s'))
    ax = F.xs if d == 'x' else F.ys
    o, n, m = other(F, d)
    f = F.make()
    a, b = h.real('a', -50, 50), h.real('b', -50, 50)
    I = [i for i in range(3) if bool(h.And(ax[i] >= a, ax[i] <= b))]
    h.assume(len(I) > 0)
    r = f.integrate_over_line(d, [a, b])
    ys = [sum(at(F.vx, d, i, j) for i in I) / float(len(I)) for j in range(m)]
    h.eq(r.asNumber(), trap(o, ys), 'integral', 1e-5)
    chk_unit(h, type(r)(r._unit, 1.), 'm**2/s', 'unit of the integral')


@harness('C10', cases=grid(d=['x', 'y']))
def unit_of_line_integrals(h, d):
    """the unit is the unit of the values times the unit of the integrated axis"""
    F = Fld(h, 2, 2, 'sf', mask='none', units=('m', 's', 'kg'))
    r = F.make().integrate_over_line(d, [F.xs[0], F.xs[-1]] if d == 'x' else [F.ys[0], F.ys[-1]])
    chk_unit(h, type(r)(r._unit, 1.), 'kg*s' if d == 'x' else 'kg*m', 'unit of the integral')


@harness('C10', cases=grid(w=['all', 'x', 'xy']))
def surface_integrals(h, w):
    """mean value times the area of the window"""
    F = Fld(h, 3, 3, 'sf', mask='none', units=('m', 's', 'kg'))
    f = F.make()
    I, J = [0, 1, 2], [0, 1, 2]
    k = {}
    if 'x' in w:
        k['intervx'] = [F.xs[0], F.xs[1]]
        I = [0, 1]
    if 'y' in w:
        k['intervy'] = [F.ys[1], F.ys[2]]
        J = [1, 2]
    r = f.integrate_over_surface(**k)
    mean = sum(F.vx[i][j] for i in I for j in J) / float(len(I) * len(J))
    h.eq(r.asNumber(), mean * (F.xs[I[-1]] - F.xs[0]) * (F.ys[2] - F.ys[J[0]]), 'integral', 1e-5)
    chk_unit(h, type(r)(r._unit, 1.), 'kg*m*s', 'unit of the integral')


@harness('C10', cases=grid(w=['line_x', 'line_y', 'surface']))
def masked_points_are_refused(h, w):
    F = Fld(h, 3, 3, 'sf', mask='none')
    F.m[1][1] = True
    f = F.make()
    if w == 'surface':
        h.raises(Exception, lambda: f.integrate_over_surface(), 'masked point')
        h.raises(Exception, lambda: f.integrate_over_surface(
            intervx=[F.xs[0], F.xs[1]]), 'masked point')
    else:
        ax = F.xs if w == 'line_x' else F.ys
        h.raises(Exception, lambda: f.integrate_over_line(w[-1], [ax[0], ax[1]]), 'masked point')
