"""boundary layers: theoretical laws and measured thicknesses"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('laws: any outer velocity, viscosity, density and positions (1 to 3) within the stated ranges; measured profiles: 3 or 4 points, any increasing positions and velocities; fields: up to 3 profiles')


def BL(h):
    from IMTreatment import boundary_layer as bl
    return bl


def blasius(h):
    U, nu, rho = h.real('U', .1, 10), h.real('nu', .01, 1), h.real('rho', .5, 8)
    return BL(h).BlasiusBL(U, nu, rho), U, nu, rho


COEF = {'99': 4.91, '95': 3.92}


@harness('C21', cases=grid(perc=['99', '95', None], arg=['number', 'array', 'list'], zero=[False, True]))
def laminar_laws(h, perc, arg, zero):
    """Blasius: thicknesses grow as the square root of the distance"""
    np = h.np
    b, U, nu, rho = blasius(h)
    kw = {} if perc is None else {'bl_perc': perc}
    x = [h.real('xa', .01, 100)]
    if zero:
        x = [0. * x[0] if False else 0.]
    if arg != 'number':
        x = x + [h.real('xb', .01, 100)]
    res = b.get_BL_properties(x[0] if arg == 'number' else x if arg == 'list' else f64(h, x), **kw)
    h.check(len(res) == 7, 'seven properties')
    for q in res:
        h.check(len(q) == len(x), 'one value by position')
    d, d2, ds, H, Cf, Re, tau = res
    for k, xk in enumerate(x):
        h.eq(H[k], 2.59, 'shape factor')
        if zero and k == 0:
            for q in (d, d2, ds, Cf, Re, tau):
                h.eq(q[k], 0., 'no boundary layer at the leading edge')
            continue
        s = (U * xk / nu) ** .5
        h.eq(Re[k], U * xk / nu, 'Reynolds number', 1e-6)
        h.eq(d[k] * s, COEF[perc or '99'] * xk, 'thickness', 1e-6)
        h.eq(d2[k] * s, .664 * xk, 'momentum thickness', 1e-6)
        h.eq(ds[k] * s, .664 * 2.59 * xk, 'displacement thickness', 1e-6)
        h.eq(Cf[k] * s, .664, 'friction coefficient', 1e-6)
        h.eq(tau[k] * s, .332 * rho * U * U, 'wall shear stress', 1e-6)


@harness('C21', cases=grid(turb=[False, True], xs=[1, 2]))
def laminar_or_turbulent(h, turb, xs):
    """turbulent laws beyond a Reynolds number of 5e5, or everywhere when asked"""
    U, nu, rho = h.real('U', .1, 10), h.real('nu', 1e-5, .01), h.real('rho', .5, 8)
    b = BL(h).BlasiusBL(U, nu, rho)
    x = [h.real('x%d' % k, .01, 100) for k in range(xs)]
    d, d2, ds, H, Cf, Re, tau = b.get_BL_properties(f64(h, x), allTurbulent=turb)
    for k, xk in enumerate(x):
        R = U * xk / nu
        h.eq(Re[k], R, 'Reynolds number', 1e-6)
        if R < 499999. and not turb:
            s = R ** .5
            h.eq(d[k] * s, 4.91 * xk, 'laminar thickness', 1e-6)
            h.eq(Cf[k] * s, .664, 'laminar friction', 1e-6)
        elif turb or R > 500001.:
            s = R ** .2
            h.eq(d[k] * s, .3806 * xk, 'turbulent thickness', 1e-6)
            h.eq(Cf[k] * s, .0592, 'turbulent friction', 1e-6)
        h.eq(tau[k], .5 * Cf[k] * rho * U * U, 'wall shear stress', 1e-6)


@harness('C21', cases=[{}])
def wrong_percentage(h):
    b, U, nu, rho = blasius(h)
    h.raises(ValueError, lambda: b.get_BL_properties(h.real('xa', .01, 100), bl_perc='90'), 'unknown percentage')
    h.raises(TypeError, lambda: b.get_BL_properties('1'), 'position')
    h.raises(TypeError, lambda: BL(h).BlasiusBL('1', nu, rho), 'velocity')


@harness('C21', cases=grid(arg=['number', 'array']))
def confinement(h, arg):
    """the confinement makes the boundary layer thinner"""
    b, U, nu, rho = blasius(h)
    x = [h.real('xa', .01, 100), h.real('xb', .01, 100)][:1 if arg == 'number' else 2]
    if len(x) == 2:
        h.assume(x[1] > x[0])
    H = h.real('H', .1, 10)
    p = b.get_thickness_with_confinement(x[0] if arg == 'number' else f64(h, x), H)
    chk_unit(h, p.unit_x, 'm', 'unit of the positions')
    chk_unit(h, p.unit_y, 'm', 'unit of the thicknesses')
    for k, xk in enumerate(x):
        d = 4.91 * xk / (U * xk / nu) ** .5
        h.eq(p.x[k], xk, 'positions')
        h.eq(p.y[k] * H, d * H - .26547 * d * d, 'confined thickness', 1e-6)


@harness('C21', cases=grid(y=[True, False]))
def position_of_thickness(h, y):
    """position where a laminar boundary layer has the given thickness"""
    b, U, nu, rho = blasius(h)
    x = h.real('xa', .01, 100)
    h.eq(b.get_Rex(x), U * x / nu, 'Reynolds number', 1e-6)
    x2 = b.get_x_from_delta(b.get_BL_properties(x)[0][0])
    h.check(h.And(x2 < 1.01 * x, x2 > .99 * x), 'position of a thickness')


@harness('C21', cases=grid(y=[2, 3]))
def turbulent_profile(h, y):
    """1/7 power law up to the thickness, outer velocity above"""
    np = h.np
    b, U, nu, rho = blasius(h)
    x = h.real('xa', .01, 100)
    ys = [h.real('y%d' % k, 0, 20) for k in range(y)]
    for k in range(1, y):
        h.assume(ys[k] > ys[k - 1])
    p = b.get_profile(x, f64(h, ys), allTurbulent=True)
    d = .3806 * x / (U * x / nu) ** .2
    chk_unit(h, p.unit_x, 'm', 'unit of the positions')
    chk_unit(h, p.unit_y, 'm/s', 'unit of the velocities')
    for k in range(y):
        h.eq(p.x[k], ys[k], 'positions')
        if ys[k] > 1.0001 * d:
            h.eq(p.y[k], U, 'outer velocity', 1e-6)
        elif ys[k] < .9999 * d:
            h.eq(p.y[k], U * (ys[k] / d) ** (1 / 7.), '1/7 power law', 1e-6)


@harness('C21', cases=grid(m=[0, 1, 2]))
def falkner_skan_outer_flow(h, m):
    nu, c0, L, x = h.real('nu', .01, 1), h.real('c0', .1, 4), h.real('L', .5, 4), h.real('xa', .1, 4)
    b = BL(h).FalknerSkanBL(nu, m, c0, L)
    u = c0 * (x / L) ** m
    h.eq(b.get_u_e(x), u, 'outer velocity', 1e-6)
    mu = h.real('mu', 0, 10)
    yy = b.get_y(x, mu)
    h.eq(yy * yy * u, mu * mu * nu * x, 'distance to the wall', 1e-6)


# ---- wall laws --------------------------------------------------------------------------------------------------------

@harness('C21', cases=grid(law=['WallLaw', 'WakeLaw'], part=['sublayer', 'log', 'outer', 'above']))
def wall_laws(h, law, part):
    """linear sublayer, logarithmic law, constant velocity above the layer"""
    np = h.np
    tau, rho, nu = h.real('tau', .1, 4), h.real('rho', .5, 8), h.real('nu', .001, .1)
    d = h.real('d', 1, 8)
    ut = (tau / rho) ** .5
    y = h.real('y', 0, 9)
    yp = y * ut / nu
    h.assume({'sublayer': lambda: yp < 11.62, 'log': lambda: h.And(yp > 11.64, yp <= 449, y <= d),
              'outer': lambda: h.And(yp > 451, y <= d), 'above': lambda: h.And(yp > 451, y > d)}[part]())
    w = getattr(BL(h), law)(9., tau, d, visc_c=nu, rho=rho)
    p = w.get_profile(f64(h, [y]))
    chk_unit(h, p.unit_x, 'm', 'unit of the positions')
    chk_unit(h, p.unit_y, 'm/s', 'unit of the velocities')
    h.eq(p.x[0], y, 'position')
    if part == 'sublayer':
        h.eq(p.y[0] * nu * rho, tau * y, 'viscous sublayer', 1e-6)
        return
    z = d if part == 'above' else y
    up = 2.5 * np.log(z * ut / nu) + 5.1
    if law == 'WakeLaw':
        up = up + 2.75 * (1. if part == 'above' else np.sin(PI * y / (2 * d)) ** 2)
    h.eq(p.y[0], ut * up, 'logarithmic law', 1e-6)


PI = 3.141592653589793


@harness('C21', cases=grid(law=['WallLaw', 'WakeLaw']))
def wall_law_domain(h, law):
    """water depth and positions are checked"""
    c = getattr(BL(h), law)
    H = h.real('H', .5, 4)
    w = c(H, h.real('tau', .1, 4), .25)
    y, q = h.real('y', .01, 4), h.real('q', .01, 4)
    h.raises(ValueError, lambda: w.get_profile(f64(h, [0., -y])), 'below the wall')
    h.raises(ValueError, lambda: w.get_profile(f64(h, [0., H + y])), 'above the water')
    h.raises(ValueError, lambda: c(-H, y, .25), 'negative depth')
    h.raises(ValueError, lambda: c(H, -y, .25), 'negative stress')


# ---- measured profiles ------------------------------------------------------------------------------------------------

def prof(h, n, wall=True, name='', mono=True, ux='m', uy='m/s', mask=None):
    """positions and velocities of a profile; increasing velocities when mono"""
    x = [0. if wall else h.real(name + 'x0', .125, 2)]
    y = [0. if wall else h.real(name + 'u0', 0, 1)]
    for k in range(1, n):
        x.append(x[-1] + h.real(name + 'dx%d' % k, .125, 2))
        if mono:
            y.append(y[-1] + h.real(name + 'du%d' % k, .125, 2))
        else:
            y.append(h.real(name + 'u%d' % k, .25, 4))
    return x, y


def mk(h, x, y, ux='m', uy='m/s', mask=False):
    return h.imt.Profile(f64(h, x), f64(h, y), mask=mask, unit_x=ux, unit_y=uy)


def mx(h, y):
    r = y[0]
    for q in y[1:]:
        r = h.ite(q > r, q, r)
    return r


def thickness(h, x, y, perc):
    """first position where the profile reaches perc of its maximum (starting below)"""
    t = mx(h, y) * perc
    for k in range(len(x) - 1):
        if y[k + 1] >= t:
            return x[k] + (x[k + 1] - x[k]) * (t - y[k]) / (y[k + 1] - y[k])


@harness('C21', cases=grid(n=[3, 4], wall=[True, False], perc=[.95, .5, None], mono=[True, False]))
def layer_thickness(h, n, wall, perc, mono):
    """where the velocity reaches the given part of its maximum, from the wall"""
    x, y = prof(h, n, wall, mono=mono)
    if not wall:
        h.assume(y[0] < .4 * mx(h, y))
        if not mono:
            h.assume(y[1] > .9)
    if not mono:
        h.assume(h.Or(*[q > 1. for q in y]))
    kw = {} if perc is None else {'perc': perc}
    got = BL(h).get_bl_thickness(mk(h, x, y), **kw)
    h.eq(got, thickness(h, x, y, perc or .95), 'thickness', 1e-6)


@harness('C21', cases=grid(fun=['get_displ_thickness', 'get_momentum_thickness', 'get_shape_factor'], n=[3, 4], wall=[True, False]))
def integral_thicknesses(h, fun, n, wall):
    """integrals of the velocity defect over the layer, zero velocity at the wall"""
    x, y = prof(h, n, wall)
    if not wall:
        h.assume(h.And(y[0] < .2, y[0] > .01))
    if fun == 'get_shape_factor':
        x = [0., 1., 2.5, 4.][:n] if wall else [.5, 1., 2.5, 4.][:n]
        if n == 4:
            y[1] = .75
            h.assume(y[2] > .76)
    # the last point is the only one out of the layer
    h.assume(y[n - 2] < .949 * y[n - 1])
    got = getattr(BL(h), fun)(mk(h, x, y))
    if not wall:
        x, y = [0.] + x, [0.] + y
    m = y[-2]
    d = e = 0.
    for k in range(len(x) - 2):
        w, a, b = x[k + 1] - x[k], y[k] / m, y[k + 1] / m
        d = d + w * (1 - a + 1 - b) / 2
        e = e + w * (a * (1 - a) + b * (1 - b)) / 2
    if fun == 'get_displ_thickness':
        h.eq(got, d, 'displacement thickness', 1e-6)
    elif fun == 'get_momentum_thickness':
        h.eq(got, e, 'momentum thickness', 1e-6)
    elif len(x) > 3:
        h.eq(got * e, d, 'shape factor', 1e-6)
    else:
        h.check(True, 'no momentum thickness')


@harness('C21', cases=grid(fun=['get_displ_thickness', 'get_momentum_thickness'], big=[1, 2]))
def not_monotone(h, fun, big):
    """the largest velocity of the layer may be anywhere in it"""
    x = [0., 1., 2.5, 4.]
    u = [0., h.real('u1', .25, 3), h.real('u2', .25, 3), h.real('u3', 3.2, 4)]
    m = u[big]
    h.assume(h.And(u[3 - big] <= m, 0 < m, m < .949 * u[3]))
    d = 0.
    for k in range(2):
        w, a, b = x[k + 1] - x[k], u[k] / m, u[k + 1] / m
        d = d + w * ((2 - a - b) if fun == 'get_displ_thickness' else (a * (1 - a) + b * (1 - b))) / 2
    h.eq(getattr(BL(h), fun)(mk(h, x, u)), d, 'thickness', 1e-6)


@harness('C21', cases=grid(fun=['get_bl_thickness', 'get_displ_thickness', 'get_momentum_thickness', 'get_shape_factor'], what=['velocities', 'positions']))
def scaling(h, fun, what):
    """thicknesses do not depend on the velocity scale, and follow the length scale"""
    x, y = prof(h, 4)
    x = [0., 1., 2.5, 4.]
    k = h.real('k', .25, 4)
    if fun == 'get_shape_factor':
        y = [0., 1., 3., 5.]
    f = getattr(BL(h), fun)
    a = f(mk(h, x, y))
    if what == 'velocities':
        b = f(mk(h, x, [q * k for q in y]))
        h.eq(b, a, 'velocity scale', 1e-6)
    else:
        b = f(mk(h, [q * k for q in x], y))
        h.eq(b, a if fun == 'get_shape_factor' else a * k, 'length scale', 1e-6)


@harness('C21', cases=grid(fun=['get_displ_thickness', 'get_momentum_thickness'], where=[1, 2]))
def masked_points(h, fun, where):
    """masked points do not count"""
    x, y = prof(h, 5)
    x = [0., 1., 2.5, 4., 5.]
    h.assume(y[3] < .949 * y[4])
    m = [k == where for k in range(5)]
    f = getattr(BL(h), fun)
    a = f(mk(h, x, y, mask=h.np.array(m)))
    keep = [k for k in range(5) if not m[k]]
    b = f(mk(h, [x[k] for k in keep], [y[k] for k in keep]))
    h.eq(a, b, 'masked point', 1e-6)


@harness('C21', cases=grid(fun=['get_bl_thickness', 'get_displ_thickness', 'get_momentum_thickness', 'get_shape_factor'], direction=[1, 2, None], n=[2, 3]))
def fields(h, fun, direction, n):
    """fields give the profile of the values of their profiles"""
    np = h.np
    b = BL(h)
    z = [0., 1., 2.5, 4.]
    pos = [h.real('p0', -4, 4)]
    for k in range(1, n):
        pos.append(pos[-1] + h.real('dp%d' % k, .25, 2))
    us = [prof(h, 4, name='p%d' % k)[1] if k == 0 else [0., 1., 2. + .1 * k, 2.5] for k in range(n)]
    h.assume(us[0][2] < .949 * us[0][3])
    f = getattr(b, fun)
    kw = {} if direction is None else {'direction': direction}
    if direction == 2:
        sf = mk_sf(h, z, pos, [[us[j][i] for j in range(n)] for i in range(4)], ux='m', uy='mm')
    else:
        sf = mk_sf(h, pos, z, us, ux='m', uy='mm')
    got = f(sf, **kw)
    h.check(len(got.x) == n, 'one value by profile')
    for k in range(n):
        h.eq(got.x[k], pos[k], 'positions')
        h.eq(got.y[k], f(mk(h, z, us[k])), 'values', 1e-6)
    chk_unit(h, got.unit_x, 'mm' if direction == 2 else 'm', 'unit of the positions')
    chk_unit(h, got.unit_y, '' if fun == 'get_shape_factor' else 'm' if direction == 2 else 'mm', 'unit of the thicknesses')


@harness('C21', cases=grid(method=['simple', 'wall_law_lin', None], n=[3, 4], params=[True, False]))
def shear_stress(h, method, n, params):
    """viscosity times velocity gradient"""
    x, y = prof(h, n, mono=False)
    if method != 'wall_law_lin':
        # the gradient needs evenly spaced points
        x = [x[1] * k for k in range(n)]
    kw = {}
    rho, nu = 1000., 1e-6
    if params:
        rho, nu = h.real('rho', .5, 8), h.real('nu', .01, 1)
        kw = dict(rho=rho, nu=nu)
    if method:
        kw['method'] = method
    t = BL(h).get_shear_stress(mk(h, x, y), **kw)
    chk_unit(h, t.unit_x, 'm', 'unit of the positions')
    chk_unit(h, t.unit_y, 'kg/m/s^2', 'unit of the stress')
    mu = rho * nu
    if method == 'wall_law_lin':
        h.check(len(t.x) == n - 1, 'points above the wall')
        for k in range(1, n):
            h.eq(t.x[k - 1], x[k], 'position')
            h.eq(t.y[k - 1] * x[k], mu * y[k], 'linear sublayer', 1e-6)
        return
    h.check(len(t.x) == n, 'points')
    h.eq(t.y[0] * (x[1] - x[0]), mu * (y[1] - y[0]), 'stress at the wall', 1e-6)
    h.eq(t.y[n - 1] * x[1], mu * (y[n - 1] - y[n - 2]), 'stress at the end', 1e-6)
    for k in range(1, n - 1):
        h.eq(t.y[k] * 2. * x[1], mu * (y[k + 1] - y[k - 1]), 'stress', 1e-6)


@harness('C21', cases=grid(direction=[1, 2], same=[True, False]))
def shear_stress_of_fields(h, direction, same):
    """stress of each profile of the field"""
    z = [0., 1.5, 3., 4.5]
    pos = [0., 1., 3.]
    us = [[h.real('u%d%d' % (k, j), -4, 4) for j in range(4)] for k in range(3)]
    u1, u2 = ('m', 'm') if same else ('m', 'mm')
    if direction == 2:
        sf = mk_sf(h, z, pos, [[us[j][i] for j in range(3)] for i in range(4)], ux=u2, uy=u1)
    else:
        sf = mk_sf(h, pos, z, us, ux=u1, uy=u2)
    t = BL(h).get_shear_stress(sf, direction=direction, rho=4., nu=.5)
    chk_unit(h, t.unit_values, 'kg/%s/s^2' % u2, 'unit of the stress')
    for k in range(3):
        p = BL(h).get_shear_stress(mk(h, z, us[k], ux=u2), rho=4., nu=.5)
        for j in range(4):
            h.eq(t.values[k][j] if direction == 1 else t.values[j][k], p.y[j], 'stress', 1e-6)


@harness('C21', cases=grid(tau=[True, False], kind=['profile', 'field', 'field y']))
def clauser(h, tau, kind):
    """displacement thickness times the outer velocity over the friction velocity"""
    b = BL(h)
    z = [0., 1., 2.5, 4.] if tau else [0., 1., 2., 3.]
    u = prof(h, 4)[1]
    rho, nu = h.real('rho', .5, 8), h.real('nu', .01, 1)
    kw = dict(rho=rho, nu=nu)
    if tau:
        kw['tau'] = h.real('tau', .1, 4)
    t = kw['tau'] if tau else rho * nu * u[1]
    u2 = [0., 1., 2., 2.5]
    if kind == 'profile':
        got = [b.get_clauser_thickness(mk(h, z, u), **kw)]
    elif kind == 'field':
        got = b.get_clauser_thickness(mk_sf(h, [0., 1.], z, [u, u2], ux='m', uy='m'), **kw).y
    else:
        got = b.get_clauser_thickness(mk_sf(h, z, [0., 1.], [list(q) for q in zip(u, u2)], ux='m', uy='m'), direction=2, **kw).y
    d = b.get_displ_thickness(mk(h, z, u))
    h.eq(got[0] * got[0] * t, d * d * u[3] * u[3] * rho, 'Clauser thickness', 1e-6)
    h.check(got[0] >= 0, 'positive')


# ---- separation -------------------------------------------------------------------------------------------------------

def sep(h):
    from IMTreatment.boundary_layer.boundary_layer import get_separation_position
    return get_separation_position


@harness('C21', cases=grid(wall=[1, 2], kind=['sf', 'vf', 'tvf'], where=['below', 'first', 'inside', 'between', 'last', 'above'], lines=[None, 3]))
def separation_point(h, wall, kind, where, lines):
    """extrapolation at the wall of the positions without streamwise velocity"""
    c, s, a = h.real('c', 1.5, 2.5), h.real('s', -.1, .1), 1.5 if lines else -.75
    along = [0., 1., 2., 3., 4.]
    across = [0., .5, 1., 2., 2.5, 3.]
    w = {'below': -1., 'first': 0., 'inside': 1., 'between': 1.5, 'last': 3., 'above': 4.}[where]
    junk = h.real('junk', -4, 4)
    vals = [[a * (p - c - s * (q - w)) for q in across] for p in along]
    n = lines or 4
    near = {'below': range(n), 'first': range(n), 'inside': range(6), 'between': range(6), 'last': range(6 - n, 6), 'above': range(6 - n, 6)}[where]
    for p in range(5):
        for q in range(6):
            if q not in near:
                vals[p][q] = junk
    zero = [[junk] * 6 for _ in range(5)]
    if wall == 1:
        vals, zero = tr(vals), tr(zero)
    X, Y = (across, along) if wall == 1 else (along, across)
    kw = {} if lines is None else {'nmb_lines': lines}
    if kind == 'sf':
        f = mk_sf(h, X, Y, vals)
    else:
        f = mk_vf(h, X, Y, *((zero, vals) if wall == 1 else (vals, zero)))
    if kind == 'tvf':
        tf = h.imt.TemporalVectorFields()
        tf.add_field(f, time=1., unit_times='s')
        tf.add_field(f.copy(), time=3., unit_times='s')
        got = sep(h)(tf, wall, w, **kw)
        chk_unit(h, got.unit_x, 's', 'unit of the times')
        chk_unit(h, got.unit_y, 'mm' if wall == 1 else 'm', 'unit of the positions')
        h.eq(got.x[0], 1., 'time')
        h.eq(got.x[1], 3., 'time')
        for k in range(2):
            h.eq(got.y[k], c, 'separation', 1e-6)
    else:
        h.eq(sep(h)(f, wall, w, **kw), c, 'separation', 1e-6)


@harness('C21', cases=grid(wall=[1, 2]))
def separation_in_interval(h, wall):
    """sign changes out of the interval do not count; no sign change is an error"""
    c = h.real('c', .5, 1.5)
    along = [0., 1., 2., 3., 4.]
    across = [0., .5, 1., 2.]
    vals = [[[(0 - c), 1 - c, 2 - c, -1., -2.][p] for q in across] for p in range(5)]
    if wall == 1:
        vals = tr(vals)
    X, Y = (across, along) if wall == 1 else (along, across)
    f = mk_sf(h, X, Y, vals)
    h.eq(sep(h)(f, wall, -1., interval=[0., 2.]), c, 'separation', 1e-6)
    h.raises(Exception, lambda: sep(h)(f, wall, -1., interval=[3., 4.]), 'no separation')
    h.raises(ValueError, lambda: sep(h)(f, 3, -1.), 'wrong direction')
