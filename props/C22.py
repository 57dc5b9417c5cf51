"""vortex properties: zones, radii, integrals, circulation"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('fields of 3x3 and 4x3 points, any steps; the criterion takes any value at 4 points around the center and given values elsewhere, in several patterns (connected, separated, diagonal); property any value at 4 points; rotation fields with any strength of either sign; series of up to 3 instants')


def VP(h):
    from IMTreatment import vortex_properties as vp
    return vp


def zone(ok, i, j):
    """points connected to (i, j) by their sides"""
    if not ok[i][j]:
        return []
    todo, got = [(i, j)], [(i, j)]
    while todo:
        a, b = todo.pop()
        for c, d in ((a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)):
            if 0 <= c < len(ok) and 0 <= d < len(ok[0]) and ok[c][d] and (c, d) not in got:
                got.append((c, d))
                todo.append((c, d))
    return got


def vortex_zone(v, i, j, eps):
    """zone above eps times the maximum of the zone above eps times the value at the center"""
    def above(m):
        return zone([[bool(q > eps * m) for q in r] for r in v], i, j)
    z = above(v[i][j])
    if not z:
        return []
    m = v[z[0][0]][z[0][1]]
    for a, b in z[1:]:
        if v[a][b] > m:
            m = v[a][b]
    return above(m)


def axes_of(h, nx, ny):
    x0, y0 = h.real('x0', -4, 4), h.real('y0', -4, 4)
    dx, dy = .5, 2.
    return [x0 + k * dx for k in range(nx)], [y0 + k * dy for k in range(ny)], dx, dy


def simp(h, l, dx):
    """Simpson's rule (3 points; the rule of scipy for 4)"""
    import numpy
    import scipy.integrate
    r = 0.
    for k in range(len(l)):
        e = numpy.zeros(len(l))
        e[k] = 1.
        r = r + float(scipy.integrate.simpson(e, dx=dx)) * l[k]
    return r


PAT = {'plain': [[.05, .05, .05], [.05, 's', 's'], [.05, 's', 's']],
       'cross': [[.05, 's', .05], ['s', 1.5, 's'], [.05, 's', .05]],
       'diagonal': [['s', .05, 's'], [.05, 1.5, .05], ['s', .05, 's']],
       'corner': [['s', 2., 1.5], ['s', .05, 2.], ['s', 's', .1]],
       'ring': [[2., 's', 2.], [2., .05, 's'], [2., 's', 2.]]}


@harness('C22', cases=grid(pat=list(PAT), crit=['other', 'same'], neg=[False, True], eps=[None, .5]))
def property_of_a_zone(h, pat, crit, neg, eps):
    """integral of the property over the connected zone around the center"""
    if neg and pat in ('corner', 'ring') and eps:
        h.check(True, '')
        return
    xs, ys, dx, dy = axes_of(h, 3, 3)
    n = [0]

    def val(q):
        if q == 's':
            n[0] += 1
            return h.real('s%d' % n[0], .01, 4)
        return q
    S = [[val(q) for q in r] for r in PAT[pat]]
    if neg:
        S = [[-q for q in r] for r in S]
    VF = mk_vf(h, xs, ys, [[1.] * 3] * 3, [[2.] * 3] * 3, ux='m', uy='m', uv='m/s')
    c = (1, 1) if pat not in ('corner', 'ring') else (0, 1)

    def size(f):
        return mk_sf(h, xs, ys, S, ux='m', uy='m', uv='1/s')
    if crit == 'same':
        P = S
        prop = size
    else:
        P = [[h.real('p%d' % k, -4, 4) if k in (1, 4) else k - 3.5 for k in (3 * i, 3 * i + 1, 3 * i + 2)] for i in range(3)]

        def prop(f):
            return mk_sf(h, xs, ys, P, ux='m', uy='m', uv='kg')
    kw = {} if eps is None else {'size_crit_lim': eps}
    got, u = VP(h).get_vortex_property(VF, [xs[c[0]] + .1, ys[c[1]] - .3], size_crit=size, prop_crit=prop, output_unit=True, **kw)
    z = vortex_zone([[abs(q) for q in r] for r in S], c[0], c[1], eps or .1)
    Q = [[P[i][j] if (i, j) in z else 0. for j in range(3)] for i in range(3)]
    h.eq(got, simp(h, [simp(h, r, dy) for r in Q], dx) if z else 0., 'property', 1e-6)
    chk_unit(h, u, 'm^2/s' if crit == 'same' else 'kg*m^2', 'unit of the property')


@harness('C22', cases=grid(unit=[True, False]))
def value_at_the_center(h, unit):
    """'value': the property at the center, interpolated"""
    xs, ys, dx, dy = axes_of(h, 3, 3)
    c = [h.real('c%d' % k, -2, 2) for k in range(3)]
    S = [[c[0] + c[1] * i + c[2] * j for j in range(3)] for i in range(3)]
    VF = mk_vf(h, xs, ys, [[1.] * 3] * 3, [[2.] * 3] * 3, ux='m', uy='m', uv='m/s')
    a, b = h.real('a', 0, .5), h.real('b', 0, 2)
    r = VP(h).get_vortex_property(VF, [xs[0] + a, ys[1] + b], size_crit='value', prop_crit=lambda f: mk_sf(h, xs, ys, S, ux='m', uy='m', uv='1/s'), output_unit=unit)
    if unit:
        chk_unit(h, r[1], '1/s', 'unit')
        r = r[0]
    h.eq(r, c[0] + c[1] * a / .5 + c[2] * (1. + b / 2.), 'value', 1e-6)


def turning(h, k, nx, ny, xs, ys, kind):
    """velocities: a rotation of strength k around the middle, decreasing outside"""
    g = {'core': lambda r: 1. if r < 1.2 else .125, 'wide': lambda r: 1. / (1. + r), 'solid': lambda r: 1.}[kind]
    cx, cy = (nx - 1) / 2., (ny - 1) / 2.
    vx = [[None] * ny for _ in range(nx)]
    vy = [[None] * ny for _ in range(nx)]
    for i in range(nx):
        for j in range(ny):
            a, b = i - cx, j - cy
            w = k * g((a * a + b * b) ** .5)
            vx[i][j] = -b * w
            vy[i][j] = a * w
    return vx, vy


@harness('C22', cases=grid(kind=['core', 'wide', 'solid'], sign=[1, -1], center=[False, True], unit=[False, True]) + grid(kind=['core'], sign=[1, -1], center=[True], unit=[True], eps=[.4]))
def radius(h, kind, sign, center, unit, eps=None):
    """radius of the disk with the area of the zone, for both directions of rotation"""
    n = 5
    x0, y0 = h.real('x0', -4, 4), h.real('y0', -4, 4)
    d = .5
    xs, ys = [x0 + k * d for k in range(n)], [y0 + k * d for k in range(n)]
    k = sign * h.real('k', .1, 4)
    u, v = 1.5, -.5
    vx, vy = turning(h, k, n, n, xs, ys, kind)
    VF = mk_vf(h, xs, ys, [[q + u for q in r] for r in vx], [[q + v for q in r] for r in vy], ux='m', uy='m')
    kw = {} if eps is None else {'eps_detection': eps}
    r = VP(h).get_vortex_radius(VF, [xs[2] + .1, ys[2] - .05], output_center=center, output_unit=unit, **kw)
    from IMTreatment.vortex_criterions import get_residual_vorticity
    w = get_residual_vorticity(VF).values
    W = [[w[i, j] * sign for j in range(n)] for i in range(n)]
    z = vortex_zone(W, 2, 2, eps or .1)
    r = list(r) if (center or unit) else [r]
    h.eq(r[0] * r[0] * PI, len(z) * d * d, 'area', 1e-6)
    if unit:
        chk_unit(h, r[-1], 'm', 'unit of the radius')
    if center and z:
        m = sum([W[i][j] for i, j in z], 0.)
        h.eq(r[1][0] * m, sum([W[i][j] * xs[i] for i, j in z], 0.), 'center', 1e-6)
        h.eq(r[1][1] * m, sum([W[i][j] * ys[j] for i, j in z], 0.), 'center', 1e-6)


PI = 3.141592653589793


@harness('C22', cases=grid(center=[False, True]))
def no_vortex(h, center):
    """no radius where there is no rotation"""
    n = 4
    xs = ys = [0., 1., 2., 3.]
    a, b, c = h.real('a', -4, 4), h.real('b', -4, 4), h.real('c', .1, 4)
    VF = mk_vf(h, xs, ys, [[a + c * x for y in ys] for x in xs], [[b - c * y for y in ys] for x in xs], ux='m', uy='m')
    r = VP(h).get_vortex_radius(VF, [1.1, 2.2], output_center=center)
    h.eq(r[0] if center else r, 0., 'radius')


@harness('C22', cases=grid(center=[False, True], n=[2, 3]))
def radius_evolution(h, center, n):
    """one radius per point of the trajectory, from the field at its time"""
    xs = ys = [0., .5, 1., 1.5, 2.]
    ks = [2., h.real('k', .25, 4), -1.5][:n]
    kinds = ['core', 'wide', 'solid'][:n]
    ts = [0., 1., 2.5][:n]
    tf = h.imt.TemporalVectorFields()
    F = []
    for k in range(n):
        vx, vy = turning(h, ks[k], 5, 5, xs, ys, kinds[k])
        F.append(mk_vf(h, xs, ys, vx, vy, ux='m', uy='m'))
        tf.add_field(F[-1], time=ts[k], unit_times='s')
    order = list(range(n))[::-1][:2]
    traj = h.imt.Points(xy=f64(h, [[1., 1.1]] * len(order)), v=f64(h, [ts[k] for k in order]), unit_x='m', unit_y='m', unit_v='s')
    r = VP(h).get_vortex_radius_time_evolution(tf, traj, output_center=center)
    p = r[0] if center else r
    order = sorted(order)
    h.check(len(p.x) == len(order), 'one radius per point')
    chk_unit(h, p.unit_x, 's', 'unit of the times')
    chk_unit(h, p.unit_y, 'm', 'unit of the radii')
    for i, k in enumerate(order):
        q = VP(h).get_vortex_radius(F[k], [1., 1.1])
        h.eq(p.x[i], ts[k], 'time')
        h.eq(p.y[i], q, 'radius', 1e-6)


@harness('C22', cases=grid(sign=[1, -1], unit=[True], eps=[None, .5], u=['m', 'mm']) + grid(sign=[1, -1], unit=[False], eps=[None, .5], u=['m']))
def circulation(h, sign, unit, eps, u):
    """sum of the vorticity over the zone, times the area of the cells"""
    n = 4
    x0, y0 = h.real('x0', -4, 4), h.real('y0', -4, 4)
    dx, dy = .5, 2.
    xs, ys = [x0 + k * dx for k in range(n)], [y0 + k * dy for k in range(n)]
    k, q = sign * h.real('k', .5, 4), h.real('q', -1, 1)
    vx, vy = turning(h, k, n, n, xs, ys, 'core')
    vx[1][2] = vx[1][2] + q
    VF = mk_vf(h, xs, ys, vx, vy, ux=u, uy=u)
    kw = {} if eps is None else {'epsilon': eps}
    got = VP(h).get_vortex_circulation(VF, [xs[1] + .1, ys[2] - .3], output_unit=unit, **kw)
    from IMTreatment.vortex_criterions import get_vorticity
    vo = get_vorticity(VF)
    w = vo.values
    W = [[w[i, j] for j in range(n)] for i in range(n)]
    A = [[abs(q) for q in r] for r in W]
    m = A[0][0]
    for r in A:
        for p in r:
            if p > m:
                m = p
    z = zone([[bool(p > (eps or .1) * m) for p in r] for r in A], 1, 2)
    g = got[0] if unit else got
    want = sum([W[i][j] for i, j in z], 0.) * dx * dy
    if unit and z:
        mu = h.imt.make_unit
        a, b = (float(q.asNumber(mu('m^2/s'))) for q in (got[1], vo.unit_values * VF.unit_x * VF.unit_y))
        h.eq(g, want * (b / a), 'circulation', 1e-6)
    else:
        h.eq(g, want, 'circulation', 1e-6)


@harness('C22', cases=grid(c=[(1, 1), (2, 2)], sign=[1, -1], eps=[None, .3]))
def circulation_corner(h, c, sign, eps):
    """zones that only touch by a corner are two vortices"""
    n = 4
    x0, y0 = h.real('x0', -4, 4), h.real('y0', -4, 4)
    dx, dy = .5, 2.
    xs, ys = [x0 + k * dx for k in range(n)], [y0 + k * dy for k in range(n)]
    k1, k2 = h.real('k1', .5, 4), sign * h.real('k2', .5, 4)
    # shear across the left half of the lower rows and the right half of the upper ones
    vy = [[(k1 if i > 0 else 0.) if j < 2 else (k2 if i > 2 else 0.) for j in range(n)] for i in range(n)]
    VF = mk_vf(h, xs, ys, [[0.] * n] * n, vy, ux='m', uy='m')
    kw = {} if eps is None else {'epsilon': eps}
    got = VP(h).get_vortex_circulation(VF, [xs[c[0]], ys[c[1]]], **kw)
    from IMTreatment.vortex_criterions import get_vorticity
    w = get_vorticity(VF).values
    W = [[w[i, j] for j in range(n)] for i in range(n)]
    A = [[abs(q) for q in r] for r in W]
    m = A[0][0]
    if A[3][3] > m:
        m = A[3][3]
    z = zone([[bool(p > (eps or .1) * m) for p in r] for r in A], *c)
    h.eq(got, sum([W[i][j] for i, j in z], 0.) * dx * dy, 'circulation', 1e-6)


@harness('C22', cases=grid(n=[2, 3]))
def property_evolution(h, n):
    """the property at each instant of the trajectory"""
    xs = ys = [0., .5, 1.]
    ts = [0., 1., 2.5][:n]
    tf = h.imt.TemporalVectorFields()
    F = []
    ks = [h.real('k%d' % k, .5, 4) for k in range(n)]
    for k in range(n):
        F.append(mk_vf(h, xs, ys, [[ks[k] * (1. + i + j) for j in range(3)] for i in range(3)], [[1.] * 3] * 3, ux='m', uy='m'))
        tf.add_field(F[-1], time=ts[k], unit_times='s')
    used = list(range(n))[1:]
    traj = h.imt.Points(xy=f64(h, [[.5, .1 * k] for k in used]), v=f64(h, [ts[k] for k in used]), unit_x='m', unit_y='m', unit_v='s')
    p = VP(h).get_vortex_property_time_evolution(tf, traj, size_crit=lambda f: f.comp_x_as_sf, prop_crit=lambda f: f.comp_y_as_sf)
    h.check(len(p.x) == len(used), 'one value per point')
    chk_unit(h, p.unit_x, 's', 'unit of the times')
    chk_unit(h, p.unit_y, 'm^3/s', 'unit of the property')
    for i, k in enumerate(used):
        h.eq(p.x[i], ts[k], 'time')
        h.eq(p.y[i], VP(h).get_vortex_property(F[k], [.5, .1 * k], size_crit=lambda f: f.comp_x_as_sf, prop_crit=lambda f: f.comp_y_as_sf), 'property', 1e-6)
