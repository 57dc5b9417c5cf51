"""gradients, divergence, reconstruction, track fields, walls, Euler streamlines"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids up to 4x3 points (masks: any pattern on 3x2 and 2x3), arbitrary values, evenly spaced axes of arbitrary origin and steps, '
          'units m, mm, km, s; reconstruction: every polynomial of degree 2, grids up to 4x3; Euler streamlines: 3 steps')


def FT(h):
    from IMTreatment import field_treatment as ft
    return ft


def U(h, s):
    return h.imt.make_unit(s)


def diff(h, v, m, d, i, j, step):
    """(difference quotient, unknown) along direction d at point i, j"""
    n = len(v) if d == 'x' else len(v[0])
    k = i if d == 'x' else j
    a, b = max(k - 1, 0), min(k + 1, n - 1)
    P = [(a, j), (b, j)] if d == 'x' else [(i, a), (i, b)]
    return ((v[P[1][0]][P[1][1]] - v[P[0][0]][P[0][1]]) / (step * (b - a)),
            h.Or(m[P[0][0]][P[0][1]], m[P[1][0]][P[1][1]]))


def grads(h, F, v):
    dx, dy = F.xs[1] - F.xs[0], F.ys[1] - F.ys[0]
    gx = g2(F.nx, F.ny, lambda i, j: diff(h, v, F.m, 'x', i, j, dx)[0])
    gy = g2(F.nx, F.ny, lambda i, j: diff(h, v, F.m, 'y', i, j, dy)[0])
    mk = g2(F.nx, F.ny, lambda i, j: h.Or(diff(h, v, F.m, 'x', i, j, dx)[1],
                                          diff(h, v, F.m, 'y', i, j, dy)[1]))
    return gx, gy, mk


UN = [['m', 'mm', 'm/s'], ['km', 'm', 'mm/s'], ['m', 'm', 'm/s'], ['', 's', '']]


def same_unit_times(h, got, unit):
    """factor between the unit of the result and the wanted one"""
    return float((got / unit).asNumber(U(h, '')))


def chk_g(h, sf, F, g, mk, axis, label):
    """values of the result in the units values/axis"""
    want = U(h, F.u[2]) / U(h, F.u[0] if axis == 'x' else F.u[1])
    k = same_unit_times(h, sf.unit_values, want)
    h.check(abs(sf.unit_values.asNumber() - 1) < 1e-9, label + ': plain unit')
    chk_sf(h, sf, F.xs, F.ys, [[x / k for x in r] for r in g], mk, label, F.u[0], F.u[1])


SH = [[3, 2], [2, 3], [4, 2], [3, 3]]


@harness('C18', cases=grid(kind=['sf', 'vf'], n=SH[:2], u=UN) + grid(kind=['sf', 'vf'], n=[[4, 2]], u=UN[:1], mask=['some']),
         thorough=grid(kind=['sf', 'vf'], n=[[3, 3], [4, 3]], u=UN[:1], mask=['some']))
def gradients(h, kind, n, u, mask='all'):
    """centered differences, one-sided at the ends"""
    F = Fld(h, n[0], n[1], kind, mask, uniform=True, units=u)
    f = F.make()
    r = FT(h).get_gradients(f)
    G = [grads(h, F, v) for v in ([F.vx] if kind == 'sf' else [F.vx, F.vy])]
    mk = G[0][2]
    h.check(len(r) == 2 * len(G), 'number of gradients')
    for k, (gx, gy, _) in enumerate(G):
        chk_g(h, r[2 * k], F, gx, mk, 'x', 'x gradient %d' % k)
        chk_g(h, r[2 * k + 1], F, gy, mk, 'y', 'y gradient %d' % k)
    F.chk(f, 'field afterwards')


@harness('C18', cases=grid(kind=['sf', 'vf'], n=SH[:2]))
def raw_gradients(h, kind, n):
    F = Fld(h, n[0], n[1], kind, 'some', uniform=True)
    f = F.make()
    r = FT(h).get_gradients(f, raw=True)
    k = 0
    for v in ([F.vx] if kind == 'sf' else [F.vx, F.vy]):
        gx, gy, mk = grads(h, F, v)
        for g in (gx, gy):
            chk_mask(h, h.np.ma.getmaskarray(r[k]), mk, 'raw gradient')
            z = lambda q: f64(h, [[h.ite(m, 0., x) for x, m in zip(a, b)] for a, b in zip(q, mk)])
            h.eq(z(lst(h.np.ma.getdata(r[k]))), z(g), 'raw gradient')
            k += 1
    F.chk(f, 'field afterwards')


@harness('C18', cases=grid(kind=['sf', 'vf'], n=[[3, 3], [4, 2]]))
def slopes_of_planes(h, kind, n):
    """exact for affine fields, anywhere"""
    F = Fld(h, n[0], n[1], kind, 'none', uniform=True, units=['m', 'm', 'm/s'])
    xs, ys = F.xs, F.ys
    c = [[h.real('c%d%d' % (a, b), -3, 3) for b in range(3)] for a in range(2)]
    pl = lambda c: g2(n[0], n[1], lambda i, j: c[0] + c[1] * xs[i] + c[2] * ys[j])
    F.vx = pl(c[0])
    F.vy = pl(c[1])
    r = FT(h).get_gradients(F.make())
    w = [c[0][1], c[0][2], c[1][1], c[1][2]]
    for g, s in zip(r, w):
        h.eq(g.values, f64(h, g2(n[0], n[1], lambda i, j: s)), 'slope')


@harness('C18', cases=grid(n=SH[:2], u=UN[:3], series=[False, True]))
def divergence(h, n, u, series):
    """sum of the two gradients, in consistent units"""
    F = Fld(h, n[0], n[1], 'vf', 'one' if series else 'all', uniform=True, units=u)
    if series:
        tf = h.imt.TemporalVectorFields()
        G = Fld(h, n[0], n[1], 'vf', 'one', uniform=True, units=u, name='b')
        G.xs, G.ys = F.xs, F.ys
        tf.add_field(F.make(), time=1., unit_times='ms')
        tf.add_field(G.make(), time=3., unit_times='ms')
        r = FT(h).get_divergence(tf)
        chk_tf(h, r, [1., 3.], 2, 'divergence', 'ms')
        for q, r in zip((F, G), r.fields):
            chk_div(h, q, r, u)
    else:
        f = F.make()
        chk_div(h, F, FT(h).get_divergence(f), u)
        F.chk(f, 'field afterwards')


def chk_div(h, F, r, u):
    gx, _, mk = grads(h, F, F.vx)
    _, gy, _ = grads(h, F, F.vy)
    base = r.unit_values
    kx = float((U(h, u[2]) / U(h, u[0]) / base).asNumber(U(h, '')))
    ky = float((U(h, u[2]) / U(h, u[1]) / base).asNumber(U(h, '')))
    v = g2(F.nx, F.ny, lambda i, j: gx[i][j] * kx + gy[i][j] * ky)
    chk_sf(h, r, F.xs, F.ys, v, mk, 'divergence', F.u[0], F.u[1], tol=1e-6)


@harness('C18', cases=grid(n=SH[:2], d=['x', 'y']))
def gradient_fields(h, n, d):
    """the two gradients of a component, as a vector field"""
    F = Fld(h, n[0], n[1], 'vf', 'some', uniform=True, units=['m', 'm', 'm/s'])
    f = F.make()
    r = FT(h).get_grad_field(f, d)
    gx, gy, mk = grads(h, F, F.vx if d == 'x' else F.vy)
    chk_vf(h, r, F.xs, F.ys, gx, gy, mk, 'gradient field', 'm', 'm')
    F.chk(f, 'field afterwards')


@harness('C18', cases=grid(n=SH[:2]))
def shear(h, n):
    """cross derivatives"""
    F = Fld(h, n[0], n[1], 'vf', 'none', uniform=True, units=['m', 'm', 'm/s'])
    f = F.make()
    gx = grads(h, F, F.vy)[0]
    gy = grads(h, F, F.vx)[1]
    r = FT(h).get_shear_stress(f)
    chk_vf(h, r, F.xs, F.ys, gx, gy, F.m, 'shear stress', 'm', 'm')
    r = FT(h).get_shear_stress(f, raw=True)
    h.eq(r[0], f64(h, gx), 'raw x')
    h.eq(r[1], f64(h, gy), 'raw y')
    F.chk(f, 'field afterwards')


@harness('C18', cases=grid(n=[[3, 3], [4, 3]], u=UN[:3], kind=['sf', 'vf']), thorough=grid(n=[[5, 4]], u=UN[:1], kind=['sf']))
def reconstruction(h, n, u, kind):
    """polynomials of degree 2 are recovered from their gradients, with zero mean"""
    xs, ys = axes(h, n[0], n[1], True)
    C = [[h.real('c%d%d' % (k, l), -2, 2) for l in range(5)] for k in range(1 if kind == 'sf' else 2)]
    uv = U(h, u[2])
    ux, uy = U(h, u[0]), U(h, u[1])
    kx = float((uv / ux).asNumber())
    r = float((uy / ux).asNumber(U(h, '')))
    # with y counted in the unit of x, and values in unit u[2]
    al = []
    W = []
    for c in C:
        Y = [y * r for y in ys]
        w = g2(n[0], n[1], lambda i, j: c[0] * xs[i] + c[1] * Y[j] + c[2] * xs[i] * xs[i]
               + c[3] * xs[i] * Y[j] + c[4] * Y[j] * Y[j])
        gx = g2(n[0], n[1], lambda i, j: c[0] + 2. * c[2] * xs[i] + c[3] * Y[j])
        gy = g2(n[0], n[1], lambda i, j: (c[1] + c[3] * xs[i] + 2. * c[4] * Y[j]) * r)
        for g, un in ((gx, uv / ux), (gy, uv / uy)):
            k = un.asNumber()
            al.append(mk_sf(h, xs, ys, [[q * k for q in row] for row in g], None, u[0], u[1], un / k))
        W.append(w)
    R = FT(h).reconstruct_from_gradients(*al)
    k = float((uv / R.unit_values).asNumber(U(h, '')))
    if kind == 'sf':
        q = h.np.array(W[0], dtype=float) * k
        h.eq(R.values, q - h.np.mean(q), 'reconstructed field', 1e-6)
    else:
        for got, w in ((R.comp_x, W[0]), (R.comp_y, W[1])):
            q = h.np.array(w, dtype=float) * k
            h.eq(got, q - h.np.mean(q), 'reconstructed component', 1e-6)
    chk_axes(h, R, xs, ys, 'reconstructed field')
    chk_unit(h, R.unit_x, u[0], 'unit of x')
    chk_unit(h, R.unit_y, u[1], 'unit of y')


@harness('C18', cases=[dict()])
def track_field(h):
    """the field turned by a quarter of turn"""
    F = Fld(h, 3, 2, 'vf', 'all')
    f = F.make()
    r = FT(h).get_track_field(f)
    chk_vf(h, r, F.xs, F.ys, [[-v for v in q] for q in F.vy], F.vx, F.m, 'track field', *F.u)
    F.chk(f, 'field afterwards')


@harness('C18', cases=grid(kind=['sf', 'vf'], side=['left', 'down'], nb=[1, 2, 3]))
def wall(h, kind, side, nb):
    """zero on the wall, original inside, linear between"""
    F = Fld(h, 2, 2, kind, 'none', uniform=True)
    if nb > 1:
        F.xs, F.ys = [1., 1.5], [-2., 0.]
    f = F.make()
    t = h.real('t', .01, .99)
    ax = F.xs if side == 'left' else F.ys
    d = ax[1] - ax[0]
    p = ax[0] - (nb + t) * d
    r = FT(h).extrapolate_until_wall(f, 'x' if side == 'left' else 'y', position=p)
    nax = [ax[0] - (nb - k) * d for k in range(nb)] + ax
    xs, ys = (nax, F.ys) if side == 'left' else (F.xs, nax)
    chk_axes(h, r, xs, ys, 'extended field')
    for v, g in ((F.vx, r.values if kind == 'sf' else r.comp_x),) + (() if kind == 'sf' else ((F.vy, r.comp_y),)):
        for i in range(len(xs)):
            for j in range(len(ys)):
                k = i if side == 'left' else j
                if k == 0:
                    h.eq(g[i][j], 0., 'wall')
                elif k >= nb:
                    h.eq(g[i][j], v[i - nb][j] if side == 'left' else v[i][j - nb], 'original point')
                else:
                    h.eq(g[i][j], (v[0][j] if side == 'left' else v[i][0]) * k / float(nb), 'between the wall and the field')
    h.check(h.Not(h.np.any(r.mask)), 'no masked point')
    F.chk(f, 'field afterwards')


DIRS = [[3, 4], [-4, 3], [5, -12], [1, 0], [0, -1]]


@harness('C18', cases=grid(rev=[False, True], dr=DIRS))
def euler_streamlines(h, rev, dr):
    """steps of constant length along the local velocity, until the border"""
    xs, ys = [0., 4.], [0., 4.]
    n = (dr[0] ** 2 + dr[1] ** 2) ** .5
    w = [dr[0] / n, dr[1] / n]
    q = h.real('k', .1, 4)
    k = g2(2, 2, lambda i, j: q)
    F = Fld(h, 2, 2, 'vf', 'none')
    F.xs, F.ys = xs, ys
    F.vx = g2(2, 2, lambda i, j: k[i][j] * w[0])
    F.vy = g2(2, 2, lambda i, j: k[i][j] * w[1])
    f = F.make()
    x0, y0 = h.real('px', -1, 5), h.real('py', .01, 3.9)
    h.assume(h.And(x0 != 0, x0 != 4))
    r = FT(h).get_streamlines_fast(f, [x0, y0], delta=.5, reverse=rev)
    if not (0 <= x0 <= 4):
        h.check(r is None, 'no streamline from outside of the field')
        return
    h.check(len(r) == 1, 'one streamline')
    P = lst(r[0].xy)
    h.eq(h.np.array(P[0], dtype=float), h.np.array([x0, y0], dtype=float), 'start')
    s = -1. if rev else 1.
    for p, q in zip(P, P[1:]):
        # (4 / 2 + 4 / 2) / 2 * .5
        h.eq(q[0] - p[0], w[0] * s, 'step along x', 1e-6)
        h.eq(q[1] - p[1], w[1] * s, 'step along y', 1e-6)
        h.check(h.And(p[0] >= 0, p[0] <= 4, p[1] >= 0, p[1] <= 4), 'steps start inside of the field')
    l = P[-1]
    h.check(h.Or(len(P) >= 7, l[0] < 1e-6, l[0] > 4 - 1e-6, l[1] < 1e-6, l[1] > 4 - 1e-6), 'followed until the border')
    chk_unit(h, r[0].unit_x, 'm', 'unit of x')
    chk_unit(h, r[0].unit_y, 'mm', 'unit of y')
    F.chk(f, 'field afterwards')


# ---- known findings: what the stored references of the tests pin ------------------------------------------------------

@harness('C18', cases=grid(fn=['grad', 'shear']))
def units_of_derived_fields(h, fn):
    F = Fld(h, 2, 2, 'vf', 'none', uniform=True, units=['m', 'm', 'm/s'])
    f = F.make()
    r = FT(h).get_grad_field(f, 'x') if fn == 'grad' else FT(h).get_shear_stress(f)
    chk_unit(h, r.unit_values, '1/s', 'unit of the derivatives')


@harness('C18', cases=grid(kind=['sf', 'vf'], side=['right', 'up']))
def wall_on_the_far_side(h, kind, side):
    F = Fld(h, 3, 3, kind, 'none', uniform=True)
    F.xs, F.ys = [1., 1.5, 2.], [-2., 0., 2.]
    f = F.make()
    t = h.real('t', .01, .99)
    ax = F.xs if side == 'right' else F.ys
    d = ax[1] - ax[0]
    r = FT(h).extrapolate_until_wall(f, 'x' if side == 'right' else 'y', position=ax[-1] + (1. + t) * d)
    g = r.values if kind == 'sf' else r.comp_x
    far = g[-1, :] if side == 'right' else g[:, -1]
    h.eq(far, h.np.zeros(3), 'zero on the wall')
    h.eq(g[:3, :3], f64(h, F.vx), 'original points')
    h.check(h.Not(h.np.any(r.mask)), 'no masked point')
    n = len(r.axe_x if side == 'right' else r.axe_y)
    h.check(n == 4, 'number of added lines')


@harness('C18', cases=grid(step=[1., .5]))
def gradient_of_profiles(h, step):
    x = [1., 1. + step, 1. + 2. * step, 1. + 3. * step]
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    p = h.imt.Profile(h.np.array(x), h.np.array([a + b * t for t in x], dtype=float), unit_x='m', unit_y='m/s')
    r = FT(h).get_gradients(p)
    h.eq(r.x, h.np.array(x), 'abscissa')
    h.eq(r.y, h.np.array([b] * 4, dtype=float), 'slope of a line')
    chk_unit(h, r.unit_x, 'm', 'unit of x')
    chk_unit(h, r.unit_y, '1/s', 'unit of y')
