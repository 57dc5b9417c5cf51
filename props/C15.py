"""profiles: interpolation, crossings, integral, gradient, correlations"""
from symx.harness import harness, grid
from .common import *
from .C13 import Prf, chk_prf

BOUNDS = ('profiles of up to 4 points, arbitrary values and masks; arbitrary abscissa (gradient: even ones; convolution, '
          'correlation: given even ones)')


def seg(h, P, i, x):
    return P.y[i] + (x - P.xs[i]) / (P.xs[i + 1] - P.xs[i]) * (P.y[i + 1] - P.y[i])


@harness('C15', cases=grid(arr=[False, True]))
def value_at_abscissa(h, arr):
    """on the line joining the two neighbours; exact on points; nothing next to masked points or outside"""
    P = Prf(h, 3)
    p = P.make()
    x = h.real('x', -20, 20)
    r = p.get_interpolated_values(x=[x] if arr else x)
    P.chk(p, 'profile')
    r = lst(r) if arr else list(r)
    n = len(r)
    isn = (lambda v: v is h.np.ma.masked or bool(h.isnan(v)))
    val = None
    for i in range(3):
        if bool(x == P.xs[i]):
            val = None if bool(P.m[i]) else P.y[i]
            break
        if i < 2 and bool(h.And(x > P.xs[i], x < P.xs[i + 1])):
            val = None if bool(h.Or(P.m[i], P.m[i + 1])) else seg(h, P, i, x)
            break
    if val is None:
        h.check(n == 0 or (n == 1 and isn(r[0])), 'no value')
    else:
        h.check(n == 1, 'one value')
        h.eq(r[0], val, 'interpolated value', 1e-6)


@harness('C15', cases=grid(fn=['pos', 'interp'], ind=[False, True], mask=['all', 'none']), max_s=120)
def positions_of_a_value(h, fn, ind, mask):
    """exactly the abscissa where the broken line takes the value"""
    if fn == 'interp' and ind:
        p = Prf(h, 3).make()
        k = int(h.integer('k', 0, 2))
        r = p.get_interpolated_values(y=k, ind=True)
        return h.check(h.And(len(r) == 1, h.close(r[0], p.x[k])), 'abscissa of an index')
    P = Prf(h, 3, mask=mask, lo=-2, hi=2)
    p = P.make()
    v = h.real('v', -2, 2)
    r = p.get_value_position(v, ind=ind) if fn == 'pos' else p.get_interpolated_values(y=v)
    P.chk(p, 'profile')
    want = []
    for i in range(3):
        if bool(P.m[i]):
            continue
        if bool(P.y[i] == v):
            want.append(float(i) if ind else P.xs[i])
        elif i < 2 and not bool(P.m[i + 1]) and bool(h.Or(h.And(P.y[i] < v, P.y[i + 1] > v),
                                                           h.And(P.y[i] > v, P.y[i + 1] < v))):
            t = (v - P.y[i]) / (P.y[i + 1] - P.y[i])
            want.append(i + t if ind else P.xs[i] + t * (P.xs[i + 1] - P.xs[i]))
    r = list(lst(r))
    h.check(len(r) == len(want), 'number of positions')
    for a, b in zip(r, want):
        h.eq(a, b, 'position', 1e-5)


@harness('C15', cases=grid(p=[[], [1], [0, 3], [2]]))
def interpolator(h, p):
    """piecewise linear through the valid points"""
    P = Prf(h, 4, mask='none', xs=[0., 1., 2.5, 3.])
    P.m = [i in p for i in range(4)]
    f = P.make().get_interpolator(bounds_error=False, fill_value=-7.)
    V = [i for i in range(4) if not P.m[i]]
    from .C14 import lin
    for x in [-1., 0., .5, 1., 1.75, 2.5, 2.75, 3., 4.]:
        inside = P.xs[V[0]] <= x <= P.xs[V[-1]]
        w = lin([P.xs[i] for i in V], [P.y[i] for i in V], x) if inside else -7.
        h.eq(f(x), w, 'linear interpolation')


@harness('C15', cases=grid(u=[['m', 'm/s'], ['mm', 'm'], ['s', 'mm/s']]))
def integral(h, u):
    """trapezes between the valid points, in the product of the units"""
    P = Prf(h, 4, mask='some', ux=u[0], uy=u[1])
    p = P.make()
    r, un = p.get_integral()
    V = [i for i in range(4) if not bool(P.m[i])]
    s = sum((P.xs[b] - P.xs[a]) * (P.y[a] + P.y[b]) / 2. for a, b in zip(V, V[1:]))
    U = h.imt.make_unit
    try:
        k = float((U(u[0]) * U(u[1]) / un).asNumber(U('')))
    except Exception:
        return h.check(False, 'unit of the integral')
    h.eq(r, s * k, 'integral', 1e-5)
    P.chk(p, 'profile')


@harness('C15', cases=grid(u=[['m', 'm/s'], ['mm', 'm']], mask=['none', 'some']))
def gradient(h, u, mask):
    """centered differences inside, one-sided ones at the ends; in consistent units"""
    P = Prf(h, 4, mask=mask, ux=u[0], uy=u[1])
    x0, d = h.real('x0', -4, 4), h.real('d', .25, 3)
    P.xs = [x0 + i * d for i in range(4)]
    p = P.make()
    g = p.get_gradient()
    U = h.imt.make_unit
    un = U(u[1]) / U(u[0])
    k = float((un / g.unit_y).asNumber(U('')))
    m = [h.Or(P.m[0], P.m[1]), h.Or(P.m[0], P.m[2]), h.Or(P.m[1], P.m[3]), h.Or(P.m[2], P.m[3])]
    y = P.y
    w = [(y[1] - y[0]) / d, (y[2] - y[0]) / (2 * d), (y[3] - y[1]) / (2 * d), (y[3] - y[2]) / d]
    h.eq(g.x, h.np.array(P.xs, dtype=float), 'abscissa')
    for i in range(4):
        h.check(h.Implies(h.Not(h.Or(m[i], P.m[i])), h.And(h.Not(g.mask[i]), h.close(g.y[i], k * w[i], 1e-5))),
                'difference')
    chk_unit(h, g.unit_x, u[0], 'unit_x')
    P.chk(p, 'profile')


@harness('C15')
def gradient_at_a_position(h):
    """difference of the interpolated values on both sides"""
    P = Prf(h, 4, mask='none', xs=[0., .5, 1., 1.5])
    p = P.make()
    a, b = h.real('a', -3, 3), h.real('b', -3, 3)
    q = h.imt.Profile(h.np.array(P.xs, dtype=float), h.np.array([a + b * x for x in P.xs], dtype=float))
    for pos in (-1., 0., .6, 1., 1.5, 2.):
        h.eq(q.get_gradient(pos), b, 'slope of a line')
    h.eq(p.get_gradient(.5), P.y[2] - P.y[0], 'at a point')
    h.eq(p.get_gradient(.75, wanted_dx=.25), (P.y[2] - P.y[1]) / .5, 'between points')


@harness('C15', cases=grid(mode=['full', 'same', 'valid'], x0=[0., -2., 3.]))
def convolution(h, mode, x0):
    """discrete convolution of the values, on steps of the same length"""
    P = Prf(h, 4, 'p', mask='none', xs=[x0 + .5 * i for i in range(4)])
    Q = Prf(h, 3, 'q', mask='none', xs=[-1. + .5 * i for i in range(3)], uy='m')
    p, q = P.make(), Q.make()
    r = p.get_convolution(q, mode=mode)
    full = [sum(P.y[i] * Q.y[k - i] for i in range(4) if 0 <= k - i < 3) for k in range(6)]
    w = {'full': full, 'same': full[1:5], 'valid': full[2:4]}[mode]
    chk_prf(h, r, [.5 * i for i in range(len(w))], w, [False] * len(w), 'm',
            h.imt.make_unit('m/s') * h.imt.make_unit('m'), 'convolution', 1e-5)
    P.chk(p, 'first operand')
    Q.chk(q, 'second operand')


@harness('C15', cases=grid(dx=[.1, .5]))
def auto_correlation(h, dx):
    """one at the center, sums of products elsewhere"""
    n = 6
    P = Prf(h, n, mask='none', xs=[dx * i for i in range(n)])
    h.assume(P.y[1] > .5)
    p = P.make()
    r = p.get_auto_correlation(3)
    h.eq(r.x, h.np.array([dx * i for i in range(3)], dtype=float), 'abscissa')
    s = sum(P.y[i] * P.y[i] for i in range(1, 4))
    for k in range(3):
        h.check(h.close(r.y[k] * s, sum(P.y[i] * P.y[i + k - 1] for i in range(1, 4)), 1e-5), 'correlation')
    h.eq(r.y[1], 1., 'one at the center')
    chk_unit(h, r.unit_y, '', 'no unit')


@harness('C15', cases=grid(norm=[False, True]))
def shift_between_profiles(h, norm):
    """mean distance to the shifted profile, zero for the actual shift"""
    P = Prf(h, 2, 'p', mask='none', xs=[0., .5], lo=-4, hi=4)
    Q = Prf(h, 3, 'q', mask='none', xs=[2., 2.5, 3.], lo=-4, hi=4)
    p, q = P.make(), Q.make()
    r = p.get_convolution_of_difference(q, normalized=norm)
    long_ = [0.] + Q.y + [0.]
    ab = lambda v: h.ite(v < 0, -v, v)
    h.eq(r.x, h.np.array([1.5 + .5 * i for i in range(4)], dtype=float), 'shifts')
    for k in range(4):
        d = sum(ab(long_[k + i] - P.y[i]) for i in range(2)) / 2.
        nn = sum(ab(long_[k + i]) for i in range(2)) / 2.
        ok = h.close(r.y[k] * nn if norm else r.y[k], d, 1e-5)
        h.check(h.ite(nn == 0, r.mask[k], h.And(h.Not(r.mask[k]), ok)) if norm else ok, 'mean distance')


@harness('C15', cases=grid(up=[True, False]))
def extremum(h, up):
    """a parabola has one extremum, found at its place"""
    c = h.real('c', -.9, .9)
    a = h.real('a', .25, 4)
    a = a if up else -a
    xs = [-3., -2., -1., 0., 1., 2., 3.]
    p = h.imt.Profile(h.np.array(xs, dtype=float), h.np.array([a * (x - c) * (x - c) for x in xs], dtype=float))
    mn, mx = p.get_extrema_position()
    mn, mx = list(lst(mn)), list(lst(mx))
    good, none = (mn, mx) if up else (mx, mn)
    h.check(len(none) == 0 and len(good) == 1, 'one extremum')
    if len(good) == 1:
        h.eq(good[0], c, 'position', 1e-5)
