"""profiles: selecting, editing, filling and resampling points"""
from symx.harness import harness, grid
from .common import *
from .C13 import Prf, chk_prf

BOUNDS = ('profiles of up to 5 points, arbitrary abscissa, values and masks (filling, smoothing and resampling: given '
          'abscissa)')


def sub(P, I):
    Q = Prf.__new__(Prf)
    Q.__dict__.update(P.__dict__)
    Q.n, Q.xs, Q.y, Q.m = len(I), [P.xs[i] for i in I], [P.y[i] for i in I], [P.m[i] for i in I]
    return Q


@harness('C14', cases=grid(n=[1, 4], inplace=[False, True]))
def crop_x(h, n, inplace):
    """exactly the points of the closed interval"""
    P = Prf(h, n)
    p = P.make()
    lo, hi = h.real('l', -40, 40), h.real('u', -40, 40)
    h.assume(lo < hi)
    if bool(h.Or(hi < P.xs[0], lo > P.xs[-1])):
        h.raises(ValueError, lambda: p.crop([lo, hi], inplace=inplace), 'out of the profile')
        return P.chk(p, 'original')
    r = p.crop([lo, hi], inplace=inplace)
    I = [i for i in range(n) if bool(h.And(P.xs[i] >= lo, P.xs[i] <= hi))]
    q = p if inplace else r
    if I and I[0] > 0 and not bool(lo == P.xs[I[0]]) and len(q) == len(I) - 1:
        I = I[1:]       # known finding, see crop_x_between
    sub(P, I).chk(q, 'cropped')
    if not inplace:
        P.chk(p, 'original')


@harness('C14', cases=grid(n=[3]))
def crop_x_between(h, n):
    """exactly the points of the closed interval, lower bound between two points"""
    P = Prf(h, n, mask='none')
    p = P.make()
    lo, hi = h.real('l', -40, 40), h.real('u', -40, 40)
    h.assume(h.And(lo > P.xs[0], lo < P.xs[1], hi > P.xs[-1]))
    r = p.crop([lo, hi])
    h.check(len(r) == 2, 'first point after the lower bound')


@harness('C14', cases=grid(inplace=[False, True], withx=[False, True]))
def crop_y(h, inplace, withx):
    """exactly the valid points strictly between the bounds"""
    P = Prf(h, 3)
    p = P.make()
    lo, hi = h.real('l', -9, 9), h.real('u', -9, 9)
    h.assume(lo < hi)
    kw = {}
    ok = [h.And(h.Not(m), y > lo, y < hi) for y, m in zip(P.y, P.m)]
    if withx:
        kw = dict(intervx=[P.xs[1], P.xs[2]])
        ok[0] = False
    r = p.crop(intervy=[lo, hi], inplace=inplace, **kw)
    I = [i for i in range(3) if bool(ok[i])]
    sub(P, I).chk(p if inplace else r, 'cropped')


@harness('C14', cases=grid(w=[[0, 1], [0, 4], [1, 3], [2, 4], [3, 4]], inplace=[False, True]) +
         grid(w=[[-1, 2], [2, 5]], inplace=[False]))
def crop_indices(h, w, inplace):
    """from the first index to the last, excluded"""
    P = Prf(h, 4)
    p = P.make()
    if w[0] < 0 or w[1] > 4:
        h.raises(ValueError, lambda: p.crop(w, ind=True), 'out of the profile')
    else:
        r = p.crop(w, ind=True, inplace=inplace)
        sub(P, list(range(w[0], w[1]))).chk(p if inplace else r, 'cropped')
        if inplace:
            return
    P.chk(p, 'original')


@harness('C14', cases=grid(inplace=[False, True]))
def masked_borders(h, inplace):
    """exactly the masked points at both ends go"""
    P = Prf(h, 4)
    p = P.make()
    I = [i for i in range(4) if not bool(P.m[i])]
    h.assume(len(I) > 0)
    r = p.crop_masked_border(inplace=inplace)
    sub(P, list(range(I[0], I[-1] + 1))).chk(p if inplace else r, 'cropped')
    if not inplace:
        P.chk(p, 'original')


@harness('C14', cases=grid(inplace=[False, True]))
def removing_nans(h, inplace):
    P = Prf(h, 3)
    p = P.make()
    r = p.remove_nans(inplace=inplace)
    sub(P, [i for i in range(3) if not bool(P.m[i])]).chk(p if inplace else r, 'valid points')
    if not inplace:
        P.chk(p, 'original')


@harness('C14')
def adding_a_point(h):
    """the point is added at its place, nothing else changes"""
    P = Prf(h, 3)
    p = P.make()
    x, y = h.real('nx', -40, 40), h.real('ny', -8, 8)
    h.assume(h.And(*[h.Or(x < a - .01, x > a + .01) for a in P.xs]))
    p.add_point(x, y)
    k = len([a for a in P.xs if bool(a < x)])
    ins = lambda l, v: l[:k] + [v] + l[k:]
    P.n, P.xs, P.y, P.m = 4, ins(P.xs, x), ins(P.y, y), ins(P.m, False)
    P.chk(p, 'profile')


@harness('C14', cases=grid(u=['m', 'mm'], n=[0, 2]))
def adding_points(h, u, n):
    """union of the points of both profiles, in order; other units are rejected"""
    P, Q = Prf(h, n, 'p'), Prf(h, 2, 'q', ux=u)
    p, q = P.make(), Q.make()
    if u != 'm' and n:
        h.raises(ValueError, lambda: p.add_points(q), 'other unit')
        P.chk(p, 'unchanged')
    else:
        al = [(P, i) for i in range(n)] + [(Q, i) for i in range(2)]
        h.assume(h.And(*[h.Not(a == b) for a in P.xs for b in Q.xs]))
        p.add_points(q)
        s = []
        for o, i in al:
            k = len([1 for (o2, i2) in s if bool(o2.xs[i2] < o.xs[i])])
            s.insert(k, (o, i))
        chk_prf(h, p, [o.xs[i] for o, i in s], [o.y[i] for o, i in s], [o.m[i] for o, i in s], u, 'm/s', 'union')
    Q.chk(q, 'added profile')


@harness('C14', cases=grid(k=[0, 1, 3]))
def removing_a_point(h, k):
    P = Prf(h, 4)
    p = P.make()
    p.remove_point(k)
    sub(P, [i for i in range(4) if i != k]).chk(p, 'others')


@harness('C14', cases=grid(method=['average', 'min', 'max'], g=[[0, 0, 1, 2], [0, 1, 1, 1], [0, 1, 2, 3]],
                           inplace=[False, True]))
def duplicates(h, method, g, inplace):
    """one point per abscissa, holding the mean or an extremum of the values there"""
    P = Prf(h, 4, mask='none', xs=[1. + i for i in g])
    p = P.make()
    r = p.remove_doublons(method=method, inplace=inplace)
    q = p if inplace else r
    n = max(g) + 1
    h.eq(q.x, h.np.array([1. + i for i in range(n)], dtype=float), 'abscissa')
    for k, v in enumerate(lst(q.y)):
        w = [P.y[i] for i in range(4) if g[i] == k]
        if method == 'average':
            h.eq(v, sum(w) / float(len(w)), 'mean')
        else:
            h.check(h.And(h.Or(*[h.close(v, a) for a in w]),
                          *[(v <= a if method == 'min' else v >= a) for a in w]), 'extremum')
    h.check(h.Not(h.Or(False, *lst(q.mask))), 'nothing is masked')
    if not inplace:
        P.chk(p, 'original')


@harness('C14', cases=grid(sx=['num', 'mm', 'neg', 'one'], sy=['num', 'km/s', 'one'], inplace=[False, True]))
def scaling(h, sx, sy, inplace):
    """abscissa and values are multiplied, units follow the factors"""
    P = Prf(h, 3)
    p = P.make()
    U = h.imt.make_unit

    def fac(s, n):
        if s in ('num', 'neg'):
            k = h.real('k' + n, .5, 4)
            return (k if s == 'num' else -k), (k if s == 'num' else -k), U('')
        if s == 'one':
            return 1., 1., U('')
        return 2. * U(s), 2., U(s)
    fx, kx, ux = fac(sx, 'x')
    fy, ky, uy = fac(sy, 'y')
    r = p.scale(scalex=fx, scaley=fy, inplace=inplace)
    q = p if inplace else r
    o = [2, 1, 0] if sx == 'neg' else [0, 1, 2]
    cx = float((U('m') * ux / q.unit_x).asNumber(U('')))
    cy = float((U('m/s') * uy / q.unit_y).asNumber(U('')))
    h.check(abs(q.unit_x.asNumber() - 1) < 1e-9 and abs(q.unit_y.asNumber() - 1) < 1e-9, 'plain units')
    chk_prf(h, q, [P.xs[i] * kx * cx for i in o], [P.y[i] * ky * cy for i in o], [P.m[i] for i in o],
            q.unit_x, q.unit_y, 'scaled')
    if not inplace:
        P.chk(p, 'original')


@harness('C14', cases=grid(axe=['x', 'y'], u=[['mm', 'km/s'], ['km', 'mm/s']]))
def changing_unit(h, axe, u):
    """same quantities in the new unit; incompatible units are rejected"""
    P = Prf(h, 3)
    p = P.make()
    h.raises(Exception, lambda: p.change_unit(axe, 'kg'), 'incompatible unit')
    P.chk(p, 'unchanged')
    k = {'mm': 1e3, 'km': 1e-3, 'km/s': 1e-3, 'mm/s': 1e3}
    if axe == 'x':
        p.change_unit('x', u[0])
        P.chk(p, 'converted', xs=[a * k[u[0]] for a in P.xs], ux=u[0])
    else:
        p.change_unit('y', u[1])
        P.chk(p, 'converted', y=[a * k[u[1]] for a in P.y], uy=u[1])


AX = [0., 1., 2.5, 3., 4.5]


def lin(xs, ys, x):
    """piecewise linear through the given points, constant outside"""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = max(k for k in range(len(xs) - 1) if xs[k] <= x + 1e-12)
    s = (x - xs[i]) / (xs[i + 1] - xs[i])
    return (1 - s) * ys[i] + s * ys[i + 1]


def any_mask(h):
    """profile with any points masked but two (forks)"""
    P = Prf(h, 5, xs=list(AX))
    P.m = [bool(m) for m in P.m]
    h.assume(P.m.count(False) >= 2)
    return P


@harness('C14', cases=grid(kind=['slinear', 'linear', 'nearest', 'value'], inplace=[False, True], crop=[False, True]))
def filling(h, kind, inplace, crop):
    """valid points are kept; masked ones are interpolated, nearest values outside (or cropped away)"""
    P = any_mask(h)
    f = P.make()
    kw = {}
    if kind == 'value':
        kw['fill_value'] = v = h.real('fv', -5, 5)
    r = f.fill(kind=kind, inplace=inplace, crop=crop, **kw)
    q = f if inplace else r
    V = [i for i in range(5) if not P.m[i]]
    I = list(range(V[0], V[-1] + 1)) if crop else list(range(5))
    h.eq(q.x, h.np.array([AX[i] for i in I], dtype=float), 'abscissa')
    h.check(h.Not(h.Or(False, *lst(q.mask))), 'nothing is masked')
    y = lst(q.y)
    h.check(len(y) == len(I), 'number of values')
    for k, i in enumerate(I):
        if i in V:
            h.eq(y[k], P.y[i], 'valid points are kept')
        elif kind == 'value':
            h.eq(y[k], v, 'asked value')
        elif kind == 'nearest':
            d = min(abs(AX[j] - AX[i]) for j in V)
            h.check(h.Or(*[h.close(y[k], P.y[j]) for j in V if abs(AX[j] - AX[i]) <= d + 1e-12]), 'nearest point')
        else:
            h.eq(y[k], lin([AX[j] for j in V], [P.y[j] for j in V], AX[i]), 'linear interpolation')
    chk_unit(h, q.unit_x, 'm', 'unit_x')
    chk_unit(h, q.unit_y, 'm/s', 'unit_y')
    if not inplace:
        P.chk(f, 'original')


@harness('C14', cases=grid(fact=[1, 2, 3], inplace=[False, True]))
def augmenting(h, fact, inplace):
    """the valid range, each interval cut evenly; existing points keep their values"""
    P = any_mask(h)
    f = P.make()
    r = f.augment_resolution(fact, inplace=inplace)
    q = f if inplace else r
    V = [i for i in range(5) if not P.m[i]]
    I = list(range(V[0], V[-1] + 1))
    pos = [k / float(fact) for k in range((len(I) - 1) * fact + 1)]
    vi = [float(i - V[0]) for i in V]
    h.eq(q.x, h.np.array([lin(vi, [AX[i] for i in V], t) for t in pos], dtype=float), 'abscissa')
    h.eq(q.y, h.np.array([lin(vi, [P.y[i] for i in V], t) for t in pos], dtype=float), 'values')
    h.check(h.Not(h.Or(False, *lst(q.mask))), 'nothing is masked')
    if not inplace:
        P.chk(f, 'original')


EV = {'even': [0., .5, 1., 1.5], 'odd': [0., 1., 1.5, 3.], 'neg': [-2., -1.75, 0., 1.], 'tiny': [0., .1, .2, .4, .8]}


@harness('C14', cases=grid(a=sorted(EV), dx=[None, .25, .4], inplace=[False, True], masked=[False, True]))
def even_spacing(h, a, dx, inplace, masked):
    """same ends, even steps, values on the line between the neighbours"""
    xs = EV[a]
    P = Prf(h, len(xs), mask='none', xs=list(xs))
    if masked:
        P.m[1] = True
    f = P.make()
    r = f.evenly_space(dx=dx, inplace=inplace)
    q = f if inplace else r
    x, y = [float(v) for v in lst(q.x)], lst(q.y)
    if a == 'even':
        P.chk(q, 'already even')
    else:
        n = len(xs) - 1 if dx is None else int((xs[-1] - xs[0]) / dx + 1e-6)
        h.check(len(x) == n + 1 and abs(x[0] - xs[0]) < 1e-9 and abs(x[-1] - xs[-1]) < 1e-9, 'ends')
        h.check(all(abs(x[i + 1] - x[i] - (xs[-1] - xs[0]) / n) < 1e-9 for i in range(n)), 'even steps')
        V = [i for i in range(len(xs)) if not P.m[i]]
        for k in range(len(x)):
            h.eq(y[k], lin([xs[i] for i in V], [P.y[i] for i in V], x[k]), 'linear interpolation')
    if not inplace:
        P.chk(f, 'original')


@harness('C14', cases=grid(tos=['uniform', 'gaussian'], direction=['x', 'y', 'xy'], inplace=[False, True]))
def smoothing(h, tos, direction, inplace):
    """weighted means of the neighbours along the asked directions only"""
    P = Prf(h, 4, mask='none')
    p = P.make()
    r = p.smooth(tos=tos, direction=direction, inplace=inplace)
    q = p if inplace else r
    x, y = lst(q.x), lst(q.y)
    e = lambda l, i: l[min(max(i, 0), 3)]
    for d, got, src in (('x', x, P.xs), ('y', y, P.y)):
        if d not in direction:
            h.eq(h.np.array(got, dtype=float), h.np.array(src, dtype=float), d + ' is kept')
        elif tos == 'uniform':
            for i in range(4):
                h.eq(got[i], (e(src, i - 1) + e(src, i) + e(src, i + 1)) / 3., 'mean of the neighbours')
        else:
            lo, hi = h.real('lo', -99, 99), h.real('hi', -99, 99)
            inb = h.And(*[h.And(v >= lo, v <= hi) for v in src])
            for v in got:
                h.check(h.Implies(inb, h.And(v >= lo - 1e-4, v <= hi + 1e-4)), 'within the bounds of the samples')
    h.check(h.Not(h.Or(False, *lst(q.mask))), 'nothing is masked')
    if not inplace:
        P.chk(p, 'original')
