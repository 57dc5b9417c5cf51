"""points, oriented points and their temporal sets"""
from symx.harness import harness, grid
from .common import *
from .C13 import chk_prf

BOUNDS = ('up to 4 points with arbitrary coordinates, values and orientations, units m, mm, km, s; '
          'up to 3 sets of points at arbitrary times')


class Pts(object):
    """raw data of a cloud of points"""

    def __init__(self, h, n, name='p', v=True, ori=0, u=('m', 'mm', 's'), lo=-8, hi=8):
        self.h, self.n, self.u = h, n, u
        R = lambda s: h.real(name + s, lo, hi)
        self.x = [R('x%d' % i) for i in range(n)]
        self.y = [R('y%d' % i) for i in range(n)]
        self.v = [R('v%d' % i) for i in range(n)] if v else []
        self.o = [[[R('o%d_%d_%d' % (i, k, c)) for c in range(2)] for k in range(ori)] for i in range(n)]
        self.ori = ori

    def make(self):
        h, u = self.h, self.u
        xy = h.np.array([[a, b] for a, b in zip(self.x, self.y)], dtype=float)
        v = h.np.array(self.v, dtype=float)
        if self.ori:
            return h.imt.OrientedPoints(xy, h.np.array(self.o, dtype=float), v, unit_x=u[0], unit_y=u[1], unit_v=u[2],
                                        name='cloud')
        return h.imt.Points(xy, v, unit_x=u[0], unit_y=u[1], unit_v=u[2], name='cloud')

    def chk(self, p, label, I=None, x=None, y=None, v=None, u=None, o=None, tol=None):
        I = range(self.n) if I is None else I
        d = lambda a, b: [b[i] for i in I] if a is None else a
        chk_pts(self.h, p, d(x, self.x), d(y, self.y), d(v, self.v) if self.v or v else [], u or self.u, label,
                d(o, self.o) if self.ori else None, tol)


def chk_pts(h, p, x, y, v, u, label, o=None, tol=None):
    h.check(len(p) == len(x) and len(p.xy) == len(x), label + ': number of points')
    if len(x):
        h.check(tuple(p.xy.shape) == (len(x), 2), label + ': shape')
        h.eq(p.xy[:, 0], h.np.array(x, dtype=float), label + ': x', tol)
        h.eq(p.xy[:, 1], h.np.array(y, dtype=float), label + ': y', tol)
    h.check(len(p.v) == len(v), label + ': number of values')
    if len(v):
        h.eq(p.v, h.np.array(v, dtype=float), label + ': v', tol)
    if o is not None:
        h.check(len(p.orientations) == len(x), label + ': number of orientations')
        if len(x):
            h.eq(p.orientations, h.np.array(o, dtype=float), label + ': orientations', tol)
    for got, want, n in zip((p.unit_x, p.unit_y, p.unit_v), u, 'xyv'):
        if n != 'v' or len(v):
            chk_unit(h, got, want, label + ' unit_' + n)


@harness('C16', cases=grid(v=[True, False], ori=[0, 2]))
def construction(h, v, ori):
    """one coordinate pair, value, orientation per point; copies and given arrays are independent"""
    P = Pts(h, 3, v=v, ori=ori)
    xy = h.np.array([[a, b] for a, b in zip(P.x, P.y)], dtype=float)
    vv = h.np.array(P.v, dtype=float)
    oo = h.np.array(P.o, dtype=float)
    kw = dict(unit_x='m', unit_y='mm', unit_v='s')
    p = h.imt.OrientedPoints(xy, oo, vv, **kw) if ori else h.imt.Points(xy, vv, **kw)
    P.chk(p, 'points')
    xy[0, 0] = xy[0, 0] + 1.
    if v:
        vv[0] = vv[0] + 1.
    if ori:
        oo[0, 0, 0] = oo[0, 0, 0] + 1.
    P.chk(p, 'after a change of the given arrays')
    c = p.copy()
    P.chk(c, 'copy')
    c.xy[1, 0] = c.xy[1, 0] + 1.
    c.unit_x = 's'
    if v:
        c.v[1] = c.v[1] + 1.
    if ori:
        c.orientations[1, 0, 0] = 0.
    P.chk(p, 'after a change of the copy')
    for i, pt in enumerate(p):
        if not v and not ori:
            pt = (pt,)
        h.eq(pt[0], h.np.array([P.x[i], P.y[i]], dtype=float), 'iteration: position')
        if v:
            h.eq(pt[1], P.v[i], 'iteration: value')
        if ori:
            h.eq(pt[-1], h.np.array(P.o[i], dtype=float), 'iteration: orientations')
    h.check(len(list(p)) == 3, 'iteration: number of points')
    e = h.imt.Points()
    h.check(len(e) == 0 and len(e.v) == 0, 'no point')
    h.raises(ValueError, lambda: h.imt.Points([[1., 2.], [3., 4.]], [1., 2., 3.]), 'more values than points')


@harness('C16', cases=grid(v=[True, False], ori=[0, 1], u=[['m', 'mm', 's'], ['mm', 'km', 'h'], ['km', 'm', 's']],
                           e=['', 'first', 'second']))
def concatenation(h, v, ori, u, e):
    """points of the first operand then converted ones of the second; nothing modified"""
    if e and u[0] != 'km':
        u = ['mm', 'km', 's']
    P = Pts(h, 0 if e == 'first' else 2, 'p', v=v, ori=ori)
    Q = Pts(h, 0 if e == 'second' else 2, 'q', v=v, ori=ori, u=u)
    empty = h.imt.OrientedPoints if ori else h.imt.Points
    if e == 'first':
        p, q = empty(), Q.make()
    elif e == 'second':
        p, q = P.make(), empty()
    else:
        p, q = P.make(), Q.make()
    r = p + q
    if P.n:
        P.chk(p, 'first operand')
    if Q.n:
        Q.chk(q, 'second operand')
    if e == 'first':
        Q.chk(r, 'sum')
    elif e == 'second':
        P.chk(r, 'sum')
    else:
        U = h.imt.make_unit
        k = [float((U(b) / U(a)).asNumber(U(''))) for a, b in zip(P.u, u)]
        P.chk(r, 'sum', x=P.x + [k[0] * a for a in Q.x], y=P.y + [k[1] * a for a in Q.y],
              v=P.v + [k[2] * a for a in Q.v], o=P.o + Q.o, tol=1e-6)
    if r is not p and len(r):
        r.xy[0, 0] = r.xy[0, 0] + 1.
        if len(p):
            h.eq(p.xy[0, 0], P.x[0], 'result not shared')
        elif len(q):
            h.eq(q.xy[0, 0], Q.x[0], 'result not shared')


@harness('C16', cases=grid(k=[0, 1, 2]))
def concatenation_of_inconsistent_units(h, k):
    """refused"""
    u = ['m', 'mm', 's']
    w = list(u)
    w[k] = ['s', 'Hz', 'm'][k]
    P, Q = Pts(h, 2, 'p', u=u), Pts(h, 2, 'q', u=w)
    p, q = P.make(), Q.make()
    h.raises(Exception, lambda: p + q, 'inconsistent units')
    P.chk(p, 'first operand')
    Q.chk(q, 'second operand')


@harness('C16', cases=grid(v=[True, False]))
def equality(h, v):
    """equal exactly if all coordinates and values are"""
    P, Q = Pts(h, 2, 'p', v=v), Pts(h, 2, 'q', v=v)
    r = P.make() == Q.make()
    h.check(h.Iff(bool(r), h.And(*[a == b for a, b in zip(P.x + P.y + P.v, Q.x + Q.y + Q.v)])), 'equality')
    Q.u = ('m', 'm', 's')
    Q.x, Q.y, Q.v = P.x, P.y, P.v
    h.check(not bool(P.make() == Q.make()), 'other unit')
    h.check(not bool(P.make() == 3.), 'other kind')


@harness('C16', cases=grid(v=[True, False], ori=[0, 2], n=[0, 2]))
def adding_a_point(h, v, ori, n):
    """at the end, others unchanged; a missing or superfluous value is refused, without effect"""
    if not n and ori:
        P = Pts(h, 0, v=v)
        p = h.imt.OrientedPoints(unit_x='m', unit_y='mm', unit_v='s')
    else:
        P = Pts(h, n, v=v, ori=ori)
        p = P.make() if n else h.imt.Points(unit_x='m', unit_y='mm', unit_v='s')
    P.ori = ori
    N = Pts(h, 1, 'n', v=v, ori=ori)
    a = [[N.x[0], N.y[0]]] + ([N.o[0]] if ori else [])
    if n:
        h.raises(ValueError, lambda: p.add(*a, v=None if v else 1.), 'value missing or superfluous')
        P.chk(p, 'after a refused point')
    p.add(*a, v=N.v[0] if v else None)
    P.chk(p, 'points', x=P.x + N.x, y=P.y + N.y, v=P.v + N.v, o=P.o + N.o)


@harness('C16', cases=grid(v=[True, False], ori=[0, 2], many=[False, True]))
def removing_points(h, v, ori, many):
    """exactly the asked ones, the others keep value and orientations"""
    n = 4
    P = Pts(h, n, v=v, ori=ori)
    p = P.make()
    k = int(h.integer('k', 0, n - 1))
    l = int(h.integer('l', 0, n - 1)) if many else k
    p.remove([k, l] if many else k)
    P.chk(p, 'points', I=[i for i in range(n) if i not in (k, l)])


@harness('C16', cases=grid(v=[True, False], ori=[0, 1], inplace=[True, False]))
def removing_nans(h, v, ori, inplace):
    """points with a coordinate or a value that is not a number, and no other"""
    n = 3
    P = Pts(h, n, v=v, ori=ori)
    bad = set()
    for i in range(n):
        for l, s in ((P.x, 'x'), (P.y, 'y')) + (((P.v, 'v'),) if v else ()):
            if (i, s) in ((0, 'x'), (1, 'y'), (1, 'v'), (2, 'v'), (2, 'x')) and bool(h.boolean('n%s%d' % (s, i))):
                l[i] = NAN
                bad.add(i)
    p = P.make()
    r = p.remove_nans(inplace=inplace)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = p
    else:
        h.check(len(p) == n, 'original unchanged')
    P.chk(r, 'points', I=[i for i in range(n) if i not in bad])


@harness('C16', cases=grid(v=[True, False], ori=[0, 1], inplace=[True, False], on=['x', 'y', 'v', 'xy', 'xyv', '']))
def cropping(h, v, ori, inplace, on):
    """exactly the points with all coordinates in the closed intervals"""
    n = 2
    P = Pts(h, n, v=v, ori=ori)
    p = P.make()
    kw, lim = {}, {}
    for c in on:
        a, b = h.real('lo' + c, -8, 8), h.real('hi' + c, -8, 8)
        h.assume(a <= b)
        kw['interv' + c] = [a, b]
        lim[c] = (a, b)
    r = p.crop(inplace=inplace, **kw)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = p
    else:
        P.chk(p, 'original')
    src = dict(x=P.x, y=P.y, v=P.v)
    keep = [i for i in range(n) if bool(h.And(*[h.And(src[c][i] >= a, src[c][i] <= b) for c, (a, b) in lim.items()
                                                  if c != 'v' or v]))]
    P.chk(r, 'points', I=keep)


@harness('C16', cases=grid(v=[True, False]))
def cropping_indices(h, v):
    """points from the first index to the last one, excluded"""
    P = Pts(h, 4, v=v)
    p = P.make()
    a, b = int(h.integer('a', 0, 3)), int(h.integer('b', 1, 4))
    h.assume(a < b)
    r = p.crop(intervv=[a, b], ind=True, inplace=False)
    P.chk(r, 'points', I=list(range(a, b)))
    P.chk(p, 'original')


@harness('C16', cases=grid(v=[True, False], ori=[0, 1], on=['x', 'y', 'xy']))
def cutting(h, v, ori, on):
    """the points strictly inside of the window are removed"""
    n = 2
    P = Pts(h, n, v=v, ori=ori)
    p = P.make()
    kw, lim = {}, {}
    for c in on:
        a, b = h.real('lo' + c, -8, 8), h.real('hi' + c, -8, 8)
        h.assume(a <= b)
        kw['interv' + c] = [a, b]
        lim[c] = (a, b)
    r = p.cut(**kw)
    src = dict(x=P.x, y=P.y)
    keep = [i for i in range(n) if not bool(h.And(*[h.And(src[c][i] > a, src[c][i] < b) for c, (a, b) in lim.items()]))]
    P.chk(r, 'points', I=keep)
    P.chk(p, 'original')


@harness('C16', cases=grid(v=[True, False], q=['', 'x', 'y', 'v'], inplace=[True, False]))
def scaling(h, v, q, inplace):
    """each coordinate times its factor, units included"""
    P = Pts(h, 2, v=v)
    p = P.make()
    U = h.imt.make_unit
    s = dict((c, h.real('s' + c, .25, 4)) for c in 'xyv')
    kw = dict(('scale' + c, s[c]) for c in 'xyv')
    u, k = list(P.u), dict(x=1., y=1., v=1.)
    if q:
        kw['scale' + q] = 2.5 * U('mm')
        s[q] = 2.5
        i = 'xyv'.index(q)
        want = U(P.u[i]) * U('mm')
    r = p.scale(inplace=inplace, **kw)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = p
    else:
        P.chk(p, 'original')
    if q:
        got = (r.unit_x, r.unit_y, r.unit_v)[i]
        try:
            k[q] = float((want / got).asNumber(U('')))
        except Exception:
            h.check(False, 'dimension of the unit')
        u[i] = got
    P.chk(r, 'points', x=[a * s['x'] * k['x'] for a in P.x], y=[a * s['y'] * k['y'] for a in P.y],
          v=[a * s['v'] * k['v'] for a in P.v], u=u, tol=1e-6)


@harness('C16', cases=grid(inplace=[True, False], a=[0., .5, 1.5707963267948966, 2., -.75, 4.]))
def rotation(h, inplace, a):
    """trigonometric rotation around the origin"""
    import math
    P = Pts(h, 2, u=('m', 'm', 's'))
    p = P.make()
    r = p.rotate(a, inplace=inplace)
    h.check((r is p) == inplace, 'in place or not')
    c, s = math.cos(a), math.sin(a)
    P.chk(r, 'points', x=[c * x - s * y for x, y in zip(P.x, P.y)], y=[s * x + c * y for x, y in zip(P.x, P.y)],
          tol=1e-6)
    if not inplace:
        P.chk(p, 'original')


@harness('C16', cases=grid(v=[True, False]))
def reversing(h, v):
    """coordinates and units exchanged"""
    P = Pts(h, 2, v=v)
    p = P.make()
    r = p.reverse()
    P.chk(r, 'points', x=P.y, y=P.x, u=(P.u[1], P.u[0], P.u[2]))
    P.chk(p, 'original')


@harness('C16', cases=grid(ori=[0, 1]))
def decomposing(h, ori):
    """one set per point, in order"""
    P = Pts(h, 3, ori=ori)
    r = P.make().decompose()
    h.check(len(r) == 3, 'number of sets')
    for i, q in enumerate(r):
        P.chk(q, 'point', I=[i])


@harness('C16', cases=grid(ref=['x', 'y', 'v', [2, 0, 1], [1, 0, 2]], v=[True, False], ori=[0, 1], inplace=[True, False]))
def sorting(h, ref, v, ori, inplace):
    """permutation of the points, ordered along the coordinate or as asked"""
    P = Pts(h, 3, v=v, ori=ori)
    p = P.make()
    if ref == 'v' and not v:
        return h.raises(ValueError, lambda: p.sort(ref=ref), 'no value')
    key = dict(x=P.x, y=P.y, v=P.v)[ref] if isinstance(ref, str) else None
    if key:
        for i in range(3):
            for j in range(i):
                h.assume(key[i] != key[j])
    r = p.sort(ref=ref, inplace=inplace)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = p
    else:
        P.chk(p, 'original')
    if key is None:
        return P.chk(r, 'points', I=ref)
    o = [0]
    for i in (1, 2):
        k = 0
        while k < len(o) and bool(key[o[k]] < key[i]):
            k += 1
        o.insert(k, i)
    P.chk(r, 'points', I=o)


@harness('C16', cases=grid(axe=['x', 'y', 'v'], new=[0, 1]))
def unit_change(h, axe, new):
    """same positions, in the other unit; inconsistent units refused"""
    P = Pts(h, 2)
    p = P.make()
    i = 'xyv'.index(axe)
    n = [['km', 'mm'], ['m', 'km'], ['h', 'ms']][i][new]
    U = h.imt.make_unit
    k = float((U(P.u[i]) / U(n)).asNumber(U('')))
    p.change_unit(axe, n)
    u = list(P.u)
    u[i] = n
    f = [1., 1., 1.]
    f[i] = k
    P.chk(p, 'points', x=[a * f[0] for a in P.x], y=[a * f[1] for a in P.y], v=[a * f[2] for a in P.v], u=u, tol=1e-6)
    q = P.make()
    h.raises(Exception, lambda: q.change_unit(axe, 'kg'), 'inconsistent unit')
    P.chk(q, 'after a refused change')


@harness('C16', cases=grid(on=['x', 'y', 'xy', '']))
def origin(h, on):
    """translation of all the points"""
    P = Pts(h, 3)
    p = P.make()
    d = dict((c, h.real('d' + c, -8, 8)) for c in on)
    p.set_origin(**d)
    P.chk(p, 'points', x=[a - d.get('x', 0.) for a in P.x], y=[a - d.get('y', 0.) for a in P.y])


@harness('C16', cases=grid(method=['average', 'min', 'max'], inplace=[True, False]))
def merging(h, method, inplace):
    """points with the same value are merged, the others kept, ordered along the values"""
    P = Pts(h, 4)
    P.v = [2., 1., 2., 3.]
    p = P.make()
    r = p.remove_doublons(method=method, inplace=inplace)
    if inplace:
        r = p
    else:
        P.chk(p, 'original')
    f = dict(average=lambda a, b: (a + b) / 2., min=lambda a, b: h.ite(a < b, a, b),
             max=lambda a, b: h.ite(a > b, a, b))[method]
    P.chk(r, 'points', x=[P.x[1], f(P.x[0], P.x[2]), P.x[3]], y=[P.y[1], f(P.y[0], P.y[2]), P.y[3]], v=[1., 2., 3.],
          tol=1e-6)


@harness('C16', cases=grid(v=[True, False], fact=[2, 3], inplace=[True, False]))
def more_points(h, v, fact, inplace):
    """original points, and points evenly set on the segments between them"""
    P = Pts(h, 3, v=v)
    p = P.make()
    r = p.augment_resolution(fact=fact, inplace=inplace)
    r = p if inplace else r
    if not inplace:
        P.chk(p, 'original')

    def fill(l):
        return [l[i] + (l[i + 1] - l[i]) * (k / float(fact)) for i in range(2) for k in range(fact)] + [l[2]]
    P.chk(r, 'points', x=fill(P.x), y=fill(P.y), v=fill(P.v) if v else [], tol=1e-6)


@harness('C16', cases=grid(v=[True, False], inplace=[True, False], tos=['uniform', 'gaussian']))
def smoothing(h, v, inplace, tos):
    """uniform: mean of the neighbours (last point repeated); within the bounds of the coordinates"""
    P = Pts(h, 4, v=v)
    p = P.make()
    r = p.smooth(tos=tos, size=3 if tos == 'uniform' else 1, inplace=inplace)
    r = p if inplace else r
    if not inplace:
        P.chk(p, 'original')
    if tos == 'uniform':
        def sm(l):
            e = [l[0]] + l + [l[-1]]
            return [(e[i] + e[i + 1] + e[i + 2]) / 3. for i in range(len(l))]
        return P.chk(r, 'points', x=sm(P.x), y=sm(P.y), v=sm(P.v) if v else [], tol=1e-6)
    h.check(len(r) == 4 and len(r.v) == len(P.v), 'number of points')
    for got, src in ((r.xy[:, 0], P.x), (r.xy[:, 1], P.y), (r.v, P.v)):
        for g in lst(got):
            h.check(h.And(h.Or(*[g <= s + 1e-6 for s in src]), h.Or(*[g >= s - 1e-6 for s in src])), 'within the bounds')


@harness('C16', cases=grid(ax=['x', 'y', 'v'], ay=['x', 'y', 'v']))
def as_profile(h, ax, ay):
    """asked coordinates, with their units"""
    P = Pts(h, 3)
    s = dict(x=P.x, y=P.y, v=P.v)
    u = dict(x=P.u[0], y=P.u[1], v=P.u[2])
    for i in range(2):
        h.assume(s[ax][i] < s[ax][i + 1])
    r = P.make().export_to_profile(axe_x=ax, axe_y=ay)
    chk_prf(h, r, s[ax], s[ay], [False] * 3, u[ax], u[ay], 'profile')


@harness('C16', cases=grid(xaxis=['time', 'x', 'y'], u=[['m', 'mm', 's'], ['mm', 'km', 'h']],
                           o=[[1, 0, 2], [1, 2, 0], [2, 0, 1]]))
def velocity(h, xaxis, u, o):
    """displacement over duration between successive instants, whatever the order of the points"""
    P = Pts(h, 3, u=u)
    h.assume(P.v[o[0]] + .25 <= P.v[o[1]])
    h.assume(P.v[o[1]] + .25 <= P.v[o[2]])
    x, y, t = [[l[i] for i in o] for l in (P.x, P.y, P.v)]
    ab = dict(time=t, x=x, y=y)[xaxis]
    mid = [(ab[i] + ab[i + 1]) / 2. for i in range(2)]
    h.assume(mid[0] < mid[1])
    p = P.make()
    r = p.get_velocity(xaxis=xaxis)
    P.chk(p, 'points')
    U = h.imt.make_unit
    ua = dict(time=u[2], x=u[0], y=u[1])[xaxis]
    for prof, l, un in ((r[0], x, u[0]), (r[1], y, u[1])):
        w = U(un) / U(u[2])
        try:
            k = float((w / prof.unit_y).asNumber(U('')))
        except Exception:
            h.check(False, 'unit of a velocity')
        h.eq(prof.x, h.np.array(mid, dtype=float), 'middle of the segments', 1e-6)
        for i in range(2):
            h.check(h.close(prof.y[i] * (t[i + 1] - t[i]), k * (l[i + 1] - l[i]), 1e-5 * max(1., abs(k))), 'velocity')
        h.check(h.Not(h.Or(*lst(prof.mask))), 'no masked point')
        chk_unit(h, prof.unit_x, ua, 'abscissa')


def affine(F):
    """makes the values of a field on [0, 1]x[0, 1] affine"""
    F.vx[1][1] = F.vx[0][1] + F.vx[1][0] - F.vx[0][0]


@harness('C16', cases=grid(axe=[None, 'v', 'x', 'y'], v=[True, False]))
def values_on_a_field(h, axe, v):
    """interpolated values of the field at the points (exact for affine data), along the asked coordinate; masked where the field has none"""
    P = Pts(h, 2, v=v, lo=0, hi=1)
    F = Fld(h, 2, 2, mask='some')
    F.xs, F.ys = [0., 1.], [0., 1.]
    affine(F)
    sf, p = F.make(), P.make()
    if axe == 'v' and not v:
        return h.raises(ValueError, lambda: p.get_evolution_on_sf(sf, axe_x=axe), 'no value')
    key = axe or ('v' if v else 'x')
    s, u = dict(x=P.x, y=P.y, v=P.v)[key], dict(zip('xyv', P.u))[key]
    h.assume(s[0] < s[1])
    for c in P.x + P.y:
        h.assume(h.And(c > .01, c < .99))
    r = p.get_evolution_on_sf(sf, axe_x=axe)
    m = h.Or(*[q for l in F.m for q in l])
    w = [sum(F.vx[i][j] * (x if i else 1. - x) * (y if j else 1. - y) for i in range(2) for j in range(2))
         for x, y in zip(P.x, P.y)]
    chk_prf(h, r, s, w, [m] * 2, u, 'm/s', 'profile', 1e-5)


@harness('C16', cases=grid(axe=['v', 'x', 'y']))
def values_on_fields(h, axe):
    """each point is read on the field of its own time"""
    P = Pts(h, 2, lo=0, hi=1)
    P.v = [3., 1.]
    _, F, ts = mk_tf(h, 'sf', 2, 2, 2, mask='none', times=[1., 3.])
    tf = h.imt.TemporalScalarFields()
    for f, t in zip(F, ts):
        f.xs, f.ys = [0., 1.], [0., 1.]
        affine(f)
        tf.add_field(f.make(), time=t, unit_times='s')
    s, u = dict(x=P.x, y=P.y, v=P.v)[axe], dict(zip('xyv', P.u))[axe]
    h.assume(s[0] > s[1])
    for c in P.x + P.y:
        h.assume(h.And(c > .01, c < .99))
    r = P.make().get_evolution_on_tsf(tf, axe_x=axe)
    w = [sum(f.vx[i][j] * (x if i else 1. - x) * (y if j else 1. - y) for i in range(2) for j in range(2))
         for x, y, f in zip(P.x, P.y, F[::-1])]
    chk_prf(h, r, s[::-1], w[::-1], [False] * 2, u, 'm/s', 'profile', 1e-5)


@harness('C16', cases=grid(pond=[False, True], raw=[False, True], res=[2, [3, 2]]))
def density(h, pond, raw, res):
    """each point counts once, in the cell of its nearest node, over the area of a cell"""
    P = Pts(h, 4)
    P.x = [0., 4.] + P.x[2:]
    P.y = [2., 0.] + P.y[2:]
    for l, t in ((P.x, 4.), (P.y, 2.)):
        for c in l[2:]:
            h.assume(h.And(c >= 0., c <= t))
            h.assume(h.And(c != t / 4., c != t / 2., c != 3 * t / 4.))
    p = P.make()
    r = p.get_points_density2(res, raw=raw, ponderated=pond)
    P.chk(p, 'points')
    nx, ny = (2, 2) if res == 2 else res
    dx, dy = 4. / (nx - 1), 2. / (ny - 1)
    U = h.imt.make_unit
    k = 1.
    if not raw:
        h.eq(r.axe_x, h.np.array([dx * i for i in range(nx)], dtype=float), 'x axis')
        h.eq(r.axe_y, h.np.array([dy * i for i in range(ny)], dtype=float), 'y axis')
        un = (U('s') if pond else U('')) / U('m') / U('mm')
        k = float((un / r.unit_values).asNumber(U('')))
        r = r.values
    for i in range(nx):
        for j in range(ny):
            s = 0.
            for a, b, v in zip(P.x, P.y, P.v):
                inc = h.And(a > (i - .5) * dx, a < (i + .5) * dx, b > (j - .5) * dy, b < (j + .5) * dy)
                s = s + h.ite(inc, v if pond else 1., 0.)
            h.eq(r[i, j], k * s / (dx * dy), 'density', 1e-6 * k)


@harness('C16')
def density_with_sub_resolution(h):
    """same number of points per area as without"""
    p = h.imt.Points([[0., 0.], [8., 8.], [4., 4.]], unit_x='m', unit_y='m')
    r = p.get_points_density2(2, subres=4)
    h.check(abs(float(h.np.max(r.values)) - 1. / 16) < 1e-9, 'one point in a cell')


# ---- temporal sets ------------------------------------------------------------------------------------------------

def mk_tp(h, nt=3, n=2, order=(1, 2, 0), ut='s', v=True):
    S = [Pts(h, n, 'p%d' % t, v=v) for t in range(nt)]
    ts = lst(h.axis('t', nt))
    tp = h.imt.core.temporalpoints.TemporalPoints()
    for t in order[:nt]:
        if t < nt:
            tp.add_pts(S[t].make(), ts[t], ut)
    return tp, S, ts


def chk_tp(h, tp, S, ts, label, ut='s', fn=lambda s, q, l: s.chk(q, l), tol=None):
    h.check(len(tp) == len(S) and len(tp.times) == len(S), label + ': one set per time')
    h.eq(tp.times, h.np.array(ts, dtype=float), label + ': times', tol)
    for s, q in zip(S, tp.point_sets):
        fn(s, q, label)
    chk_unit(h, tp.unit_times, ut, label + ' unit_times')
    for i, (t, q) in enumerate(tp):
        h.eq(t, ts[i], label + ': iteration', tol)
        fn(S[i], q, label + ': iteration')


@harness('C16', cases=grid(order=[[0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]]))
def temporal_sets(h, order):
    """sorted along time whatever the order of insertion; independent of what was given"""
    tp, S, ts = mk_tp(h, order=order)
    chk_tp(h, tp, S, ts, 'sets')
    chk_unit(h, tp.unit_x, 'm', 'unit_x')
    chk_unit(h, tp.unit_y, 'mm', 'unit_y')
    c = tp.copy()
    c.point_sets[0].xy[0, 0] = c.point_sets[0].xy[0, 0] + 1.
    c.times = c.times + 1.
    chk_tp(h, tp, S, ts, 'after a change of the copy')
    N = Pts(h, 2, 'n')
    q = N.make()
    tp.add_pts(q, ts[-1] + 1., 's')
    q.xy[0, 0] = q.xy[0, 0] + 1.
    chk_tp(h, tp, S + [N], ts + [ts[-1] + 1.], 'after a change of what was added')


@harness('C16', cases=grid(u=['ms', 'h', 's']))
def adding_in_another_time_unit(h, u):
    """times converted"""
    U = h.imt.make_unit
    k = float((U('s') / U(u)).asNumber(U('')))
    tp, S, ts = mk_tp(h, 2, order=(0, 1))
    N = Pts(h, 2, 'n')
    t = h.real('t', -20, 20)
    h.assume(h.And(t > ts[0] + .01, t < ts[1] - .01))
    tp.add_pts(N.make(), t * k, u)
    chk_tp(h, tp, [S[0], N, S[1]], [ts[0], t, ts[1]], 'sets', tol=1e-6)


@harness('C16', cases=grid(many=[False, True]))
def removing_sets(h, many):
    """exactly the asked ones, with their times"""
    tp, S, ts = mk_tp(h)
    k = int(h.integer('k', 0, 2))
    l = int(h.integer('l', 0, 2)) if many else k
    tp.remove_pts([k, l] if many else k)
    I = [i for i in range(3) if i not in (k, l)]
    chk_tp(h, tp, [S[i] for i in I], [ts[i] for i in I], 'sets')


@harness('C16', cases=grid(inplace=[True, False], on=['t', 'x', 'tv']))
def cropping_sets(h, inplace, on):
    """closed intervals of times and coordinates"""
    tp, S, ts = mk_tp(h, n=1)
    kw, lim = {}, {}
    for c in on:
        a, b = h.real('lo' + c, -20, 20), h.real('hi' + c, -20, 20)
        h.assume(a <= b)
        kw['interv' + c] = [a, b]
        lim[c] = (a, b)
    if 't' in on:
        a, b = lim['t']
        I = [i for i in range(3) if bool(h.And(ts[i] >= a, ts[i] <= b))]
        if not I:
            return
    else:
        I = [0, 1, 2]
    r = tp.crop(inplace=inplace, **kw)
    if inplace:
        r = tp
    else:
        chk_tp(h, tp, S, ts, 'original')

    def fn(s, q, label):
        src = dict(x=s.x, y=s.y, v=s.v)
        keep = [i for i in range(s.n) if bool(h.And(*[h.And(src[c][i] >= lim[c][0], src[c][i] <= lim[c][1])
                                                       for c in on if c != 't']))]
        s.chk(q, label, I=keep)
    chk_tp(h, r, [S[i] for i in I], [ts[i] for i in I], 'sets', fn=fn)


@harness('C16', cases=grid(inplace=[True, False], q=['', 'x', 't']))
def scaling_sets(h, inplace, q):
    """all the sets, and the times; units included"""
    tp, S, ts = mk_tp(h, 2, order=(0, 1))
    U = h.imt.make_unit
    s = dict((c, h.real('s' + c, .25, 4)) for c in 'xyvt')
    kw = dict(('scale' + c, s[c]) for c in 'xyvt')
    if q:
        kw['scale' + q] = 2.5 * U('mm')
        s[q] = 2.5
    r = tp.scale(inplace=inplace, **kw)
    if inplace:
        r = tp
    else:
        chk_tp(h, tp, S, ts, 'original')
    kx = kt = 1.
    ux, ut = 'm', 's'
    if q == 'x':
        ux = r.unit_x
        kx = float((U('m') * U('mm') / ux).asNumber(U('')))
    if q == 't':
        ut = r.unit_times
        kt = float((U('s') * U('mm') / ut).asNumber(U('')))

    def fn(p, g, label):
        p.chk(g, label, x=[a * s['x'] * kx for a in p.x], y=[a * s['y'] for a in p.y], v=[a * s['v'] for a in p.v],
              u=(ux, 'mm', 's'), tol=1e-6)
    chk_tp(h, r, S, [t * s['t'] * kt for t in ts], 'sets', ut=ut, fn=fn, tol=1e-6)


@harness('C16', cases=grid(axe=['x', 'y', 'values', 'time']))
def unit_change_of_sets(h, axe):
    """same positions and times, in the other unit"""
    tp, S, ts = mk_tp(h, 2, order=(0, 1))
    i = ['x', 'y', 'values', 'time'].index(axe)
    n = ['km', 'm', 'h', 'ms'][i]
    U = h.imt.make_unit
    u = ['m', 'mm', 's', 's']
    f = [1.] * 4
    f[i] = float((U(u[i]) / U(n)).asNumber(U('')))
    u[i] = n
    tp.change_unit(axe, n)

    def fn(p, g, label):
        p.chk(g, label, x=[a * f[0] for a in p.x], y=[a * f[1] for a in p.y], v=[a * f[2] for a in p.v], u=u[:3],
              tol=1e-6)
    chk_tp(h, tp, S, [t * f[3] for t in ts], 'sets', ut=u[3], fn=fn, tol=1e-6)
    chk_unit(h, tp.unit_x, u[0], 'unit_x')
    chk_unit(h, tp.unit_y, u[1], 'unit_y')
