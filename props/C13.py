"""profiles: construction, arithmetic, statistics, equality"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('profiles of up to 4 points in any order, arbitrary values and masks, units m, mm, km/s, Hz, '
          'all operators with profiles, numbers and quantities')


class Prf(object):
    """raw data of a profile"""

    def __init__(self, h, n, name='p', mask='all', xs=None, ux='m', uy='m/s', lo=-8, hi=8):
        self.h, self.n = h, n
        self.xs = lst(h.axis(name + 'x', n)) if xs is None else xs
        self.y = [h.real('%sy%d' % (name, i), lo, hi) for i in range(n)]
        self.m = [h.boolean('%sm%d' % (name, i)) if mask == 'all' or (mask == 'some' and i % 2) else False
                  for i in range(n)]
        self.ux, self.uy = ux, uy

    def make(self, order=None):
        h = self.h
        o = range(self.n) if order is None else order
        A = lambda l, t=float: h.np.array([l[i] for i in o], dtype=t)
        return h.imt.Profile(A(self.xs), A(self.y), mask=A(self.m, bool), unit_x=self.ux, unit_y=self.uy)

    def chk(self, p, label, y=None, uy=None, m=None, tol=None, xs=None, ux=None):
        d = lambda a, b: b if a is None else a
        chk_prf(self.h, p, d(xs, self.xs), d(y, self.y), d(m, self.m), d(ux, self.ux), d(uy, self.uy), label, tol)


def chk_prf(h, p, xs, y, m, ux, uy, label, tol=None):
    h.eq(p.x, h.np.array(xs, dtype=float), label + ': x', tol)
    got = lst(p.mask)
    h.check(len(got) == len(m), label + ': number of points')
    h.check(h.And(*[h.Iff(a, b) for a, b in zip(got, m)]), label + ': mask')
    h.eq(p.y, h.np.array([h.ite(q, NAN, v) for v, q in zip(y, m)], dtype=float), label + ': y', tol)
    chk_unit(h, p.unit_x, ux, label + ' unit_x')
    chk_unit(h, p.unit_y, uy, label + ' unit_y')


@harness('C13', cases=grid(order=[[0, 1, 2], [2, 1, 0], [1, 2, 0]], nan=[False, True]))
def construction(h, order, nan):
    """points sorted along x, each with its value and its mask; not-a-number is masked"""
    P = Prf(h, 3)
    y = list(P.y)
    if nan:
        P.y[1] = NAN
    p = P.make(order)
    if nan:
        P.m[1], P.y = True, y
    P.chk(p, 'profile')
    c = p.copy()
    P.chk(c, 'copy')
    c.y = c.y + 1.
    c.x = c.x + 1.
    c.mask = True
    P.chk(p, 'after a change of the copy')
    h.check(len(p) == 3, 'length')


@harness('C13', cases=grid(b=[False, True], how=['arg', 'set']))
def boolean_mask(h, b, how):
    """a boolean masks everything or nothing"""
    P = Prf(h, 3, mask='none')
    if how == 'arg':
        p = h.imt.Profile(h.np.array(P.xs, dtype=float), h.np.array(P.y, dtype=float), mask=b, unit_x='m',
                          unit_y='m/s')
    else:
        p = P.make()
        p.mask = b
    P.m = [b] * 3
    P.chk(p, 'profile')


@harness('C13', cases=grid(order=[[0, 1, 2], [2, 0, 1]]))
def setting_abscissa(h, order):
    """values follow their abscissa when these are replaced"""
    P = Prf(h, 3)
    p = P.make()
    x2 = lst(h.axis('q', 3))
    nx = [x2[order.index(i)] for i in range(3)]
    p.x = h.np.array(nx, dtype=float)
    P.chk(p, 'profile', y=[P.y[i] for i in order], m=[P.m[i] for i in order], xs=x2)


@harness('C13', cases=grid(op=['add', 'sub', 'mul', 'div'], u=[['m/s', 'm/s'], ['m/s', 'mm/s'], ['mm', 'km']]))
def profile_with_profile(h, op, u):
    """pointwise, in consistent units, masks united, operands unchanged"""
    P, Q = Prf(h, 3, 'p', uy=u[0]), Prf(h, 3, 'q', uy=u[1])
    Q.xs = P.xs
    p, q = P.make(), Q.make()
    k = float((h.imt.make_unit(u[1]) / h.imt.make_unit(u[0])).asNumber())
    m = [h.Or(a, b) for a, b in zip(P.m, Q.m)]
    if op in ('add', 'sub'):
        s = 1 if op == 'add' else -1
        r = p + q if op == 'add' else p - q
        P.chk(r, op, y=[a + s * k * b for a, b in zip(P.y, Q.y)], m=m)
    elif op == 'mul':
        r = p * q
        phys(h, r, 'product', P.xs, [a * b for a, b in zip(P.y, Q.y)],
             h.imt.make_unit(u[0]) * h.imt.make_unit(u[1]), m)
    else:
        r = p / q
        z = [b == 0. for b in Q.y]
        y = [a / h.ite(c, 1., b) for a, b, c in zip(P.y, Q.y, z)]
        phys(h, r, 'ratio', P.xs, y, h.imt.make_unit(u[0]) / h.imt.make_unit(u[1]),
             [h.Or(a, b) for a, b in zip(m, z)])
    P.chk(p, 'first operand')
    Q.chk(q, 'second operand')


def phys(h, r, label, xs, y, unit, m, ux='m'):
    """r holds the quantities y*unit"""
    try:
        k = float((unit / r.unit_y).asNumber(h.imt.make_unit('')))
    except Exception:
        return h.check(False, label + ': unit %s instead of %s' % (r.unit_y, unit))
    h.check(abs(float(r.unit_y.asNumber()) - 1.) < 1e-9, label + ': plain unit')
    chk_prf(h, r, xs, [k * a for a in y], m, ux, r.unit_y, label)


@harness('C13', cases=grid(op=['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'neg']))
def profile_with_number(h, op):
    P = Prf(h, 3)
    p = P.make()
    c = h.real('c', -4, 4)
    if op == 'div':
        h.assume(h.Or(c > .1, c < -.1))
    f = {'add': lambda a: a + c, 'radd': lambda a: c + a, 'sub': lambda a: a - c, 'rsub': lambda a: c - a,
         'mul': lambda a: a * c, 'rmul': lambda a: c * a, 'div': lambda a: a / c, 'neg': lambda a: -a}[op]
    P.chk(f(p), op, y=[f(a) for a in P.y])
    P.chk(p, 'operand')


@harness('C13', cases=grid(op=['add', 'radd', 'sub', 'mul', 'div'], u=['km/s', 'mm/s', 'Hz', 'm']))
def profile_with_quantity(h, op, u):
    """quantities are converted; incompatible ones are rejected"""
    P = Prf(h, 3)
    p = P.make()
    c = 2.5 * h.imt.make_unit(u)
    U = h.imt.make_unit
    if op in ('mul', 'div'):
        r = p * c if op == 'mul' else p / c
        phys(h, r, op, P.xs, [a * 2.5 if op == 'mul' else a / 2.5 for a in P.y],
             U('m/s') * U(u) if op == 'mul' else U('m/s') / U(u), P.m)
    else:
        f = {'add': lambda: p + c, 'radd': lambda: p.__radd__(c), 'sub': lambda: p - c}[op]
        if u in ('Hz', 'm'):
            h.raises(Exception, f, 'incompatible units')
        else:
            k = {'km/s': 2500., 'mm/s': .0025}[u]
            P.chk(f(), op, y=[a - k if op == 'sub' else a + k for a in P.y])
    P.chk(p, 'operand')


@harness('C13', cases=grid(n=[0, 1, 2, 3, .5, -1]))
def power(h, n):
    P = Prf(h, 3, lo=.25 if n in (.5, -1) else -4, hi=4)
    p = P.make()
    r = p ** n
    if n == .5:
        y = lst(r.y)
        h.check(h.And(*[h.Iff(a, b) for a, b in zip(lst(r.mask), P.m)]), 'mask')
        for a, b, m in zip(y, P.y, P.m):
            h.check(h.Or(m, h.And(h.close(a * a, b), a >= 0)), 'square root')
        chk_unit(h, r.unit_y, h.imt.make_unit('m/s') ** .5, 'unit')
    else:
        f = {0: lambda a: 1., 1: lambda a: a, 2: lambda a: a * a, 3: lambda a: a * a * a, -1: lambda a: 1. / a}[n]
        P.chk(r, 'power', y=[f(a) for a in P.y], uy=h.imt.make_unit('m/s') ** n)
    P.chk(p, 'operand')


@harness('C13', cases=grid(op=['add', 'sub', 'mul', 'div'], what=['x', 'unit_x']) +
         grid(op=['add', 'sub'], what=['unit_y']))
def rejected(h, op, what):
    """profiles on different abscissa or in incompatible units are rejected"""
    P = Prf(h, 3, 'p', mask='none')
    Q = Prf(h, 3, 'q', mask='none', ux='s' if what == 'unit_x' else 'm', uy='m' if what == 'unit_y' else 'm/s')
    if what != 'x':
        Q.xs = P.xs
    else:
        h.assume(h.Or(*[h.Or(a > b + .05, a < b - .05) for a, b in zip(P.xs, Q.xs)]))
    p, q = P.make(), Q.make()
    f = {'add': lambda: p + q, 'sub': lambda: p - q, 'mul': lambda: p * q, 'div': lambda: p / q}[op]
    h.raises(Exception, f, 'rejected')


@harness('C13', cases=grid(n=[1, 4]))
def statistics(h, n):
    """minimum, maximum and mean over the valid points"""
    P = Prf(h, n)
    p = P.make()
    a, b, c = p.min, p.max, p.mean
    if bool(h.And(*P.m)):
        return h.check(a is None and b is None and c is None, 'nothing without valid points')
    ok = [(v, m) for v, m in zip(P.y, P.m)]
    h.check(h.And(h.Or(*[h.And(h.Not(m), h.close(v, a)) for v, m in ok]),
                  *[h.Or(m, a <= v) for v, m in ok]), 'minimum')
    h.check(h.And(h.Or(*[h.And(h.Not(m), h.close(v, b)) for v, m in ok]),
                  *[h.Or(m, b >= v) for v, m in ok]), 'maximum')
    cnt = sum(h.ite(m, 0., 1.) for v, m in ok)
    h.check(h.close(c * cnt, sum(h.ite(m, 0., v) for v, m in ok), 1e-6), 'mean')
    P.chk(p, 'profile')


@harness('C13', cases=grid(u=[['m', 'm/s'], ['m', 'mm/s'], ['mm', 'm/s']]))
def equality(h, u):
    """equal: same masks, same valid points, same units"""
    P = Prf(h, 2, 'p')
    Q = Prf(h, 2, 'q', ux=u[0], uy=u[1])
    p, q = P.make(), Q.make()
    same = h.And(*[h.And(h.Iff(P.m[i], Q.m[i]),
                         h.Or(P.m[i], h.And(P.xs[i] == Q.xs[i], P.y[i] == Q.y[i]))) for i in range(2)])
    h.check(h.Iff(bool(p == q), h.And(same, u == ['m', 'm/s'])), 'equality')
    h.check(bool(p == p.copy()), 'a copy is equal')
