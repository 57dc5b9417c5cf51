"""equality of objects"""
from symx.harness import harness, grid
from .common import *
from . import C23

BOUNDS = ('any two fields of up to 3x1 or 2x2 points, series of up to two fields, profiles of up to three and clouds of up to two points: all coordinates, values, masks '
          'and times of both free; fields of 3x2 points, series, profiles and clouds of three points, critical points at two instants: one coordinate, value or time free, '
          'the others free but shared, each unit, mask element, size and type changed in turn. Values closer than the tolerance of the comparison but not equal are not '
          'judged. Not covered: oriented points (their orientations are not compared), temporal points (compared by identity)')
NEAR = .01


def judge(h, a, b, w, v, label):
    """a and b differ only by w instead of v (not at all if v is None)"""
    for p, q in ((a, b), (b, a)):
        r, n = bool(p == q), bool(p != q)
        h.check(r != n, label + ': either equal or different')
        if v is None:
            h.check(r, label + ': same content, but different')
        elif r:
            h.check(abs(w - v) <= NEAR, label + ': different content, but equal')
        else:
            h.check(h.Not(w == v), label + ': same content, but different')


def differ(h, a, b, label):
    h.check(not bool(a == b), label + ': different, but equal')
    h.check(not bool(b == a), label + ': different, but equal')
    h.check(bool(a != b), label + ': different, but equal')


class Pairs(object):
    """content of two objects of the same kind and size, all of it free"""

    def __init__(self, h):
        self.h, self.eq, self.near = h, [], []

    def num(self, name, lo, hi, unless=False):
        h = self.h
        a, b = h.real(name + 'a', lo, hi), h.real(name + 'b', lo, hi)
        self.eq.append(h.Or(unless, a == b))
        self.near.append(h.Or(unless, abs(a - b) <= NEAR))
        return a, b

    def flag(self, name):
        h = self.h
        a, b = h.boolean(name + 'a'), h.boolean(name + 'b')
        self.eq.append(h.Iff(a, b))
        self.near.append(h.Iff(a, b))
        return a, b

    def judge(self, a, b, label):
        h = self.h
        for p, q in ((a, b), (b, a)):
            r, n = bool(p == q), bool(p != q)
            h.check(r != n, label + ': either equal or different')
            if r:
                h.check(h.And(*self.near), label + ': different content, but equal')
            else:
                h.check(h.Not(h.And(*self.eq)), label + ': same content, but different')


def two(h, kind, nx, ny, P, tag=''):
    """two fields (masks free)"""
    xs = list(zip(*[P.num('%sx_%d' % (tag, k), 3 * k, 3 * k + 2) for k in range(nx)]))
    ys = list(zip(*[P.num('%sy_%d' % (tag, k), 3 * k, 3 * k + 2) for k in range(ny)]))
    return two_on(h, kind, xs, ys, P, tag)


def two_on(h, kind, xs, ys, P, tag=''):
    nx, ny = len(xs[0]), len(ys[0])
    m = [[P.flag('%sm%d%d' % (tag, i, j)) for j in range(ny)] for i in range(nx)]
    V = [[[P.num('%sv%d%d%d' % (tag, c, i, j), -5, 5, m[i][j][0]) for j in range(ny)] for i in range(nx)] for c in range(1 if kind == 'sf' else 2)]
    r = []
    for q in range(2):
        W = [[[e[q] for e in l] for l in c] for c in V]
        mk = mk_sf if kind == 'sf' else mk_vf
        r.append(mk(h, list(xs[q]), list(ys[q]), *(W + [[[e[q] for e in l] for l in m], 'm', 'mm', 'm/s'])))
    return r


@harness('C27', cases=grid(kind=['sf', 'vf'], n=[(1, 1), (2, 1), (1, 2)]) + [dict(kind='sf', n=(3, 1)), dict(kind='sf', n=(2, 2))])
def any_two_fields(h, kind, n):
    P = Pairs(h)
    a, b = two(h, kind, n[0], n[1], P)
    P.judge(a, b, 'fields')


@harness('C27', cases=grid(kind=['sf', 'vf'], n=[(1, 1), (2, 1)], k=[1, 2]))
def any_two_series(h, kind, n, k):
    P = Pairs(h)
    xs = list(zip(*[P.num('x_%d' % q, 3 * q, 3 * q + 2) for q in range(n[0])]))
    ys = list(zip(*[P.num('y_%d' % q, 3 * q, 3 * q + 2) for q in range(n[1])]))
    T = [h.imt.TemporalScalarFields() if kind == 'sf' else h.imt.TemporalVectorFields() for q in range(2)]
    for i in range(k):
        t = P.num('t%d' % i, 3 * i, 3 * i + 2)
        f = two_on(h, kind, xs, ys, P, 'f%d' % i)
        for q in range(2):
            T[q].add_field(f[q], time=t[q], unit_times='s')
    P.judge(T[0], T[1], 'series')


@harness('C27', cases=grid(n=[1, 2, 3]))
def any_two_profiles(h, n):
    P = Pairs(h)
    m = [P.flag('m%d' % k) for k in range(n)]
    x = [P.num('x_%d' % k, 3 * k, 3 * k + 2, m[k][0]) for k in range(n)]
    y = [P.num('y_%d' % k, -5, 5, m[k][0]) for k in range(n)]
    a, b = [h.imt.Profile(f64(h, [e[q] for e in x]), f64(h, [e[q] for e in y]), mask=h.np.array([e[q] for e in m], dtype=bool), unit_x='m', unit_y='s')
            for q in range(2)]
    P.judge(a, b, 'profiles')


@harness('C27', cases=grid(n=[1, 2], v=[False, True]))
def any_two_clouds(h, n, v):
    P = Pairs(h)
    p = [(P.num('x_%d' % k, -5, 5), P.num('y_%d' % k, -5, 5)) for k in range(n)]
    r = [P.num('v_%d' % k, -5, 5) for k in range(n)] if v else []
    a, b = [h.imt.Points(f64(h, [[e[0][q], e[1][q]] for e in p]), v=f64(h, [e[q] for e in r]) if v else [], unit_x='m', unit_y='mm', unit_v='s') for q in range(2)]
    P.judge(a, b, 'clouds')


class Field(object):
    def __init__(self, h, kind, masked):
        self.h, self.kind, self.nx, self.ny = h, kind, 3, 2
        self.xs, self.ys = axes(h, 3, 2)
        self.v = [[[h.real('v%d%d%d' % (c, i, j), -5, 5) for j in range(2)] for i in range(3)] for c in range(2)]
        self.m = [[(i, j) == (1, 0) and masked for j in range(2)] for i in range(3)]
        self.u = ['m', 'mm', 'm/s']

    def make(self):
        if self.kind == 'sf':
            return mk_sf(self.h, self.xs, self.ys, self.v[0], self.m, *self.u)
        return mk_vf(self.h, self.xs, self.ys, self.v[0], self.v[1], self.m, *self.u)


WHERE = [('x', 0), ('x', 2), ('y', 1), ('v', 0, 0, 0), ('v', 0, 2, 1), ('v', 0, 1, 0), ('v', 1, 0, 1), ('v', 1, 2, 1)]


@harness('C27', cases=grid(kind=['sf', 'vf'], where=WHERE, masked=[False, True]))
def field_content(h, kind, where, masked):
    """one coordinate or value of a field changed"""
    f = Field(h, kind, masked)
    a = f.make()
    if where[0] in 'xy':
        l = f.xs if where[0] == 'x' else f.ys
        k, d = where[1], h.real('d', -1, 1)
        v = l[k]
        w = v + d
        for q in (k - 1, k + 1):
            if 0 <= q < len(l):
                h.assume(w < l[q] if q > k else w > l[q])
        l[k] = w
    else:
        c, i, j = where[1:]
        if kind == 'sf' and c:
            c = 0
        v, w = f.v[c][i][j], h.real('w', -5, 5)
        f.v[c][i][j] = w
        if f.m[i][j]:
            v = None
    judge(h, a, f.make(), w, v, 'fields')


CHANGES = ['mask', 'unit_x', 'unit_y', 'unit_values', 'scale_x', 'scale_values', 'wider', 'higher', 'narrower', 'lower', 'transposed', 'kind', 'none', 'number', 'text', 'array']


@harness('C27', cases=grid(kind=['sf', 'vf', 'tsf', 'tvf'], what=CHANGES, masked=[False, True]))
def field_rest(h, kind, what, masked):
    """mask, units, sizes or type changed"""
    f = Field(h, kind[-2:], masked)
    g = Field.__new__(Field)
    g.__dict__.update(f.__dict__)
    a = series(h, kind, f)
    if what == 'mask':
        g.m = [[(i, j) == (1, 0) and not masked for j in range(2)] for i in range(3)]
    elif what in ('unit_x', 'unit_y', 'unit_values', 'scale_x', 'scale_values'):
        g.u = list(f.u)
        i, u = {'unit_x': (0, 's'), 'unit_y': (1, 'kg'), 'unit_values': (2, 'Pa'), 'scale_x': (0, 'km'), 'scale_values': (2, 'mm/s')}[what]
        g.u[i] = u
    elif what in ('wider', 'narrower', 'higher', 'lower', 'transposed'):
        nx, ny = {'wider': (4, 2), 'narrower': (2, 2), 'higher': (3, 3), 'lower': (3, 1), 'transposed': (2, 3)}[what]
        g.xs, g.ys = (f.xs + [f.xs[-1] + 1.])[:nx], (f.ys + [f.ys[-1] + 1.])[:ny]
        g.v = [[[f.v[c][min(i, 2)][min(j, 1)] for j in range(ny)] for i in range(nx)] for c in range(2)]
        g.m = [[f.m[min(i, 2)][min(j, 1)] for j in range(ny)] for i in range(nx)]
    if what in ('kind', 'none', 'number', 'text', 'array'):
        g.kind = 'vf' if f.kind == 'sf' else 'sf'
        b = {'kind': series(h, kind[:-2] + g.kind, g), 'none': None, 'number': 1., 'text': 'field', 'array': None}[what]
        if what == 'array':
            h.check(not isinstance(a, list), 'object')
            b = [1., 2.]
    else:
        b = series(h, kind, g)
    differ(h, a, b, what)
    judge(h, a, series(h, kind, f), 0., None, 'same content')
    judge(h, a, a.copy(), 0., None, 'copy')


def series(h, kind, f, ts=(0., 1.5), n=2, ut='s'):
    if kind[0] != 't':
        return f.make()
    t = h.imt.TemporalScalarFields() if f.kind == 'sf' else h.imt.TemporalVectorFields()
    for k in range(n):
        t.add_field(f.make(), time=ts[k], unit_times=ut)
    return t


@harness('C27', cases=grid(kind=['tsf', 'tvf'], what=['time0', 'time1', 'value0', 'value1', 'unit', 'scale', 'longer', 'shorter']))
def series_content(h, kind, what):
    """an instant, or a value at an instant, of a series changed"""
    f = Field(h, kind[-2:], True)
    ts = [h.real('t0', 0, 1), h.real('t1', 2, 3)]
    a = series(h, kind, f, ts)
    if what[:-1] == 'time':
        k = int(what[-1])
        v, w = ts[k], h.real('w', 2 * k, 2 * k + 1)
        ts[k] = w
        judge(h, a, series(h, kind, f, ts), w, v, what)
    elif what[:-1] == 'value':
        k = int(what[-1])
        v, w = f.v[0][2][1], h.real('w', -5, 5)
        b = h.imt.TemporalScalarFields() if f.kind == 'sf' else h.imt.TemporalVectorFields()
        for q in range(2):
            f.v[0][2][1] = w if q == k else v
            b.add_field(f.make(), time=ts[q], unit_times='s')
        judge(h, a, b, w, v, what)
    elif what in ('unit', 'scale'):
        differ(h, a, series(h, kind, f, ts, ut='m' if what == 'unit' else 'ms'), what)
    else:
        n = 3 if what == 'longer' else 1
        differ(h, a, series(h, kind, f, ts + [4.], n), what)


@harness('C27', cases=grid(what=['x0', 'x2', 'y0', 'y1', 'y2', 'mask', 'unit_x', 'unit_y', 'scale_x', 'scale_y', 'longer', 'shorter', 'none', 'same'], masked=[False, True]))
def profiles(h, what, masked):
    n = 3
    x, y = [h.real('x%d' % k, 2 * k, 2 * k + 1) for k in range(n)], [h.real('y%d' % k, -5, 5) for k in range(n)]
    m, u = [False, masked, False], ['m', 's']

    def make(x, y, m, u):
        return h.imt.Profile(f64(h, x), f64(h, y), mask=list(m), unit_x=u[0], unit_y=u[1])
    a = make(x, y, m, u)
    if what[0] in 'xy':
        k = int(what[1])
        l = list(x if what[0] == 'x' else y)
        v, w = l[k], h.real('w', *((2 * k, 2 * k + 1) if what[0] == 'x' else (-5, 5)))
        l[k] = w
        b = make(*((l, y) if what[0] == 'x' else (x, l)), m=m, u=u)
        judge(h, a, b, w, None if m[k] else v, what)
    elif what == 'mask':
        differ(h, a, make(x, y, [False, not masked, False], u), what)
    elif what in ('unit_x', 'unit_y', 'scale_x', 'scale_y'):
        u = list(u)
        u[what[-1] == 'y'] = {'unit_x': 'kg', 'unit_y': 'm', 'scale_x': 'mm', 'scale_y': 'ms'}[what]
        differ(h, a, make(x, y, m, u), what)
    elif what == 'longer':
        differ(h, a, make(x + [9.], y + [1.], m + [False], u), what)
        differ(h, make(x[:1], y[:1], [True], u), make(x[:2], y[:2], [True, True], u), 'all masked')
    elif what == 'shorter':
        differ(h, a, make(x[:2], y[:2], m[:2], u), what)
    elif what == 'none':
        for o in (None, 1., 'profile', h.imt.Points([[1., 2.]])):
            differ(h, a, o, what)
    else:
        judge(h, a, make(x, y, m, u), 0., None, what)
        judge(h, a, a.copy(), 0., None, 'copy')


@harness('C27', cases=grid(what=['x0', 'y2', 'v1', 'unit_x', 'unit_y', 'unit_v', 'scale_x', 'scale_v', 'longer', 'shorter', 'no_v', 'none', 'same', 'order'], n=[1, 3]))
def points(h, what, n):
    p = [[h.real('p%d' % k, -5, 5), h.real('q%d' % k, -5, 5)] for k in range(n)]
    r = [h.real('r%d' % k, -5, 5) for k in range(n)]
    u = ['m', 'mm', 's']

    def make(p, r, u):
        return h.imt.Points(f64(h, p), v=f64(h, r) if r else [], unit_x=u[0], unit_y=u[1], unit_v=u[2])
    a = make(p, r, u)
    if what in ('x0', 'y2', 'v1'):
        k = int(what[1]) % n
        w = h.real('w', -5, 5)
        p2, r2 = [list(q) for q in p], list(r)
        if what[0] == 'v':
            v, r2[k] = r[k], w
        else:
            v, p2[k]['xy'.index(what[0])] = p[k]['xy'.index(what[0])], w
        judge(h, a, make(p2, r2, u), w, v, what)
    elif what[:4] in ('unit', 'scal'):
        u = list(u)
        u['xyv'.index(what[-1])] = {'unit_x': 's', 'unit_y': 's', 'unit_v': 'm', 'scale_x': 'mm', 'scale_v': 'ms'}[what]
        differ(h, a, make(p, r, u), what)
    elif what == 'longer':
        differ(h, a, make(p + p[-1:], r + r[-1:], u), what)
        differ(h, make(p[:1], [], u), make(p[:1] + p[:1], [], u), what)
        differ(h, h.imt.Points(unit_x=u[0], unit_y=u[1], unit_v=u[2]), make(p[:1], [], u), 'empty')
    elif what == 'shorter':
        if n == 1:
            differ(h, make(p + [[0., 1.], [2., 3.]], r + [1., 2.], u), make(p + [[0., 1.]], r + [1.], u), what)
        else:
            differ(h, a, make(p[:-1], r[:-1], u), what)
    elif what == 'no_v':
        differ(h, a, make(p, [], u), what)
        judge(h, make(p, [], u), make(p, [], u), 0., None, what)
    elif what == 'none':
        for o in (None, 1., 'points', h.imt.Profile([1., 2.], [1., 2.], mask=False)):
            differ(h, a, o, what)
    elif what == 'order':
        if n == 1:
            judge(h, a, make(p, r, u), 0., None, what)
        else:
            h.assume(p[0][0] > p[1][0] + 1.)
            differ(h, a, make([p[1], p[0], p[2]], [r[1], r[0], r[2]], u), what)
    else:
        judge(h, a, make(p, r, u), 0., None, what)
        judge(h, a, a.copy(), 0., None, 'copy')


@harness('C27', cases=grid(what=['foc', 'foc_c', 'node_i', 'node_o', 'sadd', 'time', 'more', 'kind', 'longer', 'unit_x', 'unit_time', 'same', 'none']))
def critical_points(h, what):
    p = {k: [[h.real('%s%d' % (k, q), -8, 8), 1. + q]] for q, k in enumerate(C23.TYPES)}
    ts = [h.real('t0', 0, 1), h.real('t1', 2, 3)]
    fr = [p, {'foc': [[1., 2.]], 'sadd': [[2., 3.], [4., 5.]]}]
    a = C23.mk_cp(h, fr, ts)
    q = {k: [list(x) for x in l] for k, l in p.items()}
    if what in C23.TYPES:
        v, w = p[what][0][0], h.real('w', -8, 8)
        q[what][0][0] = w
        judge(h, a, C23.mk_cp(h, [q, fr[1]], ts), w, v, what)
    elif what == 'time':
        w = h.real('w', 2, 3)
        judge(h, a, C23.mk_cp(h, fr, [ts[0], w]), w, ts[1], what)
    elif what == 'more':
        q['node_i'] = q['node_i'] + [[9., 9.]]
        differ(h, a, C23.mk_cp(h, [q, fr[1]], ts), what)
    elif what == 'kind':
        q['foc'], q['foc_c'] = q['foc'] + q['foc_c'], []
        differ(h, a, C23.mk_cp(h, [q, fr[1]], ts), what)
    elif what == 'longer':
        differ(h, a, C23.mk_cp(h, fr + [fr[1]], ts + [4.]), what)
        differ(h, a, C23.mk_cp(h, fr[:1], ts[:1]), what)
    elif what == 'unit_x':
        differ(h, a, C23.mk_cp(h, fr, ts, u='mm'), what)
        differ(h, a, C23.mk_cp(h, fr, ts, u='kg'), what)
    elif what == 'unit_time':
        differ(h, a, C23.mk_cp(h, fr, ts, ut='ms'), what)
        differ(h, a, C23.mk_cp(h, fr, ts, ut='m'), what)
    elif what == 'none':
        for o in (None, 1., 'points'):
            differ(h, a, o, what)
    else:
        judge(h, a, C23.mk_cp(h, fr, ts), 0., None, what)
        judge(h, a, a.copy(), 0., None, 'copy')
