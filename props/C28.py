"""sets of fields that lie side by side"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('one to three fields of 2x2 to 3x3 points on fixed axes (overlapping, touching or apart); any values (affine in each field for values, grids and profiles); '
          'asked positions: inside one field, in several, on borders and outside, fixed except one free coordinate for single and separate scalar fields; units of the added '
          'fields: the same, another scale, incompatible. Not covered: positions next to masked points, profiles over intervals, rotation, smoothing, displays')
#        x axis          y axis
AXES = {'a': ([0., 1., 2.], [0., 2.]), 'b': ([1.5, 3.5], [-1., 1.]), 'c': ([2., 4.], [0., 1., 2.]), 'd': ([6., 7.], [5., 6.])}
SETS = {'one': 'a', 'overlap': 'ab', 'touch': 'ac', 'three': 'abc', 'apart': 'ad', 'back': 'dcba'}


class Set(object):
    def __init__(self, h, kind, names, masked=(), affine=False):
        self.h, self.kind, self.names = h, kind, names
        self.v = {n: [[[h.real('%s%d%d%d' % (n, c, i, j), -5, 5) for j in range(len(AXES[n][1]))] for i in range(len(AXES[n][0]))]
                      for c in range(1 if kind == 'sf' else 2)] for n in names}
        if affine:
            # the interpolation inside of a cell of four points is not unique otherwise
            self.k = {n: [[h.real('%s%d%s' % (n, c, q), -5, 5) for q in 'kxy'] for c in range(1 if kind == 'sf' else 2)] for n in names}
            self.v = {n: [[[q[0] + q[1] * x + q[2] * y for y in AXES[n][1]] for x in AXES[n][0]] for q in self.k[n]] for n in names}
        self.m = {n: [[(n, i, j) in masked for j in range(len(AXES[n][1]))] for i in range(len(AXES[n][0]))] for n in names}
        self.u = ('m', 'm', 'm/s')

    def field(self, n, u=None, k=1.):
        xs, ys = ([q * k for q in l] for l in AXES[n])
        v = self.v[n]
        if self.kind == 'sf':
            return mk_sf(self.h, xs, ys, v[0], self.m[n], *(u or self.u))
        return mk_vf(self.h, xs, ys, v[0], v[1], self.m[n], *(u or self.u))

    def new(self):
        from IMTreatment import core
        return core.SpatialScalarFields() if self.kind == 'sf' else core.SpatialVectorFields()

    def make(self):
        s = self.new()
        for n in self.names:
            s.add_field(self.field(n))
        return s

    def is_field(self, f, n, label, fn=None, u='m/s', dx=0., dy=0., kx=1., ky=1., ux='m'):
        h = self.h
        xs, ys = [(q - dx) * kx for q in AXES[n][0]], [(q - dy) * ky for q in AXES[n][1]]
        v = [[[fn(q) if fn else q for q in l] for l in c] for c in self.v[n]]
        if self.kind == 'sf':
            chk_sf(h, f, xs, ys, v[0], self.m[n], label, ux, ux, u)
        else:
            chk_vf(h, f, xs, ys, v[0], v[1], self.m[n], label, ux, ux, u)

    def is_set(self, s, label, names=None, **k):
        names = self.names if names is None else names
        self.h.check(type(s) is type(self.new()), label + ': type')
        self.h.check(len(s.fields) == len(names) and len(s) == len(names), label + ': number of fields')
        for f, n in zip(s.fields, names):
            self.is_field(f, n, label, **k)

    def at(self, x, y):
        """mean of the values of the fields that contain the point; None if there is none"""
        r, nb = [0.] * len(self.v[self.names[0]]), 0
        for n in self.names:
            xs, ys = AXES[n]
            if not (x >= xs[0] and x <= xs[-1] and y >= ys[0] and y <= ys[-1]):
                continue
            for c in range(len(r)):
                q = self.k[n][c]
                r[c] = r[c] + q[0] + q[1] * x + q[2] * y
            nb += 1
        return [q / nb for q in r] if nb else None


KIND = ['sf', 'vf']


@harness('C28', cases=grid(kind=KIND, names=sorted(SETS)))
def gathering(h, kind, names):
    """the fields are kept, in order, with their content; the set covers all of them"""
    S = Set(h, kind, SETS[names])
    s = S.make()
    S.is_set(s, 'kept')
    for k, f in enumerate(s):
        S.is_field(f, S.names[k], 'iterated')
        S.is_field(s[k], S.names[k], 'read')
    xs, ys = [q for n in S.names for q in AXES[n][0]], [q for n in S.names for q in AXES[n][1]]
    for got, want in ((s.x_min, min(xs)), (s.x_max, max(xs)), (s.y_min, min(ys)), (s.y_max, max(ys))):
        h.eq(got, want, 'extent')
    for got, want in zip((s.unit_x, s.unit_y, s.unit_values), S.u):
        chk_unit(h, got, want, 'units')
    comps = {'sf': [('values_as_sf', 0)], 'vf': [('Vx_as_sf', 0), ('Vy_as_sf', 1)]}[kind]
    for nm, c in comps:
        l = getattr(s, nm)
        h.check(len(l) == len(S.names), nm)
        for f, n in zip(l, S.names):
            chk_sf(h, f, AXES[n][0], AXES[n][1], S.v[n][c], S.m[n], nm, 'm', 'm', 'm/s')
    # removing
    s.remove_field(0)
    S.is_set(s, 'after removal', S.names[1:])


@harness('C28', cases=grid(kind=KIND, how=['same', 'scale', 'first_masked', 'masked', 'in_place', 'bad_x', 'bad_y', 'bad_values', 'type']))
def adding(h, kind, how):
    """an added field is converted to the units of the set, freed of its masked borders, and left as it was"""
    masked = [('a', 0, 0), ('a', 0, 1)] if how in ('first_masked', 'masked') else []
    S = Set(h, kind, 'ab' if how != 'masked' else 'ba', masked)
    s = S.new()
    if how == 'type':
        T = Set(h, 'vf' if kind == 'sf' else 'sf', 'c')
        h.raises(TypeError, lambda: s.add_field(T.field('c')), 'field of another kind')
        h.raises(TypeError, lambda: s.add_field(1.), 'not a field')
    f, g = S.field(S.names[0]), None
    s.add_field(f)
    S.is_field(f, S.names[0], 'added field')
    if how in ('bad_x', 'bad_y', 'bad_values'):
        u = list(S.u)
        u[['bad_x', 'bad_y', 'bad_values'].index(how)] = 'kg'
        g = S.field('b', u)
        h.raises(ValueError, lambda: s.add_field(g), 'incompatible units')
        S.is_set(s, 'set', S.names[:1])
        return
    if how == 'scale':
        g = S.field('b', ('mm', 'mm', 'mm/s'), 1000.)
        s.add_field(g)
        h.check(len(s.fields) == 2, 'number of fields')
        S.is_field(s.fields[0], 'a', 'first field')
        S.is_field(s.fields[1], 'b', 'converted field', fn=lambda q: q / 1000.)
        S.is_field(g, 'b', 'added field', kx=1000., ky=1000., ux='mm', u='mm/s')
        return
    g = S.field(S.names[1])
    if how == 'in_place':
        s.add_field(g, copy=False)
        h.check(s.fields[1] is g, 'the field itself')
    else:
        s.add_field(g)
        S.is_field(g, S.names[1], 'added field')
        # nothing shared
        if kind == 'sf':
            g.values[1, 0] = 99.
        else:
            g.comp_x[1, 0] = 99.
            g.comp_y[1, 0] = 99.
    for k, n in enumerate(S.names):
        if masked and n == 'a':
            r = s.fields[k]
            xs, v, m = AXES['a'][0][1:], [c[1:] for c in S.v['a']], S.m['a'][1:]
            if kind == 'sf':
                chk_sf(h, r, xs, AXES['a'][1], v[0], m, 'cropped', 'm', 'm', 'm/s')
            else:
                chk_vf(h, r, xs, AXES['a'][1], v[0], v[1], m, 'cropped', 'm', 'm', 'm/s')
        else:
            S.is_field(s.fields[k], n, 'kept')


@harness('C28', cases=grid(kind=KIND, op=['neg', 'mul', 'rmul', 'mul_unit', 'div', 'div_unit', 'pow', 'copy', 'bad'], names=['overlap', 'three']))
def arithmetic(h, kind, op, names):
    """operations apply to each field, and leave the set as it was"""
    S = Set(h, kind, SETS[names])
    s = S.make()
    k = h.real('k', 1, 5)
    from IMTreatment import make_unit
    if op == 'neg':
        S.is_set(-s, op, fn=lambda q: -q)
    elif op in ('mul', 'rmul'):
        S.is_set(s * k if op == 'mul' else k * s, op, fn=lambda q: k * q)
    elif op == 'mul_unit':
        S.is_set(s * make_unit('kg'), op, u='kg*m/s')
    elif op == 'div':
        S.is_set(s / k, op, fn=lambda q: q / k)
    elif op == 'div_unit':
        S.is_set(s / make_unit('kg'), op, u='m/s/kg')
    elif op == 'pow':
        S.is_set(s ** 2, op, fn=lambda q: q * q, u='m**2/s**2')
    elif op == 'copy':
        c = s.copy()
        S.is_set(c, op)
        c.fields[0].axe_x = c.fields[0].axe_x + 1.
        c.remove_field(1)
    else:
        for o in ('a', None, [1.]):
            h.raises(TypeError, lambda: s * o, 'multiplication')
            h.raises(TypeError, lambda: s / o, 'division')
            h.raises(TypeError, lambda: s ** o, 'power')
    S.is_set(s, 'original')


@harness('C28', cases=grid(kind=KIND, what=['origin_x', 'origin_y', 'scale_x', 'scale_v', 'scale_in_place', 'units'], names=['overlap', 'apart']))
def moving(h, kind, what, names):
    """changes of origin, of scale and of units apply to all the fields"""
    S = Set(h, kind, SETS[names])
    s = S.make()
    k = h.real('k', 1, 5)
    if what == 'origin_x':
        s.set_origin(x=k)
        S.is_set(s, what, dx=k)
    elif what == 'origin_y':
        s.set_origin(y=k)
        S.is_set(s, what, dy=k)
    elif what == 'scale_x':
        S.is_set(s.scale(scalex=k, scaley=2.), what, kx=k, ky=2.)
        S.is_set(s, 'original')
    elif what == 'scale_v':
        S.is_set(s.scale(scalev=k), what, fn=lambda q: k * q)
        S.is_set(s, 'original')
    elif what == 'scale_in_place':
        s.scale(scalex=2., scaley=k, scalev=3., inplace=True)
        S.is_set(s, what, fn=lambda q: 3. * q, kx=2., ky=k)
    else:
        s.unit_x, s.unit_y, s.unit_values = 'km', 'km', 'kg'
        S.is_set(s, what, u='kg', ux='km')


ZONES = {'left': ((.1, .9), .5), 'right': ((1.1, 1.4), .5), 'both': ((1.6, 1.9), .5), 'x_border': ((2., 2.), .25), 'first_border': ((0., 0.), 1.5),
         'y_border': ((.1, .9), 0.), 'corner': ((2., 2.), 2.), 'second': ((2.1, 2.9), .5), 'below': ((1.6, 1.9), -.5), 'out_x': ((8., 9.), .5), 'out_y': ((.1, .9), 9.),
         'out_left': ((-9., -1.), .5), 'out_down': ((.1, .9), -8.)}


@harness('C28', cases=grid(kind=KIND, names=sorted(SETS), zone=sorted(ZONES), unit=[False, True]))
def value(h, kind, names, zone, unit):
    """the value at a point is the one of the field that contains it (mean of them if there are several)"""
    S = Set(h, kind, SETS[names], affine=True)
    s = S.make()
    (lo, hi), y = ZONES[zone]
    x = h.real('px', lo, hi) if hi > lo and kind == 'sf' and names in ('one', 'apart') else .5 * (lo + hi)
    w = S.at(x, y)
    if w is None:
        h.raises(ValueError, lambda: s.get_value(x, y, unit=unit), 'outside of the fields')
        h.check(s.get_value(x, y, unit=unit, error=False) is None, 'outside of the fields')
        return
    r = s.get_value(x, y, unit=unit)
    if unit:
        from IMTreatment import make_unit

        def number(q):
            h.check(hasattr(q, 'asNumber'), 'with its unit')
            return q.asNumber(make_unit('m/s'))
        r = number(r) if kind == 'sf' else [number(q) for q in r]
    if kind == 'sf':
        h.eq(r, w[0], 'value')
    else:
        h.check(len(r) == 2, 'two components')
        for c in range(2):
            h.eq(r[c], w[c], 'value')
    S.is_set(s, 'fields')


@harness('C28', cases=grid(kind=KIND, names=sorted(SETS), free=['x', 'y']))
def on_grid(h, kind, names, free):
    """on a grid: the values at its points, masked where there is no field"""
    S = Set(h, kind, SETS[names], affine=True)
    s = S.make()
    gx, gy = ([-3., 1., 1.75, 5.], [.5, 2.]) if free == 'x' else ([1., 1.75], [-.5, .25, 8.])
    r = s.get_values_on_grid(f64(h, gx), f64(h, gy))
    W = [[S.at(x, y) for y in gy] for x in gx]
    m = [[w is None for w in l] for l in W]
    v = [[[0. if w is None else w[c] for w in l] for l in W] for c in range(len(S.v['a']))]
    if kind == 'sf':
        chk_sf(h, r, gx, gy, v[0], m, 'grid', 'm', 'm', 'm/s')
    else:
        chk_vf(h, r, gx, gy, v[0], v[1], m, 'grid', 'm', 'm', 'm/s')
    S.is_set(s, 'fields')


@harness('C28', cases=grid(kind=KIND, names=sorted(SETS), d=['x', 'y'], zone=['left', 'right', 'both', 'second', 'border', 'out'], comp=[0, 1]))
def profile(h, kind, names, d, zone, comp):
    """a profile goes through all the fields that meet the line, in order"""
    S = Set(h, kind, SETS[names], affine=True)
    s = S.make()
    lo, hi = {'left': (.1, .9), 'right': (1.1, 1.4), 'both': (1.6, 1.9), 'second': (2.1, 2.9), 'border': (2., 2.), 'out': (8., 9.)}[zone]
    p = .6 * lo + .4 * hi
    comp = 0 if kind == 'sf' else comp
    r = s.get_profile(d, p, component=None if kind == 'sf' and names != 'one' else ['values'] [0] if kind == 'sf' else ['Vx', 'Vy'][comp])
    ax = 'xy'.index(d)
    pts = []
    for n in S.names:
        if p >= AXES[n][ax][0] and p <= AXES[n][ax][-1]:
            T = Set.__new__(Set)
            T.__dict__.update(S.__dict__)
            T.names = n
            for q in AXES[n][1 - ax]:
                pts.append((q, T.at(*((p, q) if d == 'x' else (q, p)))[comp]))
    if not pts:
        h.check(r is None, 'no field there')
        return
    pts.sort(key=lambda t: t[0])
    h.check(len(r.x) == len(pts) and len(r.y) == len(pts), 'number of points')
    chk_unit(h, r.unit_x, 'm', 'unit')
    chk_unit(h, r.unit_y, 'm/s', 'unit')
    h.check(not any(bool(q) for q in r.mask), 'mask')
    for k, (q, w) in enumerate(pts):
        h.eq(r.x[k], q, 'abscissa')
        same = [b for a, b in pts if a == q]
        if len(same) == 1:
            h.eq(r.y[k], w, 'values')
        else:
            # several fields have that point: their values in any order
            h.check(h.Or(*[abs(r.y[k] - b) <= 1e-9 for b in same]), 'values')
