"""field arithmetic is pointwise on coinciding grids"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids 2x3 and 3x2 (thorough 3x3), arbitrary real samples in [-8,8], any '
          'subset of masked points on three positions of each operand; units m/s, '
          'mm/s and km/s; array and number operands arbitrary reals in [-8,8]')
ASSUMPTIONS = ['divisors are either exactly zero or at least 0.125 in magnitude']

SH = [[2, 3], [3, 2]]
TH = [[3, 3]]


def two(h, shape, second='w'):
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    a, ma = raw(h, nx, ny, mask='some')
    b, mb = raw(h, nx, ny, name='w', mask='one')
    return nx, ny, xs, ys, a, ma, b, mb


def nz(h, v):
    """zero, or away from zero"""
    h.assume(h.Or(v == 0, v >= .125, v <= -.125))


def nzs(h, b):
    for i, r in enumerate(b):
        for j, v in enumerate(r):
            if i == j == 0 or i == j == 1:
                nz(h, v)
            else:
                h.assume(h.Or(v >= .125, v <= -.125))


def un2(h, ma, mb):
    return [[h.Or(x, y) for x, y in zip(p, q)] for p, q in zip(ma, mb)]


def zip2(f, a, b):
    return [[f(x, y) for x, y in zip(p, q)] for p, q in zip(a, b)]


def map2(f, a):
    return [[f(x) for x in p] for p in a]


UNITS = [['m/s', 'm/s', 1.], ['m/s', 'mm/s', 1e-3], ['mm/s', 'm/s', 1e3]]


@harness('C02', cases=grid(shape=SH, op=['add', 'sub', 'mul', 'div'], u=UNITS),
         thorough=grid(shape=TH, op=['add', 'sub', 'mul', 'div'], u=UNITS))
def sf_with_sf(h, shape, op, u):
    nx, ny, xs, ys, a, ma, b, mb = two(h, shape)
    if op == 'div':
        nzs(h, b)
    fa = mk_sf(h, xs, ys, a, ma, uv=u[0])
    fb = mk_sf(h, xs, ys, b, mb, uv=u[1])
    m = un2(h, ma, mb)
    k = u[2]
    if op == 'add':
        r, want, uw = fa + fb, zip2(lambda p, q: p + q * k, a, b), u[0]
    elif op == 'sub':
        r, want, uw = fa - fb, zip2(lambda p, q: p - q * k, a, b), u[0]
    elif op == 'mul':
        r = fa * fb
        # the physical product: value times unit
        n = float((r.unit_values / h.imt.make_unit('m**2/s**2')).asNumber(h.imt.make_unit('')))
        ka = {'m/s': 1., 'mm/s': 1e-3}
        f = ka[u[0]] * ka[u[1]] / n
        want, uw = zip2(lambda p, q: p * q * f, a, b), None
    else:
        r = fa / fb
        n = float(r.unit_values.asNumber(h.imt.make_unit('')))
        m = zip2(lambda p, q: h.Or(p, q == 0), m, b)
        f = 1. / k / n
        want, uw = zip2(lambda p, q: p / h.ite(q == 0, 1., q) * f, a, b), None
    chk_sf(h, r, xs, ys, want, m, op, 'm', 'mm', uw, tol=1e-5)
    chk_sf(h, fa, xs, ys, a, ma, 'left operand unchanged', 'm', 'mm', u[0])
    chk_sf(h, fb, xs, ys, b, mb, 'right operand unchanged', 'm', 'mm', u[1])


@harness('C02', cases=grid(shape=SH, op=['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div',
                                         'rdiv', 'neg', 'abs', 'pow2', 'pow3']),
         thorough=grid(shape=TH, op=['add', 'sub', 'rsub', 'mul', 'div', 'rdiv', 'pow2', 'pow4']))
def sf_with_number(h, shape, op):
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    a, ma = raw(h, nx, ny, mask='some')
    c = h.real('c', -4, 4)
    fa = mk_sf(h, xs, ys, a, ma)
    if op == 'div':
        h.assume(h.Or(c >= .125, c <= -.125))
    if op == 'rdiv':
        for r in a:
            for v in r:
                h.assume(h.Or(v >= .125, v <= -.125))
    f, g, uw = {
        'add': (lambda: fa + c, lambda p: p + c, 'm/s'),
        'radd': (lambda: c + fa, lambda p: p + c, 'm/s'),
        'sub': (lambda: fa - c, lambda p: p - c, 'm/s'),
        'rsub': (lambda: c - fa, lambda p: c - p, 'm/s'),
        'mul': (lambda: fa * c, lambda p: p * c, 'm/s'),
        'rmul': (lambda: c * fa, lambda p: p * c, 'm/s'),
        'div': (lambda: fa / c, lambda p: p / c, 'm/s'),
        'rdiv': (lambda: c / fa, lambda p: c / p, 's/m'),
        'neg': (lambda: -fa, lambda p: -p, 'm/s'),
        'abs': (lambda: abs(fa), lambda p: h.ite(p < 0, -p, p), 'm/s'),
        'pow2': (lambda: fa**2, lambda p: p * p, 'm**2/s**2'),
        'pow3': (lambda: fa**3, lambda p: p * p * p, 'm**3/s**3'),
        'pow4': (lambda: fa**4, lambda p: p * p * p * p, 'm**4/s**4'),
    }[op]
    chk_sf(h, f(), xs, ys, map2(g, a), ma, op, 'm', 'mm', uw, tol=1e-5)
    chk_sf(h, fa, xs, ys, a, ma, 'operand unchanged', 'm', 'mm', 'm/s')


@harness('C02', cases=grid(shape=SH, op=['add', 'sub', 'mul', 'div', 'rdiv'],
                           q=[[2.5, 'm/s'], [4., 'mm/s']]))
def sf_with_quantity(h, shape, op, q):
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    a, ma = raw(h, nx, ny, mask='some')
    if op == 'rdiv':
        for r in a:
            for v in r:
                h.assume(h.Or(v >= .125, v <= -.125))
    fa = mk_sf(h, xs, ys, a, ma)
    qty = h.imt.make_unit(q[1]) * q[0]
    si = q[0] * {'m/s': 1., 'mm/s': 1e-3}[q[1]]
    r = {'add': lambda: fa + qty, 'sub': lambda: fa - qty, 'mul': lambda: fa * qty,
         'div': lambda: fa / qty, 'rdiv': lambda: fa.__rtruediv__(qty)}[op]()
    base = {'add': 'm/s', 'sub': 'm/s', 'mul': 'm**2/s**2', 'div': '', 'rdiv': ''}[op]
    n = float((r.unit_values / h.imt.make_unit(base)).asNumber(h.imt.make_unit('')))
    g = {'add': lambda p: p + si, 'sub': lambda p: p - si, 'mul': lambda p: p * si,
         'div': lambda p: p / si, 'rdiv': lambda p: si / p}[op]
    chk_mask(h, r.mask, ma, op)
    chk_axes(h, r, xs, ys, op)
    # physical values agree
    h.eq(r.values * n, f64(h, masked(h, map2(g, a), ma)), op + ' physical value', 1e-5)
    chk_sf(h, fa, xs, ys, a, ma, 'operand unchanged', 'm', 'mm', 'm/s')


@harness('C02', cases=grid(shape=SH, op=['mul', 'div', 'rdiv']))
def sf_with_array(h, shape, op):
    nx, ny, xs, ys, a, ma, b, _ = two(h, shape)
    if op == 'div':
        nzs(h, b)
    if op == 'rdiv':
        for r in a + b:
            for v in r:
                h.assume(h.Or(v >= .125, v <= -.125))
    fa = mk_sf(h, xs, ys, a, ma)
    arr = f64(h, b)
    m = ma
    if op == 'mul':
        r, want = fa * arr, zip2(lambda p, q: p * q, a, b)
    elif op == 'div':
        r = fa / arr
        m = zip2(lambda p, q: h.Or(p, q == 0), ma, b)
        want = zip2(lambda p, q: p / h.ite(q == 0, 1., q), a, b)
    else:
        r = fa.__rtruediv__(arr)
        want = zip2(lambda p, q: q / p, a, b)
    chk_sf(h, r, xs, ys, want, m, op + ' array', 'm', 'mm', None, tol=1e-5)
    chk_sf(h, fa, xs, ys, a, ma, 'operand unchanged', 'm', 'mm', 'm/s')
    h.eq(arr, f64(h, b), 'array operand unchanged')


def vtwo(h, shape):
    nx, ny = shape
    xs, ys = axes(h, nx, ny)
    ax, ma = raw(h, nx, ny, 'a', 'some')
    ay, _ = raw(h, nx, ny, 'b', 'none')
    return nx, ny, xs, ys, ax, ay, ma


@harness('C02', cases=grid(shape=SH, op=['add', 'sub'], u=UNITS))
def vf_with_vf(h, shape, op, u):
    nx, ny, xs, ys, ax, ay, ma = vtwo(h, shape)
    bx, mb = raw(h, nx, ny, 'c', 'one')
    by, _ = raw(h, nx, ny, 'd', 'none')
    fa = mk_vf(h, xs, ys, ax, ay, ma, uv=u[0])
    fb = mk_vf(h, xs, ys, bx, by, mb, uv=u[1])
    s = 1 if op == 'add' else -1
    r = fa + fb if op == 'add' else fa - fb
    f = lambda p, q: p + s * q * u[2]
    chk_vf(h, r, xs, ys, zip2(f, ax, bx), zip2(f, ay, by), un2(h, ma, mb), op, 'm', 'mm',
           u[0], tol=1e-5)
    chk_vf(h, fa, xs, ys, ax, ay, ma, 'left operand unchanged', 'm', 'mm', u[0])
    chk_vf(h, fb, xs, ys, bx, by, mb, 'right operand unchanged', 'm', 'mm', u[1])


@harness('C02', cases=grid(shape=SH, op=['add', 'radd', 'sub', 'mul', 'rmul', 'div', 'neg',
                                         'abs', 'pow2', 'addvec', 'addarr', 'mularr',
                                         'divarr', 'mulsf', 'mulq', 'divq', 'addq']))
def vf_with_others(h, shape, op):
    nx, ny, xs, ys, ax, ay, ma = vtwo(h, shape)
    c = h.real('c', -4, 4)
    fa = mk_vf(h, xs, ys, ax, ay, ma)
    if op == 'div':
        h.assume(h.Or(c >= .125, c <= -.125))
    b, mb = raw(h, nx, ny, 'e', 'one')
    if op == 'divarr':
        nzs(h, b)
    m = ma
    uw = 'm/s'
    f = None
    if op in ('add', 'radd'):
        r = fa + c if op == 'add' else c + fa
        f = lambda p: p + c
    elif op == 'sub':
        r, f = fa - c, lambda p: p - c
    elif op in ('mul', 'rmul'):
        r = fa * c if op == 'mul' else c * fa
        f = lambda p: p * c
    elif op == 'div':
        r, f = fa / c, lambda p: p / c
    elif op == 'neg':
        r, f = -fa, lambda p: -p
    elif op == 'abs':
        r, f = abs(fa), lambda p: h.ite(p < 0, -p, p)
    elif op == 'pow2':
        r, f, uw = fa**2, lambda p: p * p, 'm**2/s**2'
    elif op == 'mulq':
        r, f, uw = fa * (h.imt.make_unit('s') * 2.5), lambda p: p * 2.5, 'm'
    elif op == 'divq':
        r, f, uw = fa / (h.imt.make_unit('s') * 2.5), lambda p: p / 2.5, 'm/s**2'
    elif op == 'addq':
        r, f = fa + h.imt.make_unit('mm/s') * 250., lambda p: p + .25
    if f is not None:
        wx, wy = map2(f, ax), map2(f, ay)
    elif op == 'addvec':
        d = h.real('d', -4, 4)
        r = fa + h.np.array([c, d])
        wx, wy = map2(lambda p: p + c, ax), map2(lambda p: p + d, ay)
    else:
        if op == 'mulsf':
            r = fa * mk_sf(h, xs, ys, b, mb, uv='s')
            uw = 'm'
            m = un2(h, ma, mb)
            g = lambda p, q: p * q
        elif op == 'mularr':
            r, g = fa * f64(h, b), lambda p, q: p * q
        elif op == 'addarr':
            r, g = fa + f64(h, b), lambda p, q: p + q
        else:
            r = fa / f64(h, b)
            m = zip2(lambda p, q: h.Or(p, q == 0), ma, b)
            g = lambda p, q: p / h.ite(q == 0, 1., q)
        wx, wy = zip2(g, ax, b), zip2(g, ay, b)
    chk_vf(h, r, xs, ys, wx, wy, m, op, 'm', 'mm', uw, tol=1e-5)
    chk_vf(h, fa, xs, ys, ax, ay, ma, 'operand unchanged', 'm', 'mm', 'm/s')


@harness('C02', cases=grid(kind=['sf', 'vf'], bad=['values', 'x', 'y']))
def incompatible_units_rejected(h, kind, bad):
    xs, ys = axes(h, 2, 2)
    a, _ = raw(h, 2, 2, mask='none')
    u = dict(ux='m', uy='m', uv='m/s')
    u2 = dict(u)
    u2[{'values': 'uv', 'x': 'ux', 'y': 'uy'}[bad]] = 'kg'
    if kind == 'sf':
        f, g = mk_sf(h, xs, ys, a, **u), mk_sf(h, xs, ys, a, **u2)
    else:
        f, g = mk_vf(h, xs, ys, a, a, **u), mk_vf(h, xs, ys, a, a, **u2)
    h.raises(ValueError, lambda: f + g, 'addition of fields with different dimensions')
