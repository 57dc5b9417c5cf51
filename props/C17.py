"""series of fields: times, arithmetic, statistics, interpolation along time"""
import itertools
import operator
from symx.harness import harness, grid
from .common import *
from .C07 import snap, same
from .C13 import chk_prf

BOUNDS = ('series of up to 5 scalar or vector fields of up to 2x2 points (statistics: every pattern of masks), arbitrary values and times, '
          'units m, mm, s, ms')

PERM = [list(p) for p in itertools.permutations(range(3))]


def cls(h, kind):
    return h.imt.TemporalScalarFields if kind == 'sf' else h.imt.TemporalVectorFields


def flds(h, kind, n, nx=2, ny=1, mask='all', name='f', units=('m', 'mm', 'm/s'), lo=-8, hi=8):
    """n fields on the same axes"""
    F = [Fld(h, nx, ny, kind, mask, name=name + '0', units=units, lo=lo, hi=hi)]
    for k in range(1, n):
        g = Fld(h, nx, ny, kind, mask, name=name + str(k), units=units, lo=lo, hi=hi)
        g.xs, g.ys = F[0].xs, F[0].ys
        F.append(g)
    return F


def mk(h, kind, F, ts, ut='s', order=None):
    tf = cls(h, kind)()
    for k in (order or range(len(F))):
        tf.add_field(F[k].make(), time=ts[k], unit_times=ut)
    return tf


def chk(h, tf, F, ts, label, ut='s', tol=None):
    h.check(len(tf.fields) == len(F) and len(tf.times) == len(F), label + ': one field per time')
    h.eq(tf.times, h.np.array(ts, dtype=float), label + ': times', tol)
    for f, g in zip(F, tf.fields):
        f.chk(g, label)
    if F:
        chk_axes(h, tf, F[0].xs, F[0].ys, label)
    chk_unit(h, tf.unit_times, ut, label + ' unit_times')


# ---- times and fields ---------------------------------------------------------------------------------------------

@harness('C17', cases=grid(kind=['sf', 'vf'], order=PERM))
def sorted_along_time(h, kind, order):
    """whatever the order of insertion, each field keeps its time"""
    F, ts = flds(h, kind, 3), lst(h.axis('t', 3))
    tf = mk(h, kind, F, ts, order=order)
    chk(h, tf, F, ts, 'series')
    for k, (t, f) in enumerate(tf):
        h.eq(t, ts[k], 'iteration: time')
        F[k].chk(f, 'iteration')
        F[k].chk(tf[k], 'item')
    h.check(len(tf) == 3, 'length')


@harness('C17', cases=grid(kind=['sf', 'vf'], u=['ms', 'h', 's']))
def adding_in_another_time_unit(h, kind, u):
    """times converted; other axes or kinds refused, without effect"""
    U = h.imt.make_unit
    k = float((U('s') / U(u)).asNumber(U('')))
    F, ts = flds(h, kind, 3), lst(h.axis('t', 2))
    tf = mk(h, kind, F[:2], ts)
    t = h.real('t', -20, 20)
    h.assume(h.And(t > ts[0] + .01, t < ts[1] - .01))
    G = Fld(h, 2, 1, kind, name='g')
    h.assume(G.xs[1] != F[0].xs[1])
    h.raises(Exception, lambda: tf.add_field(G.make(), time=t, unit_times='s'), 'other axes')
    G = Fld(h, 2, 1, 'vf' if kind == 'sf' else 'sf', name='k')
    G.xs, G.ys = F[0].xs, F[0].ys
    h.raises(Exception, lambda: tf.add_field(G.make(), time=t, unit_times='s'), 'other kind of field')
    chk(h, tf, F[:2], ts, 'after a refused field')
    tf.add_field(F[2].make(), time=t * k, unit_times=u)
    chk(h, tf, [F[0], F[2], F[1]], [ts[0], t, ts[1]], 'series', tol=1e-6)


@harness('C17', cases=grid(kind=['sf', 'vf'], many=[False, True]))
def removing_fields(h, kind, many):
    """exactly the asked ones, with their times"""
    F, ts = flds(h, kind, 4), lst(h.axis('t', 4))
    tf = mk(h, kind, F, ts)
    k = int(h.integer('k', 0, 3))
    l = int(h.integer('l', 0, 3)) if many else k
    tf.remove_fields([k, l] if many else k)
    I = [i for i in range(4) if i not in (k, l)]
    chk(h, tf, [F[i] for i in I], [ts[i] for i in I], 'series')


# ---- arithmetic ---------------------------------------------------------------------------------------------------

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}


def chk_each(h, kind, r, want, ts, label, ut='s'):
    h.check(len(r.fields) == len(want) and len(r.times) == len(want), label + ': one field per time')
    h.eq(r.times, h.np.array(ts, dtype=float), label + ': times')
    chk_unit(h, r.unit_times, ut, label + ' unit_times')
    for g, w in zip(r.fields, want):
        same(h, kind, g, snap(kind, w), label)


@harness('C17', cases=grid(kind=['sf', 'vf'], op=sorted(OPS), ut=['s', 'ms']))
def two_series(h, kind, op, ut):
    """the operation on the fields of each instant; operands unchanged"""
    F, G = flds(h, kind, 2, name='f'), flds(h, kind, 2, name='g', units=('m', 'mm', 'km/h'))
    for g in G:
        g.xs, g.ys = F[0].xs, F[0].ys
    ts = [1., 3.]
    a = mk(h, kind, F, ts)
    b = mk(h, kind, G, [t * 1000. if ut == 'ms' else t for t in ts], ut)
    if kind == 'vf' and op in '*/':
        return mul_vf(h, kind, a, b, F, G, ts, op)
    r = OPS[op](a, b)
    chk_each(h, kind, r, [OPS[op](f.make(), g.make()) for f, g in zip(F, G)], ts, 'result')
    chk(h, a, F, ts, 'first operand')
    chk(h, b, G, [t * 1000. if ut == 'ms' else t for t in ts], 'second operand', ut)


def mul_vf(h, kind, a, b, F, G, ts, op):
    """same outcome as for each pair of fields"""
    try:
        w = [OPS[op](f.make(), g.make()) for f, g in zip(F, G)]
    except TypeError:
        return h.raises(TypeError, lambda: OPS[op](a, b), 'refused as for fields')
    chk_each(h, kind, OPS[op](a, b), w, ts, 'result')


@harness('C17', cases=grid(kind=['sf', 'vf'], op=sorted(OPS), o=['number', 'quantity', 'field', 'neg', 'pow', 'rmul']))
def series_with_others(h, kind, op, o):
    """the operation on each field"""
    F, ts = flds(h, kind, 2), lst(h.axis('t', 2))
    a = mk(h, kind, F, ts)
    k = h.real('k', .25, 4)
    if o in ('neg', 'pow', 'rmul'):
        if op != '+':
            return h.check(True, 'single case')
        f = {'neg': lambda x: -x, 'pow': lambda x: x ** 2, 'rmul': lambda x: k * x}[o]
    else:
        if o == 'field' and (kind == 'vf' and op == '/' or op == '*'):
            return h.check(True, 'not defined')
        G = flds(h, kind, 1, name='g')[0]
        G.xs, G.ys = F[0].xs, F[0].ys
        b = {'number': lambda: k, 'quantity': lambda: 2.5 * h.imt.make_unit('mm/s'), 'field': G.make}[o]()
        f = lambda x: OPS[op](x, b)
    r = f(a)
    chk_each(h, kind, r, [f(g.make()) for g in F], ts, 'result')
    chk(h, a, F, ts, 'operand')
    r.fields[0].axe_x[0] = 50.
    chk(h, a, F, ts, 'operand after a change of the result')


# ---- statistics ---------------------------------------------------------------------------------------------------

def comps(f, kind):
    return [f.vx] if kind == 'sf' else [f.vx, f.vy]


def got(f, kind):
    return [f.values] if kind == 'sf' else [f.comp_x, f.comp_y]


def count(h, F, i, j):
    c = 0
    for f in F:
        c = c + h.ite(f.m[i][j], 0, 1)
    return c


def vsum(h, F, kind, c, i, j):
    s = 0.
    for f in F:
        s = s + h.ite(f.m[i][j], 0., comps(f, kind)[c][i][j])
    return s


def enough(h, n, nmb, masked, label):
    """points with too few values are masked, those with more than needed are not"""
    h.check(h.And(h.Implies(n > nmb, h.Not(masked)), h.Implies(h.Or(n < nmb, n == 0), masked)), label)


@harness('C17', cases=grid(kind=['sf', 'vf'], nmb=[0, 1, 2]))
def mean_field(h, kind, nmb):
    """mean of the valid samples of each point"""
    F, ts = flds(h, kind, 3, 2, 1), [0., 1., 3.]
    tf = mk(h, kind, F, ts)
    r = tf.get_mean_field(nmb_min=nmb)
    chk(h, tf, F, ts, 'series')
    chk_axes(h, r, F[0].xs, F[0].ys, 'mean')
    for u, w in zip((r.unit_x, r.unit_y, r.unit_values), F[0].u):
        chk_unit(h, u, w, 'mean')
    for i in range(2):
        n = count(h, F, i, 0)
        enough(h, n, nmb, r.mask[i, 0], 'points with enough values')
        for c, g in enumerate(got(r, kind)):
            h.check(h.Or(r.mask[i, 0], h.close(g[i, 0] * n, vsum(h, F, kind, c, i, 0), 1e-5)), 'mean of the valid samples')


@harness('C17', cases=grid(kind=['sf', 'vf']))
def fluctuations(h, kind):
    """difference to the mean field at each instant"""
    F, ts = flds(h, kind, 3, 1, 1), lst(h.axis('t', 3))
    tf = mk(h, kind, F, ts)
    r = tf.get_fluctuant_fields()
    chk(h, tf, F, ts, 'series')
    h.eq(r.times, h.np.array(ts, dtype=float), 'times')
    chk_unit(h, r.unit_times, 's', 'unit_times')
    n = count(h, F, 0, 0)
    for f, g in zip(F, r.fields):
        h.check(h.And(h.Implies(f.m[0][0], g.mask[0, 0]), h.Implies(h.And(n > 1, h.Not(f.m[0][0])), h.Not(g.mask[0, 0]))), 'mask')
        chk_unit(h, g.unit_values, 'm/s', 'fluctuation')
        for c, a in enumerate(got(g, kind)):
            h.check(h.Or(g.mask[0, 0], h.close((comps(f, kind)[c][0][0] - a[0, 0]) * n, vsum(h, F, kind, c, 0, 0), 1e-5)),
                    'difference to the mean')


@harness('C17', cases=grid(up=[False, True], nmb=[0, 1, 2]))
def extreme_fields(h, up, nmb):
    """smallest or largest valid sample of each point"""
    F, ts = flds(h, 'sf', 3, 2, 1), [0., 1., 3.]
    tf = mk(h, 'sf', F, ts)
    r = (tf.get_max_field if up else tf.get_min_field)(nmb_min=nmb)
    chk(h, tf, F, ts, 'series')
    chk_axes(h, r, F[0].xs, F[0].ys, 'extremum')
    chk_unit(h, r.unit_values, 'm/s', 'extremum')
    for i in range(2):
        n = count(h, F, i, 0)
        enough(h, n, nmb, r.mask[i, 0], 'points with enough values')
        v = r.values[i, 0]
        ok = [h.And(h.Not(f.m[i][0]), h.close(v, f.vx[i][0])) for f in F]
        bd = [h.Or(f.m[i][0], v >= f.vx[i][0] - 1e-9 if up else v <= f.vx[i][0] + 1e-9) for f in F]
        h.check(h.Or(r.mask[i, 0], h.And(h.Or(*ok), *bd)), 'extreme valid sample')


@harness('C17', cases=grid(which=['mke', 'tke', 'mtke', 'rs', 'ti']))
def kinetic_energies(h, which):
    """half squares of the mean and of the fluctuations; stresses: means of the products of the fluctuations"""
    F, ts = flds(h, 'vf', 3, 1, 1, lo=-4, hi=4), lst(h.axis('t', 3))
    if which == 'ti':
        for f in F:
            f.m[0][0] = False
            h.assume(f.vx[0][0] > .5)
    tf = mk(h, 'vf', F, ts)
    n = count(h, F, 0, 0)
    ms = [vsum(h, F, 'vf', c, 0, 0) for c in range(2)]
    fl = [[f.vx[0][0] * n - ms[0], f.vy[0][0] * n - ms[1]] for f in F]       # fluctuations times n
    U = h.imt.make_unit
    r = {'mke': tf.get_mean_kinetic_energy, 'tke': tf.get_tke, 'mtke': tf.get_mean_tke, 'rs': tf.get_reynolds_stress,
         'ti': tf.get_turbulent_intensity}[which]()
    chk(h, tf, F, ts, 'series')
    u2 = U('m/s') ** 2
    if which == 'mke':
        chk_unit(h, r.unit_values, u2, 'energy')
        h.check(h.Iff(r.mask[0, 0], n <= 1), 'mask')
        h.check(h.Or(r.mask[0, 0], h.close(r.values[0, 0] * n * n, (ms[0] * ms[0] + ms[1] * ms[1]) / 2., 1e-4)), 'energy')
    elif which == 'tke':
        h.eq(r.times, h.np.array(ts, dtype=float), 'times')
        for f, g, e in zip(F, r.fields, fl):
            chk_unit(h, g.unit_values, u2, 'energy')
            h.check(h.Iff(g.mask[0, 0], h.Or(f.m[0][0], n <= 1)), 'mask')
            h.check(h.Or(g.mask[0, 0], h.close(g.values[0, 0] * n * n, (e[0] * e[0] + e[1] * e[1]) / 2., 1e-4)), 'energy')
    elif which == 'ti':
        for f, g, e in zip(F, r.fields, fl):
            chk_unit(h, g.unit_values, U(''), 'intensity')
            v2 = f.vx[0][0] * f.vx[0][0] + f.vy[0][0] * f.vy[0][0]
            v = g.values[0, 0]
            h.check(h.And(v >= 0, h.close(v * v * v2 * 27., e[0] * e[0] + e[1] * e[1], 1e-3)), 'intensity')
    else:
        for g, (a, b) in zip([r] if which == 'mtke' else r, [(0, 0), (1, 1), (0, 1)]):
            chk_unit(h, g.unit_values, u2, 'stress')
            h.check(h.Iff(g.mask[0, 0], n <= 1), 'mask')
            s = 0.
            for f, e in zip(F, fl):
                p = (e[0] * e[0] + e[1] * e[1]) / 2. if which == 'mtke' else e[a] * e[b]
                s = s + h.ite(f.m[0][0], 0., p)
            h.check(h.Or(g.mask[0, 0], h.close(g.values[0, 0] * n * n * n, s, 1e-3)), 'mean of the products')


@harness('C17')
def correlation_in_time(h):
    """normalized product with the first field"""
    F, ts = flds(h, 'vf', 3, 2, 1, mask='none', lo=-4, hi=4), lst(h.axis('t', 3))
    h.assume(F[0].vx[0][0] > 1.)
    r = mk(h, 'vf', F, ts).get_time_auto_correlation()
    P = lambda a, b: sum(a.vx[i][0] * b.vx[i][0] + a.vy[i][0] * b.vy[i][0] for i in range(2))
    h.eq(r.x, h.np.array(ts, dtype=float), 'times')
    for k in range(3):
        h.check(h.close(r.y[k] * P(F[0], F[0]), P(F[0], F[k]), 1e-4), 'correlation')
    h.eq(r.y[0], 1., 'one for the first field')
    chk_unit(h, r.unit_x, 's', 'times')
    chk_unit(h, r.unit_y, '', 'correlation')


@harness('C17')
def components(h):
    """series of the components and of the magnitude"""
    F, ts = flds(h, 'vf', 2, 3, 2, mask='some', lo=-4, hi=4), lst(h.axis('t', 2))
    tf = mk(h, 'vf', F, ts)
    for name, raw_, fn in (('Vx_as_sf', 'Vx', lambda f, i, j: f.vx[i][j]), ('Vy_as_sf', 'Vy', lambda f, i, j: f.vy[i][j]),
                           ('magnitude_as_sf', 'magnitude', None)):
        r, a = getattr(tf, name), getattr(tf, raw_)
        h.eq(r.times, h.np.array(ts, dtype=float), name + ': times')
        chk_unit(h, r.unit_times, 's', name)
        h.check(tuple(a.shape) == (2, 3, 2), name + ': one array per time')
        for k, f in enumerate(F):
            g = r.fields[k]
            chk_axes(h, g, f.xs, f.ys, name)
            chk_mask(h, g.mask, f.m, name)
            chk_unit(h, g.unit_values, 'm/s', name)
            for i in range(3):
                for j in range(2):
                    if fn:
                        ok = h.And(h.close(g.values[i, j], fn(f, i, j)), h.close(a[k, i, j], fn(f, i, j)))
                    else:
                        w = f.vx[i][j] * f.vx[i][j] + f.vy[i][j] * f.vy[i][j]
                        v, q = g.values[i, j], a[k, i, j]
                        ok = h.And(v >= 0, h.close(v * v, w, 1e-5), q >= 0, h.close(q * q, w, 1e-5))
                    h.check(h.Or(f.m[i][j], ok), name)
        h.check(h.And(*[h.Iff(tf.mask[k, i, j], F[k].m[i][j]) for k in range(2) for i in range(3) for j in range(2)]), 'mask')
        h.check(h.And(*[h.Iff(tf.mask_cum[i, j], h.And(F[0].m[i][j], F[1].m[i][j])) for i in range(3) for j in range(2)]),
                'points always masked')


@harness('C17', cases=grid(kind=['sf', 'vf'], band=[None, 1]))
def recurrences(h, kind, band):
    """symmetric map of the distances between the fields, zero on the diagonal"""
    F, ts = flds(h, kind, 3, 2, 1, mask='none', lo=-4, hi=4), lst(h.axis('t', 3))
    r = mk(h, kind, F, ts).get_recurrence_map(bandwidth=band)
    h.eq(r.axe_x, h.np.array(ts, dtype=float), 'times')
    h.eq(r.axe_y, h.np.array(ts, dtype=float), 'times')
    chk_unit(h, r.unit_x, 's', 'times')
    chk_unit(h, r.unit_y, 's', 'times')
    chk_unit(h, r.unit_values, 'm/s', 'distances')
    nv = 2 if kind == 'sf' else 4
    for a in range(3):
        for b in range(3):
            if band is not None and abs(a - b) > band:
                h.check(r.mask[a, b], 'outside of the band')
                continue
            s = 0.
            for p, q in zip(comps(F[a], kind), comps(F[b], kind)):
                s = s + sum((p[i][0] - q[i][0]) * (p[i][0] - q[i][0]) for i in range(2))
            v = r.values[a, b] * nv
            h.check(h.And(h.Not(r.mask[a, b]), v >= 0, h.close(v * v, s, 1e-4)), 'distance')


# ---- along time ---------------------------------------------------------------------------------------------------

@harness('C17', cases=grid(kind=['sf', 'vf'], exact=[False, True]))
def interpolation_in_time(h, kind, exact):
    """on the line between the two neighbouring instants, masked if one of them is"""
    F, ts = flds(h, kind, 3), lst(h.axis('t', 3))
    tf = mk(h, kind, F, ts)
    if exact:
        k = int(h.integer('k', 0, 2))
        r = tf.get_interpolated_field(ts[k])
        F[k].chk(r, 'exact time')
        r.axe_x = r.axe_x + 1.
        r.mask = True
        return chk(h, tf, F, ts, 'series')
    t = h.real('t', -20, 20)
    h.assume(h.And(t > ts[0], t < ts[2], t != ts[1]))
    r = tf.get_interpolated_field(t)
    chk(h, tf, F, ts, 'series')
    k = 0 if bool(t < ts[1]) else 1
    d = ts[k + 1] - ts[k]
    chk_axes(h, r, F[0].xs, F[0].ys, 'interpolated')
    chk_unit(h, r.unit_values, 'm/s', 'interpolated')
    chk_mask(h, r.mask, [[h.Or(F[k].m[i][0], F[k + 1].m[i][0])] for i in range(2)], 'interpolated')
    for c, g in enumerate(got(r, kind)):
        for i in range(2):
            a, b = comps(F[k], kind)[c][i][0], comps(F[k + 1], kind)[c][i][0]
            h.check(h.Or(r.mask[i, 0], h.close(g[i, 0] * d, a * (ts[k + 1] - t) + b * (t - ts[k]), 1e-5)), 'linear in time')


@harness('C17', cases=grid(kind=['sf', 'vf']))
def interpolation_outside(h, kind):
    """refused"""
    F, ts = flds(h, kind, 2), lst(h.axis('t', 2))
    t = h.real('t', -40, 40)
    h.assume(h.Or(t < ts[0], t > ts[1]))
    tf = mk(h, kind, F, ts)
    h.raises(Exception, lambda: tf.get_interpolated_field(t), 'time outside')


@harness('C17', cases=grid(kind=['sf', 'vf'], fact=[2, 3], inplace=[True, False]))
def more_instants(h, kind, fact, inplace):
    """original fields, and evenly interpolated ones between them"""
    F, ts = flds(h, kind, 3), lst(h.axis('t', 3))
    tf = mk(h, kind, F, ts)
    r = tf.augment_temporal_resolution(fact=fact, inplace=inplace)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = tf
    else:
        chk(h, tf, F, ts, 'original')
    h.check(len(r) == 2 * fact + 1 and len(r.times) == 2 * fact + 1, 'number of instants')
    chk_unit(h, r.unit_times, 's', 'times')
    chk_axes(h, r, F[0].xs, F[0].ys, 'series')
    for n in range(2 * fact + 1):
        k, s = min(n // fact, 1), (n - fact * min(n // fact, 1)) / float(fact)
        h.eq(r.times[n], ts[k] + (ts[k + 1] - ts[k]) * s, 'times', 1e-6)
        g = r.fields[n]
        if s in (0., 1.):
            F[k + int(s)].chk(g, 'original instant')
            continue
        chk_mask(h, g.mask, [[h.Or(F[k].m[i][0], F[k + 1].m[i][0])] for i in range(2)], 'new instant')
        for c, a in enumerate(got(g, kind)):
            for i in range(2):
                w = comps(F[k], kind)[c][i][0] * (1. - s) + comps(F[k + 1], kind)[c][i][0] * s
                h.check(h.Or(g.mask[i, 0], h.close(a[i, 0], w, 1e-5)), 'new instant')


@harness('C17', cases=grid(kind=['sf', 'vf'], n=[2, 3], mean=[True, False], inplace=[True, False]))
def fewer_instants(h, kind, n, mean, inplace):
    """mean (or first) field and time of each complete group"""
    F, ts = flds(h, kind, 5, 2, 1), lst(h.axis('t', 5))
    tf = mk(h, kind, F, ts)
    r = tf.reduce_temporal_resolution(n, mean=mean, inplace=inplace)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = tf
    else:
        chk(h, tf, F, ts, 'original')
    m = 5 // n
    h.check(len(r) == m and len(r.times) == m, 'number of groups')
    chk_unit(h, r.unit_times, 's', 'times')
    for k in range(m):
        G = F[k * n:(k + 1) * n] if mean else F[k * n:k * n + 1]
        T = ts[k * n:(k + 1) * n] if mean else ts[k * n:k * n + 1]
        h.eq(r.times[k], sum(T) / float(len(T)), 'times', 1e-6)
        g = r.fields[k]
        chk_mask(h, g.mask, [[h.Or(*[f.m[i][0] for f in G])] for i in range(2)], 'group')
        chk_unit(h, g.unit_values, 'm/s', 'group')
        for c, a in enumerate(got(g, kind)):
            for i in range(2):
                w = sum(comps(f, kind)[c][i][0] for f in G) / float(len(G))
                h.check(h.Or(g.mask[i, 0], h.close(a[i, 0], w, 1e-5)), 'mean of the group')


@harness('C17', cases=grid(kind=['sf', 'vf'], where=['ind', 'pos', 'pts'], win=[False, True]))
def profile_in_time(h, kind, where, win):
    """value of the point (or of the points, each at its own time) at the asked instants"""
    F, ts = flds(h, kind, 3, 2, 2), lst(h.axis('t', 3))
    tf = mk(h, kind, F, ts)
    comp = 'values' if kind == 'sf' else 'comp_y'
    I = list(range(3))
    kw = {}
    if win:
        a, b = h.real('a', -20, 20), h.real('b', -20, 20)
        h.assume(a < b)
        kw = dict(wanted_times=[a, b])
        I = [k for k in I if bool(h.And(ts[k] >= a, ts[k] <= b))]
        if len(I) < 2:
            return h.check(True, 'not enough points')
    pos = [(0, 1), (1, 1), (1, 0)]
    xs, ys = F[0].xs, F[0].ys
    if where == 'ind':
        pos = [(1, 0)] * 3
        r = tf.get_time_profile(comp, [1, 0], ind=True, **kw)
    elif where == 'pos':
        x, y = h.real('x', -20, 20), h.real('y', -20, 20)
        h.assume(h.And(x >= xs[0], x <= xs[1], y >= ys[0], y <= ys[1]))
        h.assume(h.And(x + x != xs[0] + xs[1], y + y != ys[0] + ys[1]))
        pos = [(int(bool(x + x > xs[0] + xs[1])), int(bool(y + y > ys[0] + ys[1])))] * 3
        r = tf.get_time_profile(comp, [x, y], **kw)
    else:
        o = [2, 0, 1]
        p = h.imt.Points([[xs[pos[k][0]], ys[pos[k][1]]] for k in o], [ts[k] for k in o])
        r = tf.get_time_profile(comp, p, **kw)
    chk(h, tf, F, ts, 'series')
    v = [(F[k].vx if kind == 'sf' else F[k].vy)[pos[k][0]][pos[k][1]] for k in I]
    m = [F[k].m[pos[k][0]][pos[k][1]] for k in I]
    chk_prf(h, r, [ts[k] for k in I], v, m, 's', 'm/s', 'profile')


@harness('C17', cases=grid(kind=['sf', 'vf'], inplace=[True, False], fk=['linear', 'value'], n=[4, 5]))
def filling_along_time(h, kind, inplace, fk, n):
    """masked samples between valid ones are interpolated in time; valid samples are kept"""
    F, ts = flds(h, kind, n, 1, 1), lst(h.axis('t', n))
    if n == 5:
        F[0].m[0][0] = F[3].m[0][0] = False
    if not inplace and fk == 'value':
        ts = [0., 1., 2.5, 4., 5.][:n]
    tf = mk(h, kind, F, ts)
    m = [bool(f.m[0][0]) for f in F]
    kw = {}
    if fk == 'value':
        a, b = h.real('a', -5, 5), h.real('b', -5, 5)
        kw = dict(value=a if kind == 'sf' else [a, b])
    r = tf.fill(tof='temporal', kind=fk, inplace=inplace, **kw)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = tf
    else:
        chk(h, tf, F, ts, 'original')
    V = [k for k in range(n) if not m[k]]
    h.check(len(r) == n, 'number of fields')
    h.eq(r.times, h.np.array(ts, dtype=float), 'times')
    for k in range(n):
        g = r.fields[k]
        for c, arr in enumerate(got(g, kind)):
            v = [comps(f, kind)[c][0][0] for f in F]
            if not m[k]:
                h.check(h.And(h.Not(g.mask[0, 0]), h.close(arr[0, 0], v[k])), 'valid sample')
            elif len(V) < 3 or (fk == 'linear' and not V[0] < k < V[-1]):
                h.check(g.mask[0, 0], 'nothing to interpolate')
            elif fk == 'value':
                h.check(h.And(h.Not(g.mask[0, 0]), h.close(arr[0, 0], (a, b)[c])), 'asked value')
            else:
                p, q = max(i for i in V if i < k), min(i for i in V if i > k)
                d = ts[q] - ts[p]
                h.check(h.And(h.Not(g.mask[0, 0]),
                              h.close(arr[0, 0] * d, v[p] * (ts[q] - ts[k]) + v[q] * (ts[k] - ts[p]), 1e-4)),
                        'interpolated in time')


@harness('C17')
def background(h):
    """constant points are their own background"""
    c = [h.real('c%d' % i, -50, 50) for i in range(2)]
    tf = h.imt.TemporalScalarFields()
    for k in range(3):
        tf.add_field(mk_sf(h, [0., 1.], [0.], [[c[0]], [c[1]]]), time=float(k))
    r = tf.get_background()
    for i in range(2):
        h.check(h.And(h.Not(r.mask[i, 0]), h.close(r.values[i, 0], c[i], 1e-5)), 'constant point')
    h.eq(r.axe_x, h.np.array([0., 1.]), 'axis')
