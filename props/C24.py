"""detection of critical points and of vortices"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('linear fields on one cell (nine fixed matrices: centres, foci, nodes, saddles) or on 3x3 points, steps 1x1 and 2x0.5, one coordinate of the '
          'critical point free inside its cell; cells with three fixed corners and the fourth vector free (away from opposite neighbours); bilinear fields '
          'with cross terms in both components; cells where one component keeps its sign, all values free; saddle directions on 4x4 points; series of three '
          'fields; mirroring of a 4x4 field; criterion fields of 3x3 points with one free value. Not covered: points with a null component at a corner for '
          'kind pbi (the code documents that it skips them), points on grid lines, only one bilinear component, refinement by criterion (pbi_crit), gam_vort, threads')
TYPES = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']


def VD(h):
    from IMTreatment.vortex_detection import vortex_detection as vd
    return vd


A = {'foc': [[0., -1.], [1., 0.]], 'foc_c': [[0., 1.], [-1., 0.]], 'foc_o': [[.5, -1.], [2., .5]], 'foc_i': [[-.5, 1.], [-1., -.25]],
     'node_o': [[1., 0.], [0., 2.]], 'node_i': [[-1., .25], [0., -2.]], 'sadd': [[1., 0.], [0., -1.]], 'sadd2': [[.5, 1.], [1., 0.]],
     'node_o2': [[1., -.3125], [.3125, 2.]]}
KIND = {'foc_o': 'foc', 'foc_i': 'foc_c', 'sadd2': 'sadd', 'node_o2': 'node_o'}


def linear(h, M, c, nx=3, ny=3, dx=1., dy=1., u='m', uy='mm'):
    xs, ys = [k * dx for k in range(nx)], [k * dy for k in range(ny)]
    f = [[[M[q][0] * (xs[i] - c[0]) + M[q][1] * (ys[j] - c[1]) for j in range(ny)] for i in range(nx)] for q in range(2)]
    return mk_vf(h, xs, ys, f[0], f[1], ux=u, uy=uy)


def no_null(h, vf):
    """(documented) cells where a component is null at a corner are skipped"""
    for V in (vf.comp_x, vf.comp_y):
        for v in V.flat:
            h.assume(v != 0)


def counts(cp, n=0):
    return {t: len(getattr(cp, t)[n].xy) for t in TYPES}


def chk_types(h, cp, want, n=0):
    for t in TYPES:
        h.check(len(getattr(cp, t)[n].xy) == want.get(t, 0), '%s %s' % (want.get(t, 0), t))


CASES = [dict(m=m, n=2, cell=(0, 0), d=d, free=f, kind=k) for m in sorted(A) for d in [(2., .5), (1., 1.)] for f in 'xy' for k in ('pbi', 'pbi_cell')] + \
        [dict(m=m, n=3, cell=c, d=(2., .5), free=f, kind=k) for m in ('foc', 'foc_c', 'node_o', 'sadd') for c in [(1, 0), (0, 1)] for f in 'xy' for k in ('pbi', 'pbi_cell')]


@harness('C24', cases=CASES)
def linear_field(h, m, n, cell, d, free, kind):
    """the critical point of a linear field is found in its cell, with its type"""
    dx, dy = d
    s = h.real('s', .01, .99)
    cx = cell[0] * dx + dx * (s if free == 'x' else .375)
    cy = cell[1] * dy + dy * (s if free == 'y' else .375)
    vf = linear(h, A[m], (cx, cy), dx=dx, dy=dy, nx=n, ny=n)
    if kind == 'pbi':
        no_null(h, vf)
    cp = VD(h).get_critical_points(vf, kind=kind, time=2., unit_time='s')
    h.check(len(cp.times) == 1, 'one instant')
    h.eq(cp.times[0], 2., 'time')
    chk_unit(h, cp.unit_time, 's', 'unit of the time')
    t = KIND.get(m, m)
    chk_types(h, cp, {t: 1})
    for q in TYPES:
        p = getattr(cp, q)[0]
        chk_unit(h, p.unit_x, 'm', 'unit')
        chk_unit(h, p.unit_y, 'mm', 'unit')
    p = getattr(cp, t)[0]
    if kind == 'pbi_cell':
        cx, cy = (cell[0] + .5) * dx, (cell[1] + .5) * dy
    h.eq(p.xy[0, 0], cx, 'position', 1e-6)
    h.eq(p.xy[0, 1], cy, 'position', 1e-6)


@harness('C24', cases=grid(comp=['x', 'y'], sgn=[1, -1], kind=['pbi', 'pbi_cell']))
def no_reversal(h, comp, sgn, kind):
    """no critical point where a component keeps its sign"""
    a = [[sgn * h.real('a%s%s' % (i, j), .01, 5) for j in range(2)] for i in range(2)]
    b = [[h.real('b%s%s' % (i, j), -5, 5) for j in range(2)] for i in range(2)]
    vx, vy = (a, b) if comp == 'x' else (b, a)
    vf = mk_vf(h, [0., 2.], [1., 2.], vx, vy, ux='m', uy='m')
    cp = VD(h).get_critical_points(vf, kind=kind, time=1.)
    h.check(len(cp.times) == 1, 'one instant')
    chk_types(h, cp, {})


# three fixed corners, the fourth one free: corners in the order 00, 10, 11, 01 (counterclockwise)
CORN = {'ccw': [(1., -2.), (2., 1.), None, (-3., -1.)], 'cw': [(1., 2.), (2., -1.), None, (-2., 1.)],
        'half': [(1., 1.), (-1., 2.), None, (-1., -3.)], 'turn': [(2., -1.), (-1., 2.), None, (2., 3.)],
        'same': [(-1., 1.), (-2., 1.), None, (-1., 3.)]}


def winding(h, vs):
    """number of turns of the vector along the corners (counterclockwise crossings of the half axis of positive x)"""
    w = 0
    for n in range(4):
        (ax, ay), (bx, by) = vs[n], vs[(n + 1) % 4]
        cr = ax * by - ay * bx
        up = h.And(ay < 0, by >= 0, cr > 0)
        down = h.And(ay >= 0, by < 0, cr < 0)
        w = w + h.ite(up, 1, 0) - h.ite(down, 1, 0)
    return w


@harness('C24', cases=grid(c=sorted(CORN), at=[0, 1, 2, 3]))
def index_of_a_cell(h, c, at):
    """a cell has a critical point when the vector turns once along its border: a saddle in the reverse direction"""
    p, q = h.real('p', -4, 4), h.real('q', -4, 4)
    h.assume(p != 0)
    h.assume(q != 0)
    k = h.real('k', 1, 1)
    vs = [(v[0] * k, v[1] * k) if v is not None else (p, q) for v in CORN[c]]
    vs = vs[at:] + vs[:at]
    for n in range(4):
        (ax, ay), (bx, by) = vs[n], vs[(n + 1) % 4]
        cr = ax * by - ay * bx
        h.assume(h.Or(cr > .01, cr < -.01))
    comp = [[[vs[0][k], vs[3][k]], [vs[1][k], vs[2][k]]] for k in range(2)]
    vf = mk_vf(h, [0., 2.], [1., 2.], comp[0], comp[1], ux='m', uy='m')
    cp = VD(h).get_critical_points(vf, kind='pbi_cell', time=1.)
    w = winding(h, vs)
    ns = counts(cp)
    h.eq(ns['sadd'], h.ite(w == -1, 1, 0), 'saddles')
    h.eq(sum(ns[t] for t in TYPES if t != 'sadd'), h.ite(w == 1, 1, 0), 'foci and nodes')


@harness('C24', cases=grid(kind=['pbi', 'pbi_cell'], m=['sadd', 'swap', 'skew'], d=[(1., 1.), (2., .5)]))
def saddle_directions(h, kind, m, d):
    """the directions of a saddle point are its unstable and its stable directions"""
    M = dict(A, swap=[[0., 1.], [2., 0.]], skew=[[-1., 1.], [0., 2.]])[m]
    dx, dy = d
    s = h.real('s', .02, .98) if m != 'skew' else h.real('s', .7, .9)
    vf = linear(h, M, (dx * (1 + s), dy * 1.625), dx=dx, dy=dy, nx=4, ny=4)
    if kind == 'pbi':
        no_null(h, vf)
    cp = VD(h).get_critical_points(vf, kind=kind, time=1.)
    chk_types(h, cp, {'sadd': 1})
    o = cp.sadd[0].orientations[0]
    for k in range(2):
        x, y = o[k][0], o[k][1]
        vx, vy = M[0][0] * x + M[0][1] * y, M[1][0] * x + M[1][1] * y
        h.eq(vx * y - vy * x, 0., 'eigenvector', 1e-6)
        h.eq(x * x + y * y, 1., 'norm', 1e-6)
        sc = vx * x + vy * y
        h.check(sc > .01 if k == 0 else sc < -.01, 'stability')


@harness('C24', cases=grid(kind=['pbi', 'pbi_cell']))
def series(h, kind):
    """critical points of a series: those of each field, at its time"""
    s = h.real('s', .05, .95)
    t0, dt = h.real('t0', -3, 3), h.real('dt', .5, 2)
    fs = [linear(h, A['foc'], (s, .375), nx=2, ny=2), linear(h, A['sadd'], (.625, s), nx=2, ny=2), linear(h, A['node_i'], (5., 5.), nx=2, ny=2)]
    tvf = h.imt.TemporalVectorFields()
    ts = [t0, t0 + dt, t0 + 3 * dt]
    for f, t in zip(fs, ts):
        tvf.add_field(f, time=t, unit_times='s')
    if kind == 'pbi':
        for f in fs[:2]:
            no_null(h, f)
    cp = VD(h).get_critical_points(tvf, kind=kind)
    h.check(len(cp.times) == 3, 'three instants')
    chk_unit(h, cp.unit_time, 's', 'unit of the time')
    for n, want in enumerate([{'foc': 1}, {'sadd': 1}, {}]):
        h.eq(cp.times[n], ts[n], 'time')
        chk_types(h, cp, want, n)
    if kind == 'pbi':
        h.eq(cp.foc[0].xy[0, 0], s, 'position', 1e-6)
        h.eq(cp.sadd[1].xy[0, 1], s, 'position', 1e-6)


@harness('C24', cases=[dict(kind=k, how=w) for k in ('pbi', 'pbi_cell') for w in ('plain', 'smooth', 'mirror')])
def field_kept(h, kind, how):
    """the field is left as it was; masked fields are refused"""
    s = h.real('s', .05, .95)
    kw = {'plain': {}, 'smooth': dict(smoothing_size=1), 'mirror': dict(mirroring=[['x', 0.]], mirror_interp='linear')}[how]
    n = 3
    M, c = A['foc'], (s if how == 'smooth' else 1 + s, .375)
    vf = linear(h, M, c, nx=n, ny=n, u='mm', uy='m')
    VD(h).get_critical_points(vf, kind=kind, time=1., **kw)
    ref = linear(h, M, c, nx=n, ny=n, u='mm', uy='m')
    chk_vf(h, vf, [0., 1., 2.], [0., 1., 2.], lst(ref.comp_x), lst(ref.comp_y), [[False] * n] * n, 'field', ux='mm', uy='m', uv='m/s')
    mf = mk_vf(h, [0., 1., 2.], [0., 1.], [[s, 1.], [2., -1.], [0., 1.]], [[1., 1.], [2., s], [0., 1.]], [[False, False], [True, False], [False, False]])
    h.raises(ValueError, lambda: VD(h).get_critical_points(mf, kind=kind, time=1.), 'masked values')


@harness('C24', cases=grid(kind=['pbi', 'pbi_cell'], axis=['x', 'y'], ser=[False, True]))
def mirrored(h, kind, axis, ser):
    """mirroring adds no critical point away from the mirror, and keeps those of the field"""
    s = h.real('s', .05, .95)
    c = (2 + s, 2.375) if axis == 'x' else (2.375, 2 + s)
    vf = linear(h, A['foc'], c, nx=4, ny=4)
    if kind == 'pbi':
        no_null(h, vf)
    obj = vf
    if ser:
        obj = h.imt.TemporalVectorFields()
        obj.add_field(vf, time=1., unit_times='s')
    cp = VD(h).get_critical_points(obj, kind=kind, mirroring=[[axis, -1.]], mirror_interp='linear')
    h.check(len(cp.times) == 1, 'one instant')
    if kind == 'pbi_cell':
        c = (2.5, 2.5)
    near = 0
    for p in cp.foc[0].xy:
        if bool(h.And(h.close(p[0], c[0], 1e-6), h.close(p[1], c[1], 1e-6))):
            near += 1
    h.check(near == 1, 'the point of the field')
    k = 'xy'.index(axis)
    if ser:
        one = VD(h).get_critical_points(vf, kind=kind, mirroring=[[axis, -1.]], mirror_interp='linear')
        for t in TYPES:
            a, b = getattr(cp, t)[0].xy, getattr(one, t)[0].xy
            h.check(len(a) == len(b), 'as for the field alone')
            for p, q in zip(a, b):
                h.eq(p[0], q[0], 'as for the field alone', 1e-6)
                h.eq(p[1], q[1], 'as for the field alone', 1e-6)
    for t in TYPES:
        for p in getattr(cp, t)[0].xy:
            h.check(p[k] >= -1.5, 'no point beyond the mirror')


CRIT = {'two': ([[3., 2., 0.], [0., 0., 0.], [0., -1., -2.]], (0, 0)), 'plus': ([[0., 0., 0.], [0., 2., 1.], [0., 0., 0.]], (1, 1)),
        'minus': ([[0., -3., 0.], [-1., -2., 0.], [0., 0., 0.]], (1, 1)), 'apart': ([[2., 0., 3.], [0., 0., 0.], [-2., 0., -2.]], (0, 2))}


@harness('C24', cases=[q for q in grid(c=sorted(CRIT), thr=[.5, .3], rel=[True, False], ser=[False, True])])
def vortex_positions(h, c, thr, rel, ser):
    """vortices: centres of mass of the zones above the threshold (anticlockwise ones for positive values)"""
    import IMTreatment as imt
    base, at = CRIT[c]
    v = h.real('v', -4, 4)
    vals = [list(r) for r in base]
    vals[at[0]][at[1]] = v
    xs, ys = [0., 2., 4.], [1., 1.5, 2.]
    vf = mk_vf(h, xs, ys, vals, vals, ux='m', uy='mm')
    seen = []

    def crit(field, fact=1.):
        seen.append(fact)
        return mk_sf(h, xs, ys, [[x * fact for x in r] for r in vals], ux='m', uy='mm')
    if not rel:
        thr = thr * 5.5
    obj = vf
    if ser:
        obj = h.imt.TemporalVectorFields()
        obj.add_field(vf, time=3., unit_times='s')
    cp = VD(h).get_vortex_position(obj, criterion=crit, criterion_args={'fact': 2.}, threshold=thr, rel=rel)
    h.check(seen == [2.], 'the criterion is called once, with its arguments')
    h.check(len(cp.times) == 1, 'one instant')
    h.eq(cp.times[0], 3. if ser else 0., 'time')
    w = [[2 * x for x in r] for r in vals]
    if rel:
        m = 0.
        for r in w:
            for x in r:
                m = h.ite(abs(x) > m, abs(x), m)
        lim = thr * m
    else:
        lim = thr
    for r in w:
        for x in r:
            h.assume(h.Or(abs(x) > lim * 1.001, abs(x) < lim * .999))
    for sgn, t in ((1, 'foc'), (-1, 'foc_c')):
        inz = [[bool(sgn * w[i][j] > lim) for j in range(3)] for i in range(3)]
        zones = zones_of(inz)
        got = getattr(cp, t)[0].xy
        h.check(len(got) == len(zones), 'number of zones')
        if len(got) != len(zones):
            continue
        for n, z in enumerate(zones):
            tot = sum(abs(w[i][j]) for i, j in z)
            h.eq(got[n, 0] * tot, sum(abs(w[i][j]) * xs[i] for i, j in z), 'centre', 1e-6)
            h.eq(got[n, 1] * tot, sum(abs(w[i][j]) * ys[j] for i, j in z), 'centre', 1e-6)
        if len(got):
            chk_unit(h, getattr(cp, t)[0].unit_x, 'm', 'unit')
            chk_unit(h, getattr(cp, t)[0].unit_y, 'mm', 'unit')


def zones_of(b):
    """connected zones (by the sides), in the order of their first points"""
    left, out = [(i, j) for i in range(len(b)) for j in range(len(b[0])) if b[i][j]], []
    while left:
        todo, z = [left.pop(0)], []
        while todo:
            i, j = todo.pop()
            z.append((i, j))
            for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
                if q in left:
                    left.remove(q)
                    todo.append(q)
        out.append(sorted(z))
    return sorted(out)


@harness('C24', cases=grid(kl=[(.25, .125), (-.25, .375), (.5, -.25)], free=['x', 'y'], sgn=[1, -1]))
def bilinear_field(h, kl, free, sgn):
    """inside a cell the critical point is the zero of the bilinear interpolation of the field"""
    k, l = kl
    s = h.real('s', .05, .95)
    a, b = (s, .375) if free == 'x' else (.375, s)
    g = [0., 1.]
    vx = [[(x - a) * (1 + k * (y - b)) for y in g] for x in g]
    vy = [[sgn * 2 * (y - b) * (1 + l * (x - a)) for y in g] for x in g]
    vf = mk_vf(h, [3., 5.], [1., 1.5], vx, vy, ux='m', uy='m')
    cp = VD(h).get_critical_points(vf, kind='pbi', time=1.)
    t = 'node_o' if sgn == 1 else 'sadd'
    chk_types(h, cp, {t: 1})
    p = getattr(cp, t)[0].xy[0]
    h.eq(p[0], 3 + 2 * a, 'x', 1e-6)
    h.eq(p[1], 1 + .5 * b, 'y', 1e-6)
