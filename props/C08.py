"""extension and mirroring"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('fields of up to 4x3 points, arbitrary values, masked points and axes (mirroring: uniform '
          'concrete axes, symmetry planes on grid points and half way between them, outside and inside '
          'the field, and arbitrary planes for the sign rule); extensions of 0 to 2 points per side; series of 2 instants')


def longer(ax, lo, hi):
    a, b = ax[1] - ax[0], ax[-1] - ax[-2]
    return [ax[0] - a * k for k in range(lo, 0, -1)] + list(ax) + \
        [ax[-1] + b * (k + 1) for k in range(hi)]


EXT = [[1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 1, 0], [0, 0, 0, 2], [1, 2, 2, 1], [0, 0, 0, 0]]


def chk_ext(h, F, f, e, label, value=None):
    l, r, u, d = e
    xs, ys = longer(F.xs, l, r), longer(F.ys, d, u)
    old = lambda i, j: 0 <= i - l < F.nx and 0 <= j - d < F.ny
    n = (len(xs), len(ys))
    v = 0. if value is None else value
    msk = g2(n[0], n[1], lambda i, j: F.m[i - l][j - d] if old(i, j) else value is None)
    vx = g2(n[0], n[1], lambda i, j: F.vx[i - l][j - d] if old(i, j) else v)
    if F.kind == 'sf':
        chk_sf(h, f, xs, ys, vx, msk, label, *F.u)
    else:
        vy = g2(n[0], n[1], lambda i, j: F.vy[i - l][j - d] if old(i, j) else v)
        chk_vf(h, f, xs, ys, vx, vy, msk, label, *F.u)


@harness('C08', cases=grid(kind=['sf', 'vf'], e=EXT, inplace=[False, True]),
         thorough=grid(kind=['sf', 'vf'], e=[[2, 2, 2, 2], [3, 1, 0, 2]], inplace=[False]))
def extension(h, kind, e, inplace):
    F = Fld(h, 3, 2, kind)
    f = F.make()
    r = f.extend(nmb_left=e[0], nmb_right=e[1], nmb_up=e[2], nmb_down=e[3], inplace=inplace)
    chk_ext(h, F, f if inplace else r, e, 'extended')


@harness('C08', cases=grid(e=EXT[:5], inplace=[False, True]))
def extension_with_a_value(h, e, inplace):
    F = Fld(h, 3, 2, 'sf')
    f = F.make()
    v = h.real('value', -5, 5)
    r = f.extend(nmb_left=e[0], nmb_right=e[1], nmb_up=e[2], nmb_down=e[3], value=v,
                 inplace=inplace)
    chk_ext(h, F, f if inplace else r, e, 'extended', v)


@harness('C08', cases=grid(side=['left', 'right', 'up', 'down'], d=[.5, 1., 1.25]))
def extension_by_length(h, side, d):
    """lengths are rounded up to whole grid steps"""
    F = Fld(h, 3, 3, 'sf', uniform=True, mask='none')
    st = F.xs[1] - F.xs[0] if side in ('left', 'right') else F.ys[1] - F.ys[0]
    f = F.make()
    f.extend(ind=False, inplace=True, **{'nmb_' + side: d * st})
    n = {.5: 1, 1.: 1, 1.25: 2}[d]
    e = [n if s == side else 0 for s in ('left', 'right', 'up', 'down')]
    chk_ext(h, F, f, e, 'extended')


@harness('C08', cases=grid(kind=['sf', 'vf'], e=EXT[:5], inplace=[False, True]))
def extension_of_series(h, kind, e, inplace):
    tf, F, ts = mk_tf(h, kind, 2, 3, 2)
    r = tf.extend(nmb_left=e[0], nmb_right=e[1], nmb_up=e[2], nmb_down=e[3], inplace=inplace)
    g = tf if inplace else r
    chk_tf(h, g, ts, 2, 'extended', 's')
    for k in range(2):
        chk_ext(h, F[k], g.fields[k], e, 'extended')


# plane position in steps from the first point; nx = 4
POS = [-1., -.5, 0., .5, 1., 2., 2.5, 3., 3.5, 4.]


def chk_mirror(h, F, f, d, pos, cx, cy, label, kind):
    """d: direction; pos: plane; every point of the result holds its sample or, on
    the other side, the mirrored one"""
    ax = F.xs if d == 'x' else F.ys
    mid = (ax[0] + ax[-1]) / 2.
    low = pos < mid             # the image is on the low side
    keep = [c for c in ax if (c >= pos if low else c <= pos)]
    oth = F.ys if d == 'x' else F.xs
    got = [float(c) for c in lst(f.axe_x if d == 'x' else f.axe_y)]
    # the kept part is there, the new points continue the grid on the image side
    k0 = [i for i, c in enumerate(got) if c in keep]
    h.check([got[i] for i in k0] == keep, label + ': the original part is kept')
    new = [c for c in got if c not in keep]
    h.check(all((c < keep[0]) if low else (c > keep[-1]) for c in new), label + ': image side')
    h.check(all(abs(b - a - (ax[1] - ax[0])) < 1e-9 for a, b in zip(got, got[1:])),
            label + ': uniform axis')
    h.check(len(keep) < 3 or any(2 * pos - c in keep for c in new), label + ': there is an image')
    h.eq(f.axe_y if d == 'x' else f.axe_x, h.np.array(oth, dtype=float), label + ': other axis')
    m = lst(f.mask)
    comps = [(f.values, F.vx, cx)] if kind == 'sf' else [(f.comp_x, F.vx, cx), (f.comp_y, F.vy, cy)]
    for i, c in enumerate(got):
        src = c if c in keep else 2 * pos - c
        for j in range(len(oth)):
            mm = m[i][j] if d == 'x' else m[j][i]
            if src not in keep:
                h.check(mm, label + ': a point without an image is masked')
                continue
            s = ax.index(src)
            sm = F.m[s][j] if d == 'x' else F.m[j][s]
            h.check(h.Iff(mm, sm), label + ': mask')
            for arr, v, k in comps:
                got_v = arr[i, j] if d == 'x' else arr[j, i]
                w = (v[s][j] if d == 'x' else v[j][s]) * (1. if c in keep else k)
                h.eq(h.ite(sm, 0., got_v), h.ite(sm, 0., w), label + ': samples')


def mfield(h, kind, d, name=''):
    n = (4, 2) if d == 'x' else (2, 4)
    F = Fld(h, n[0], n[1], kind, mask='none', name=name)
    F.xs = [1. + .5 * i for i in range(n[0])]
    F.ys = [-1. + 2. * i for i in range(n[1])]
    # one masked point, away from fully masked borders
    k = (1, 0) if d == 'x' else (0, 1)
    F.m[k[0]][k[1]] = h.boolean('m' + name)
    return F


@harness('C08', cases=grid(kind=['sf', 'vf'], d=['x', 'y'], p=POS, inplace=[False, True]), max_s=90)
def mirroring(h, kind, d, p, inplace):
    F = mfield(h, kind, d)
    ax = F.xs if d == 'x' else F.ys
    pos = ax[0] + p * (ax[1] - ax[0])
    k = h.real('k', -2, 2)
    f = F.make()
    r = f.mirroring(d, pos, mir_coef=k, inplace=inplace)
    g = f if inplace else r
    # the component normal to the plane changes sign
    cx, cy = (k, k) if kind == 'sf' else ((-k, k) if d == 'x' else (k, -k))
    chk_mirror(h, F, g, d, pos, cx, cy, 'mirrored', kind)
    for got, want in zip((g.unit_x, g.unit_y, g.unit_values), F.u):
        chk_unit(h, got, want, 'mirrored')
    if not inplace:
        F.chk(f, 'original')


@harness('C08', cases=grid(d=['x', 'y'], p=[-.5, 3.5]))
def mirroring_with_coefficients(h, d, p):
    F = mfield(h, 'vf', d)
    ax = F.xs if d == 'x' else F.ys
    pos = ax[0] + p * (ax[1] - ax[0])
    a, b = h.real('a', -2, 2), h.real('b', -2, 2)
    f = F.make()
    r = f.mirroring(d, pos, mir_coef=[a, b])
    chk_mirror(h, F, r, d, pos, a, b, 'mirrored', 'vf')


@harness('C08', cases=grid(kind=['sf', 'vf'], d=['x', 'y'], p=[-1., -.5, 3.5], inplace=[False, True]))
def mirroring_of_series(h, kind, d, p, inplace):
    F = [mfield(h, kind, d, 'f'), mfield(h, kind, d, 'g')]
    tf = (h.imt.TemporalScalarFields if kind == 'sf' else h.imt.TemporalVectorFields)()
    for k in range(2):
        tf.add_field(F[k].make(), time=float(k), unit_times='s')
    ax = F[0].xs if d == 'x' else F[0].ys
    pos = ax[0] + p * (ax[1] - ax[0])
    r = tf.mirroring(d, pos, inplace=inplace)
    g = tf if inplace else r
    chk_tf(h, g, [0., 1.], 2, 'mirrored', 's')
    cx, cy = (1., 1.) if kind == 'sf' else ((-1., 1.) if d == 'x' else (1., -1.))
    for k in range(2):
        chk_mirror(h, F[k], g.fields[k], d, pos, cx, cy, 'mirrored', kind)
