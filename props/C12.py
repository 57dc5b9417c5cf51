"""cropping masked borders, filling, smoothing and changing the spatial resolution"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('cropping of masked borders: grids of up to 3x3 points with masked points anywhere (at least one valid), '
          'series of 2 instants on 3x2 points; filling: 3x3 and 4x3 uniform grids, six masking patterns, arbitrary '
          'values; smoothing: 4x3 points; coarsening: up to 6x5 points, factors 1 to 4, arbitrary values, '
          'masked points in one block; evenly spacing: given axes, arbitrary values')


def window(h, m):
    """indices of the bounding box of the valid points (forks on the mask)"""
    nx, ny = len(m), len(m[0])
    I = [i for i in range(nx) if not bool(h.And(*m[i]))]
    h.assume(len(I) > 0)
    J = [j for j in range(ny) if not bool(h.And(*[m[i][j] for i in range(nx)]))]
    return list(range(I[0], I[-1] + 1)), list(range(J[0], J[-1] + 1))


@harness('C12', cases=grid(kind=['sf', 'vf'], n=[[3, 2], [2, 3]], inplace=[False, True]) +
         grid(kind=['sf', 'vf'], n=[[3, 3]], inplace=[False]), max_s=200)
def masked_borders(h, kind, n, inplace):
    """exactly the fully masked border lines go"""
    F = Fld(h, n[0], n[1], kind)
    I, J = window(h, F.m)
    f = F.make()
    r = f.crop_masked_border(inplace=inplace)
    F.chk(f if inplace else r, 'cropped', I, J)
    if not inplace:
        F.chk(f, 'original')


@harness('C12', cases=grid(kind=['sf', 'vf'], n=[[3, 2], [2, 3], [1, 3], [3, 3]], inplace=[False, True]), max_s=200)
def hard_masked_borders(h, kind, n, inplace):
    """a window of the field without any masked point"""
    F = Fld(h, n[0], n[1], kind)
    h.assume(h.Not(h.And(*[q for r in F.m for q in r])))
    f = F.make()
    r = f.crop_masked_border(hard=True, inplace=inplace)
    g = f if inplace else r
    xs, ys = lst(g.axe_x), lst(g.axe_y)
    a, b = len(xs), len(ys)
    if not (a and b):
        # lines holding masked points only partly: nothing may be left
        return h.check(h.Or(*[q for r in F.m for q in r]), 'emptied without a masked point')
    i0 = [i for i in range(n[0]) if bool(h.close(F.xs[i], xs[0]))]
    j0 = [j for j in range(n[1]) if bool(h.close(F.ys[j], ys[0]))]
    h.check(len(i0) == 1 and len(j0) == 1 and i0[0] + a <= n[0] and j0[0] + b <= n[1],
            'a window of the field')
    I, J = list(range(i0[0], i0[0] + a)), list(range(j0[0], j0[0] + b))
    F.chk(g, 'cropped', I, J)
    h.check(h.And(*[h.Not(F.m[i][j]) for i in I for j in J]), 'no masked point is left')
    if bool(h.Not(h.Or(*[q for r in F.m for q in r]))):
        h.check((a, b) == tuple(n), 'nothing is cropped without masked points')


@harness('C12', cases=grid(kind=['sf', 'vf'], inplace=[False, True]), max_s=200)
def masked_borders_of_series(h, kind, inplace):
    """lines masked at every instant go"""
    tf, F, ts = mk_tf(h, kind, 2, 3, 2)
    m = g2(3, 2, lambda i, j: h.And(F[0].m[i][j], F[1].m[i][j]))
    I, J = window(h, m)
    r = tf.crop_masked_border(inplace=inplace)
    g = tf if inplace else r
    chk_tf(h, g, ts, 2, 'cropped', 's')
    for k in range(2):
        F[k].chk(g.fields[k], 'cropped', I, J)


PAT = [[], [(1, 1)], [(0, 0)], [(0, 0), (2, 1)], [(1, 0), (1, 1)], [(2, 2), (0, 2), (1, 1)]]


@harness('C12', cases=grid(kind=['sf', 'vf'], fk=['value', 'nearest', 'linear'], p=range(len(PAT)),
                           tri=[True, False], inplace=[False, True]), max_s=90)
def filling(h, kind, fk, p, tri, inplace):
    """valid points keep their values, the others get the asked value, a neighbour's or a mean"""
    F = Fld(h, 3, 3, kind, mask='none')
    F.xs, F.ys = [0., 1., 2.], [1., 2., 3.]
    for i, j in PAT[p]:
        F.m[i][j] = True
    f = F.make()
    if fk == 'value':
        a, b = h.real('a', -5, 5), h.real('b', -5, 5)
        kw = dict(value=a if kind == 'sf' else [a, b])
    else:
        kw = {}
    r = f.fill(kind=fk, inplace=inplace, reduce_tri=tri, **kw)
    g = f if inplace else r
    chk_mask(h, g.mask, g2(3, 3, lambda i, j: False), 'nothing is masked')
    chk_axes(h, g, F.xs, F.ys, 'filled')
    for got, want in zip((g.unit_x, g.unit_y, g.unit_values), F.u):
        chk_unit(h, got, want, 'filled')
    comps = [(g.values, F.vx, 0)] if kind == 'sf' else [(g.comp_x, F.vx, 0), (g.comp_y, F.vy, 1)]
    for arr, v, c in comps:
        arr = lst(arr)
        ok = [v[i][j] for i in range(3) for j in range(3) if not F.m[i][j]]
        for i in range(3):
            for j in range(3):
                q = arr[i][j]
                if not F.m[i][j]:
                    h.eq(q, v[i][j], 'valid points are kept')
                elif fk == 'value':
                    h.eq(q, (a, b)[c], 'asked value')
                elif fk == 'nearest':
                    d = lambda k, l: (k - i) ** 2 + (l - j) ** 2
                    mn = min(d(k, l) for k in range(3) for l in range(3) if not F.m[k][l])
                    h.check(h.Or(*[h.close(q, v[k][l]) for k in range(3) for l in range(3)
                                   if not F.m[k][l] and d(k, l) == mn]), 'value of a nearest point')
                else:
                    h.check(h.And(h.Or(*[q <= w + 1e-6 for w in ok]), h.Or(*[q >= w - 1e-6 for w in ok])),
                            'between the valid values')
    if not inplace:
        F.chk(f, 'original')


@harness('C12', cases=grid(kind=['sf', 'vf'], p=[1, 4]))
def linear_filling_of_affine_data(h, kind, p):
    """inside of the valid points, affine data are recovered exactly"""
    F = Fld(h, 4, 3, kind, mask='none')
    F.xs, F.ys = [0., .5, 1., 1.5], [1., 2., 3.]
    c = [[h.real('c%d%d' % (i, k), -3, 3) for k in range(3)] for i in range(2)]
    F.vx = g2(4, 3, lambda i, j: c[0][0] + c[0][1] * F.xs[i] + c[0][2] * F.ys[j])
    F.vy = g2(4, 3, lambda i, j: c[1][0] + c[1][1] * F.xs[i] + c[1][2] * F.ys[j])
    m = [(1, 1)] if p == 1 else [(1, 1), (2, 1)]
    for i, j in m:
        F.m[i][j] = True
    r = F.make().fill(kind='linear')
    F.m = g2(4, 3, lambda i, j: False)
    F.chk(r, 'filled')


@harness('C12', cases=grid(kind=['sf', 'vf'], tos=['uniform', 'gaussian'], inplace=[False, True]))
def smoothing(h, kind, tos, inplace):
    """a weighted mean of the neighbours: constants are kept, bounds too, nothing else changes"""
    F = Fld(h, 4, 3, kind, mask='none')
    f = F.make()
    r = f.smooth(tos=tos, inplace=inplace)
    g = f if inplace else r
    chk_mask(h, g.mask, F.m, 'smoothed')
    chk_axes(h, g, F.xs, F.ys, 'smoothed')
    for got, want in zip((g.unit_x, g.unit_y, g.unit_values), F.u):
        chk_unit(h, got, want, 'smoothed')
    for arr, v in [(g.values, F.vx)] if kind == 'sf' else [(g.comp_x, F.vx), (g.comp_y, F.vy)]:
        arr = lst(arr)
        al = [x for row in v for x in row]
        lo, hi = h.real('lo', -9, 9), h.real('hi', -9, 9)
        inb = h.And(*[h.And(x >= lo, x <= hi) for x in al])
        for i in range(4):
            for j in range(3):
                h.check(h.Implies(inb, h.And(arr[i][j] >= lo - 1e-4, arr[i][j] <= hi + 1e-4)),
                        'within the bounds of the samples')
        if tos == 'uniform':
            for i in (1, 2):
                h.eq(arr[i][1], sum(v[k][l] for k in (i - 1, i, i + 1) for l in range(3)) / 9.,
                     'mean of the neighbours')
    if not inplace:
        F.chk(f, 'original')


@harness('C12', cases=grid(kind=['sf', 'vf'], c=[[4, 4, 2], [5, 4, 2], [5, 3, 3], [4, 5, 1], [6, 5, 2], [6, 3, 3],
                                                 [4, 4, 4], [6, 5, 4]], inplace=[False, True]), max_s=120)
def coarsening(h, kind, c, inplace):
    """each point is the mean of the valid points of its block, at the centre of the block"""
    nx, ny, k = c
    F = Fld(h, nx, ny, kind, mask='none', uniform=True)
    # masked points in the first block and the block at the end
    free = [(i, j) for i in range(min(k, 2)) for j in range(min(k, 2))] + [((nx // k) * k - 1, (ny // k) * k - 1)]
    for i, j in free:
        F.m[i][j] = h.boolean('m%d%d' % (i, j))
    if k == 4:
        for i in range(4):
            for j in range(4):
                if (i, j) not in free:
                    F.m[i][j] = h.boolean('all') if i + j < 7 else False
    f = F.make()
    r = f.reduce_spatial_resolution(k, inplace=inplace)
    g = f if inplace else r
    mx, my = nx // k, ny // k
    xs = [(F.xs[i * k] + F.xs[i * k + k - 1]) / 2. for i in range(mx)]
    ys = [(F.ys[j * k] + F.ys[j * k + k - 1]) / 2. for j in range(my)]
    blk = lambda I, J: [(i, j) for i in range(I * k, I * k + k) for j in range(J * k, J * k + k)]
    m = g2(mx, my, lambda I, J: h.And(*[F.m[i][j] for i, j in blk(I, J)]))

    def mean(v, I, J):
        n = sum(h.ite(F.m[i][j], 0., 1.) for i, j in blk(I, J))
        s = sum(h.ite(F.m[i][j], 0., v[i][j]) for i, j in blk(I, J))
        return s, n
    h.check(tuple(g.shape) == (mx, my), 'number of points')
    chk_axes(h, g, xs, ys, 'coarsened')
    chk_mask(h, g.mask, m, 'coarsened')
    for got, want in zip((g.unit_x, g.unit_y, g.unit_values), F.u):
        chk_unit(h, got, want, 'coarsened')
    for arr, v in [(g.values, F.vx)] if kind == 'sf' else [(g.comp_x, F.vx), (g.comp_y, F.vy)]:
        for I in range(mx):
            for J in range(my):
                s, n = mean(v, I, J)
                h.check(h.Or(m[I][J], h.close(arr[I, J] * n, s, 1e-4)), 'mean of the valid points of the block')
    if not inplace:
        F.chk(f, 'original')


AX = {'even': [0., .5, 1., 1.5], 'odd': [0., 1., 1.5, 3.], 'two': [1., 2.], 'shift': [-1., -.5, 1.]}


@harness('C12', cases=grid(kind=['sf', 'vf'], x=sorted(AX), y=['even', 'odd', 'two']))
def even_spacing(h, kind, x, y):
    """same ends, the smallest step; samples on the kept coordinates stay; affine data are exact"""
    ax, ay = AX[x], AX[y]
    F = Fld(h, len(ax), len(ay), kind, mask='none')
    F.xs, F.ys = ax, ay
    f = F.make()
    f.make_evenly_spaced()
    for got, a, n in ((f.axe_x, ax, 'x'), (f.axe_y, ay, 'y')):
        d = min(q - p for p, q in zip(a, a[1:]))
        w = [a[0] + d * i for i in range(int(round((a[-1] - a[0]) / d)) + 1)]
        h.eq(got, h.np.array(w, dtype=float), 'even axis ' + n)
    chk_mask(h, f.mask, g2(len(lst(f.axe_x)), len(lst(f.axe_y)), lambda i, j: False), 'evenly spaced')
    for got, want in zip((f.unit_x, f.unit_y, f.unit_values), F.u):
        chk_unit(h, got, want, 'evenly spaced')
    for arr, v in [(f.values, F.vx)] if kind == 'sf' else [(f.comp_x, F.vx), (f.comp_y, F.vy)]:
        arr = lst(arr)
        for i, p in enumerate(lst(f.axe_x)):
            for j, q in enumerate(lst(f.axe_y)):
                h.eq(arr[i][j], bil(ax, ay, v, float(p), float(q)), 'bilinear interpolation', 1e-5)


def bil(ax, ay, v, p, q):
    i = max([k for k in range(len(ax) - 1) if ax[k] <= p + 1e-9])
    j = max([k for k in range(len(ay) - 1) if ay[k] <= q + 1e-9])
    s, t = (p - ax[i]) / (ax[i + 1] - ax[i]), (q - ay[j]) / (ay[j + 1] - ay[j])
    return (1 - s) * (1 - t) * v[i][j] + s * (1 - t) * v[i + 1][j] + \
        (1 - s) * t * v[i][j + 1] + s * t * v[i + 1][j + 1]
