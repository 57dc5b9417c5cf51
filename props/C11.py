"""statistics of fields"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('grids of up to 3x3 points with arbitrary values; masked points anywhere (3x2) or at '
          'three arbitrary places; norms of order 1, 2 and 4; histograms with 2 or 3 bins on 4 points')


def valid(h, F):
    """the valid samples, on each masking pattern"""
    out = []
    for i in range(F.nx):
        for j in range(F.ny):
            if not bool(F.m[i][j]):
                out.append((i, j))
    h.assume(len(out) > 0)
    return out


@harness('C11', cases=grid(n=[[3, 2], [3, 3]]))
def extrema_and_mean(h, n):
    F = Fld(h, n[0], n[1], 'sf', mask='all' if n[1] == 2 else 'some')
    f = F.make()
    V = [F.vx[i][j] for i, j in valid(h, F)]
    mn, mx = f.min, f.max
    h.check(h.And(*[mn <= v + 1e-9 for v in V]), 'no valid sample is below the minimum')
    h.check(h.Or(*[h.close(mn, v) for v in V]), 'the minimum is a valid sample')
    h.check(h.And(*[mx >= v - 1e-9 for v in V]), 'no valid sample is above the maximum')
    h.check(h.Or(*[h.close(mx, v) for v in V]), 'the maximum is a valid sample')
    h.eq(f.mean, sum(V) / float(len(V)), 'mean')
    F.chk(f, 'field afterwards')


@harness('C11', cases=grid(m=[0, 1, 2]), max_s=120)
def medians(h, m):
    """as many valid samples on each side"""
    F = Fld(h, 3, 1, 'sf', mask='none') if m == 2 else Fld(h, 2, 2, 'sf', mask='none')
    if m == 1:
        F.m[1][0] = True
    if m == 2:
        F.m[0][0] = h.boolean('mm')
    f = F.make()
    V = [F.vx[i][j] for i, j in valid(h, F)]
    r = f.median
    n = len(V)
    lo = sum(h.ite(v <= r + 1e-9, 1., 0.) for v in V)
    hi = sum(h.ite(v >= r - 1e-9, 1., 0.) for v in V)
    h.check(h.And(lo * 2. >= n, hi * 2. >= n), 'half of the samples on each side')
    if n % 2 == 1:
        h.check(h.Or(*[h.close(r, v) for v in V]), 'the middle sample')
    elif n == 2:
        h.eq(r, (V[0] + V[1]) / 2., 'middle of two samples')


@harness('C11', cases=grid(kind=['sf', 'vf'], p=[1, 2], normalized=['perpoint', '']) +
         grid(kind=['sf'], p=[4], normalized=['perpoint', '']))
def norms(h, kind, p, normalized):
    F = Fld(h, 2, 1 if p == 4 else 2, kind, mask='all', lo=-4, hi=4)
    f = F.make()
    I = valid(h, F)
    V = [F.vx[i][j] for i, j in I] + ([F.vy[i][j] for i, j in I] if kind == 'vf' else [])
    r = f.get_norm(norm=p, normalized=normalized)
    if normalized == 'perpoint':
        r = r * float(len(I))
    h.check(r >= 0, 'a norm is not negative')
    if p == 1:
        h.eq(r, sum(h.ite(v < 0, -v, v) for v in V), 'sum of the absolute values')
    elif p == 2:
        h.eq(r * r, sum(v * v for v in V), 'sum of the squares', 1e-4)
    else:
        h.eq(r * r * r * r, sum(v * v * v * v for v in V), 'sum of the powers', 1e-2)
    F.chk(f, 'field afterwards')


@harness('C11', cases=[{}])
def magnitudes(h):
    F = Fld(h, 2, 2, 'vf', mask='all', lo=-4, hi=4)
    f = F.make()
    s = f.magnitude_as_sf
    m = lst(f.magnitude)
    chk_mask(h, s.mask, F.m, 'magnitude')
    chk_axes(h, s, F.xs, F.ys, 'magnitude')
    for got, want in zip((s.unit_x, s.unit_y, s.unit_values), F.u):
        chk_unit(h, got, want, 'magnitude')
    v = lst(s.values)
    for i in range(2):
        for j in range(2):
            w = F.vx[i][j] * F.vx[i][j] + F.vy[i][j] * F.vy[i][j]
            for q in (v[i][j], m[i][j]):
                h.check(h.Iff(h.isnan(q), F.m[i][j]), 'masked points only are not numbers')
                h.check(h.Or(F.m[i][j], h.And(q >= 0, h.close(q * q, w, 1e-4))), 'magnitude')
    F.chk(f, 'field afterwards')


@harness('C11', cases=[{}])
def magnitude_extrema(h):
    F = Fld(h, 3, 1, 'vf', mask='all', lo=-4, hi=4)
    f = F.make()
    I = valid(h, F)
    W = [F.vx[i][j] * F.vx[i][j] + F.vy[i][j] * F.vy[i][j] for i, j in I]
    mn, mx = f.min, f.max
    h.check(h.And(mn >= 0, h.And(*[mn * mn <= w + 1e-6 for w in W]),
                  h.Or(*[h.close(mn * mn, w, 1e-4) for w in W])), 'smallest magnitude')
    h.check(h.And(mx >= 0, h.And(*[mx * mx >= w - 1e-6 for w in W]),
                  h.Or(*[h.close(mx * mx, w, 1e-4) for w in W])), 'largest magnitude')


@harness('C11', cases=grid(bins=[2, 3], cum=[False, True], normalized=[False, True]), max_s=120)
def histograms(h, bins, cum, normalized):
    F = Fld(h, 2, 2, 'sf', mask='none')
    F.m[0][1] = h.boolean('mm')
    f = F.make()
    V = [F.vx[i][j] for i, j in valid(h, F)]
    lo, hi = F.vx[0][0], F.vx[1][1]     # without loss of generality
    for v in V:
        h.assume(h.And(v >= lo, v <= hi))
    h.assume(hi - lo > .1)
    w = (hi - lo) / float(bins)
    for v in V[1:-1]:
        for k in range(1, bins):
            d = v - (lo + k * w)
            h.assume(h.Or(d > .01, d < -.01))
    p = f.get_histogram(bins=bins, cum=cum, normalized=normalized)
    h.check(len(p.x) == bins and len(p.y) == bins, 'one point per bin')
    h.eq(p.x, h.np.array([lo + (k + .5) * w for k in range(bins)], dtype=float), 'bin centres')
    tot = 0.
    n = float(len(V))
    for k in range(bins):
        a, b = lo + k * w, lo + (k + 1) * w
        c = sum(h.ite(h.And(v >= a if k else True, v <= b if k == bins - 1 else v < b), 1., 0.)
                for v in V)
        if normalized:
            c = c / n / w
        tot = tot + c
        h.eq(p.y[k], tot if cum else c, 'count of the valid samples in the bin', 1e-4)
    chk_unit(h, p.unit_x, F.u[2], 'histogram')
