"""vortex criteria"""
from symx.harness import harness, grid
from .common import *
from .C18 import grads

BOUNDS = ('non-local criteria: windows of 8 points (3x3 grids, steps 1x1 and 3x4), arbitrary magnitudes along fixed sets of directions, rotations and sources of arbitrary strength on any uniform flow; masks: any '
          'of 3 points of 5x4, 4x7 and 6x5 grids, given or of the field; local criteria: arbitrary values on 2x2 and 3x2 grids, axes in the same unit')


def VC(h):
    from IMTreatment import vortex_criterions as vc
    return vc


NB = [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0)]
D = [(1., 0.), (0., 1.), (-1., 0.), (0., -1.), (.6, .8), (-.8, .6), (5. / 13, -12. / 13), (-8. / 17, -15. / 17)]
SETS = [[0, 1, 2, 3, 4, 5, 6, 7], [6, 6, 6, 6, 6, 6, 6, 6], [3, 3, 0, 2, 0, 2, 1, 1], [7, 2, 4, 1, 0, 5, 3, 6], [4, 4, 5, 5, 7, 7, 6, 6]]
ST = [[1., 1.], [3., 4.]]


def around(h, st, vec, mask=None):
    """3x3 field with the vector vec(offset) on the neighbours"""
    vx = g2(3, 3, lambda i, j: vec(i - 1, j - 1)[0])
    vy = g2(3, 3, lambda i, j: vec(i - 1, j - 1)[1])
    return mk_vf(h, [-st[0], 0., st[0]], [5. - st[1], 5., 5. + st[1]], vx, vy, mask, 'm', 'm', 'm/s')


def chk_center(h, sf, v, label, tol=1e-6):
    m = g2(3, 3, lambda i, j: not (i == 1 and j == 1))
    chk_mask(h, sf.mask, m, label)
    h.eq(sf.values[1][1], v, label, tol)
    chk_unit(h, sf.unit_values, '', label)
    chk_unit(h, sf.unit_x, 'm', label)


def n2(a, b):
    return (a * a + b * b) ** .5


def crit(h, vf, kind, **kw):
    return (VC(h).get_gamma if kind[0] == 'g' else VC(h).get_kappa)(vf, kind=kind, **kw)


def pair(kind, a, b):
    """sine (gamma) or cosine (kappa) part"""
    return a[0] * b[1] - a[1] * b[0] if kind[0] == 'g' else a[0] * b[0] + a[1] * b[1]


@harness('C19', cases=grid(kind=['gamma1', 'kappa1'], st=ST, s=SETS, q=[0, 3]) + grid(kind=['gamma1', 'kappa1'], st=ST, s=SETS[:2], q=[5], r=['axis']))
def directions_only(h, kind, st, s, q, r=None):
    """mean of the sines (cosines) between the position and the velocity, whatever the magnitudes"""
    k = [.2 + .7 * i for i in range(8)]
    k[q] = h.real('k', .1, 5)
    k[q + 2] = h.real('l', .1, 5)
    z = h.boolean('z')
    k[q + 1] = 0.
    if z:
        k[q] = 0.
    d = [D[i] for i in s]
    vec = lambda i, j: (h.real('cx', -2, 2), h.real('cy', -2, 2)) if (i, j) == (0, 0) else \
        tuple(c * k[NB.index((i, j))] for c in d[NB.index((i, j))])
    vf = around(h, st, vec)
    kw = {} if r is None else dict(radius=1.6 * (st[0] + st[1]) / 2.)
    sf = crit(h, vf, kind, **kw)
    w = [pair(kind, (o[0] * st[0], o[1] * st[1]), e) / n2(o[0] * st[0], o[1] * st[1]) for o, e in zip(NB, d)]
    e = (sum(w) - w[q + 1] - (w[q] if z else 0.)) / 8.
    chk_center(h, sf, e, 'criterion')
    q = crit(h, vf, kind, raw=True, **kw)
    h.eq(q[1, 1], e, 'raw criterion', 1e-6)


@harness('C19', cases=grid(kind=['gamma2', 'kappa2'], st=ST, sign=[1, -1]))
def rotations_and_sources(h, kind, st, sign):
    """plus or minus one for a rotation (source) on any uniform flow"""
    u, v = h.real('u', -5, 5), h.real('v', -5, 5)
    w = sign * h.real('w', .1, 5)
    if kind[0] == 'g':
        vec = lambda i, j: (u - w * j * st[1], v + w * i * st[0])
    else:
        vec = lambda i, j: (u + w * i * st[0], v + w * j * st[1])
    sf = crit(h, around(h, st, vec), kind)
    chk_center(h, sf, float(sign), 'criterion')


@harness('C19', cases=grid(kind=['gamma1', 'kappa1'], st=ST, sign=[1, -1]))
def centered_rotations_and_sources(h, kind, st, sign):
    w = sign * h.real('w', .1, 5)
    if kind[0] == 'g':
        vec = lambda i, j: (-w * j * st[1], w * i * st[0])
    else:
        vec = lambda i, j: (w * i * st[0], w * j * st[1])
    sf = crit(h, around(h, st, vec), kind)
    chk_center(h, sf, float(sign), 'criterion')


@harness('C19', cases=grid(kind=['gamma2', 'kappa2'], s=SETS[:3]))
def galilean_invariance(h, kind, s):
    """adding a uniform velocity changes nothing"""
    k = .7
    u, v = h.real('u', -5, 5), h.real('v', -5, 5)
    d = [D[i] for i in s]
    base = lambda i, j: (0., 0.) if (i, j) == (0, 0) else tuple(c * k * (1 + (NB.index((i, j)) % 3)) for c in d[NB.index((i, j))])
    a = crit(h, around(h, ST[0], base), kind)
    b = crit(h, around(h, ST[0], lambda i, j: (base(i, j)[0] + u, base(i, j)[1] + v)), kind)
    h.eq(b.values[1][1], a.values[1][1], 'criterion', 1e-6)


@harness('C19', cases=grid(kind=['gamma1', 'gamma2']))
def instants(h, kind):
    """a series: gamma of each instant"""
    w, q = h.real('w', .1, 5), h.real('q', .1, 5)
    tf = h.imt.TemporalVectorFields()
    tf.add_field(around(h, ST[1], lambda i, j: (-w * j * 4., w * i * 3.)), time=1.5, unit_times='ms')
    tf.add_field(around(h, ST[1], lambda i, j: (q * j * 4., -q * i * 3.)), time=4., unit_times='ms')
    r = crit(h, tf, kind)
    chk_tf(h, r, [1.5, 4.], 2, kind, 'ms')
    chk_center(h, r.fields[0], 1., 'first instant')
    chk_center(h, r.fields[1], -1., 'second instant')


PT = [(0, 0), (3, 1), (2, 2)]


@harness('C19', cases=grid(fn=['gamma1', 'gamma2', 'kappa1', 'enstrophy'], given=[True], g=[[5, 4, None], [6, 5, 1.9], [5, 5, 'axis'], [5, 5, 'wide'], [4, 7, None], [4, 7, 'axis']]))
def masks(h, fn, given, g):
    """known exactly where the whole window is, and equal to the unmasked result there"""
    nx, ny, r = g
    M = {p: h.boolean('m%d%d' % p) for p in (PT if nx >= ny else [(0, 6), (3, 0), (1, 4)])}
    m = g2(nx, ny, lambda i, j: M.get((i, j), False))
    sx, sy = (1., 3.) if r == 'wide' else (1., 1.)
    xs, ys = [i * sx for i in range(nx)], [1. + j * sy for j in range(ny)]
    vx = g2(nx, ny, lambda i, j: .3 * i - 1.1 * j + .2 * i * j + .1)
    vy = g2(nx, ny, lambda i, j: .7 * i + .1 * j - .05 * j * j)
    kw = {None: {}, 1.9: dict(radius=1.9, ind=True), 'axis': dict(radius=1.5), 'wide': dict(radius=3.)}[r]
    # offsets used by the criterion
    off = NB
    f = (lambda vf, **k: VC(h).get_enstrophy(vf, **k)) if fn == 'enstrophy' else (lambda vf, **k: crit(h, vf, fn, **k))
    vf = mk_vf(h, xs, ys, vx, vy, None if given else m, 'm', 'm', 'm/s')
    sf = f(vf, mask=b_(h, m), **kw) if given else f(vf, **kw)
    ref = f(mk_vf(h, xs, ys, vx, vy, None, 'm', 'm', 'm/s'), **kw)

    def known(i, j):
        w = [(i + a, j + b) for a, b in off + [(0, 0)]]
        if any(a < 0 or b < 0 or a >= nx or b >= ny for a, b in w):
            return True
        return h.Or(*[m[a][b] for a, b in w])
    mk = g2(nx, ny, known)
    chk_mask(h, sf.mask, mk, 'criterion')
    if not (fn == 'enstrophy' and not given):
        z = lambda q: f64(h, [[h.ite(c, 0., x) for x, c in zip(a, b)] for a, b in zip(lst(q), mk)])
        h.eq(z(sf.values), z(ref.values), 'value of the known points', 1e-6)
    chk_axes(h, sf, xs, ys, 'criterion')


# ---- local criteria ---------------------------------------------------------------------------------------------------

UN = [['m', 'm', 'm/s'], ['mm', 'mm', 'm/s'], ['km', 'km', 'mm/s']]


def jac(h, n, u, mask='none', name=''):
    F = Fld(h, n[0], n[1], 'vf', mask, uniform=True, units=u, lo=-4, hi=4, name=name)
    a, b, mk = grads(h, F, F.vx)
    c, d, _ = grads(h, F, F.vy)
    return F, a, b, c, d, mk


def fact(h, u, got, power=1):
    U = h.imt.make_unit
    return float(((U(u[2]) / U(u[0])) ** power / got).asNumber(U('')))


def z2(F, fn):
    return g2(F.nx, F.ny, fn)


@harness('C19', cases=grid(fn=['vorticity', 'divergence'], n=[[2, 2], [3, 2]], u=UN, series=[False, True]))
def rotation_rate_and_divergence(h, fn, n, u, series):
    """half the curl, sum of the diagonal; of each instant for a series"""
    F, a, b, c, d, mk = jac(h, n, u)
    G = jac(h, n, u, name='g')
    G[0].xs, G[0].ys = F.xs, F.ys
    G = (G[0],) + grads(h, G[0], G[0].vx)[:2] + grads(h, G[0], G[0].vy)[:2]
    f = getattr(VC(h), 'get_' + fn)
    w = (lambda a, b, c, d: (lambda i, j: (c[i][j] - b[i][j]) / 2.)) if fn == 'vorticity' else \
        (lambda a, b, c, d: (lambda i, j: a[i][j] + d[i][j]))
    if series:
        tf = h.imt.TemporalVectorFields()
        tf.add_field(F.make(), time=2., unit_times='ms')
        tf.add_field(G[0].make(), time=5., unit_times='ms')
        r = f(tf)
        chk_tf(h, r, [2., 5.], 2, fn, 'ms')
        q = f(tf, raw=True)
        S = [(F, a, b, c, d), G]
    else:
        vf = F.make()
        r = f(vf)
        q = [f(vf, raw=True)]
        S = [(F, a, b, c, d)]
        F.chk(vf, 'field afterwards')
    for k, s in enumerate(S):
        e = z2(F, w(*s[1:]))
        o = r.fields[k] if series else r
        kk = fact(h, u, o.unit_values)
        chk_sf(h, o, F.xs, F.ys, [[x * kk for x in row] for row in e], F.m, fn, u[0], u[1])
        h.eq(q[k], f64(h, e), 'raw ' + fn)


@harness('C19', cases=grid(u=UN, which=['plane']) + grid(u=UN[:1], which=['curved']))
def decomposition_of_vorticity(h, u, which):
    """residual and shear parts add up to the vorticity, and have its sign"""
    F, a, b, c, d, mk = jac(h, [2, 2], u)
    if which == 'plane':
        c_ = [h.real('p%d' % k, -3, 3) for k in range(4)]
        F.xs, F.ys = [1., 2.], [0., .5]
        F.vx = z2(F, lambda i, j: c_[0] * F.xs[i] + c_[1] * F.ys[j])
        F.vy = z2(F, lambda i, j: c_[2] * F.xs[i] + c_[3] * F.ys[j])
    else:
        F.xs, F.ys = [0., 1.], [0., 1.]
        cx, cy = [[.5, -1.], [2., .75]], [[1., 0.], [-2., 3.5]]
        F.vx = z2(F, lambda i, j: F.vx[i][j] if i == j == 0 else cx[i][j])
        F.vy = z2(F, lambda i, j: F.vy[i][j] if (i, j) == (0, 1) else cy[i][j])
    a, b, _ = grads(h, F, F.vx)
    c, d, _ = grads(h, F, F.vy)
    vf = F.make()
    k = fact(h, u, VC(h).get_vorticity(vf).unit_values)
    res, sh, vo = VC(h).get_residual_vorticity(vf), VC(h).get_shear_vorticity(vf), VC(h).get_vorticity(vf)
    h.eq(res.values + sh.values, vo.values, 'sum of the two parts', 1e-6)
    for o in (res, sh):
        chk_unit(h, o.unit_values, vo.unit_values, 'unit')
        h.check(h.Not(h.np.any(o.mask)), 'no masked point')
        chk_axes(h, o, F.xs, F.ys, 'part')
    P = [(0, 0), (1, 1)] if which == 'curved' else [(0, 0)]
    for i, j in P:
        s2 = (4. * a[i][j] * a[i][j] + (b[i][j] + c[i][j]) * (b[i][j] + c[i][j])) / 4.
        o = (c[i][j] - b[i][j]) / 2.
        r = res.values[i][j] / k
        sw = h.And(o * o > s2 + 1e-6)
        h.check(h.Implies(o * o < s2 - 1e-6, r == 0), 'no residual vorticity in a shear')
        # residual: |o| - s with the sign of o
        q = h.ite(o > 0, o - r, r - o)
        h.check(h.Implies(sw, h.And(r * o >= 0, q >= -1e-6, h.close(q * q, s2, 1e-5))), 'residual vorticity')
    rw = VC(h).get_residual_vorticity(vf, raw=True)
    h.eq(rw * k, res.values, 'raw residual vorticity', 1e-6)
    F.chk(vf, 'field afterwards')


@harness('C19', cases=grid(n=[[2, 2], [3, 2]], u=UN, mask=['none', 'one']))
def q_criterion(h, n, u, mask):
    """half the difference between the squared norms of rotation and deformation"""
    F, a, b, c, d, mk = jac(h, n, u, mask)
    vf = F.make()
    r = VC(h).get_q_criterion(vf)
    # 1/2 (|R|^2 - |S|^2) = -(a^2 + d^2)/2 - b c
    k = fact(h, u, r.unit_values, 2)
    e = z2(F, lambda i, j: -(a[i][j] * a[i][j] + d[i][j] * d[i][j]) / 2. - b[i][j] * c[i][j])
    chk_sf(h, r, F.xs, F.ys, [[x * k for x in q] for q in e], mk, 'Q', u[0], u[1], tol=1e-6)
    F.chk(vf, 'field afterwards')


def plane(h, F, sel, con=(.5, -1.5, 2.25, .75)):
    """linear field; the coefficients of sel are arbitrary"""
    F.xs, F.ys = [1., 2.], [0., .5]
    p = [h.real('p%d' % k, -3, 3) if k in sel else con[k] for k in range(4)]
    F.vx = z2(F, lambda i, j: p[0] * F.xs[i] + p[1] * F.ys[j])
    F.vy = z2(F, lambda i, j: p[2] * F.xs[i] + p[3] * F.ys[j])
    return p


@harness('C19', cases=grid(sel=[[0, 1], [1, 2], [2, 3], [0, 3]], mask=['none', 'one']))
def nk_criterion(h, sel, mask):
    """ratio of the norms of rotation and deformation"""
    F = Fld(h, 2, 2, 'vf', mask, units=['m', 'm', 'm/s'])
    p = plane(h, F, sel)
    h.assume(p[0] * p[0] + (p[1] + p[2]) * (p[1] + p[2]) + p[3] * p[3] > .01)
    vf = F.make()
    mk = grads(h, F, F.vx)[2]
    r = VC(h).get_Nk_criterion(vf)
    om2 = (p[1] - p[2]) * (p[1] - p[2]) / 2.
    s2 = p[0] * p[0] + (p[1] + p[2]) * (p[1] + p[2]) / 2. + p[3] * p[3]
    chk_mask(h, r.mask, mk, 'Nk')
    i, j = (0, 1) if mask == 'one' else (1, 0)
    v = r.values[i][j]
    h.check(h.Or(mk[i][j], h.And(v >= 0, h.close(v * v * s2, om2, 1e-5))), 'Nk')
    chk_unit(h, r.unit_values, '', 'Nk')
    F.chk(vf, 'field afterwards')


@harness('C19', cases=grid(sel=[[0], [3], [0, 2], [1, 2]], mask=['none', 'one']))
def lambda2(h, sel, mask):
    """smallest eigenvalue of S^2 + O^2"""
    F = Fld(h, 2, 2, 'vf', mask, units=['m', 'm', 'm/s'])
    p = plane(h, F, sel)
    vf = F.make()
    mk = grads(h, F, F.vx)[2]
    r = VC(h).get_lambda2(vf)
    mk = z2(F, lambda i, j: h.Or(mk[i][j], F.m[i][j]))
    chk_mask(h, r.mask, mk, 'lambda2')
    a, b, c, d = p
    m11, m22, m12 = a * a + b * c, d * d + b * c, (a + d) * (b + c) / 2.
    i, j = (0, 1) if mask == 'one' else (1, 0)
    l = r.values[i][j]
    h.check(h.Or(mk[i][j], h.And(h.close((l - m11) * (l - m22), m12 * m12, 1e-5), l + l <= m11 + m22 + 1e-6)), 'lambda2')
    F.chk(vf, 'field afterwards')


@harness('C19', cases=grid(m=[[], [[0, 2]], [[1, 1], [2, 0]]], own=[False, True]))
def masked_lambda2(h, m, own):
    """the given mask, and that of the gradients, are those of lambda2, raw or not"""
    F = Fld(h, 3, 3, 'vf', 'none', units=['m', 'm', 'm/s'])
    p = [.5, -1.5, 2.25, .75]
    c = h.real('c', -3, 3)
    F.xs, F.ys = [1., 2., 3.], [0., .5, 1.]
    F.vx = z2(F, lambda i, j: p[0] * F.xs[i] + p[1] * F.ys[j] + c)
    F.vy = z2(F, lambda i, j: p[2] * F.xs[i] + p[3] * F.ys[j] - c)
    M = z2(F, lambda i, j: [i, j] in m)
    if own:
        F.m = M
        mk = grads(h, F, F.vx)[2]
        mk = z2(F, lambda i, j: h.Or(mk[i][j], M[i][j]))
    else:
        mk = M
    vf = F.make()
    a, b, cc, d = p
    t, e = (a * a + d * d) / 2. + b * cc, (a * a - d * d) / 2.
    l = t - (e * e + ((a + d) * (b + cc) / 2.) ** 2) ** .5
    kw = {} if own else dict(mask=b_(h, M))
    r = VC(h).get_lambda2(vf, **kw)
    q = VC(h).get_lambda2(vf, raw=True, **kw)
    chk_mask(h, r.mask, mk, 'lambda2')
    chk_mask(h, q.mask, mk, 'raw lambda2')
    for i in range(3):
        for j in range(3):
            h.check(h.Or(mk[i][j], h.And(h.close(r.values[i][j], l, 1e-5), h.close(q.data[i][j], l, 1e-5))), 'lambda2')
    chk_axes(h, r, F.xs, F.ys, 'lambda2')


@harness('C19', cases=grid(which=['plane', 'mask']))
def swirling_strength(h, which):
    """imaginary part of the eigenvalues of the jacobian"""
    F = Fld(h, 2, 2, 'vf', 'one' if which == 'mask' else 'none', units=['m', 'm', 'm/s'])
    F.xs, F.ys = [1., 2.], [0., .5]
    p = [h.real('p%d' % k, -3, 3) for k in range(4)]
    F.vx = z2(F, lambda i, j: p[0] * F.xs[i] + p[1] * F.ys[j])
    F.vy = z2(F, lambda i, j: p[2] * F.xs[i] + p[3] * F.ys[j])
    vf = F.make()
    mk = grads(h, F, F.vx)[2]
    r = VC(h).get_swirling_strength(vf)
    mk = z2(F, lambda i, j: h.Or(mk[i][j], F.m[i][j]))
    chk_mask(h, r.mask, mk, 'swirling strength')
    a, b, c, d = p
    disc = (a - d) * (a - d) / 4. + b * c
    h.assume(h.Or(disc > 1e-3, disc < -1e-3))
    for i, j in [(0, 0), (0, 1)]:
        l = r.values[i][j]
        h.check(h.Or(mk[i][j], h.ite(disc > 0, h.close(l, 0.), h.And(l >= 0, h.close(l * l, -disc, 1e-5)))), 'swirling strength')
    F.chk(vf, 'field afterwards')


@harness('C19', cases=grid(sel=[[0, 3], [1, 2], [0, 1, 2, 3]]))
def improved_swirling_strength(h, sel):
    """ratio of the real and imaginary parts of the eigenvalues, where they are complex"""
    F = Fld(h, 2, 2, 'vf', 'none', units=['m', 'm', 'm/s'])
    a, b, c, d = plane(h, F, sel)
    vf = F.make()
    disc, t = (a - d) * (a - d) / 4. + b * c, (a + d) / 2.
    h.assume(h.Or(disc > 1e-3, disc < -1e-3))
    r = VC(h).get_improved_swirling_strength(vf)
    chk_mask(h, r.mask, z2(F, lambda i, j: disc > 0), 'improved swirling strength')
    v = r.values[0][1]
    h.check(h.Or(disc > 0, h.And(h.close(v * v * -disc, t * t, 1e-5), v * t >= 0)), 'improved swirling strength')
    F.chk(vf, 'field afterwards')


def reorder(th, order):
    """spread of angles between none (0) and the best (1)"""
    import math
    th = sorted(t % (2 * math.pi) for t in th)
    d = [b - a for a, b in zip(th, th[1:])] + [th[0] + 2 * math.pi - th[-1]]
    n = len(d)
    b = 2 * math.pi / n
    w = ((n - 1) * b ** order + (2 * math.pi - b) ** order) ** (1. / order)
    return 1 - sum(abs(x - b) ** order for x in d) ** (1. / order) / w


@harness('C19', cases=grid(how=['local'], s=SETS[:1] + SETS[2:], order=[1, 2]) + grid(how=['galilean_inv'], s=SETS[:1], order=[1, 2]))
def angle_deviation(h, how, s, order):
    """spread of the angles of the relative velocities, whatever the uniform flow"""
    import math
    u, v = h.real('u', 16, 30), h.real('v', 16, 30)
    Z = {0: (1., 0.), 1: (0., 2.), 2: (-3., 0.), 3: (0., -1.), 4: (3., 4.), 5: (-4., 3.), 6: (5., -12.), 7: (-8., -15.)}
    d = [Z[i] for i in s]
    if how == 'galilean_inv':
        # the eight vectors are balanced
        d = [Z[0], Z[1], Z[4], Z[6]]
        d = d + [(-a, -b) for a, b in d]
    vf = around(h, ST[0], lambda i, j: (u, v) if (i, j) == (0, 0) else tuple(a + b for a, b in zip(d[NB.index((i, j))], (u, v))))
    sf = VC(h).get_angle_deviation(vf, local_treatment=how, order=order)
    chk_center(h, sf, reorder([math.atan2(b, a) for a, b in d], order), 'deviation')


@harness('C19', cases=grid(order=[1, 2], st=ST))
def no_angle_deviation(h, order, st):
    """none in a uniform flow"""
    u, v = h.real('u', .5, 5), h.real('v', -5, 5)
    sf = VC(h).get_angle_deviation(around(h, st, lambda i, j: (u, v)), order=order)
    chk_center(h, sf, 0., 'deviation')


@harness('C19', cases=grid(raw=[False, True]))
def iota(h, raw):
    """half the norm of the gradient of the angles, known outside of the given mask"""
    import math
    a, b = .2, -.3
    P = [(0, 0), (2, 1), (3, 2)]
    M = {p: h.boolean('m%d%d' % p) for p in P}
    m = g2(4, 3, lambda i, j: M.get((i, j), False))
    th = lambda i, j: 3. + a * i + b * j      # through 2 pi not crossed, pi is
    vf = mk_vf(h, [0., 1., 2., 3.], [0., 2., 4.], g2(4, 3, lambda i, j: (1. + j) * math.cos(th(i, j))), g2(4, 3, lambda i, j: (1. + j) * math.sin(th(i, j))),
               None, 'm', 'm', 'm/s')
    r = VC(h).get_iota(vf, mask=b_(h, m), raw=raw)
    chk_mask(h, r.mask, m, 'iota')
    e = (a * a + b * b) ** .5 / 2.
    v = r.data if raw else r.values
    for i in range(4):
        for j in range(3):
            h.check(h.Or(m[i][j], h.close(v[i][j], e, 1e-6)), 'iota')


@harness('C19', cases=grid(w=[2, 3], n=[[3, 3], [4, 3]], mask=['none', 'some']))
def stokes_vorticity(h, w, n, mask):
    """circulation around each window over its area"""
    F = Fld(h, n[0], n[1], 'vf', mask, uniform=True, units=['m', 'm', 'm/s'])
    F.xs, F.ys = [1. + .5 * i for i in range(n[0])], [2. * j for j in range(n[1])]
    vf = F.make()
    r = VC(h).get_stokes_vorticity(vf, window_size=w)
    nx, ny = n[0] - w + 1, n[1] - w + 1
    dx, dy = .5, 2.
    e, mk = g2(nx, ny, lambda i, j: 0.), g2(nx, ny, lambda i, j: False)
    tz = lambda l, s: sum((p + q) / 2. * s for p, q in zip(l, l[1:]))
    for i in range(nx):
        for j in range(ny):
            I, J = list(range(i, i + w)), list(range(j, j + w))
            q = (tz([F.vx[k][j] for k in I], dx) + tz([F.vy[i + w - 1][l] for l in J], dy)
                 - tz([F.vx[k][j + w - 1] for k in I], dx) - tz([F.vy[i][l] for l in J], dy))
            e[i][j] = q / (dx * dy * (w - 1) ** 2)
            mk[i][j] = h.Or(*[F.m[k][l] for k in I for l in J])
    xs = [sum(F.xs[i:i + w]) / w for i in range(nx)]
    ys = [sum(F.ys[j:j + w]) / w for j in range(ny)]
    chk_sf(h, r, xs, ys, e, mk, 'vorticity', 'm', 'm', '1/s', tol=1e-6)
    F.chk(vf, 'field afterwards')


@harness('C19', cases=grid(u=UN))
def enstrophy(h, u):
    """squared vorticity of the surrounding points, times the elementary area"""
    F, a, b, c, d, mk = jac(h, [3, 3], u)
    F.xs, F.ys = [1., 1.5, 2.], [0., 2., 4.]
    a, b, mk = grads(h, F, F.vx)
    c, d, _ = grads(h, F, F.vy)
    vf = F.make()
    r = VC(h).get_enstrophy(vf)
    o = z2(F, lambda i, j: (c[i][j] - b[i][j]) / 2.)
    U = h.imt.make_unit
    k = float((U(u[2]) ** 2 / r.unit_values).asNumber(U('')))
    e = sum(o[1 + p][1 + q] * o[1 + p][1 + q] for p, q in NB) * k
    chk_mask(h, r.mask, z2(F, lambda i, j: not i == j == 1), 'enstrophy')
    h.eq(r.values[1][1], e, 'enstrophy', 1e-6)
    F.chk(vf, 'field afterwards')
