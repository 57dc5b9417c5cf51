"""synthetic vortices and systems of vortices"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('one vortex: any center, strength and radius, any position relative to it; systems: up to 3 vortices, 2 walls and 2 custom fields, any positions and strengths, up to 2 time steps')
PI = 3.141592653589793


def VCR(h):
    from IMTreatment import vortex_creation as vcr
    return vcr


def anyvortex(h):
    """a user-made vortex, with polynomial velocities"""
    class AnyVortex(VCR(h).Vortex):
        def __init__(self, x0, y0, omega, movable=True, idi=0):
            super(AnyVortex, self).__init__(x0, y0, movable, idi)
            self.omega = omega

        def get_vector(self, x, y):
            w = self.omega * self.rot_dir
            return -w * (y - self.y0), w * (x - self.x0)
    return AnyVortex


def make(h, kind, x0, y0, g, **kw):
    """vortex of strength g"""
    m = VCR(h)
    if kind == 'any':
        return anyvortex(h)(x0, y0, g, **kw)
    if kind == 'solid':
        return m.SolidVortex(x0, y0, g, **kw)
    if kind == 'free':
        return m.FreeVortex(x0, y0, g, **kw)
    if kind == 'rankine':
        return m.RankineVortex(x0, y0, circ=g, rv=1.5, **kw)
    if kind == 'burger':
        return m.BurgerVortex(x0, y0, alpha=.5, ksi=g, viscosity=.125, **kw)
    if kind == 'lamb':
        return m.LambOseenVortex(x0, y0, ksi=g, t=2., viscosity=.5, **kw)
    if kind == 'perso':
        return m.PersoVortex(x0, y0, radius=2., circ=g, node_ratio=.25, nu=.5, **kw)


def law(h, kind, g, r, r2):
    """azimuthal velocity over r, radial velocity over r"""
    np = h.np
    if kind == 'solid':
        return g, 0.
    if kind == 'free':
        return g / (2 * PI * r2), 0.
    if kind == 'rankine':
        return g / (2 * PI) * h.ite(r2 <= 2.25, 1 / 2.25, 1. / r2), 0.
    if kind == 'burger':
        return g / (2 * PI * r2) * (1 - np.exp(-.5 / (4 * .125) * r2)), -.25
    if kind == 'lamb':
        return g / (2 * PI * r2) * (1 - np.exp(-r2 / (4 * .5 * 2.))), 0.
    if kind == 'perso':
        a = 16 * np.log(2) * .5 / 4.
        w = g / (2 * PI * r2) * (1 - np.exp(-a / (4 * .5) * r2))
        return w, -abs(w) * .25


KINDS = ['solid', 'free', 'rankine', 'burger', 'lamb', 'perso']
POS = ['right', 'left', 'above', 'below', 'center']


@harness('C20', cases=grid(kind=KINDS, pos=POS, sign=[1, -1]))
def velocity_law(h, kind, pos, sign):
    """the velocity turns around the center, counter-clockwise for positive strengths, with the law of the vortex"""
    x0, y0 = h.real('x0', -5, 5), h.real('y0', -5, 5)
    g = sign * h.real('g', .1, 8)
    if pos in ('right', 'left'):
        dx, dy = (1 if pos == 'right' else -1) * h.real('dx', .125, 4), h.real('dy', -4, 4)
    elif pos == 'center':
        dx = dy = 0.
    else:
        dx, dy = 0., (1 if pos == 'above' else -1) * h.real('dy', .125, 4)
    v = make(h, kind, x0, y0, g)
    Vx, Vy = v.get_vector(x0 + dx, y0 + dy)
    if pos == 'center':
        h.eq(Vx, 0., 'velocity at the center')
        h.eq(Vy, 0., 'velocity at the center')
        return
    r2 = dx * dx + dy * dy
    r = r2 ** .5
    w, q = law(h, kind, g, r, r2)
    h.eq(Vx, q * dx - w * dy, 'x velocity', 1e-6)
    h.eq(Vy, q * dy + w * dx, 'y velocity', 1e-6)


@harness('C20', cases=grid(pos=['right', 'left', 'above', 'below'], sign=[1, -1]))
def dipole_outside(h, pos, sign):
    """outside of a Lamb-Chaplygin dipole: potential flow around a cylinder"""
    x0, y0 = h.real('x0', -5, 5), h.real('y0', -5, 5)
    U = sign * h.real('U', .1, 8)
    if pos in ('right', 'left'):
        dx, dy = (1 if pos == 'right' else -1) * h.real('dx', .125, 4), h.real('dy', -4, 4)
    else:
        dx, dy = 0., (1 if pos == 'above' else -1) * h.real('dy', .125, 4)
    r2 = dx * dx + dy * dy
    h.assume(r2 > 2.26)
    Vx, Vy = VCR(h).LambChaplyginVortex(x0, y0, U=U, rv=1.5).get_vector(x0 + dx, y0 + dy)
    # -U (1 - a2/r2) cos e_r + U (1 + a2/r2) sin e_t
    k = 2.25 / (r2 * r2)
    h.eq(Vx, U * (k * (dx * dx - dy * dy) - 1.), 'x velocity', 1e-6)
    h.eq(Vy, U * k * 2. * dx * dy, 'y velocity', 1e-6)


@harness('C20', cases=grid(p=[[0., 0.], [.5, 0.], [0., -.75], [.3, .4], [-.6, .8], [-.5, -1.2], [0., 1.4999], [.9, -1.1999]], n=[1, 2]))
def dipole_inside(h, p, n):
    """inside: Bessel functions, finite at the center and continuous at the border"""
    from scipy.special import jv, jn_zeros
    import math
    U = h.real('U', -8, 8)
    V = VCR(h).LambChaplyginVortex(2., -1., U=U, rv=1.5, Bessel_root_nmb=n).get_vector(2. + p[0], -1. + p[1])
    k = float(jn_zeros(1, n)[-1]) / 1.5
    r = math.hypot(*p)
    c, s = (p[0] / r, p[1] / r) if r else (1., 0.)
    J0 = float(jv(0, 1.5 * k))
    vr = -2 / J0 * (float(jv(1, k * r)) / (k * r) if r else .5) * c
    vt = 2 / J0 * (float(jv(0, k * r)) - float(jv(2, k * r))) / 2. * s
    h.eq(V[0], U * (vr * c - vt * s), 'x velocity', 1e-6)
    h.eq(V[1], U * (vr * s + vt * c), 'y velocity', 1e-6)
    if r > 1.499:
        h.check(h.And(h.close(V[0], -2. * U * s * s, .05), h.close(V[1], 2. * U * s * c, .05)), 'continuity')


# ---- systems ----------------------------------------------------------------------------------------------------------

def sym_vort(h, k, kind='any', conc=False):
    if conc:
        return [(1., .5, 2.), (-2., 3., -1.), (.5, -1.5, .75)][k]
    return h.real('x_%d' % k, -4, 4), h.real('y_%d' % k, -4, 4), h.real('g_%d' % k, .25, 4) * (1 if k % 2 == 0 else -1)


def walls_of(h, w):
    m = VCR(h)
    W = []
    if 'x' in w:
        W.append(('x', h.real('wx', 5, 8)))
    if 'y' in w:
        W.append(('y', h.real('wy', -8, -5)))
    return W


def images(P, W):
    """(x, y, g) of the vortices and of their images"""
    im = []
    for d, p in W:
        im = im + [(2 * p - x, y, -g, k) if d == 'x' else (x, 2 * p - y, -g, k) for x, y, g, k in im + P]
    return im


def ref_vel(h, kind, L, x, y):
    Vx = Vy = 0.
    for x0, y0, g, k in L:
        a, b = make(h, kind, x0, y0, g).get_vector(x, y)
        Vx, Vy = Vx + a, Vy + b
    return Vx, Vy


def cst(h, k):
    """affine custom field"""
    c = [h.real('c%d_%d' % (k, q), -2, 2) for q in range(3)]
    f = lambda x, y: (c[0] + c[1] * x, c[2] - c[1] * y)
    return f


def system(h, kind, P, W, cf=()):
    m = VCR(h)
    vs = m.VortexSystem()
    for x, y, g, k in P:
        vs.add_vortex(make(h, kind, x, y, g))
    for d, p in W:
        vs.add_wall(m.Wall(**{d: p}))
    for f in cf:
        vs.add_custom_field(m.CustomField(f, unit_values='m/s'))
    return vs


def chk_vel(h, V, W, label):
    h.eq(V[0], W[0], label + ': x', 1e-6)
    h.eq(V[1], W[1], label + ': y', 1e-6)


def chk_state(h, vs, P, label):
    """the vortices of the system, in order"""
    h.check(len(vs.vortex) == vs.nmb_vortex == len(P), label + ': number of vortices')
    for v, p in zip(vs.vortex, P):
        h.eq(v.x0, p[0], label + ': x')
        h.eq(v.y0, p[1], label + ': y')


@harness('C20', cases=grid(w=['', 'x', 'y', 'xy'], nv=[1, 2], nc=[0, 1, 2]) + grid(w=['', 'xy'], nv=[2], nc=[1], kind=['solid', 'free', 'rankine', 'burger']))
def superposition(h, w, nv, nc, kind='any'):
    """the velocity is the sum of those of the vortices, of their images and of the custom fields"""
    P = [sym_vort(h, k, kind, nv == 2 or kind != 'any') + (k,) for k in range(nv)]
    W = walls_of(h, w)
    F = [cst(h, k) for k in range(nc)]
    vs = system(h, kind, P, W, F)
    x, y = (h.real('px', -4, 4), h.real('py', -4, 4)) if kind == 'any' and nv * len(W) < 2 else (-1.25, 2.)
    e = ref_vel(h, kind, P + images(P, W), x, y)
    for f in F:
        a, b = f(x, y)
        e = e[0] + a, e[1] + b
    if nc != 2:
        chk_vel(h, vs.get_vector(x, y), e, 'velocity')
    for det in (True, False):
        v, i, vc, ic = vs.get_compounded_vector(x, y, detailed=det)
        h.check(len(v) == len(i) and len(vc) == len(ic) == nc, 'one identifier for each contribution')
        h.check(len(v) == (nv + len(images(P, W)) if det else nv), 'number of contributions')
        s = (sum([q[0] for q in v] + [q[0] for q in vc]), sum([q[1] for q in v] + [q[1] for q in vc]))
        chk_vel(h, s, e, 'sum of the contributions')
    chk_vel(h, vs.get_vector(x, y), e, 'velocity')


@harness('C20', cases=grid(w=['', 'y', 'xy'], nc=[0, 1], kind=['any']) + grid(w=[''], nc=[1], kind=['free', 'rankine', 'solid']))
def fields(h, w, nc, kind):
    """the vector field of a system has its velocity at each point"""
    P = [sym_vort(h, 0, kind) + (0,), sym_vort(h, 1, kind, True) + (1,)]
    W = walls_of(h, w)
    F = [cst(h, k) for k in range(nc)]
    vs = system(h, kind, P, W, F)
    xs, ys = [5.5, 6.75, 7.], [-4.25, 4.5]
    vf = vs.get_vector_field(xs, ys, unit_x='m', unit_y='mm')
    h.check(tuple(vf.shape) == (3, 2), 'shape')
    chk_axes(h, vf, xs, ys, 'field')
    chk_unit(h, vf.unit_values, 'm/s', 'field')
    chk_unit(h, vf.unit_x, 'm', 'field')
    chk_unit(h, vf.unit_y, 'mm', 'field')
    h.check(h.Not(h.np.any(vf.mask)), 'no masked point')
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            e = vs.get_vector(x, y)
            chk_vel(h, (vf.comp_x[i][j], vf.comp_y[i][j]), e, 'field')
    chk_state(h, vs, P, 'system afterwards')
    v = make(h, kind, *P[1][:3])
    vf = v.get_vector_field(xs, ys, unit_x='m', unit_y='mm')
    h.check(tuple(vf.shape) == (3, 2), 'field of a vortex: shape')
    chk_axes(h, vf, xs, ys, 'field of a vortex')
    chk_unit(h, vf.unit_values, 'm/s', 'field of a vortex')
    chk_unit(h, vf.unit_x, 'm', 'field of a vortex')
    chk_unit(h, vf.unit_y, 'mm', 'field of a vortex')
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            chk_vel(h, (vf.comp_x[i][j], vf.comp_y[i][j]), v.get_vector(x, y), 'field of a vortex')


@harness('C20', cases=grid(kind=['solid', 'free', 'lamb'], w=['x', 'y']) + grid(kind=['burger'], w=['x']) + grid(kind=['any'], w=['x', 'y', 'xy']) )
def impermeable_walls(h, kind, w):
    """no velocity across the walls"""
    P = [sym_vort(h, 0, kind) + (0,)]
    if w != 'xy':
        P.append(sym_vort(h, 1, kind, True) + (1,))
    W = walls_of(h, w)
    vs = system(h, kind, P, W)
    q = h.real('q', -5, 5)
    for d, p in W:
        V = vs.get_vector(p, q) if d == 'x' else vs.get_vector(q, p)
        h.eq(V[0 if d == 'x' else 1], 0., 'velocity across the wall', 1e-6)


@harness('C20', cases=grid(w=['', 'x', 'xy']))
def contributions(h, w):
    """the contribution of a vortex includes the one of its images; custom fields have their own identifiers"""
    P = [sym_vort(h, k, 'any', k == 1) + (k,) for k in range(2)] + [sym_vort(h, 2, 'any', True) + (2,)]
    W = walls_of(h, w)
    F = [cst(h, k) for k in range(2)]
    vs = system(h, 'any', P, W, F)
    x, y = -4.25, 4.5
    for k in range(3):
        e = ref_vel(h, 'any', [p for p in P + images(P, W) if p[3] == k], x, y)
        chk_vel(h, vs.get_vector(x, y, vortex_ids=[k], cf_ids='none'), e, 'contribution of a vortex')
    for k in range(2):
        chk_vel(h, vs.get_vector(x, y, vortex_ids='none', cf_ids=[k]), F[k](x, y), 'contribution of a custom field')
    chk_vel(h, vs.get_vector(x, y, vortex_ids='none', cf_ids='none'), (0., 0.), 'no contribution')
    e = ref_vel(h, 'any', [p for p in P + images(P, W) if p[3] != 1], x, y)
    chk_vel(h, vs.get_vector(x, y, vortex_ids=[0, 2], cf_ids='none'), e, 'contribution of two vortices')


@harness('C20', cases=grid(w=['', 'y', 'xy'], early=[False, True], back=[False, True], twice=[False, True]))
def histories(h, w, early, back, twice):
    """removed vortices leave nothing behind, whatever was done and asked before"""
    m = VCR(h)
    P = [sym_vort(h, k, 'any', k != 1) + (k,) for k in range(3)]
    W = walls_of(h, w)
    x, y = -4.25, 4.5
    i = int(h.integer('i', 0, 2))
    vs = system(h, 'any', P, W)
    if early:
        vs.get_vector(x, y)
    vs.remove_vortex(i - 3 if back else i)
    L = [p for k, p in enumerate(P) if k != i]
    if twice:
        j = int(h.integer('j', 0, 1))
        vs.remove_vortex(j)
        L.pop(j)
    if early:
        M = [p[:3] + (k,) for k, p in enumerate(L)]
        chk_vel(h, vs.get_vector(x, y), ref_vel(h, 'any', M + images(M, W), x, y), 'velocity after the removal')
        for k in range(len(M)):
            e = ref_vel(h, 'any', [p for p in M + images(M, W) if p[3] == k], x, y)
            chk_vel(h, vs.get_vector(x, y, vortex_ids=[k]), e, 'contribution after the removal')
    new = (3.5, 1., .5, 9)
    vs.add_vortex(make(h, 'any', *new[:3]))
    L = L + [new]
    chk_state(h, vs, L, 'system')
    L = [p[:3] + (k,) for k, p in enumerate(L)]
    chk_vel(h, vs.get_vector(x, y), ref_vel(h, 'any', L + images(L, W), x, y), 'velocity')
    for k in range(len(L)):
        e = ref_vel(h, 'any', [p for p in L + images(L, W) if p[3] == k], x, y)
        chk_vel(h, vs.get_vector(x, y, vortex_ids=[k]), e, 'contribution')
    v, ids, _, _ = vs.get_compounded_vector(x, y)
    h.check(len(v) == len(L), 'number of contributions')
    vs.add_wall(m.Wall(x=-9.))
    W2 = W + [('x', -9.)]
    chk_vel(h, vs.get_vector(x, y), ref_vel(h, 'any', L + images(L, W2), x, y), 'velocity with another wall')


@harness('C20', cases=grid(w=['', 'x', 'xy'], nc=[0, 1], steps=[1, 2]))
def evolution(h, w, nc, steps):
    """movable vortices are advected by the whole velocity at their center; the others do not move"""
    m = VCR(h)
    if steps == 2 and w == 'xy':
        w = 'y'
    dt = h.real('dt', .125, 1) if steps == 1 else .5
    P = [sym_vort(h, 0, 'any', steps == 2) + (0,), sym_vort(h, 1, 'any', True) + (1,), sym_vort(h, 2, 'any', True) + (2,)]
    W = walls_of(h, w)
    F = [cst(h, k) for k in range(nc)]
    vs = m.VortexSystem()
    for k, p in enumerate(P):
        vs.add_vortex(make(h, 'any', *p[:3], movable=k != 1))
    for d, p in W:
        vs.add_wall(m.Wall(**{d: p}))
    for f in F:
        vs.add_custom_field(m.CustomField(f, unit_values='m/s'))
    new, L = vs, P
    for s in range(steps):
        old, Q = new, L
        new = old.get_evolution(dt)
        L = []
        for k, p in enumerate(Q):
            V = old.get_vector(p[0], p[1])
            L.append((p[0] + dt * V[0], p[1] + dt * V[1], p[2], k) if k != 1 else p)
        chk_state(h, old, Q, 'original system')
        h.check(len(new.vortex) == 3, 'number of vortices')
        for v, p in zip(new.vortex, L):
            h.eq(v.x0, p[0], 'new x', 1e-6)
            h.eq(v.y0, p[1], 'new y', 1e-6)
            h.eq(v.omega * v.rot_dir, p[2], 'strength')
    x, y = -4.25, 4.5
    e = ref_vel(h, 'any', L + images(L, W), x, y)
    for f in F:
        a, b = f(x, y)
        e = e[0] + a, e[1] + b
    chk_vel(h, new.get_vector(x, y), e, 'velocity of the new system')
    h.raises(ValueError, lambda: vs.get_evolution(0.), 'null time step')


@harness('C20', cases=grid(n=[1, 2], w=['', 'x']))
def series(h, n, w):
    """fields and positions at 0, dt, 2 dt, ..."""
    dt = .5 if n == 2 else h.real('dt', .125, 1)
    P = [sym_vort(h, 0, 'any', n == 2) + (0,), sym_vort(h, 1, 'any', True) + (1,)]
    W = walls_of(h, w)
    vs = system(h, 'any', P, W)
    xs, ys = [5.5, 6.], [4.5, 5.]
    tvf = vs.get_temporal_vector_field(dt, xs, ys, n, unit_x='m', unit_y='mm', unit_time='s')
    pts = vs.get_vortex_evolution(dt, n, unit_time='s')
    T = [k * dt for k in range(n + 1)]
    chk_tf(h, tvf, T, n + 1, 'fields', 's')
    h.check(len(pts) == 2, 'one set of points for each vortex')
    cur = vs
    for k in range(n + 1):
        vf = tvf.fields[k]
        e = cur.get_vector(xs[1], ys[0])
        chk_vel(h, (vf.comp_x[1][0], vf.comp_y[1][0]), e, 'field')
        chk_unit(h, vf.unit_x, 'm', 'field')
        chk_unit(h, vf.unit_y, 'mm', 'field')
        for i in range(2):
            h.check(len(pts[i].xy) == n + 1, 'number of positions')
            h.eq(pts[i].xy[k][0], cur.vortex[i].x0, 'position', 1e-6)
            h.eq(pts[i].xy[k][1], cur.vortex[i].y0, 'position', 1e-6)
            h.eq(pts[i].v[k], T[k], 'time')
        cur = cur.get_evolution(dt)
    chk_state(h, vs, P, 'original system')


@harness('C20', cases=grid(w=['', 'x', 'xy']))
def velocity_map(h, w):
    """velocity that the vortex would have at each place"""
    P = [sym_vort(h, 0, 'any') + (0,), sym_vort(h, 1, 'any', True) + (1,)]
    W = walls_of(h, w)
    vs = system(h, 'any', P, W)
    v = make(h, 'any', .5, .25, h.real('gm', .25, 2))
    xs, ys = [-4.5, 4.5], [-4.25, 4.25, 4.5]
    vf = vs.get_velocity_map(xs, ys, v, unit_x='m', unit_y='mm')
    chk_axes(h, vf, xs, ys, 'map')
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            L = P + [(x, y, v.omega, 2)]
            e = ref_vel(h, 'any', L + images(L, W), x, y)
            chk_vel(h, (vf.comp_x[i][j], vf.comp_y[i][j]), e, 'map')
    chk_state(h, vs, P, 'system afterwards')
    h.eq(v.x0, .5, 'vortex afterwards')
    h.eq(v.y0, .25, 'vortex afterwards')


@harness('C20', cases=grid(which=['vortex', 'copy', 'custom', 'frozen', 'vortex copy']))
def independence(h, which):
    """systems do not share their vortices nor their fields"""
    m = VCR(h)
    x, y = -4.25, 4.5
    a, b, g = sym_vort(h, 0)
    c = h.real('c', 5, 8)
    v = make(h, 'any', a, b, g, movable=which != 'frozen')
    vs = m.VortexSystem()
    vs.add_vortex(v)
    e = ref_vel(h, 'any', [(a, b, g, 0)], x, y)
    if which == 'vortex':
        v.x0 = c
        chk_vel(h, vs.get_vector(x, y), e, 'velocity')
    elif which == 'copy':
        w = vs.copy()
        w.vortex[0].x0 = c
        w.add_wall(m.Wall(y=c))
        w.add_vortex(v)
        chk_vel(h, vs.get_vector(x, y), e, 'velocity')
        chk_state(h, vs, [(a, b)], 'system')
    elif which == 'custom':
        f, f2 = m.CustomField(lambda x, y: (c, 0.), unit_values='m/s'), m.CustomField(lambda x, y: (0., c), unit_values='m/s')
        w = m.VortexSystem()
        w.add_custom_field(f2)
        vs.add_custom_field(f)
        w.add_custom_field(f)
        chk_vel(h, vs.get_vector(x, y), (e[0] + c, e[1]), 'velocity')
        chk_vel(h, w.get_vector(x, y), (c, c), 'velocity of the other system')
        chk_vel(h, vs.get_vector(x, y, vortex_ids='none', cf_ids=[0]), (c, 0.), 'custom field')
    elif which == 'frozen':
        h.raises(Exception, lambda: setattr(v, 'x0', c), 'a vortex which is not movable')
        h.raises(Exception, lambda: setattr(v, 'y0', c), 'a vortex which is not movable')
        h.eq(v.x0, a, 'position')
        vs.add_wall(m.Wall(x=c))
        L = [(a, b, g, 0)]
        chk_vel(h, vs.get_vector(x, y), ref_vel(h, 'any', L + images(L, [('x', c)]), x, y), 'velocity')
    else:
        w = v.symetrize()
        chk_vel(h, w.get_vector(x, y), (-e[0], -e[1]), 'symetrized vortex')
        chk_vel(h, v.get_vector(x, y), e, 'vortex')


@harness('C20', cases=grid(d=['x', 'y']))
def symmetries(h, d):
    m = VCR(h)
    p, a, b = h.real('p', -5, 5), h.real('a', -5, 5), h.real('b', -5, 5)
    w = m.Wall(**{d: p})
    s = w.get_symmetry([a, b])
    e = (2 * p - a, b) if d == 'x' else (a, 2 * p - b)
    chk_vel(h, s, e, 'image')
    chk_vel(h, w.get_symmetry(s), (a, b), 'image of the image')
    h.raises(ValueError, lambda: m.Wall(x=p, y=a), 'two positions')
    h.raises(ValueError, lambda: m.Wall(), 'no position')
