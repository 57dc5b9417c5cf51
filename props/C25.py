"""modal decompositions: reconstruction, selection of modes, cropping, scaling, energies"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('fields of 2x2 points, two or three modes, three instants, any values of the mean field, of the modes and of the coefficients, any times and time '
          'windows, any scales; the eigenvalue solver of modred is replaced by a stand-in that returns a fixed orthonormal basis (2 or 3 snapshots, any values). '
          'Not covered: dmd and bpod decompositions (the installed modred refuses the former), masked series, values of the coherences')
NX, NY = 2, 2


def POD(h):
    from IMTreatment.pod import pod
    return pod


def parts(h, cls, nm=2, nt=3, free='modes', mask=None):
    """mean field, modes, coefficients of the modes, all times"""
    nc = 1 if cls == 'sf' else 2

    def f2(name, sym):
        return [[h.real('%s%d%d' % (name, i, j), -4, 4) if sym else ((7 * i + 3 * j + 5 * len(name) + ord(name[-1])) % 9) / 2. - 2
                 for j in range(NY)] for i in range(NX)]
    d = dict(xs=[0., 2.], ys=[1., 1.5], nc=nc, nm=nm, nt=nt)
    d['mean'] = [f2('m' + 'xy'[c], free == 'mean') for c in range(nc)]
    d['modes'] = [[f2('q%d%s' % (n, 'xy'[c]), free == 'modes' and c == 0) for c in range(nc)] for n in range(nm)]
    d['coef'] = [[h.real('c%d%d' % (n, t), -4, 4) if free in ('coef', 'modes') else (n + 1.) * (t - 1.5) for t in range(nt)] for n in range(nm)]
    if free == 'times':
        t0, d1, d2 = h.real('t0', -3, 3), h.real('d1', .25, 2), h.real('d2', .25, 2)
        d['times'] = [t0, t0 + d1, t0 + d1 + d2]
    else:
        d['times'] = [1., 1.5, 3.][:nt]
    d['mask'] = mask or [[False] * NY for i in range(NX)]
    return d


def fld(h, cls, d, v, uv='m/s'):
    if cls == 'sf':
        return mk_sf(h, d['xs'], d['ys'], v[0], d['mask'], uv=uv)
    return mk_vf(h, d['xs'], d['ys'], v[0], v[1], d['mask'], uv=uv)


def modal(h, cls, d):
    P = h.imt.Profile
    evo = [P(d['times'], c, mask=False, unit_x='s', unit_y='m/s') for c in d['coef']]
    ev = P(list(range(d['nm'])), [3. - n for n in range(d['nm'])], mask=False, unit_x='s', unit_y='')
    vec = [[.25 * (t + 1) * (n + 1) for n in range(d['nm'])] for t in range(d['nt'])]
    return POD(h).ModalFields('pod', fld(h, cls, d, d['mean']), [fld(h, cls, d, m) for m in d['modes']], list(range(d['nm'])), evo, eigvals=ev, eigvects=vec)


def recon(d, keep, t, c, i, j, coef=None):
    """mean + sum of the modes, with their coefficients at the instant t"""
    coef = d['coef'] if coef is None else coef
    return d['mean'][c][i][j] + sum(d['modes'][n][c][i][j] * coef[n][t] for n in keep)


def chk_rec(h, tf, d, want, times, label, I=None, J=None, xs=None, ys=None, ux='m', uy='mm', uv='m/s', ut='s'):
    """want(t, c, i, j): value of the component c at the instant t"""
    I, J = range(NX) if I is None else I, range(NY) if J is None else J
    xs, ys = d['xs'] if xs is None else xs, d['ys'] if ys is None else ys
    h.check(len(tf.fields) == len(times), label + ': number of fields')
    for t, tt in enumerate(times):
        h.eq(tf.times[t], tt, label + ': time', 1e-6)
        v = [[[want(t, c, i, j) for j in J] for i in I] for c in range(d['nc'])]
        msk = [[d['mask'][i][j] for j in J] for i in I]
        a = [[xs[i] for i in I], [ys[j] for j in J]]
        if d['nc'] == 1:
            chk_sf(h, tf.fields[t], a[0], a[1], v[0], msk, label, ux=ux, uy=uy, uv=uv, tol=1e-6)
        else:
            chk_vf(h, tf.fields[t], a[0], a[1], v[0], v[1], msk, label, ux=ux, uy=uy, uv=uv, tol=1e-6)
    chk_unit(h, tf.unit_times, ut, label)


@harness('C25', cases=grid(cls=['sf', 'vf'], keep=['all', 1, 2, 0, [1], [0, 1], [1, 0]], free=['modes', 'mean']))
def reconstruction(h, cls, keep, free):
    """mean field plus the wanted modes times their coefficients; the decomposition is left as it was"""
    d = parts(h, cls, free=free)
    mf = modal(h, cls, d)
    ks = list(range(2)) if keep == 'all' else list(range(keep)) if isinstance(keep, int) else keep
    for n in range(2):
        tf = mf.reconstruct(wanted_modes=keep)
        chk_rec(h, tf, d, lambda t, c, i, j: recon(d, ks, t, c, i, j), d['times'], 'reconstruction')


@harness('C25', cases=grid(cls=['sf', 'vf'], seg=[0, 1]))
def reconstruction_between(h, cls, seg):
    """coefficients are interpolated linearly at other times, times out of the decomposition are refused"""
    d = parts(h, cls, free='coef')
    s = h.real('s', 0, 1)
    mf = modal(h, cls, d)
    a, b = d['times'][seg], d['times'][seg + 1]
    t = a + s * (b - a)
    tf = mf.reconstruct(times=[t])
    co = [[c[seg] + s * (c[seg + 1] - c[seg])] for c in d['coef']]
    chk_rec(h, tf, d, lambda t_, c, i, j: recon(d, [0, 1], t_, c, i, j, co), [t], 'reconstruction')
    out = h.real('out', .05, 3)
    h.raises(ValueError, lambda: mf.reconstruct(times=[3. + out]), 'after')
    h.raises(ValueError, lambda: mf.reconstruct(times=[1. - out]), 'before')


@harness('C25', cases=grid(cls=['sf', 'vf'], how=['keep', 'remove'], what=[1, 2, [1], [0, 2], [2, 0]], inplace=[False, True]))
def mode_selection(h, cls, how, what, inplace):
    """only the wanted modes remain, with their numbers, coefficients and eigenvalues"""
    d = parts(h, cls, nm=3, free='coef')
    mf = modal(h, cls, d)
    if how == 'keep':
        ks = list(range(what)) if isinstance(what, int) else what
    else:
        rm = [2 - k for k in range(what)] if isinstance(what, int) else what
        ks = [k for k in range(3) if k not in rm]
    kw = dict(modes_to_keep=what) if how == 'keep' else dict(modes_to_remove=what)
    r = mf.crop_modal_base(inplace=inplace, **kw)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = mf
    h.check(len(r.modes) == len(ks), 'number of modes')
    h.check(list(r.modes_nmb) == ks, 'numbers of the modes')
    h.check(len(r.eigvals) == len(ks), 'eigenvalues')
    for n, k in enumerate(sorted(ks)):
        h.eq(r.eigvals.x[n], float(k), 'eigenvalues')
        h.eq(r.eigvals.y[n], 3. - k, 'eigenvalues')
    tf = r.reconstruct()
    chk_rec(h, tf, d, lambda t, c, i, j: recon(d, ks, t, c, i, j), d['times'], 'reconstruction')
    if not inplace:
        chk_rec(h, mf.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1, 2], t, c, i, j), d['times'], 'original')


@harness('C25', cases=grid(cls=['sf', 'vf'], it=[None, 'lo', 'hi', 'ind', 'at', 'to'], space=[None, 'x', 'y'], inplace=[False, True]))
def cropping(h, cls, it, space, inplace):
    """cropping the decomposition = cropping what it reconstructs"""
    d = parts(h, cls, free='times' if it in ('lo', 'hi', 'at', 'to') else 'coef')
    ts = d['times']
    mf = modal(h, cls, d)
    kw, T = {}, [0, 1, 2]
    if it == 'ind':
        kw, T = dict(intervt=[1, 3], ind=True), [1, 2]
    elif it == 'lo':
        s = h.real('s', .05, .95)
        kw, T = dict(intervt=[ts[0] + s * (ts[1] - ts[0]), ts[2] + 1.]), [1, 2]
    elif it == 'hi':
        s = h.real('s', .05, .95)
        kw, T = dict(intervt=[ts[0] - 1., ts[1] + s * (ts[2] - ts[1])]), [0, 1]
    elif it == 'at':
        kw, T = dict(intervt=[ts[1], ts[2]]), [1, 2]
    elif it == 'to':
        kw, T = dict(intervt=[ts[0], ts[1]]), [0, 1]
    I, J = [0, 1], [0, 1]
    if space:
        v = [0, 1] if it == 'ind' else ([1., 3.] if space == 'x' else [.5, 1.25])
        kw['interv' + space] = v
        if it != 'ind':
            I, J = ([1], J) if space == 'x' else (I, [0])
    if not kw:
        kw = dict(intervx=[-1., 5.])
    r = mf.crop(inplace=inplace, **kw)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = mf
    h.check(len(r.times) == len(T), 'number of times')
    chk_rec(h, r.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1], T[t], c, i, j), [ts[t] for t in T], 'cropped', I, J)
    h.check(list(r.shape) == [len(I), len(J)], 'shape')
    if not inplace:
        chk_rec(h, mf.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1], t, c, i, j), ts, 'original')


@harness('C25', cases=grid(cls=['sf', 'vf'], inplace=[False, True], neg=[False, True]))
def scaling(h, cls, inplace, neg):
    """scaling the decomposition = scaling what it reconstructs"""
    d = parts(h, cls, free='mean')
    mf = modal(h, cls, d)
    a, b, c_, e = h.real('a', .25, 4), h.real('b', .25, 4), h.real('c', .25, 4), h.real('e', .25, 4) * (-1 if neg else 1)
    r = mf.scale(scalex=a, scaley=b, scalet=c_, scalev=e, inplace=inplace)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = mf
    chk_rec(h, r.reconstruct(), d, lambda t, c, i, j: e * recon(d, [0, 1], t, c, i, j), [t * c_ for t in d['times']], 'scaled',
            xs=[x * a for x in d['xs']], ys=[y * b for y in d['ys']])
    for t in range(3):
        h.eq(r.times[t], d['times'][t] * c_, 'times')
    h.eq(r.axe_x[1], d['xs'][1] * a, 'axis')
    if not inplace:
        chk_rec(h, mf.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1], t, c, i, j), d['times'], 'original')


@harness('C25', cases=grid(cls=['sf', 'vf'], cum=[False, True], raw=[False, True]))
def energies(h, cls, cum, raw):
    """energy of a mode: mean of half of its squared values times the mean square of its coefficients"""
    d = parts(h, cls, free='modes')
    mf = modal(h, cls, d)
    e = mf.get_modes_energy(cum=cum, raw=raw)
    want = []
    for n in range(2):
        sp = sum(d['modes'][n][c][i][j] ** 2 for c in range(d['nc']) for i in range(NX) for j in range(NY)) / (2. * NX * NY)
        want.append(sp * sum(x ** 2 for x in d['coef'][n]) / 3.)
    if cum:
        want[1] = want[0] + want[1]
    v = e if raw else e.y
    h.check(len(v) == 2, 'number of modes')
    for n in range(2):
        h.eq(v[n], want[n], 'energy', 1e-6)
        if not raw:
            h.eq(e.x[n], float(n), 'number of the mode')
    if not raw:
        chk_unit(h, e.unit_y, 'm**2/s**2', 'unit')


@harness('C25', cases=grid(cls=['sf', 'vf'], fact=[1, 2, 3], inplace=[False, True]))
def more_instants(h, cls, fact, inplace):
    """augmenting the temporal resolution keeps the reconstruction at the former times"""
    d = parts(h, cls, free='coef')
    d['times'] = [1., 2., 3.]
    mf = modal(h, cls, d)
    r = mf.augment_temporal_resolution(fact=fact, inplace=inplace)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = mf
    n = 2 * fact + 1
    h.check(len(r.times) == n, 'number of times')
    ts = [1. + 2. * k / (n - 1) for k in range(n)]
    co = []
    for c in d['coef']:
        co.append([c[min(k // fact, 1)] + (c[min(k // fact, 1) + 1] - c[min(k // fact, 1)]) * (ts[k] - 1. - min(k // fact, 1)) for k in range(n)])
    chk_rec(h, r.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1], t, c, i, j, co), ts, 'augmented')
    if not inplace:
        chk_rec(h, mf.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1], t, c, i, j), d['times'], 'original')


@harness('C25', cases=grid(cls=['sf', 'vf'], what=['temporal', 'spatial'], inplace=[False, True]))
def smoothing(h, cls, what, inplace):
    """smoothing the coefficients (or the modes) is smoothing each of them, and nothing else"""
    d = parts(h, cls, nm=2, nt=3, free='modes')
    mf, ref = modal(h, cls, d), modal(h, cls, d)
    fn = mf.smooth_temporal_evolutions if what == 'temporal' else mf.smooth_spatial_evolutions
    r = fn(tos='uniform', size=3, inplace=inplace)
    if inplace:
        h.check(r is None, 'nothing returned')
        r = mf
    for n in range(2):
        e, m = ref.temp_evo[n], ref.modes[n]
        if what == 'temporal':
            e = e.smooth(tos='uniform', size=3, inplace=False)
        else:
            m = m.smooth(tos='uniform', size=3, inplace=False)
        for t in range(3):
            h.eq(r.temp_evo[n].y[t], e.y[t], 'coefficients', 1e-6)
        for c in range(d['nc']):
            a, b = [(q.values if cls == 'sf' else q.comp_x if c == 0 else q.comp_y) for q in (r.modes[n], m)]
            for i in range(NX):
                for j in range(NY):
                    h.eq(a[i, j], b[i, j], 'mode', 1e-6)
    if not inplace:
        chk_rec(h, mf.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1], t, c, i, j), d['times'], 'original')


@harness('C25', cases=grid(cls=['sf', 'vf'], fn=['modes_as_tf', 'energy', 'temporal', 'spatial', 'refused']))
def reading(h, cls, fn):
    """reading energies, coherences or modes leaves the decomposition as it was"""
    d = parts(h, cls, free='mean')
    mf = modal(h, cls, d)
    if fn == 'modes_as_tf':
        tf = mf.modes_as_tf
        h.check(len(tf.fields) == 2, 'number of modes')
        for n in range(2):
            h.eq(tf.times[n], n + 1., 'numbers of the modes')
            v = lst(tf.fields[n].values if cls == 'sf' else tf.fields[n].comp_x)
            for i in range(NX):
                for j in range(NY):
                    h.eq(v[i][j], d['modes'][n][0][i][j], 'mode')
    elif fn == 'energy':
        mf.get_modes_energy()
    elif fn == 'temporal':
        h.check(len(mf.get_temporal_coherence(raw=True)) == 2, 'number of modes')
    elif fn == 'spatial':
        h.check(len(mf.get_spatial_coherence(raw=True)) == 2, 'number of modes')
    else:
        h.raises(ValueError, lambda: mf.reconstruct(wanted_modes=[0, 2]), 'no such mode')
        h.raises(ValueError, lambda: mf.crop_modal_base(), 'nothing to keep')
    chk_rec(h, mf.reconstruct(), d, lambda t, c, i, j: recon(d, [0, 1], t, c, i, j), d['times'], 'after')


R3, R2, R6 = 3 ** -.5, 2 ** -.5, 6 ** -.5
# columns: orthonormal, and orthogonal to the constant vector (the snapshots have no mean)
BASIS = {2: [[R2], [-R2]], 3: [[R2, R6], [-R2, R6], [0., -2 * R6]]}
LAMBDA = [4., 2.25]


class FakeModred(object):
    """stands for the eigenvalue solver of the library modred: any orthonormal basis of vectors without mean will do"""

    class VecHandleInMemory(object):
        def __init__(self, v):
            self.v = v

        def get(self):
            return self.v

        def put(self, v):
            self.v = v

    class PODHandles(object):
        def __init__(self, *a, **k):
            pass

        def compute_decomp(self, snaps):
            import numpy as np
            self.snaps = snaps
            V = BASIS[len(snaps)]
            return np.array(LAMBDA[:len(V[0])]), np.array(V)

        def compute_modes(self, nums, handles):
            V = BASIS[len(self.snaps)]
            for n, hd in zip(nums, handles):
                n = int(n)
                tot = 0.
                for j, s in enumerate(self.snaps):
                    tot = tot + s.get() * (V[j][n] * LAMBDA[n] ** -.5)
                hd.put(tot)


@harness('C25', cases=grid(cls=['sf', 'vf'], nt=[2, 3], keep=['all', 1]))
def decomposition(h, cls, nt, keep):
    """the modes and coefficients of a series give it back, whatever orthonormal basis the solver returns"""
    d = parts(h, cls, nm=1, nt=3, free='mean')
    ts = [.5, 1., 2.][:nt]
    vals = []
    tf = h.imt.TemporalScalarFields() if cls == 'sf' else h.imt.TemporalVectorFields()
    for t in range(nt):
        v = [[[h.real('v%d%d%d%d' % (t, c, i, j), -4, 4) if c == 0 else float((3 * t + i - j) % 4) for j in range(NY)] for i in range(NX)] for c in range(d['nc'])]
        vals.append(v)
        tf.add_field(fld(h, cls, d, v), time=ts[t], unit_times='s')
    pod = POD(h)
    keep_mod = pod.modred
    pod.modred = FakeModred
    try:
        mf = pod.modal_decomposition(tf, kind='pod', wanted_modes=keep, verbose=False)
    finally:
        pod.modred = keep_mod
    V = BASIS[nt]
    nm = len(V[0]) if keep == 'all' else 1
    h.check(len(mf.modes) == nm, 'number of modes')
    h.check(list(mf.modes_nmb) == list(range(nm)), 'numbers of the modes')
    mean = [[[sum(vals[t][c][i][j] for t in range(nt)) / nt for j in range(NY)] for i in range(NX)] for c in range(d['nc'])]

    def want(t, c, i, j):
        return mean[c][i][j] + sum(V[t][n] * V[k][n] * (vals[k][c][i][j] - mean[c][i][j]) for n in range(nm) for k in range(nt))
    chk_rec(h, mf.reconstruct(), d, want, ts, 'reconstruction')
    if keep == 'all':
        chk_rec(h, mf.reconstruct(), d, lambda t, c, i, j: vals[t][c][i][j], ts, 'the series')
    for n in range(nm):
        h.eq(mf.eigvals.y[n], LAMBDA[n], 'eigenvalues')
        for t in range(nt):
            h.eq(mf.temp_evo[n].x[t], ts[t], 'times')
            h.eq(mf.temp_evo[n].y[t], V[t][n] * LAMBDA[n] ** .5, 'coefficients', 1e-6)
    chk_rec(h, tf, d, lambda t, c, i, j: vals[t][c][i][j], ts, 'the series is left as it was')
