"""operations that are not in place leave their operands alone and share no data"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('fields of 4x3 points on uniform axes and series of 2 instants; arbitrary values and masked points; '
          'every field operation with an in-place switch, copy and arithmetic; '
          'chains of two in-place operations on series')

OPS = {
    'crop': lambda f, i: f.crop(intervx=[f.axe_x[1], f.axe_x[2]], inplace=i),
    'crop_all': lambda f, i: f.crop(inplace=i),
    'crop_ind': lambda f, i: f.crop(intervy=[0, 1], ind=True, inplace=i),
    'scale': lambda f, i: f.scale(scalex=2., scaley=.5, scalev=3., inplace=i),
    'scaleneg': lambda f, i: f.scale(scalex=-2., inplace=i),
    'rotate0': lambda f, i: f.rotate(0, inplace=i),
    'rotate': lambda f, i: f.rotate(90, inplace=i),
    'rotate180': lambda f, i: f.rotate(-180, inplace=i),
    'extend': lambda f, i: f.extend(nmb_left=1, nmb_up=2, inplace=i),
    'extend0': lambda f, i: f.extend(inplace=i),
    'border': lambda f, i: f.crop_masked_border(inplace=i),
    'fill': lambda f, i: f.fill(kind='value', value=1.5, inplace=i),
    'fillcrop': lambda f, i: f.fill(kind='value', value=1.5, crop=True, inplace=i),
    'reduce1': lambda f, i: f.reduce_spatial_resolution(1, inplace=i),
    'reduce2': lambda f, i: f.reduce_spatial_resolution(2, inplace=i),
    'reduce3': lambda f, i: f.reduce_spatial_resolution(3, inplace=i),
}
TOPS = {
    'crop': OPS['crop'], 'crop_ind': OPS['crop_ind'], 'crop_all': OPS['crop_all'],
    'cropt': lambda f, i: f.crop(intervt=[0, 0], ind=True, inplace=i),
    'scale': lambda f, i: f.scale(scalex=2., scaley=.5, scalev=3., scalet=2., inplace=i),
    'scaleneg': OPS['scaleneg'], 'rotate': OPS['rotate'], 'rotate0': OPS['rotate0'],
    'extend': OPS['extend'], 'border': OPS['border'],
    'fill': lambda f, i: f.fill(kind='value', value=1.5, inplace=i),
    'reduce2': OPS['reduce2'],
    'reducet1': lambda f, i: f.reduce_temporal_resolution(1, inplace=i),
    'augment1': lambda f, i: f.augment_temporal_resolution(1, inplace=i),
    'augment2': lambda f, i: f.augment_temporal_resolution(2, inplace=i),
}


def arrays(kind, f):
    if kind == 'sf':
        return dict(values=f.values, mask=f.mask, axe_x=f.axe_x, axe_y=f.axe_y)
    return dict(comp_x=f.comp_x, comp_y=f.comp_y, mask=f.mask, axe_x=f.axe_x, axe_y=f.axe_y)


def snap(kind, f):
    d = dict((k, lst(a)) for k, a in arrays(kind, f).items())
    d['u'] = (f.unit_x, f.unit_y, f.unit_values)
    return d


def same(h, kind, f, d, label):
    a = arrays(kind, f)
    m = d['mask']
    h.check(tuple(a['mask'].shape) == (len(d['axe_x']), len(d['axe_y'])), label + ': shape')
    chk_mask(h, a['mask'], m, label)
    chk_axes(h, f, d['axe_x'], d['axe_y'], label)
    mz = lambda v: f64(h, [[h.ite(q, 0., x) for x, q in zip(rv, rm)] for rv, rm in zip(v, m)])
    for k in ('values', 'comp_x', 'comp_y'):
        if k in a:
            h.eq(mz(lst(a[k])), mz(d[k]), '%s: %s' % (label, k))
    for g, w, n in zip((f.unit_x, f.unit_y, f.unit_values), d['u'], ('x', 'y', 'values')):
        chk_unit(h, g, w, label + ' unit of ' + n)


def scribble(h, kind, f):
    """overwrite every array of a field in place"""
    a = arrays(kind, f)
    for k in a:
        if k == 'mask':
            a[k][...] = True
        else:
            a[k][...] = 77.


@harness('C07', cases=grid(kind=['sf', 'vf'], op=sorted(OPS)), max_s=60)
def fields(h, kind, op):
    F = Fld(h, 4, 3, kind, mask='none' if op == 'crop_all' else 'one', uniform=True)
    if op in ('border', 'fillcrop'):
        # one free column of masked points at the border
        for j in range(3):
            F.m[0][j] = h.boolean('b%d' % j)
    a, b = F.make(), F.make()
    r = OPS[op](a, False)
    F.chk(a, 'original after ' + op)
    h.check(r is not None, 'a result is returned')
    OPS[op](b, True)
    want = snap(kind, b)
    same(h, kind, r, want, 'same result as in place')
    scribble(h, kind, a)
    same(h, kind, r, want, 'result after a change of the original')
    a = F.make()
    r = OPS[op](a, False)
    scribble(h, kind, r)
    F.chk(a, 'original after a change of the result')


AR = {'add': lambda f, g: f + g, 'sub': lambda f, g: f - g, 'addn': lambda f, g: f + 1.,
      'muln': lambda f, g: f * 2., 'divn': lambda f, g: f / 2., 'neg': lambda f, g: -f,
      'pow': lambda f, g: f ** 2, 'copy': lambda f, g: f.copy()}
ARS = dict(AR, mul=lambda f, g: f * g, abs=lambda f, g: abs(f), rdiv=lambda f, g: 2. / f,
           div=lambda f, g: f / g, mular=lambda f, g: f * g.values)


@harness('C07', cases=grid(kind=['sf'], op=sorted(ARS)) + grid(kind=['vf'], op=sorted(AR)))
def arithmetic(h, kind, op):
    F = Fld(h, 3, 2, kind, mask='one', lo=.5, hi=4)
    G = Fld(h, 3, 2, kind, mask='one', name='g', lo=.5, hi=4)
    G.xs, G.ys = F.xs, F.ys
    if op == 'mular':
        G.m = g2(3, 2, lambda i, j: False)
    f, g = F.make(), G.make()
    r = (ARS if kind == 'sf' else AR)[op](f, g)
    want = snap(kind, r)
    F.chk(f, 'first operand')
    G.chk(g, 'second operand')
    scribble(h, kind, f)
    scribble(h, kind, g)
    same(h, kind, r, want, 'result after a change of the operands')
    f, g = F.make(), G.make()
    r = (ARS if kind == 'sf' else AR)[op](f, g)
    scribble(h, kind, r)
    F.chk(f, 'first operand after a change of the result')
    G.chk(g, 'second operand after a change of the result')


def tsnap(kind, tf):
    return dict(f=[snap(kind, f) for f in tf.fields], t=lst(tf.times), n=len(tf.fields),
                x=lst(tf.axe_x), y=lst(tf.axe_y), ut=tf.unit_times)


def tsame(h, kind, tf, d, label):
    h.check(len(tf.fields) == d['n'] and len(tf.times) == d['n'], label + ': number of fields')
    h.eq(tf.times, h.np.array(d['t'], dtype=float), label + ': times')
    chk_axes(h, tf, d['x'], d['y'], label)
    chk_unit(h, tf.unit_times, d['ut'], label + ' unit of times')
    for k in range(d['n']):
        same(h, kind, tf.fields[k], d['f'][k], '%s, field %d' % (label, k))


def tscribble(h, kind, tf):
    for f in tf.fields:
        scribble(h, kind, f)
    for a in (tf.axe_x, tf.axe_y, tf.times):
        a[...] = 55.


def tunch(h, tf, F, ts, label):
    chk_tf(h, tf, ts, 2, label, 's')
    for k in range(2):
        F[k].chk(tf.fields[k], label)


@harness('C07', cases=grid(kind=['sf', 'vf'], op=sorted(TOPS)), max_s=90)
def series(h, kind, op):
    tf, F, ts = mk_tf(h, kind, 2, 4, 3, mask='one', uniform=True)
    a, b = tf.copy(), tf.copy()
    r = TOPS[op](a, False)
    tunch(h, a, F, ts, 'original after ' + op)
    h.check(r is not None, 'a result is returned')
    TOPS[op](b, True)
    want = tsnap(kind, b)
    tsame(h, kind, r, want, 'same result as in place')
    tscribble(h, kind, a)
    tsame(h, kind, r, want, 'result after a change of the original')
    tunch(h, tf, F, ts, 'copied series after a change of the copy')
    a = tf.copy()
    r = TOPS[op](a, False)
    tscribble(h, kind, r)
    tunch(h, a, F, ts, 'original after a change of the result')


@harness('C07', cases=grid(kind=['sf', 'vf']))
def added_fields_are_copies(h, kind):
    tf, F, ts = mk_tf(h, kind, 1, 3, 2, mask='one')
    G = Fld(h, 3, 2, kind, mask='one', name='g')
    G.xs, G.ys = F[0].xs, F[0].ys
    g = G.make()
    t2 = h.real('t2', 20, 30)
    tf.add_field(g, time=t2, unit_times='s')
    scribble(h, kind, g)
    G.chk(tf.fields[1], 'stored field after a change of the added one')
    F[0].chk(tf.fields[0], 'other field')
    g = G.make()
    tf.add_field(g, time=t2 + 1., unit_times='s')
    scribble(h, kind, tf.fields[1])
    G.chk(g, 'added field after a change of the stored one')
    G.chk(tf.fields[2], 'other stored field')


# in-place operations that keep the number of points: effect on one field
ST = {
    'scale': (lambda o: o.scale(scalex=2., scaley=.5, scalev=3., inplace=True)),
    'rot': (lambda o: o.rotate(90, inplace=True)),
    'origin': (lambda o: o.set_origin(x=1.5, y=-.5)),
    'unit': (lambda o: o.change_unit('x', 'cm')),
    'crop': (lambda o: o.crop(intervx=[0, 2], ind=True, inplace=True)),
    'ext': (lambda o: o.extend(nmb_right=1, inplace=True)),
    'mirror': (lambda o: o.mirroring('x', -1., inplace=True)),
    'red': (lambda o: o.reduce_spatial_resolution(2, inplace=True)),
}


@harness('C07', cases=grid(kind=['sf', 'vf'], a=sorted(ST), b=sorted(ST)), max_s=60)
def chains_act_on_each_field(h, kind, a, b):
    """operating on a series is operating on each of its fields"""
    if a == b == 'red':
        return h.check(True, 'nothing would be left')
    if 'mirror' in (a, b):
        xs, ys = [0., 1., 2., 3.], [0., 1.]
    else:
        xs, ys = None, None
    F = [Fld(h, 4, 2, kind, 'none', uniform=True, name='f'),
         Fld(h, 4, 2, kind, 'none', uniform=True, name='g')]
    for f in F:
        f.xs, f.ys = (xs, ys) if xs else (F[0].xs, F[0].ys)
        f.u = ('m', 'm', 'm/s')
    if xs and b == 'mirror' and a in ('origin', 'rot', 'scale', 'unit', 'mirror', 'red', 'crop', 'ext'):
        # the mirror position must stay outside of the field
        ST2 = lambda o: o.mirroring('x', o.axe_x[0] - 1., inplace=True)
    else:
        ST2 = ST[b]
    tf = (h.imt.TemporalScalarFields if kind == 'sf' else h.imt.TemporalVectorFields)()
    for k in range(2):
        tf.add_field(F[k].make(), time=float(k), unit_times='s')
    ST[a](tf)
    ST2(tf)
    for k in range(2):
        o = F[k].make()
        ST[a](o)
        ST2(o)
        d = snap(kind, o)
        same(h, kind, tf.fields[k], d, 'field %d' % k)
        chk_axes(h, tf, d['axe_x'], d['axe_y'], 'axes of the series')
        chk_unit(h, tf.unit_x, d['u'][0], 'unit of x of the series')
