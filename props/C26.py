"""text files: exporting, importing"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('text files: fields of 3x2, 2x3 and 2x2 points with any values and increasing axes, rows in seven orders, one row missing, one value not a number, '
          'chosen columns; profiles and clouds of 1 to 3 points; native files: fields, series of two fields, profiles, points, critical points, file names with '
          'and without extension, existing files; matlab files: also objects with one point along an axis; pictures: up to 3x2 pixels, series of up to 3. '
          'The bytes of the files are those of pickle, gzip, scipy.io and imageio, which are trusted (symbolic values are written as tokens and read back; the '
          'picture codec is replaced by one without loss). Not covered: vtk, IM7, VC7, videos, series of text files')


def IO(h):
    from IMTreatment import file_operation as f
    return f


class Scratch(object):
    def __enter__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix='symx_io_')
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)


MASKS = {'none': [], 'one': [(1, 0)], 'two': [(0, 1), (2, 1)]}


def data(h, cls, mask, nx=3, ny=2, ax=True, pre=''):
    xs, ys = axes(h, nx, ny) if ax else ([-1., .5, 2.][:nx], [0., 3., 3.5][:ny])
    nc = 1 if cls == 'sf' else 2
    vals = [[[h.real('v%d%d%d' % (c, i, j), -5, 5) for j in range(ny)] for i in range(nx)] for c in range(nc)]
    msk = [[(i, j) in MASKS[mask] for j in range(ny)] for i in range(nx)]
    return xs, ys, vals, msk


@harness('C26', cases=grid(cls=['sf', 'vf'], mask=sorted(MASKS)))
def field_round_trip(h, cls, mask):
    """a field exported to a text file and imported again is the same field"""
    xs, ys, v, msk = data(h, cls, mask)
    f = mk_sf(h, xs, ys, v[0], msk) if cls == 'sf' else mk_vf(h, xs, ys, v[0], v[1], msk)
    with Scratch() as d:
        p = d + '/f.txt'
        IO(h).export_to_ascii(f, p)
        kw = dict(unit_x='m', unit_y='mm', unit_values='m/s')
        if cls == 'sf':
            r = IO(h).import_sf_from_ascii(p, 1, 2, 3, **kw)
            chk_sf(h, r, xs, ys, v[0], msk, 'imported', ux='m', uy='mm', uv='m/s')
            chk_sf(h, f, xs, ys, v[0], msk, 'exported', ux='m', uy='mm', uv='m/s')
        else:
            r = IO(h).import_vf_from_ascii(p, 1, 2, 3, 4, **kw)
            chk_vf(h, r, xs, ys, v[0], v[1], msk, 'imported', ux='m', uy='mm', uv='m/s')
            chk_vf(h, f, xs, ys, v[0], v[1], msk, 'exported', ux='m', uy='mm', uv='m/s')


ORDERS = ['xy', 'yx', 'xY', 'Yx', 'Xy', 'yX', 'mix']


def rows_of(order, nx, ny):
    I, J = list(range(nx)), list(range(ny))
    if 'X' in order:
        I.reverse()
    if 'Y' in order:
        J.reverse()
    if order.lower() == 'xy':
        return [(i, j) for i in I for j in J]
    if order.lower() == 'yx':
        return [(i, j) for j in J for i in I]
    l = [(i, j) for i in I for j in J]
    return l[1::2] + l[::2][::-1]


@harness('C26', cases=grid(cls=['sf', 'vf'], order=ORDERS, shape=[(3, 2), (2, 3), (2, 2)], lack=[False, True], cols=['plain', 'swapped'], bad=[(0, 1), (0,), (1,)]))
def import_rows(h, cls, order, shape, lack, cols, bad):
    """each row of the file is found at its coordinates, whatever their order; points that are not in the file (or not numbers) are masked"""
    nx, ny = shape
    xs, ys, v, msk = data(h, cls, 'none', nx, ny, ax=False)
    rows = rows_of(order, nx, ny)
    if lack:
        miss = rows.pop(2)
        msk = [[(i, j) == miss for j in range(ny)] for i in range(nx)]
    nan = rows[1]
    msk[nan[0]][nan[1]] = cls == 'vf' or 0 in bad
    pos = {'x': 1, 'y': 2, 0: 3, 1: 4} if cols == 'plain' else {'x': 3, 'y': 1, 0: 5, 1: 2}
    with Scratch() as d:
        p = d + '/f.txt'
        with open(p, 'w') as f:
            f.write('# some header\n')
            for i, j in rows:
                r = ['7', '7', '7', '7', '7']
                r[pos['x'] - 1], r[pos['y'] - 1] = '{}'.format(xs[i]), '{}'.format(ys[j])
                for c in range(len(v)):
                    r[pos[c] - 1] = 'nan' if (i, j) == nan and c in bad else '{}'.format(v[c][i][j])
                f.write('\t'.join(r) + '\n')
        kw = dict(unit_x='m', unit_y='mm', unit_values='m/s')
        if cls == 'sf':
            r = IO(h).import_sf_from_ascii(p, pos['x'], pos['y'], pos[0], **kw)
            chk_sf(h, r, xs, ys, v[0], msk, 'imported', ux='m', uy='mm', uv='m/s')
        else:
            r = IO(h).import_vf_from_ascii(p, pos['x'], pos['y'], pos[0], pos[1], **kw)
            chk_vf(h, r, xs, ys, v[0], v[1], msk, 'imported', ux='m', uy='mm', uv='m/s')


@harness('C26', cases=grid(n=[1, 2, 3], what=['profile', 'points', 'points_v'], cols=['plain', 'swapped']))
def lists_round_trip(h, n, what, cols):
    """profiles and points: exported and imported again, and read from chosen columns"""
    a = [[h.real('%s%d' % (q, k), -5, 5) for k in range(n)] for q in ('p', 'q', 'r')]
    if what == 'profile':
        a[0] = [a[0][0] + sum((abs(x) + .1) for x in a[0][1:k + 1]) for k in range(n)]
    with Scratch() as d:
        p = d + '/f.txt'
        if cols == 'plain':
            if what == 'profile':
                o = h.imt.Profile(a[0], a[1], mask=False, unit_x='m', unit_y='s')
            else:
                o = h.imt.Points([[a[0][k], a[1][k]] for k in range(n)], v=a[2] if what == 'points_v' else [], unit_x='m', unit_y='s', unit_v='kg')
            IO(h).export_to_ascii(o, p)
            cx, cy, cv = 1, 2, 3
        else:
            cx, cy, cv = 3, 1, 2
            with open(p, 'w') as f:
                for k in range(n):
                    f.write('{} {} {}\n'.format(a[1][k], a[2][k], a[0][k]))
        if what == 'profile':
            r = IO(h).import_profile_from_ascii(p, cx, cy, unit_x='m', unit_y='s')
            x, y = r.x, r.y
        else:
            kw = dict(v_col=cv, unit_v='kg') if what == 'points_v' else {}
            r = IO(h).import_pts_from_ascii(p, cx, cy, unit_x='m', unit_y='s', **kw)
            x, y = r.xy[:, 0], r.xy[:, 1]
            if what == 'points_v':
                h.check(len(r.v) == n, 'number of values')
                for k in range(n):
                    h.eq(r.v[k], a[2][k], 'values')
                chk_unit(h, r.unit_v, 'kg', 'unit')
        h.check(len(x) == n, 'number of points')
        for k in range(n):
            h.eq(x[k], a[0][k], 'x')
            h.eq(y[k], a[1][k], 'y')
        chk_unit(h, r.unit_x, 'm', 'unit')
        chk_unit(h, r.unit_y, 's', 'unit')


# ---------------------------------------------------------------- native files
def thing(h, kind, size='some'):
    """an object of the given kind, and how to check that it is that one"""
    from . import C23
    if kind in ('sf', 'vf'):
        nx, ny = {'some': (3, 2), 'x': (3, 1), 'y': (1, 2)}[size]
        xs, ys, v, msk = data(h, kind, 'one' if size != 'y' else 'none', nx, ny)
        if kind == 'sf':
            return mk_sf(h, xs, ys, v[0], msk), lambda o, l: chk_sf(h, o, xs, ys, v[0], msk, l, ux='m', uy='mm', uv='m/s')
        return mk_vf(h, xs, ys, v[0], v[1], msk), lambda o, l: chk_vf(h, o, xs, ys, v[0], v[1], msk, l, ux='m', uy='mm', uv='m/s')
    if kind in ('tsf', 'tvf'):
        tf, F, ts = mk_tf(h, kind[1:], 2, 2, 2, 'none')

        def chk(o, l):
            h.check(type(o) is type(tf), l + ': type')
            chk_tf(h, o, ts, 2, l, 's')
            for f, q in zip(o.fields, F):
                if kind == 'tsf':
                    chk_sf(h, f, q.xs, q.ys, q.vx, q.m, l, ux='m', uy='mm', uv='m/s')
                else:
                    chk_vf(h, f, q.xs, q.ys, q.vx, q.vy, q.m, l, ux='m', uy='mm', uv='m/s')
        return tf, chk
    if kind == 'profile':
        n = {'some': 3, 'x': 2, 'y': 1}[size]
        x, y = [h.real('x%d' % k, 2 * k - 5, 2 * k - 4) for k in range(n)], [h.real('y%d' % k, -5, 5) for k in range(n)]
        msk = [False, True, False][:n]

        def chk(o, l):
            h.check(type(o) is h.imt.Profile, l + ': type')
            h.eq(o.x, f64(h, x), l + ': x')
            h.check([bool(m) for m in o.mask] == msk, l + ': mask')
            for k in range(0, n, 2):
                h.eq(o.y[k], y[k], l + ': y')
            chk_unit(h, o.unit_x, 'm', l)
            chk_unit(h, o.unit_y, 's', l)
        return h.imt.Profile(f64(h, x), f64(h, y), mask=msk, unit_x='m', unit_y='s'), chk
    if kind == 'points':
        n = {'some': 3, 'x': 2, 'y': 1}[size]
        a = [[h.real('%s%d' % (q, k), -5, 5) for k in range(n)] for q in 'pqr']

        def chk(o, l):
            h.check(type(o) is h.imt.Points, l + ': type')
            h.eq(o.xy, f64(h, [[a[0][k], a[1][k]] for k in range(n)]), l + ': positions')
            h.eq(o.v, f64(h, a[2]), l + ': values')
            for u, w in ((o.unit_x, 'm'), (o.unit_y, 's'), (o.unit_v, 'kg')):
                chk_unit(h, u, w, l)
        return h.imt.Points([[a[0][k], a[1][k]] for k in range(n)], v=a[2], unit_x='m', unit_y='s', unit_v='kg'), chk
    assert kind == 'critpoints'
    t, fr = [1., 2.5], [{'foc': [[h.real('a%d' % k, -8, 8), 1. + k]], 'sadd': [[2., 0.], [3., h.real('b%d' % k, -8, 8)]][:k]} for k in range(2)]
    return C23.mk_cp(h, fr, t), lambda o, l: C23.chk_cp(h, o, fr, t, l)


KINDS = ['sf', 'vf', 'tsf', 'tvf', 'profile', 'points', 'critpoints']


@harness('C26', cases=grid(kind=KINDS, compressed=[True, False, None], name=['f', 'f.imt', 'f.cimt', 'f.dat'], again=[False, True]))
def native_round_trip(h, kind, compressed, name, again):
    """an object saved in the format of the library and loaded again is the same object"""
    o, chk = thing(h, kind)
    with Scratch() as d:
        kw = {} if compressed is None else {'compressed': compressed}
        ext = '.imt' if compressed is False else '.cimt'
        if again:
            # the file exists already, with something bigger in it
            IO(h).export_to_file(list(range(1000)), d + '/' + name, **kw)
        IO(h).export_to_file(o, d + '/' + name, **kw)
        p = d + '/' + (name if name.endswith(ext) and '.' in name and name[name.index('.'):] == ext else name + ext)
        import os
        h.check(os.listdir(d) == [os.path.basename(p)], 'name of the file')
        chk(IO(h).import_from_file(p), 'loaded')
        chk(o, 'saved')


@harness('C26', cases=grid(what=['missing', 'missing_dir', 'extension', 'new_dir', 'compressed']))
def native_refusals(h, what):
    """files that are not there or not of the format of the library are refused"""
    v = h.real('v', -5, 5)
    with Scratch() as d:
        if what == 'missing':
            h.raises(FileNotFoundError, lambda: IO(h).import_from_file(d + '/f.cimt'), 'missing file')
        elif what == 'missing_dir':
            h.raises(FileNotFoundError, lambda: IO(h).import_from_file(d + '/a/f.cimt'), 'missing directory')
        elif what == 'extension':
            with open(d + '/f.txt', 'w') as f:
                f.write('{}'.format(v))
            h.raises(IOError, lambda: IO(h).import_from_file(d + '/f.txt'), 'unknown extension')
        elif what == 'new_dir':
            h.raises(FileNotFoundError, lambda: IO(h).export_to_file([v], d + '/a/f.cimt'), 'missing directory')
        else:
            h.raises(TypeError, lambda: IO(h).export_to_file([v], d + '/f.cimt', compressed='yes'), 'compressed')


@harness('C26', cases=grid(kind=['tsf', 'tvf'], n=[1, 2, 3]))
def gather_files(h, kind, n):
    """separate fields gathered in one file: all of them, and only those of the wanted kind"""
    xs, ys = [-1., .5], [0., 3.]
    V = [[[h.real('v%d%d%d' % (k, i, j), -5, 5) for j in range(2)] for i in range(2)] for k in range(n)]
    with Scratch() as d:
        import os
        os.mkdir(d + '/in')
        for k in range(n):
            f = mk_sf(h, xs, ys, V[k]) if kind == 'tsf' else mk_vf(h, xs, ys, V[k], [[2. * q for q in l] for l in V[k]])
            IO(h).export_to_file(f, d + '/in/f%d' % k, compressed=k != 1)
        IO(h).export_to_file(mk_vf(h, xs, ys, V[0], V[0]) if kind == 'tsf' else mk_sf(h, xs, ys, V[0]), d + '/in/g')
        with open(d + '/in/notes.txt', 'w') as f:
            f.write('notes')
        IO(h).imts_to_imt(d + '/in', d + '/out.cimt', kind.upper())
        r = IO(h).import_from_file(d + '/out.cimt')
        h.check(len(r.fields) == n, 'number of fields')
        left = list(range(n))
        for f in r.fields:
            g = f.values if kind == 'tsf' else f.comp_x
            for k in left:
                if all(bool(g[i, j] == V[k][i][j]) for i in range(2) for j in range(2)):
                    left.remove(k)
                    break
            if kind == 'tvf':
                h.eq(f.comp_y, 2. * f.comp_x, 'components')
        h.check(not left, 'each field once')


# ---------------------------------------------------------------- matlab
@harness('C26', cases=grid(kind=['sf', 'vf', 'profile', 'points'], size=['some', 'x', 'y']))
def matlab_round_trip(h, kind, size):
    """an object exported to matlab and imported again is the same object"""
    o, chk = thing(h, kind, size)
    names = {'sf': 'ScalarField', 'vf': 'VectorField', 'profile': 'Profile', 'points': 'Points'}
    with Scratch() as d:
        IO(h).export_to_matlab(o, d + '/f.mat')
        chk(IO(h).import_from_matlab(d + '/f.mat', names[kind]), 'imported')
        chk(o, 'exported')


# ---------------------------------------------------------------- pictures
class FakeImages(object):
    """stands for imageio: the pixels written are the ones read (row by row, from the top)"""

    def __init__(self, h):
        self.h, self.kept = h, {}

    def imwrite(self, p, a, *q, **k):
        open(p, 'w').close()
        self.kept[p] = self.h.np.array(a)

    def imread(self, p, *q, **k):
        return self.h.np.array(self.kept[p])


class Images(object):
    def __init__(self, h):
        import IMTreatment.file_operation.file_operation as m
        self.m, self.f = m, FakeImages(h)

    def __enter__(self):
        self.keep, self.m.imageio = self.m.imageio, self.f
        return self.f

    def __exit__(self, *a):
        self.m.imageio = self.keep


@harness('C26', cases=grid(shape=[(3, 2), (2, 3), (1, 2)], ax=[False, True], how=['export', 'pixels'], ext=['.png', '.bmp', '.JPG']))
def picture(h, shape, ax, how, ext):
    """a picture: columns along x, rows from the top (largest y) to the bottom"""
    nx, ny = shape
    v = [[h.real('v%d%d' % (i, j), 0, 255) for j in range(ny)] for i in range(nx)]
    xs, ys = axes(h, nx, ny) if ax else ([float(i) for i in range(nx)], [float(j) for j in range(ny)])
    with Scratch() as d, Images(h) as im:
        if how == 'export':
            IO(h).export_to_picture(mk_sf(h, xs, ys, v), d + '/p' + ext)
            pix = im.kept[d + '/p' + ext]
            h.eq(pix, f64(h, [[v[i][ny - 1 - r] for i in range(nx)] for r in range(ny)]), 'pixels')
        else:
            im.imwrite(d + '/p' + ext, f64(h, [[v[i][ny - 1 - r] for i in range(nx)] for r in range(ny)]))
        kw = dict(axe_x=f64(h, xs), axe_y=f64(h, ys)) if ax else {}
        r = IO(h).import_from_picture(d + '/p' + ext, unit_x='m', unit_y='mm', unit_values='m/s', **kw)
        chk_sf(h, r, xs, ys, v, [[False] * ny for i in range(nx)], 'imported', ux='m', uy='mm', uv='m/s')
        if ax:
            h.raises(ValueError, lambda: IO(h).import_from_picture(d + '/p' + ext, axe_x=f64(h, xs + [xs[-1] + 1.])), 'x axis of another length')
            h.raises(ValueError, lambda: IO(h).import_from_picture(d + '/p' + ext, axe_y=f64(h, ys + [ys[-1] + 1.])), 'y axis of another length')
        with open(d + '/p.txt', 'w') as f:
            f.write('text')
        h.raises(ValueError, lambda: IO(h).import_from_picture(d + '/p.txt'), 'not a picture')


@harness('C26', cases=grid(n=[1, 3], how=['tsf', 'list'], times=[False, True], sel=[None, (0, 2), (1, 3), (1, 9)], incr=[1, 2]))
def pictures(h, n, how, times, sel, incr):
    """series of pictures: the wanted ones, in the order of their names, each at its time"""
    nx, ny = 2, 2
    V = [[[h.real('v%d%d%d' % (k, i, j), 0, 255) if (i, j) != (1, 1) else 3. + k for j in range(ny)] for i in range(nx)] for k in range(n)]
    ts = [h.real('t%d' % k, 2 * k, 2 * k + 1) for k in range(n)]
    fs = [mk_sf(h, [0., 1.], [0., 1.], v) for v in V]
    with Scratch() as d, Images(h) as im:
        if how == 'tsf':
            tf = h.imt.TemporalScalarFields()
            for f, t in zip(fs, ts):
                tf.add_field(f, time=t, unit_times='s')
            fs = tf
        IO(h).export_to_pictures(fs, d + '/p')
        h.check(len(im.kept) == n, 'number of pictures')
        kw = dict(times=f64(h, ts)) if times else {}
        if sel is not None:
            kw['fieldnumbers'] = list(sel)
        r = IO(h).import_from_pictures(d + '/p*.png', unit_x='m', unit_y='mm', unit_values='m/s', unit_times='s', incr=incr, **kw)
        want = list(range(n))[slice(*sel) if sel is not None else slice(None)][::incr]
        h.check(len(r.fields) == len(want), 'number of fields')
        if want:
            chk_tf(h, r, [ts[k] if times else float(k) for k in want], len(want), 'imported', 's')
        for f, k in zip(r.fields, want):
            chk_sf(h, f, [0., 1.], [0., 1.], V[k], [[False] * ny] * nx, 'imported', ux='m', uy='mm', uv='m/s')
        if times:
            h.raises(ValueError, lambda: IO(h).import_from_pictures(d + '/p*.png', times=f64(h, ts + [99.])), 'as many times as pictures')
