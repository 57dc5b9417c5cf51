"""sets of critical points, their trajectories and their simplification"""
from symx.harness import harness, grid
from .common import *

BOUNDS = ('sets of up to 3 instants (4 in thorough) with 0 to 2 points of each of 2 types per instant; any times (in any order), any position along x, given positions along y; any linking distance, scales, origins and intervals; topological simplification of up to 4 points of any type (any position along x)')

TYPES = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']


def VD(h):
    from IMTreatment.vortex_detection import vortex_detection as vd
    return vd


def pts(h, xy, v=None, u='m', uv=''):
    kw = {} if v is None else {'v': f64(h, v)}
    return h.imt.Points(xy=f64(h, xy) if xy else h.np.zeros((0, 2)), unit_x=u, unit_y=u, unit_v=uv, **kw)


def mk_cp(h, frames, times, u='m', ut='s'):
    """frames: per instant {type: [[x, y]...]}"""
    cp = VD(h).CritPoints(unit_time=ut)
    for fr, t in zip(frames, times):
        cp.add_point(time=t, **{k: pts(h, v, u=u, uv=ut) for k, v in fr.items()})
    return cp


def chk_cp(h, cp, frames, times, label, u='m', ut='s', tol=None):
    h.check(len(cp.times) == len(times), label + ': number of instants')
    h.eq(cp.times, f64(h, times) if len(times) else h.np.zeros((0,)), label + ': times', tol)
    chk_unit(h, cp.unit_time, ut, label + ': unit of times')
    chk_unit(h, cp.unit_x, u, label + ': unit of x')
    chk_unit(h, cp.unit_y, u, label + ': unit of y')
    for k in TYPES:
        got = getattr(cp, k)
        h.check(len(got) == len(times), label + ': instants of ' + k)
        for fr, p in zip(frames, got):
            want = fr.get(k, [])
            h.check(len(p.xy) == len(want), label + ': number of ' + k)
            if len(want):
                h.eq(p.xy, f64(h, want), label + ': ' + k, tol)
            chk_unit(h, p.unit_x, u, label + ': unit of x of ' + k)


def three(h, n=3, pre=''):
    """n instants, distinct times in any order, and their frames"""
    ts = [h.real(pre + 't%d' % k, -8, 8) for k in range(n)]
    for a in range(n):
        for b in range(a):
            h.assume(ts[a] != ts[b])
    fr = [{'foc': [[h.real(pre + 'a%d' % k, -8, 8), 1. + k]], 'sadd': [[2., 0.], [3., h.real(pre + 'b%d' % k, -8, 8)]][:k]} for k in range(n)]
    return ts, fr


def in_order(ts, fr):
    o = list(range(len(ts)))
    for a in range(len(o)):
        for b in range(len(o) - 1 - a):
            if ts[o[b]] > ts[o[b + 1]]:
                o[b], o[b + 1] = o[b + 1], o[b]
    return [ts[k] for k in o], [fr[k] for k in o]


@harness('C23', cases=grid(n=[1, 2, 3]), thorough=grid(n=[4]))
def instants(h, n):
    """points are kept by increasing time, whatever the order they are added in"""
    ts, fr = three(h, n)
    src = [{k: pts(h, v) for k, v in f.items()} for f in fr]
    cp = VD(h).CritPoints(unit_time='s')
    for s, t in zip(src, ts):
        cp.add_point(time=t, **s)
    for s in src:
        for p in s.values():
            if len(p.xy):
                p.xy[0, 0] = 77.
    st, sf = in_order(ts, fr)
    chk_cp(h, cp, sf, st, 'added')
    h.check(cp == cp.copy(), 'equal to its copy')
    h.raises(ValueError, lambda: cp.add_point(foc=pts(h, [[1., 1.]]), time=ts[0]), 'the same time twice')
    h.raises(ValueError, lambda: cp.add_point(foc=pts(h, [[1., 1.]], u='mm'), time=9.), 'another unit')
    h.raises(TypeError, lambda: cp.add_point(foc=[[1., 1.]], time=9.), 'not points')
    chk_cp(h, cp, sf, st, 'after refusals')


@harness('C23', cases=grid(n=[2, 3], by=['time', 'indice']))
def removal(h, n, by):
    """removing an instant leaves the others as they are"""
    ts, fr = three(h, n)
    st, sf = in_order(ts, fr)
    for k in range(n):
        cp = mk_cp(h, fr, ts)
        cp.compute_traj()
        if by == 'time':
            cp.remove_point(time=ts[k])
            o = [q for q in range(n) if bool(st[q] != ts[k])]
        else:
            cp.remove_point(indice=k)
            o = [q for q in range(n) if q != k]
        chk_cp(h, cp, [sf[q] for q in o], [st[q] for q in o], 'removed')
        h.check(all(getattr(cp, q + '_traj') is None for q in TYPES), 'no trajectory left')
    h.raises(ValueError, lambda: mk_cp(h, fr, ts).remove_point(time=9.), 'no such time')
    h.raises(Exception, lambda: mk_cp(h, fr, ts).remove_point(), 'nothing to remove')


@harness('C23', cases=grid(n=[(1, 1), (2, 1), (1, 2), (2, 0), (0, 2)]))
def merge(h, n):
    """the sum of two sets has all the instants of both, in order"""
    ta, fa = three(h, n[0], 'A')
    tb, fb = three(h, n[1], 'B')
    A, B = mk_cp(h, fa, ta), mk_cp(h, fb, tb)
    same = None
    for a in ta:
        for b in tb:
            if a == b:
                same = True
    if same:
        h.raises(ValueError, lambda: A + B, 'same times')
    else:
        C = A + B
        st, sf = in_order(ta + tb, fa + fb)
        chk_cp(h, C, sf, st, 'sum')
        h.check(C is not A and C is not B, 'a new set')
        C.remove_point(indice=0)
        if n[0] and n[1]:
            h.raises(ValueError, lambda: A + mk_cp(h, fb, tb, ut='ms'), 'other time unit')
            h.raises(ValueError, lambda: A + mk_cp(h, fb, tb, u='mm'), 'other unit')
    for cp, t, f in ((A, ta, fa), (B, tb, fb)):
        if len(t):
            st, sf = in_order(t, f)
            chk_cp(h, cp, sf, st, 'operand')
    h.raises(TypeError, lambda: A + 1., 'not critical points')


def d2(p, q):
    return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2


FR = {'one': [1, 1, 1], 'pair': [2, 2], 'hole': [1, 0, 1], 'merge': [2, 1], 'split': [1, 2], 'mixed': [2, 1, 2], 'pairs': [2, 2, 2], 'late': [0, 1, 1]}


@harness('C23', cases=[dict(pat=p, eps=e) for p in ['one', 'hole', 'merge', 'split', 'pair', 'late'] for e in ['any', 'none', 'unit']] + grid(pat=['mixed'], eps=['any']),
         thorough=grid(pat=['pairs'], eps=['any']))
def trajectories(h, pat, eps):
    """linking of the nearest points of consecutive instants"""
    n = FR[pat]
    ts = [1., 2.5, 3.][:len(n)]
    P = [[[h.real('x%d_%d' % (k, i), -8, 8) if not (pat == 'pairs' and k == 1) else 2. * i, .5 * i + .25 * k] for i in range(m)] for k, m in enumerate(n)]
    cp = mk_cp(h, [{'foc': p, 'sadd': p[:1]} for p in P], ts)
    if eps == 'none':
        e = None
        cp.compute_traj()
    else:
        e = h.real('eps', .5, 8)
        if eps == 'unit':
            cp.compute_traj(epsilon=e * 1000. * h.imt.make_unit('mm'))
        else:
            cp.compute_traj(epsilon=e)
    chk_cp(h, cp, [{'foc': p, 'sadd': p[:1]} for p in P], ts, 'points')
    tol = 1e-6
    for kind, Q in (('foc', P), ('sadd', [p[:1] for p in P])):
        T = getattr(cp, kind + '_traj')
        # which point of each instant each trajectory goes through (y tells the points apart)
        nxt, owner = {}, {}
        for a, tj in enumerate(T):
            h.check(len(tj.xy) == len(tj.v), kind + ': one time per point')
            chk_unit(h, tj.unit_v, 's', kind + ': unit of the times')
            chk_unit(h, tj.unit_x, 'm', kind + ': unit of the positions')
            last = None
            for q in range(len(tj.xy)):
                k = ts.index(float(tj.v[q]))
                i = int(round((float(tj.xy[q, 1]) - .25 * k) / .5))
                h.eq(tj.xy[q, 0], Q[k][i][0], kind + ': position')
                h.check((k, i) not in owner, kind + ': each point once')
                owner[k, i] = a
                if last is not None:
                    h.check(k == last[0] + 1, kind + ': consecutive instants')
                    nxt[last] = (k, i)
                last = (k, i)
        h.check(len(owner) == sum(len(q) for q in Q), kind + ': every point in a trajectory')
        h.check(all(len(a.xy) >= len(b.xy) for a, b in zip(T, T[1:])), kind + ': longest first')
        prv = {b: a for a, b in nxt.items()}
        for k in range(len(n) - 1):
            for i, p in enumerate(Q[k]):
                for j, q in enumerate(Q[k + 1]):
                    d = d2(p, q)
                    if nxt.get((k, i)) == (k + 1, j):
                        if e is not None:
                            h.check(d <= e ** 2 + tol, kind + ': linked points are close')
                        continue
                    # not linked: too far, or one of them has a nearer partner
                    why = [False if e is None else d >= e ** 2 - tol]
                    if (k, i) in nxt:
                        why.append(d2(p, Q[k + 1][nxt[k, i][1]]) <= d + tol)
                    if (k + 1, j) in prv:
                        why.append(d2(Q[k][prv[k + 1, j][1]], q) <= d + tol)
                    h.check(h.Or(*why), kind + ': nearest points are linked')
    h.raises(ValueError, lambda: cp.compute_traj(epsilon=1. * h.imt.make_unit('s')), 'a time as distance')


@harness('C23', cases=grid(m=[1, 2, 3, 4]))
def cleaning(h, m):
    """short trajectories disappear, with their points"""
    x = [h.real('q%d' % k, -1, 1) for k in range(4)]
    ts = [0., 1., 2.]
    P = [[[x[0], 0.], [20. + x[1], 0.]], [[x[2], 0.]], [[x[3], 0.], [-20., 5.]]]
    cp = mk_cp(h, [{'foc': p, 'node_i': p[1:]} for p in P], ts)
    h.raises(Exception, lambda: cp.clean_traj(m), 'no trajectories yet')
    cp.compute_traj(epsilon=5.)
    cp.clean_traj(m)
    # the first points of the instants make a trajectory of 3, the others are alone
    keep = {'foc': [[p for i, p in enumerate(q) if (3 if i == 0 else 1) >= m] for q in P],
            'node_i': [q[1:] if m == 1 else [] for q in P]}
    chk_cp(h, cp, [{k: keep[k][i] for k in keep} for i in range(3)], ts, 'cleaned')
    L = sorted([len(t.xy) for t in cp.foc_traj])
    h.check(L == [q for q in [1, 1, 3] if q >= m], 'trajectories left')
    h.check(len(cp.node_i_traj) == (2 if m == 1 else 0), 'trajectories left')


def tset(h, traj):
    """a set of 3 instants: a moving focus, a saddle, and a focus on the first instant only"""
    x = [h.real('p%d' % k, -1, 1) for k in range(3)]
    ts = [1., 2., 4.]
    fr = [{'foc': [[x[0], 1.], [20., 5.]], 'sadd': [[2., -3.]]}, {'foc': [[x[1], 2.]], 'sadd': [[3., -3.]]}, {'foc': [[x[2], 3.]]}]
    cp = mk_cp(h, fr, ts)
    if traj:
        cp.compute_traj(epsilon=5.)
    return cp, fr, ts


def chk_traj(h, cp, fr, ts, label, traj=True, u='m', ut='s', tol=None):
    """the trajectories go through the points of the frames (made by tset)"""
    if not traj:
        h.check(all(getattr(cp, q + '_traj') is None for q in TYPES), label + ': no trajectory')
        return
    for k, idx, many in (('foc', 0, True), ('sadd', 0, True), ('foc', 1, False)):
        want = [(f[k][idx], t) for f, t in zip(fr, ts) if len(f.get(k, [])) > idx]
        T = [t for t in getattr(cp, k + '_traj') if not many or len(t.xy)]
        if not want:
            continue
        got = [t for t in T if len(t.xy) == len(want)]
        if k == 'foc' and len(want) == 1 and len(got) == 2:
            got = got[:1] if bool(got[0].xy[0, 1] == want[0][0][1]) else got[1:]
        h.check(len(got) == 1, label + ': trajectory of ' + k)
        h.eq(got[0].xy, f64(h, [w[0] for w in want]), label + ': trajectory positions', tol)
        h.eq(got[0].v, f64(h, [w[1] for w in want]), label + ': trajectory times', tol)
        chk_unit(h, got[0].unit_x, u, label + ': trajectory unit')
        chk_unit(h, got[0].unit_v, ut, label + ': trajectory time unit')


@harness('C23', cases=grid(traj=[False, True], ax=['x', 'y', 'xy', '']))
def origin(h, traj, ax):
    """the new origin is subtracted from the points and from the trajectories"""
    cp, fr, ts = tset(h, traj)
    ox, oy = h.real('ox', -8, 8), h.real('oy', -8, 8)
    kw = {}
    if 'x' in ax:
        kw['x'] = ox
    if 'y' in ax:
        kw['y'] = oy
    cp.set_origin(**kw)
    new = [{k: [[p[0] - kw.get('x', 0.), p[1] - kw.get('y', 0.)] for p in v] for k, v in f.items()} for f in fr]
    chk_cp(h, cp, new, ts, 'moved', tol=1e-6)
    chk_traj(h, cp, new, ts, 'moved', traj, tol=1e-6)


@harness('C23', cases=grid(traj=[False, True], ax=['x', 'y', 'time'], withv=[True, False]))
def units(h, traj, ax, withv):
    """changing units keeps the physical positions and times"""
    cp, fr, ts = tset(h, traj)
    if not withv and not traj:
        cp = VD(h).CritPoints(unit_time='s')
        for f, t in zip(fr, ts):
            cp.add_point(time=t, **{k: pts(h, v) for k, v in f.items()})
    cp.change_unit(ax, 'mm' if ax != 'time' else 'ms')
    sx, sy, st = [1000. if ax == q else 1. for q in ('x', 'y', 'time')]
    new = [{k: [[p[0] * sx, p[1] * sy] for p in v] for k, v in f.items()} for f in fr]
    h.eq(cp.times, f64(h, [t * st for t in ts]), 'times', 1e-6)
    chk_unit(h, cp.unit_time, 'ms' if ax == 'time' else 's', 'unit of times')
    chk_unit(h, cp.unit_x, 'mm' if ax == 'x' else 'm', 'unit of x')
    chk_unit(h, cp.unit_y, 'mm' if ax == 'y' else 'm', 'unit of y')
    for k in ('foc', 'sadd'):
        for f, p in zip(new, getattr(cp, k)):
            if f.get(k):
                h.eq(p.xy, f64(h, f[k]), 'positions', 1e-6)
            chk_unit(h, p.unit_x, 'mm' if ax == 'x' else 'm', 'unit of x')
            chk_unit(h, p.unit_y, 'mm' if ax == 'y' else 'm', 'unit of y')
    if ax != 'y':
        chk_traj(h, cp, new, [t * st for t in ts], 'trajectories', traj, u='mm' if ax == 'x' else 'm', ut='ms' if ax == 'time' else 's', tol=1e-6)
    h.raises(ValueError, lambda: cp.change_unit('z', 'mm'), 'no such axis')


@harness('C23', cases=grid(traj=[False, True], inplace=[False, True], unit=[False, True]))
def scaling(h, traj, inplace, unit):
    """scales multiply positions and times, of points and trajectories"""
    cp, fr, ts = tset(h, traj)
    sx, sy, st = h.real('sx', .25, 4), h.real('sy', .25, 4), h.real('st', .25, 4)
    if unit:
        mu = h.imt.make_unit
        r = cp.scale(scalex=sx * mu('1/m'), scaley=sy * mu('1/m'), scalev=st * mu('1/s'), inplace=inplace)
        u, ut = '', ''
    else:
        r = cp.scale(scalex=sx, scaley=sy, scalev=st, inplace=inplace)
        u, ut = 'm', 's'
    if inplace:
        h.check(r is None, 'in place: nothing returned')
        r = cp
    else:
        chk_cp(h, cp, fr, ts, 'original')
        chk_traj(h, cp, fr, ts, 'original', traj)
    new = [{k: [[p[0] * sx, p[1] * sy] for p in v] for k, v in f.items()} for f in fr]
    chk_cp(h, r, new, [t * st for t in ts], 'scaled', u, ut, 1e-6)
    chk_traj(h, r, new, [t * st for t in ts], 'scaled', traj, u, ut, 1e-6)


@harness('C23', cases=grid(traj=[False, True], inplace=[False, True], how=['t', 'ind', 'x', 'y']))
def cropping(h, traj, inplace, how):
    """only the points (and parts of trajectories) in the interval stay"""
    cp, fr, ts = tset(h, traj)
    if how == 'ind':
        a, b = h.integer('a', 0, 2), h.integer('b', 0, 3)
        a, b = int(a), int(b)
        kw = dict(intervt=[a, b], ind=True)
        I = list(range(3))[a:b]
    else:
        lo, hi = h.real('lo', -3, 8), h.real('hi', -3, 8)
        h.assume(lo <= hi)
        kw = {'interv' + how: [lo, hi]}
        I = [k for k in range(3) if bool(ts[k] >= lo) and bool(ts[k] <= hi)] if how == 't' else [0, 1, 2]
    r = cp.crop(inplace=inplace, **kw)
    if inplace:
        h.check(r is None, 'in place: nothing returned')
        r = cp
    else:
        chk_cp(h, cp, fr, ts, 'original')
        chk_traj(h, cp, fr, ts, 'original', traj)
    new = [fr[k] for k in I]
    if how in 'xy':
        c = 'xy'.index(how)
        new = [{k: [p for p in v if bool(p[c] >= lo) and bool(p[c] <= hi)] for k, v in f.items()} for f in new]
    chk_cp(h, r, new, [ts[k] for k in I], 'cropped')
    if how in 'xy':
        h.check(all(getattr(r, q + '_traj') is None for q in TYPES), 'no trajectory left')
    else:
        chk_traj(h, r, new, [ts[k] for k in I], 'cropped', traj)
        if traj:
            n = sum(1 for k in range(2) if any(len(f.get('foc', [])) > k for f in new))
            h.check(len(r.foc_traj) == n, 'no empty trajectory')


PBI = {'foc': 1, 'foc_c': 1, 'sadd': -1, 'node_i': 1, 'node_o': 1}


@harness('C23', cases=[dict(tp=t, kind=k) for t in [['foc', 'sadd'], ['foc', 'foc'], ['node_i', 'sadd', 'foc_c'], ['sadd', 'foc', 'sadd'], ['node_o'], []] for k in ['replacement', 'only_delete']],
         thorough=[dict(tp=t, kind=k) for t in [['foc', 'sadd', 'foc', 'sadd'], ['node_o', 'sadd', 'foc', 'foc_c']] for k in ['replacement', 'only_delete']])
def simplification(h, tp, kind):
    """near points are replaced by an equivalent one (or deleted by pairs): same total index, far points untouched"""
    X = [h.real('q%d' % k, -8, 8) for k in range(len(tp))]
    P = [[X[k], 1.5 * (k % 2)] for k in range(len(tp))]
    d = h.real('d', .5, 4)
    fr = {'foc': []}
    for t, p in zip(tp, P):
        fr.setdefault(t, []).append(p)
    cp = mk_cp(h, [fr, {'foc': [[1., 1.]]}], [0., 1.])
    s = cp.topo_simplify(d, kind=kind)
    chk_cp(h, cp, [fr, {'foc': [[1., 1.]]}], [0., 1.], 'original')
    h.eq(s.times, f64(h, [0., 1.]), 'times')
    chk_unit(h, s.unit_x, 'm', 'unit')
    chk_unit(h, s.unit_time, 's', 'unit of the times')
    h.check(len(s.foc[1].xy) == 1, 'lone point')
    h.eq(s.foc[1].xy, f64(h, [[1., 1.]]), 'lone point')
    got = [(k, p) for k in TYPES for p in lst(getattr(s, k)[0].xy)]
    # total index (unless points of the same sign had to be merged: these have no type)
    tp_ = VD(h).TopoPoints()
    tp_.import_from_CP(cp, 0)
    if not any(int(q) == 0 for q in tp_.simplify(d, kind=kind).types):
        h.check(sum(PBI[k] for k, p in got) == sum(PBI[k] for k in tp), 'total index')
    else:
        h.check(kind == 'replacement' and max(tp.count('sadd'), len(tp) - tp.count('sadd')) > 1, 'points of the same sign merged')
    # points far from any other stay, with their type
    for a in range(len(P)):
        far = h.Or(h.And(*[X[b] > X[a] + d for b in range(len(P)) if b != a]), h.And(*[X[b] < X[a] - d for b in range(len(P)) if b != a])) if len(P) > 1 else True
        same = [h.And(abs(p[0] - P[a][0]) <= 1e-9, abs(p[1] - P[a][1]) <= 1e-9) for k, p in got if k == tp[a]]
        h.check(h.Or(h.Not(far), *same), 'far points stay')
    if kind == 'replacement':
        for a in range(len(got)):
            for b in range(a):
                h.check(d2(got[a][1], got[b][1]) >= d ** 2 - 1e-6, 'no near points left')
    else:
        for k, p in got:
            h.check(h.Or(*[h.And(p[0] == q[0], p[1] == q[1]) for t, q in zip(tp, P) if t == k]), 'points are not moved')
        for a in range(len(got)):
            for b in range(a):
                if PBI[got[a][0]] + PBI[got[b][0]] == 0:
                    h.check(d2(got[a][1], got[b][1]) >= d ** 2 - 1e-6, 'no near opposite pair left')


@harness('C23', cases=grid(t=[['foc', 'sadd'], ['foc_c', 'foc'], ['node_i', 'node_o', 'sadd'], ['node_o', 'node_o', 'sadd']]))
def equivalent(h, t):
    """points all within the distance: one point at their barycentre, of the majority type"""
    X = [h.real('q%d' % k, -.5, .5) for k in range(len(t))]
    P = [[X[k], .25 * k] for k in range(len(t))]
    num = {'foc': 1, 'foc_c': 2, 'sadd': 3, 'node_i': 4, 'node_o': 5}
    tp = VD(h).TopoPoints()
    tp.import_from_arrays(f64(h, P), h.np.array([num[k] for k in t]))
    s = tp.simplify(10.)
    big = sum(PBI[k] for k in t)
    if big == 0:
        h.check(len(s.xy) == 0, 'opposite points vanish')
    else:
        h.check(len(s.xy) == 1, 'one equivalent point')
        h.eq(s.xy[0, 0], sum(X) / len(t), 'barycentre', 1e-6)
        h.eq(s.xy[0, 1], .25 * sum(range(len(t))) / len(t), 'barycentre', 1e-6)
        h.check(int(s.types[0]) in ([0] if abs(big) > 1 else [num[k] for k in t]), 'type')
    h.raises(ValueError, lambda: tp.import_from_arrays(f64(h, P), h.np.array([1] * (len(t) + 1))), 'one type per point')


@harness('C23', cases=grid(far=[4.2, 9.]))
def clusters(h, far):
    """pairs, then pairs of pairs, then all the points"""
    q = [h.real('q%d' % k, -.25, .25) for k in range(3)]
    P = [[q[0], 0.], [0., .125], [q[1], 1.], [0., 1.125], [q[2], far]]
    tp = VD(h).TopoPoints()
    tp.import_from_arrays(f64(h, P), h.np.array([1, 3, 1, 3, 4]))
    s = tp.simplify(20.)
    h.check(len(s.xy) == 1 and len(s.types) == 1, 'one equivalent point')
    h.eq(s.xy[0, 0], sum(q) / 5., 'barycentre', 1e-6)
    h.eq(s.xy[0, 1], sum(p[1] for p in P) / 5., 'barycentre', 1e-6)
    h.check(int(s.types[0]) in (1, 4), 'type')


def mean_traj(h, n=3):
    x = [h.real('p%d' % k, -8, 8) for k in range(n)]
    t = [0., 1., 2.][:n]
    base = pts(h, [[x[k], 2.] for k in range(n)], v=t, uv='s')
    rt = [f64(h, [1. + k, 3. + k]) for k in range(n)]
    sx = [.25 * (k + 1) for k in range(n)]
    mt = VD(h).MeanTrajectory(xy=f64(h, [[x[k], 1. + k] for k in range(n)]), time=f64(h, t), assoc_real_times=rt, assoc_std_x=sx, assoc_std_y=[2. * s for s in sx],
                              nmb_traj_used=2, base_trajs=[base], unit_x='m', unit_y='m', unit_times='s')
    return mt, x, t, sx


def chk_mt(h, mt, X, Y, T, K, sx, sy, label, u='m', ut='s', fx=1., fy=1., ft=1.):
    h.check(len(mt.xy) == len(K), label + ': number of points')
    h.check(len(mt.assoc_real_times) == len(K) and len(mt.assoc_std_x) == len(K), label + ': associated values')
    for q, k in enumerate(K):
        h.eq(mt.xy[q, 0], X[k] * fx, label + ': x', 1e-6)
        h.eq(mt.xy[q, 1], Y[k] * fy, label + ': y', 1e-6)
        h.eq(mt.time[q], T[k] * ft, label + ': time', 1e-6)
        h.eq(mt.assoc_std_x[q], sx[k] * fx, label + ': deviation', 1e-6)
        h.eq(mt.assoc_std_y[q], 2. * sx[k] * fy, label + ': deviation', 1e-6)
        h.eq(mt.assoc_real_times[q], f64(h, [(1. + k) * ft, (3. + k) * ft]), label + ': real times', 1e-6)
    chk_unit(h, mt.unit_x, u, label + ': unit')
    chk_unit(h, mt.unit_times, ut, label + ': unit of times')


@harness('C23', cases=grid(what=['scale', 'unit', 't', 'x', 'ind'], inplace=[False, True]))
def mean_trajectory(h, what, inplace):
    """scaling and cropping a mean trajectory acts on everything it is associated to"""
    mt, x, t, sx = mean_traj(h)
    Y = [1., 2., 3.]
    K, kw, fk = [0, 1, 2], {}, {}
    if what in ('scale', 'unit'):
        a, b, c = h.real('fx', .25, 4), h.real('fy', .25, 4), h.real('ft', .25, 4)
        fk = dict(fx=a, fy=b, ft=c)
        if what == 'unit':
            mu = h.imt.make_unit
            r = mt.scale(scalex=a * mu('1/m'), scaley=b * mu('1/m'), scalet=c * mu('1/s'), inplace=inplace)
            kw = dict(u='', ut='')
        else:
            r = mt.scale(scalex=a, scaley=b, scalet=c, inplace=inplace)
    elif what == 'ind':
        r = mt.crop(intervt=[1, 3], ind=True, inplace=inplace)
        K = [1, 2]
    else:
        lo, hi = h.real('lo', -8, 8), h.real('hi', -8, 8)
        h.assume(lo <= hi)
        r = mt.crop(inplace=inplace, **{'interv' + what: [lo, hi]})
        v = t if what == 't' else x
        K = [k for k in range(3) if bool(v[k] >= lo) and bool(v[k] <= hi)]
    if inplace:
        r = mt
    else:
        chk_mt(h, mt, x, Y, t, [0, 1, 2], sx, sx, 'original')
        h.eq(mt.base_trajs[0].xy[:, 0], f64(h, x), 'original: base trajectory')
    chk_mt(h, r, x, Y, t, K, sx, sx, what, **kw, **fk)
    h.eq(r.base_trajs[0].xy[:, 0], f64(h, [q * fk.get('fx', 1.) for q in x]), 'base trajectory', 1e-6)
    h.eq(r.base_trajs[0].v, f64(h, [q * fk.get('ft', 1.) for q in t]), 'base trajectory times', 1e-6)


@harness('C23', cases=grid(kind=['sf', 'vf'], n=[1, 2]))
def reconstruction(h, kind, n):
    """fields associated to a mean trajectory: means of the fields at the associated times"""
    TF, F, ts = mk_tf(h, kind, 4, 2, 2, mask='none', times=[1., 2., 3., 4.])
    inds = [[0, 2], [3, 1]] if n == 2 else [[2], [1]]
    mt = VD(h).MeanTrajectory(xy=f64(h, [[0., 0.], [1., 1.]]), time=f64(h, [0., 5.]), assoc_real_times=[f64(h, [1. + k for k in q]) for q in inds],
                              assoc_std_x=[0., 0.], assoc_std_y=[0., 0.], unit_x='m', unit_y='m', unit_times='s')
    r = mt.reconstruct_fields(TF)
    h.eq(r.times, f64(h, [0., 5.]), 'times')
    chk_unit(h, r.unit_times, 's', 'unit of the times')
    for q, k in zip(r.fields, inds):
        for c in (['values'] if kind == 'sf' else ['comp_x', 'comp_y']):
            src = [F[i].vx if c != 'comp_y' else F[i].vy for i in k]
            want = [[sum([v[a][b] for v in src]) / len(k) for b in range(2)] for a in range(2)]
            h.eq(getattr(q, c), f64(h, want), 'mean field', 1e-6)
    for f, g in zip(F, TF.fields):
        f.chk(g, 'original')
