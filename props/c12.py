"""C12: point sets keep each position attached to its value."""
import numpy as np
from IMTreatment.core import Points, OrientedPoints, TemporalPoints, ScalarField
from IMTreatment.utils import make_unit
from vh.core import scenario, Skip
from vh import gen as G
from props.c06 import oriented, tpoints

RULE = ('Random point sets (0 to 30 points, with or without values, integer or float values, plain and oriented, '
        'random units), point sets attached to times, and random sequences of the point operations.')
ASSUMPTIONS = ['reference: a list of (x, y, v, orientation) rows in SI, transformed row by row']


def make(rng, lo=0, hi=30, withv=None, units=None, kind=None):
    kind = kind or G.pick(rng, ['p', 'p', 'o'])
    n = int(rng.integers(lo, hi + 1))
    if withv is None:
        withv = rng.random() < .6
    ux, uy, uv = units or (G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.VEL + G.TIM))
    k = rng.random()
    if k < .5:
        xy = rng.normal(size=(n, 2))*10**rng.uniform(-1, 1)
    else:
        xy = rng.integers(-4, 5, size=(n, 2)).astype(float)
    v = None
    if withv:
        v = rng.normal(size=n) if rng.random() < .6 else rng.integers(-5, 6, n)
    name = 'n%d' % n
    if kind == 'p':
        return Points(xy, v=v, unit_x=ux, unit_y=uy, unit_v=uv, name=name)
    return OrientedPoints(xy, rng.normal(size=(n, 2, 2)), v=v if withv else [], unit_x=ux, unit_y=uy, unit_v=uv,
                          name=name)


def rows(p, raw=False):
    """List of rows (x, y, v or nan, orientations...) in SI."""
    n = len(p.xy)
    fx, fy, fv = (1, 1, 1) if raw else (G.fac(p.unit_x), G.fac(p.unit_y), G.fac(p.unit_v))
    v = np.asarray(p.v, dtype=float)*fv if len(p.v) else np.full(n, np.nan)
    cols = [p.xy[:, 0]*fx, p.xy[:, 1]*fy, v]
    if isinstance(p, OrientedPoints) and n:
        o = np.asarray(p.orientations, dtype=float)
        cols += list(o.reshape(n, -1).T)
    elif isinstance(p, OrientedPoints):
        cols += [np.zeros(0)]*4
    return np.array(cols).T.reshape(n, len(cols))


def struct(m, p, sig='struct'):
    n = len(p.xy)
    m.check(p.xy.shape == (n, 2) and len(p) == n, sig + '-shape', lambda: p.xy.shape)
    m.check(len(p.v) in (0, n), sig + '-value-count', lambda: '%d values for %d points' % (len(p.v), n))
    if isinstance(p, OrientedPoints) and n:
        m.check(len(p.orientations) == n, sig + '-orientation-count', lambda: '%d/%d' % (len(p.orientations), n))


def eq(m, p, want, sig, rtol=1e-9, raw=False):
    struct(m, p)
    got = rows(p, raw)
    if len(want) == 0 and len(got) == 0:
        return m.check(True, sig)
    return m.close(got, want, sig, rtol=rtol, atol=1e-10)


def canon(r):
    r = np.nan_to_num(np.round(r, 9), nan=1e9)
    return r[np.lexsort(r.T[::-1])] if len(r) else r


def bag(m, got, want, sig):
    g, w = canon(got), canon(want)
    m.check(g.shape == w.shape and np.allclose(g, w, rtol=1e-7, atol=1e-8), sig,
            lambda: 'got %s want %s' % (g, w))


def units(m, p, q, sig):
    m.check(all(G.si_or_str(getattr(p, u)) == G.si_or_str(getattr(q, u)) for u in ('unit_x', 'unit_y', 'unit_v')),
            sig, lambda: '%s %s %s' % (p.unit_x, p.unit_y, p.unit_v))


@scenario('C12', 300, 8000)
def build(m):
    rng = m.rng
    p = make(rng)
    m.case(G.tdesc(p))
    n = len(p.xy)
    struct(m, p)
    got = [tuple(e) if isinstance(e, tuple) else (e,) for e in p]
    m.check(len(got) == n, 'iteration-lists-each-point-once')
    for i, e in enumerate(got):
        m.check(np.array_equal(e[0], p.xy[i]), 'iteration-position')
        if len(p.v):
            m.check(e[1] == p.v[i], 'iteration-value')
        if isinstance(p, OrientedPoints):
            m.check(np.array_equal(e[-1], p.orientations[i]), 'iteration-orientation')
    # wrong sizes are refused and leave the set alone
    s = G.snap(p)
    if n:
        def bad(f):
            m.raises(f, 'inconsistent-data-accepted')
            m.check(G.diff(G.snap(p), s) is None, 'refused-data-changed-the-points')
        bad(lambda: setattr(p, 'v', np.zeros(n + 1)))
        bad(lambda: setattr(p, 'v', np.zeros((n, 2))))
        bad(lambda: setattr(p, 'xy', np.zeros((n, 3))))
        bad(lambda: setattr(p, 'xy', np.zeros(2*n)))
        bad(lambda: p.change_unit('x', 'kg'))
        if isinstance(p, OrientedPoints):
            bad(lambda: setattr(p, 'orientations', np.zeros((n + 1, 2, 2))))
    m.raises(lambda: Points(np.zeros((3, 2)), v=[1., 2.]), 'inconsistent-data-accepted')


@scenario('C12', 500, 12000)
def history(m):
    """Random operation sequence against a list of rows (numbers, in the units of the set)."""
    rng = m.rng
    p = make(rng, lo=0, hi=15)
    ori = isinstance(p, OrientedPoints)
    ref = rows(p, raw=True)
    hasv = len(p.v) > 0
    m.case(G.tdesc(p))
    for step in range(int(rng.integers(2, 9))):
        n = len(ref)
        op = G.pick(rng, ['add', 'add', 'remove', 'removes', 'sort', 'crop', 'cut', 'reverse', 'origin', 'scale',
                          'copy', 'order', 'cropind', 'rotate', 'nans'])
        m.case(op)
        m.event('op:' + op)
        if op == 'add':
            pt = [float(rng.normal()), float(rng.normal())]
            if n == 0:
                hasv = rng.random() < .5
            v = float(rng.normal()) if hasv else None
            if n and rng.random() < .2:
                wrong = None if hasv else 1.
                s = G.snap(p)
                if ori:
                    m.raises(lambda: p.add(pt, np.ones((2, 2)), v=wrong), 'point-with-missing-or-extra-value-accepted')
                else:
                    m.raises(lambda: p.add(pt, v=wrong), 'point-with-missing-or-extra-value-accepted')
                m.check(G.diff(G.snap(p), s) is None, 'refused-point-changed-the-set')
            row = pt + [np.nan if v is None else v]
            if ori:
                o = rng.normal(size=(2, 2))
                p.add(pt, o, v=v)
                row += list(o.ravel())
            else:
                p.add(pt, v=v) if v is not None else p.add(pt)
            ref = np.append(ref.reshape(n, len(row)), [row], axis=0)
        elif op in ('remove', 'removes'):
            if n == 0:
                continue
            if op == 'remove':
                ind = int(rng.integers(-n, n))
                p.remove(ind)
                ref = np.delete(ref, ind, axis=0)
            else:
                ind = rng.choice(n, size=int(rng.integers(1, n + 1)), replace=False)
                p.remove([int(i) for i in ind])
                ref = np.delete(ref, ind, axis=0)
        elif op in ('sort', 'order'):
            if n == 0:
                continue
            if op == 'order':
                perm = rng.permutation(n)
                if rng.random() < .5:
                    p.sort(ref=perm, inplace=True)
                else:
                    p = p.sort(ref=list(perm))
                ref = ref[perm]
            else:
                c = G.pick(rng, ['x', 'y'] + (['v'] if hasv else []))
                if rng.random() < .5:
                    p.sort(ref=c, inplace=True)
                else:
                    p = p.sort(ref=c)
                col = 'xyv'.index(c)
                got = rows(p, raw=True)
                m.check(np.all(np.diff(got[:, col]) >= 0), 'sorted', lambda: got[:, col])
                bag(m, got, ref, 'sort-keeps-rows')
                ref = got
        elif op == 'crop':
            iv = {}
            keep = np.ones(n, dtype=bool)
            for k, name in enumerate(['intervx', 'intervy'] + (['intervv'] if hasv and n else [])):
                if rng.random() < .5:
                    b = sorted([float(rng.normal()*4), float(rng.normal()*4)])
                    if n and rng.random() < .5:
                        b[0] = float(ref[int(rng.integers(n)), k])
                        b[1] = max(b)
                    iv[name] = b
                    keep &= (ref[:, k] >= b[0]) & (ref[:, k] <= b[1])
            if rng.random() < .5:
                p.crop(inplace=True, **iv)
            else:
                p = p.crop(inplace=False, **iv)
            ref = ref[keep]
        elif op == 'cropind':
            if ori or n == 0:
                continue
            a = int(rng.integers(0, n))
            b = int(rng.integers(a, n + 1))
            p = p.crop(intervv=[a, b], ind=True, inplace=False)
            ref = ref[a:b]
        elif op == 'cut':
            iv = {}
            inside = np.ones(n, dtype=bool)
            names = ['intervx', 'intervy'] if rng.random() < .5 else [G.pick(rng, ['intervx', 'intervy'])]
            for name in names:
                k = 0 if name == 'intervx' else 1
                b = sorted([float(rng.normal()*3), float(rng.normal()*3)])
                if n and rng.random() < .5:
                    # a border on a point: kept
                    b[int(rng.integers(2))] = float(p.xy[int(rng.integers(n)), k])
                    b.sort()
                iv[name] = b
                inside &= (p.xy[:, k] > b[0]) & (p.xy[:, k] < b[1])
            p = p.cut(**iv)
            ref = ref[~inside]
        elif op == 'reverse':
            p = p.reverse()
            ref = ref[:, [1, 0, 2] + ([4, 3, 6, 5] if ori else [])]
        elif op == 'origin':
            x = float(rng.normal()) if rng.random() < .7 else None
            y = float(rng.normal()) if rng.random() < .7 else None
            p.set_origin(x, y)
            ref = ref.copy()
            ref[:, 0] -= x or 0
            ref[:, 1] -= y or 0
        elif op == 'scale':
            s = [float(rng.choice([1., 2., .5, -1.3])) for _ in range(3)]
            if rng.random() < .5:
                p.scale(*s, inplace=True)
            else:
                p = p.scale(*s)
            ref = ref.copy()
            ref[:, :3] *= s
        elif op == 'rotate':
            if ori:
                continue
            a = float(rng.uniform(-4, 4))
            if rng.random() < .5:
                p.rotate(a, inplace=True)
            else:
                p = p.rotate(a)
            c, s = np.cos(a), np.sin(a)
            ref = ref.copy()
            ref[:, 0], ref[:, 1] = ref[:, 0]*c - ref[:, 1]*s, ref[:, 1]*c + ref[:, 0]*s
        elif op == 'nans':
            if n == 0:
                continue
            bad = rng.random(n) < .3
            xy = p.xy.copy()
            xy[bad, int(rng.integers(2))] = np.nan
            p.xy = xy
            if rng.random() < .5:
                p = p.remove_nans()
            else:
                p.remove_nans(inplace=True)
            ref = ref[~bad]
        else:
            p = p.copy()
        if not hasv and len(ref):
            ref[:, 2] = np.nan
        if not eq(m, p, ref, op + '-keeps-each-value-with-its-position', raw=True):
            return
        if ori and op != 'nans':
            m.check(isinstance(p, OrientedPoints), 'oriented-points-stay-oriented', type(p))


@scenario('C12', 300, 8000)
def merge(m):
    rng = m.rng
    kind = G.pick(rng, ['p', 'o'])
    withv = rng.random() < .6
    fam = G.pick(rng, [G.VEL, G.TIM, ['']])
    us = [(G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, fam)) for _ in range(2)]
    a, b = (make(rng, lo=0 if rng.random() < .2 else 1, hi=8, withv=withv, units=u, kind=kind) for u in us)
    m.case(G.tdesc(a), '+', G.tdesc(b))
    sa, sb = G.snap(a), G.snap(b)
    ra, rb = rows(a), rows(b)
    c = a + b
    m.check(G.diff(G.snap(a), sa) is None and G.diff(G.snap(b), sb) is None, 'merge-changed-an-operand')
    if kind == 'o':
        m.check(isinstance(c, OrientedPoints), 'merged-oriented-points-stay-oriented')
    want = np.concatenate([ra, rb]) if len(ra) and len(rb) else (ra if len(ra) else rb)
    eq(m, c, want, 'merge-physical-rows', rtol=1e-8)
    if len(ra) and len(rb):
        bad = make(rng, lo=1, hi=3, withv=withv, units=('kg', us[1][1], us[1][2]), kind=kind)
        m.raises(lambda: a + bad, 'merge-of-incompatible-units-accepted')
        bad = make(rng, lo=1, hi=3, withv=not withv, units=us[1], kind=kind)
        m.raises(lambda: a + bad, 'merge-of-sets-with-and-without-values-accepted')
    m.raises(lambda: a + 3 if kind == 'p' else (a + bad_marker(m)), 'merge-with-other-type-accepted')


def bad_marker(m):
    raise TypeError('not applicable to oriented points')


@scenario('C12', 250, 6000)
def decompose(m):
    rng = m.rng
    p = make(rng, lo=1)
    m.case(G.tdesc(p))
    parts = p.decompose()
    m.check(len(parts) == len(p), 'decompose-one-part-per-point')
    for i, q in enumerate(parts):
        m.check(type(q) is type(p) and len(q.xy) == 1, 'decompose-type')
        units(m, q, p, 'decompose-units')
    if parts:
        m.close(np.concatenate([rows(q) for q in parts]), rows(p), 'decompose-rows', rtol=1e-12)
    s = G.snap(p)
    parts[0].xy[:] += 1.
    m.check(G.diff(G.snap(p), s) is None, 'decomposed-points-share-state')


@scenario('C12', 250, 6000)
def derived(m):
    rng = m.rng
    p = make(rng, lo=1, kind='p')
    n = len(p)
    m.case(G.tdesc(p))
    hasv = len(p.v) > 0
    # profile export
    cols = dict(x=(p.xy[:, 0], p.unit_x), y=(p.xy[:, 1], p.unit_y))
    if hasv:
        cols['v'] = (np.asarray(p.v, dtype=float), p.unit_v)
    a, b = G.pick(rng, sorted(cols)), G.pick(rng, sorted(cols))
    pr = p.export_to_profile(a, b)
    got = np.array([pr.x, pr.y]).T
    want = np.array([cols[a][0], cols[b][0]]).T
    bag(m, got, want, 'profile-export-pairs')
    m.check(G.si_or_str(pr.unit_x) == G.si_or_str(cols[a][1]) and G.si_or_str(pr.unit_y) == G.si_or_str(cols[b][1]),
            'profile-export-units')
    # clusters partition the points
    eps = float(10**rng.uniform(-1, 1))
    ms = int(rng.integers(1, 4))
    cl = p.get_clusters(eps, ms)
    bag(m, np.concatenate([rows(c) for c in cl]), rows(p), 'clusters-partition-points')
    for c in cl:
        units(m, c, p, 'clusters-units')
        struct(m, c)
    # with min_samples 1: connected components of the distance graph
    if n > 1:
        cl = p.get_clusters(eps, 1)
        D = np.hypot(*(p.xy[:, None, :] - p.xy[None]).transpose(2, 0, 1))
        lab = -np.ones(n, dtype=int)
        k = 0
        for i in range(n):
            if lab[i] < 0:
                st = [i]
                lab[i] = k
                while st:
                    j = st.pop()
                    for l in np.where((D[j] <= eps) & (lab < 0))[0]:
                        lab[l] = k
                        st.append(l)
                k += 1
        if not np.any(np.isclose(D, eps, rtol=1e-9)):
            m.check(len(cl) == k, 'clusters-are-connected-components', lambda: '%d vs %d' % (len(cl), k))
            m.check(sorted(len(c) for c in cl) == sorted(np.bincount(lab)), 'cluster-sizes')
    # ordering on a line is a permutation of rows
    if n >= 1:
        t = np.sort(rng.uniform(0, 1, n))
        gap = G.pick(rng, [0., 0., 5., 100.])
        t[n//2:] += gap
        perm = rng.permutation(n)
        q = Points(np.array([t, .3*t]).T[perm], v=t[perm], unit_x='m')
        o = q.order_on_line()
        g = rows(o)
        m.check(all(np.isclose(r[0], r[2]) and np.isclose(r[1], .3*r[0]) for r in g), 'order-on-line-keeps-rows')
        m.check(len(o.xy) == n and np.array_equal(np.sort(o.v), t), 'order-on-line-keeps-every-point', lambda: '%s of %s' % (o.v, t))
        m.event('ordered-on-a-line', n)


@scenario('C12', 250, 6000)
def doublons(m):
    rng = m.rng
    n = int(rng.integers(1, 15))
    v = rng.integers(0, 6, n).astype(float) if rng.random() < .8 else np.zeros(n)
    xy = rng.normal(size=(n, 2))
    meth = G.pick(rng, ['average', 'min', 'max'])
    p = Points(xy, v=v, unit_x='mm', unit_v='s')
    m.case('doublons', n, meth, v)
    q = p.remove_doublons(method=meth)
    f = dict(average=np.mean, min=np.min, max=np.max)[meth]
    uv = np.unique(v)
    m.close(q.v, uv, 'doublons-values')
    m.close(q.xy, [f(xy[v == u], axis=0) for u in uv], 'doublons-positions')
    units(m, q, p, 'doublons-units')
    # velocity of points ordered by time
    t = np.cumsum(rng.uniform(.2, 1.5, n))
    if n >= 2:
        ux, uy, ut = G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.TIM)
        perm = rng.permutation(n)
        p = Points(xy[perm], v=t[perm], unit_x=ux, unit_y=uy, unit_v=ut)
        vx, vy = p.get_velocity()
        for prof, k, u in ((vx, 0, p.unit_x), (vy, 1, p.unit_y)):
            m.close(prof.x*G.fac(prof.unit_x), (t[1:] + t[:-1])/2*G.fac(p.unit_v), 'velocity-times')
            m.close(prof.y*G.fac(prof.unit_y), np.diff(xy[:, k])*G.fac(u)/(np.diff(t)*G.fac(p.unit_v)),
                    'velocity-values')
            m.check(G.dim(prof.unit_y) == G.dimmul(G.dim(u), G.dim(p.unit_v), -1), 'velocity-unit')
    # augmenting the resolution keeps the given points
    if n >= 2:
        p = Points(xy, v=t, unit_x='mm', unit_v='s')
        k = int(rng.integers(2, 5))
        q = p.augment_resolution(fact=k)
        struct(m, q)
        g, w = rows(q, raw=True), rows(p, raw=True)
        for r in w:
            m.check(np.min(np.max(np.abs(g - r)[:, :3], axis=1)) < 1e-8, 'augmented-points-contain-given-ones')
        for r in g:
            i = np.clip(np.searchsorted(t, r[2]) - 1, 0, n - 2)
            c = (r[2] - t[i])/(t[i + 1] - t[i])
            m.close(r[:2], xy[i]*(1 - c) + xy[i + 1]*c, 'augmented-points-lie-between', rtol=1e-6, atol=1e-6)


@scenario('C12', 150, 4000)
def evolution(m):
    """Values of a field along points."""
    rng = m.rng
    f = G.sf(rng, maskkind='none', lo=3)
    a, b, c = rng.normal(size=3)
    X, Y = np.meshgrid(f.axe_x, f.axe_y, indexing='ij')
    f.values = a*X + b*Y + c
    n = int(rng.integers(1, 10))
    xy = np.array([rng.uniform(f.axe_x[0], f.axe_x[-1], n), rng.uniform(f.axe_y[0], f.axe_y[-1], n)]).T
    v = rng.permutation(np.cumsum(rng.uniform(.1, 1, n)))
    p = Points(xy, v=v, unit_x=f.unit_x, unit_y=f.unit_y, unit_v='s')
    m.case(G.tdesc(f), n)
    ax = G.pick(rng, ['x', 'y', 'v', None])
    e = p.get_evolution_on_sf(f, axe_x=ax)
    col = {'x': xy[:, 0], 'y': xy[:, 1], 'v': v, None: v}[ax]
    want = np.array([col, a*xy[:, 0] + b*xy[:, 1] + c]).T
    bag(m, np.array([e.x, e.y]).T, want, 'evolution-pairs')
    m.check(G.si_or_str(e.unit_y) == G.si_or_str(f.unit_values), 'evolution-unit')
    # densities count every point once (nearest node)
    if n >= 2 and np.ptp(xy[:, 0]) > 0 and np.ptp(xy[:, 1]) > 0:
        res = int(rng.integers(3, 8))
        d = p.get_points_density2(res)
        dx, dy = d.axe_x[1] - d.axe_x[0], d.axe_y[1] - d.axe_y[0]
        A = dx*dy*G.fac(f.unit_x)*G.fac(f.unit_y)
        m.close(d.values.sum()*G.fac(d.unit_values)*A, n, 'density-counts-points')
        w = p.get_points_density2(res, ponderated=True)
        m.close(w.values.sum()*G.fac(w.unit_values)*A, v.sum(), 'weighted-density-sums-values')
        m.check(G.dim(d.unit_values) == G.dimmul({}, G.dimmul(G.dim(f.unit_x), G.dim(f.unit_y)), -1), 'density-unit')


@scenario('C12', 300, 8000)
def temporal(m):
    """Point sets attached to times, through a history."""
    rng = m.rng
    t = TemporalPoints()
    model = []
    us = (G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.VEL))
    ut0 = None
    for step in range(int(rng.integers(2, 9))):
        op = G.pick(rng, ['add', 'add', 'add', 'remove', 'cropt', 'cropi', 'cropx', 'scale', 'unit', 'copy', 'smooth'])
        if not model:
            op = 'add'
        m.event('op:' + op)
        m.case(op)
        if op == 'add':
            if rng.random() < .3:
                us = (G.pick(rng, G.LEN), G.pick(rng, G.LEN), us[2])
            p = make(rng, lo=1, hi=5, withv=True, units=us, kind=G.pick(rng, ['p', 'o']))
            ut = G.pick(rng, G.TIM)
            tm = float(rng.uniform(-5, 5))
            t.add_pts(p, time=tm, unit_times=ut)
            if ut0 is None or not model:
                ut0 = ut
                m.check(G.si(t.unit_times) == G.si(make_unit(ut)), 'first-time-unit')
            model.append((tm*G.fac(make_unit(ut)), rows(p)))
            p.xy[:] = 99.
        elif op == 'remove':
            k = int(rng.integers(1, len(model) + 1))
            ind = sorted(int(i) for i in rng.choice(len(model), size=k, replace=False))
            # indices can be counted from the end
            arg = [i - len(model) if rng.random() < .3 else i for i in ind]
            t.remove_pts(arg if rng.random() < .6 or k > 1 else arg[0])
            model = [e for i, e in enumerate(model) if i not in ind]
        elif op in ('cropt', 'cropi'):
            i = int(rng.integers(len(model)))
            j = int(rng.integers(i, len(model)))
            if op == 'cropi':
                r = t.crop(intervt=[i, j], ind=True, inplace=rng.random() < .5)
            else:
                lo, hi = float(t.times[i]), float(t.times[j])
                r = t.crop(intervt=[lo, hi], inplace=rng.random() < .5)
            t = r if r is not None else t
            model = model[i:j + 1]
        elif op == 'cropx':
            b = sorted(float(x) for x in rng.normal(size=2)*4)
            fx = [G.fac(p.unit_x) for p in t.point_sets]
            nm = []
            for (tm, r), f in zip(model, fx):
                keep = (r[:, 0]/f >= b[0]) & (r[:, 0]/f <= b[1])
                if np.any(np.isclose(r[:, 0]/f, b[0]) | np.isclose(r[:, 0]/f, b[1])):
                    raise Skip
                nm.append((tm, r[keep]))
            r = t.crop(intervx=b, inplace=rng.random() < .5)
            t = r if r is not None else t
            model = nm
        elif op == 'scale':
            s = float(rng.choice([2., .5, -3.]))
            t = t.scale(scalet=s) if rng.random() < .5 else (t.scale(scalet=s, inplace=True) or t)
            model = sorted([(tm*s, r) for tm, r in model], key=lambda e: e[0])
        elif op == 'unit':
            t.change_unit('time', G.pick(rng, G.TIM))
        elif op == 'smooth':
            # each set alone
            each = [p.smooth(tos='gaussian', size=1.5) for p in t.point_sets]
            old = [rows(p) for p in t.point_sets]
            inp = bool(rng.random() < .5)
            r = t.smooth(tos='gaussian', size=1.5, inplace=inp)
            if not inp:
                for p, w in zip(t.point_sets, old):
                    eq(m, p, w, 'temporal-smooth-changed-the-original', rtol=0)
                t = r
            model = [(e[0], rows(p)) for e, p in zip(model, each)]
        else:
            t = t.copy()
        model.sort(key=lambda e: e[0])
        ft = G.fac(t.unit_times)
        if not m.check(len(t.point_sets) == len(model) == len(t.times), 'temporal-count',
                       lambda: '%d sets, %d times, want %d' % (len(t.point_sets), len(t.times), len(model))):
            return
        m.close(np.asarray(t.times)*ft, [e[0] for e in model], 'temporal-times', rtol=1e-8)
        for p, (tm, r) in zip(t.point_sets, model):
            eq(m, p, r, 'temporal-%s-keeps-sets-with-their-time' % op, rtol=1e-8)
            m.check(G.si_or_str(p.unit_x) == G.si_or_str(t.unit_x) and G.si_or_str(p.unit_y) == G.si_or_str(t.unit_y), 'temporal-units-of-the-sets')
        m.check(len(list(t)) == len(model) and all(a == b for (a, _), b in zip(t, t.times)), 'temporal-iteration')
        if not model:
            ut0 = None
