"""C22: trajectories of critical points."""
import numpy as np
from IMTreatment.core import Points, ScalarField, TemporalScalarFields
from IMTreatment import vortex_detection as VD
from IMTreatment.vortex_detection.vortex_detection import TopoPoints
from IMTreatment.utils import make_unit
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Planted tracks (births, deaths, gaps, several types, irregular times, points given in any order) with a linking distance given '
        'as a number or a quantity; arbitrary clouds against the linking rules; then every operation on the set, each compared with '
        'the same operation applied to the plain arrays of positions and times.')
ASSUMPTIONS = ['same unit on both axes for the linking distance', 'trajectories are dropped by operations that change the points one by one']

TYPES = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']


def table(cp, typ):
    """Sorted (time, x, y) rows of the points of a type."""
    rows = [(t, p[0], p[1]) for t, pts in zip(cp.times, getattr(cp, typ)) for p in pts.xy]
    return np.array(sorted(rows), dtype=float).reshape(-1, 3)


def trows(traj):
    return np.column_stack([np.array(traj.v, dtype=float), np.array(traj.xy, dtype=float).reshape(-1, 2)])


def trajs(cp, typ):
    t = getattr(cp, typ + '_traj')
    return None if t is None else [trows(q) for q in t]


def build(rng, tracks, times, ux, uy, ut, order=True):
    """CritPoints from {type: [ {time index: (x, y)} ]}."""
    cp = VD.CritPoints(unit_time=ut)
    for k in rng.permutation(len(times)):
        kw = {}
        for typ in TYPES:
            pts = [tr[k] for tr in tracks[typ] if k in tr]
            if len(pts) == 0 and rng.random() < .5:
                continue
            pts = [pts[q] for q in rng.permutation(len(pts))]
            kw[typ] = Points(np.array(pts, dtype=float).reshape(-1, 2), unit_x=ux, unit_y=uy)
        if not kw:
            kw['foc'] = Points(np.empty((0, 2)), unit_x=ux, unit_y=uy)
        cp.add_point(time=float(times[k]), **kw)
    return cp


def planted(rng, far=True, n=None):
    """Tracks farther than eps from each other at all times, steps below eps."""
    nt = n if n is not None else int(rng.integers(1, 9))
    times = np.cumsum(rng.integers(1, 5, size=nt))*float(rng.choice([.1, 1., .25])) + float(rng.integers(-3, 4))
    eps = float(10**rng.uniform(-2, 2))
    tracks = {}
    for typ in TYPES:
        tr = []
        for q in range(int(rng.integers(0, 4))):
            base = np.array([q*eps*4., rng.uniform(-1, 1)*eps])
            # the extent of a track stays in a disc of 1.3 eps around its base: tracks are > 1.4 eps apart
            alive = rng.random(nt) < rng.choice([.6, 1.])
            p = base + rng.uniform(-.3, .3, 2)*eps
            cur = {}
            for k in range(nt):
                for _ in range(50):
                    a, r = rng.uniform(0, 2*np.pi), rng.uniform(.5, .98)*eps
                    c = p + r*np.array([np.cos(a), np.sin(a)])
                    if np.hypot(*(c - base)) < 1.3*eps:
                        break
                else:
                    c = p
                p = c
                if alive[k]:
                    cur[k] = tuple(p)
            tr.append(cur)
        tracks[typ] = tr
    return tracks, times, eps


def runs(track, times):
    """Consecutive pieces of a track."""
    out, cur = [], []
    for k in range(len(times)):
        if k in track:
            cur.append((times[k],) + track[k])
        elif cur:
            out.append(np.array(cur))
            cur = []
    if cur:
        out.append(np.array(cur))
    return out


def key(a):
    return tuple(np.round(np.asarray(a, dtype=float).ravel(), 9))


@scenario('C22', 120)
def tracks(m):
    rng = m.rng
    tr, times, eps = planted(rng)
    ux = G.pick(rng, G.LEN)
    ut = G.pick(rng, G.TIM)
    cp = build(rng, tr, times, ux, ux, ut)
    m.check(np.all(np.diff(cp.times) > 0) and len(cp.times) == len(times), 'times-not-ordered')
    m.close(cp.times, times, 'times')
    how = G.pick(rng, ['number', 'quantity'])
    if how == 'number':
        cp.compute_traj(eps)
    else:
        u2 = G.pick(rng, G.LEN)
        cp.compute_traj(eps*G._T[ux][0]/G._T[u2][0]*(1 + 1e-9)*make_unit(u2))
    m.case(how, ux, ut, len(times), eps, {k: len(v) for k, v in tr.items()})
    m.event('linking:' + how)
    for typ in TYPES:
        want = sorted([key(r) for t in tr[typ] for r in runs(t, times)])
        got = trajs(cp, typ)
        m.event('track', len(want))
        m.check(sorted(key(r) for r in got) == want, 'trajectories-are-not-the-planted-tracks#' + typ,
                lambda: 'eps %s %s: %s, planted %s' % (eps, typ, got, want))
        m.check(all(np.all(np.diff(r[:, 0]) > 0) for r in got), 'trajectory-not-in-time-order')
        n = [len(r) for r in got]
        m.check(n == sorted(n, reverse=True), 'trajectories-not-longest-first')
        for t in getattr(cp, typ + '_traj'):
            m.check(G.dim(t.unit_v) == {'T': 1} and t.unit_v.strUnit() == cp.unit_time.strUnit(), 'trajectory-time-unit', t.unit_v)
            m.check(t.unit_x.strUnit() == cp.unit_x.strUnit() == make_unit(ux).strUnit(), 'trajectory-unit')
        # the points themselves are unchanged
        rows = sorted(key(r) for t in tr[typ] for r in [(times[k],) + p for k, p in t.items()])
        m.check(sorted(key(r) for r in table(cp, typ)) == rows, 'points-changed-by-linking#' + typ)
    # a distance below every step leaves single points
    if rng.random() < .3:
        cp.compute_traj(eps*.4)
        for typ in TYPES:
            m.check(all(len(r) == 1 for r in trajs(cp, typ)), 'link-longer-than-the-linking-distance')
        m.event('linking:too-short')
    m.raises(lambda: cp.copy().compute_traj(eps*make_unit('s')), 'linking-distance-of-another-kind-accepted')


def cloud(rng, nt=None, dens=4, ut='s', ux='m'):
    nt = nt or int(rng.integers(1, 8))
    times = np.cumsum(rng.integers(1, 4, size=nt)).astype(float)
    tr = {typ: [] for typ in TYPES}
    for typ in TYPES:
        for k in range(nt):
            for _ in range(int(rng.integers(0, dens))):
                tr[typ].append({k: tuple(rng.uniform(0, 5, 2))})
    return build(rng, tr, times, ux, ux, ut), times


@scenario('C22', 80)
def clouds(m):
    """Arbitrary points: the linking rules."""
    rng = m.rng
    cp, times = cloud(rng)
    eps = float(rng.uniform(.2, 4)) if rng.random() < .8 else None
    cp.compute_traj(eps)
    e = np.inf if eps is None else eps
    m.case(eps, len(times))
    for typ in TYPES:
        T = trajs(cp, typ)
        allp = sorted(key(r) for t in T for r in t)
        m.check(allp == sorted(key(r) for r in table(cp, typ)), 'a-point-is-not-in-exactly-one-trajectory#' + typ)
        idx = {float(t): k for k, t in enumerate(times)}
        links = []
        for t in T:
            k = [idx[float(s)] for s in t[:, 0]]
            m.check(np.all(np.diff(k) == 1), 'trajectory-skips-an-instant', k)
            d = np.hypot(*np.diff(t[:, 1:], axis=0).T) if len(t) > 1 else np.array([])
            m.check(np.all(d <= e*(1 + 1e-12)), 'jump-farther-than-the-linking-distance', lambda: '%s > %s' % (d, e))
            links += list(d)
            m.event('link', len(d))
        # no two pieces that could have been linked are left apart, and no nearer unlinked choice
        for a in T:
            for b in T:
                ka, kb = idx[float(a[-1, 0])], idx[float(b[0, 0])]
                if kb == ka + 1:
                    dd = np.hypot(*(b[0, 1:] - a[-1, 1:]))
                    m.check(dd >= e*(1 - 1e-12), 'possible-link-not-made', lambda: 'distance %s, linking distance %s' % (dd, e))
        step = {}
        for n, t in enumerate(T):
            for q in range(len(t)):
                step.setdefault(idx[float(t[q, 0])], []).append((n, q))
        for k in range(len(times) - 1):
            for n, q in step.get(k, []):
                for n2, q2 in step.get(k + 1, []):
                    if n2 == n:
                        continue
                    d = np.hypot(*(T[n][q, 1:] - T[n2][q2, 1:]))
                    d1 = np.hypot(*(T[n][q + 1, 1:] - T[n][q, 1:])) if q + 1 < len(T[n]) else np.inf
                    d2 = np.hypot(*(T[n2][q2, 1:] - T[n2][q2 - 1, 1:])) if q2 > 0 else np.inf
                    m.check(not (d <= e and d < d1*(1 - 1e-9) and d < d2*(1 - 1e-9)), 'nearest-pair-not-linked',
                            lambda: '%s against %s, %s' % (d, d1, d2))


def same_rows(m, got, want, sig, detail='', rtol=1e-9):
    if len(got) != len(want):
        return m.check(False, sig, '%s: %s rows, expected %s' % (detail, len(got), len(want)))
    if len(got) == 0:
        return m.check(True, sig)
    g = np.array(sorted(map(tuple, np.asarray(got))))
    w = np.array(sorted(map(tuple, np.asarray(want))))
    return m.close(g, w, sig, rtol=rtol, atol=1e-9, detail=detail)


def near(t, kept):
    t, kept = np.asarray(t, dtype=float), np.asarray(kept, dtype=float)
    if len(kept) == 0:
        return np.zeros(len(t), dtype=bool)
    return np.min(np.abs(t[:, None] - kept[None, :]), axis=1) <= 1e-7*max(np.max(np.abs(kept)), np.max(np.abs(t), initial=0))


def chk_all(m, cp, pts, T, sig, detail=''):
    """Points and trajectories of a set against tables."""
    for typ in TYPES:
        same_rows(m, table(cp, typ), pts[typ], sig + ':points#' + typ, detail)
        got = trajs(cp, typ)
        if T is None:
            m.check(got is None, sig + ':trajectories-not-dropped#' + typ, detail)
            continue
        if not m.check(got is not None and len(got) == len(T[typ]), sig + ':number-of-trajectories#' + typ,
                       lambda: '%s: %s, expected %s' % (detail, None if got is None else len(got), len(T[typ]))):
            continue
        for a, b in zip(sorted(got, key=key), sorted(T[typ], key=key)):
            m.close(a, b, sig + ':trajectories#' + typ, detail=detail, rtol=1e-9, atol=1e-9)


def snap(cp):
    out = [np.array(cp.times), cp.unit_x.strUnit(), cp.unit_y.strUnit(), cp.unit_time.strUnit()]
    for typ in TYPES:
        for p in getattr(cp, typ):
            out += [np.array(p.xy), p.unit_x.strUnit(), p.unit_y.strUnit()]
        t = getattr(cp, typ + '_traj')
        out.append(None if t is None else len(t))
        for p in ([] if t is None else t):
            out += [np.array(p.xy), np.array(p.v), p.unit_x.strUnit(), p.unit_y.strUnit(), p.unit_v.strUnit()]
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if isinstance(p, np.ndarray):
            if p.shape != q.shape or not np.all(p == q):
                return False
        elif p != q:
            return False
    return True


@scenario('C22', 160)
def operations(m):
    rng = m.rng
    tr, times, eps = planted(rng, n=int(rng.integers(2, 8)))
    ux, ut = G.pick(rng, G.LEN), G.pick(rng, G.TIM)
    cp = build(rng, tr, times, ux, ux, ut)
    linked = rng.random() < .75
    if linked:
        cp.compute_traj(eps)
    P = {t: table(cp, t) for t in TYPES}
    T = {t: trajs(cp, t) for t in TYPES} if linked else None
    for step in range(int(rng.integers(1, 4))):
        op = G.pick(rng, ['scale', 'unit', 'origin', 'cropt', 'cropx', 'clean', 'remove', 'add', 'unitt', 'smooth'])
        before = snap(cp)
        inplace = bool(rng.random() < .5)
        old = cp
        det = '%s inplace=%s linked=%s' % (op, inplace, T is not None)
        m.event('operation:' + op)
        f3 = np.ones(3)
        if op == 'scale':
            kx, ky, kt = 10**rng.uniform(-2, 2, 3)
            sx, sy, st = float(kx), float(ky), float(kt)
            if rng.random() < .3:
                sx = sx*make_unit('mm/m')
            if rng.random() < .3:
                st = st*make_unit('ms/s')
            u0 = [G.fac(cp.unit_time), G.fac(cp.unit_x), G.fac(cp.unit_y)]
            f0 = [G.si(st), G.si(sx), G.si(sy)]
            r = cp.scale(scalex=sx, scaley=sy, scalev=st, inplace=inplace)
            cp = cp if inplace else r
            u1 = [G.fac(cp.unit_time), G.fac(cp.unit_x), G.fac(cp.unit_y)]
            f3 = np.array([a*b[0]/c for a, b, c in zip(u0, f0, u1)])
            m.check(G.dim(cp.unit_time) == {'T': 1} and G.dim(cp.unit_x) == {'L': 1}, 'unit-of-the-scaled-set')
            P = {t: P[t]*f3 for t in TYPES}
            T = None if T is None else {t: [q*f3 for q in T[t]] for t in TYPES}
            if not inplace:
                m.check(same(snap(old), before), 'scaling-changes-the-original')
        elif op == 'unit':
            nu = G.pick(rng, G.LEN)
            cp = cp.copy()
            for a in 'xy':
                k = G.fac(getattr(cp, 'unit_' + a))/G._T[nu][0]
                cp.change_unit(a, nu)
                f3['xy'.index(a) + 1] = k
                m.check(abs(G.fac(getattr(cp, 'unit_' + a))/G._T[nu][0] - 1) < 1e-12, 'unit-not-changed')
            P = {t: P[t]*f3 for t in TYPES}
            T = None if T is None else {t: [q*f3 for q in T[t]] for t in TYPES}
            m.check(same(snap(old), before), 'copy-not-independent')
        elif op == 'unitt':
            if T is None:
                continue
            nu = G.pick(rng, G.TIM)
            cp = cp.copy()
            f3[0] = G.fac(cp.unit_time)/G._T[nu][0]
            cp.change_unit('time', nu)
            m.check(abs(G.fac(cp.unit_time)/G._T[nu][0] - 1) < 1e-12, 'time-unit-not-changed')
            P = {t: P[t]*f3 for t in TYPES}
            T = {t: [q*f3 for q in T[t]] for t in TYPES}
        elif op == 'origin':
            o = rng.normal(size=2)*10
            cp = cp.copy()
            wh = G.pick(rng, ['x', 'y', 'xy'])
            d = np.array([0, o[0] if 'x' in wh else 0, o[1] if 'y' in wh else 0])
            cp.set_origin(x=float(o[0]) if 'x' in wh else None, y=float(o[1]) if 'y' in wh else None)
            P = {t: P[t] - d for t in TYPES}
            T = None if T is None else {t: [q - d for q in T[t]] for t in TYPES}
        elif op == 'cropt':
            if len(cp.times) < 2:
                continue
            a, b = np.sort(rng.choice(len(cp.times), 2, replace=False))
            ts = np.array(cp.times)
            if rng.random() < .5:
                lo, hi = ts[a], ts[b]
                r = cp.crop(intervt=[lo, hi], inplace=inplace)
                kept = ts[a:b + 1]
            else:
                r = cp.crop(intervt=[int(a), int(b)], ind=True, inplace=inplace)
                kept = ts[a:b]
            cp = cp if inplace else r
            m.close(cp.times, kept, 'times-after-crop')
            P = {t: P[t][near(P[t][:, 0], kept)] for t in TYPES}
            if T is not None:
                T = {t: [q[near(q[:, 0], kept)] for q in T[t]] for t in TYPES}
                T = {t: [q for q in T[t] if len(q)] for t in TYPES}
            if not inplace:
                m.check(same(snap(old), before), 'crop-changes-the-original')
        elif op == 'cropx':
            al = np.concatenate([P[t] for t in TYPES])
            if len(al) == 0:
                continue
            wh = G.pick(rng, ['x', 'y', 'xy'])
            iv = {}
            for c, a in enumerate('xy'):
                if a in wh:
                    iv[a] = [float(q) for q in np.sort(rng.uniform(al[:, c + 1].min(), al[:, c + 1].max() + 1e-300, 2))]
            r = cp.crop(intervx=iv.get('x'), intervy=iv.get('y'), inplace=inplace)
            cp = cp if inplace else r
            for c, a in enumerate('xy'):
                if a in iv:
                    P = {t: P[t][(P[t][:, c + 1] >= iv[a][0]) & (P[t][:, c + 1] <= iv[a][1])] for t in TYPES}
            T = None
            m.close(cp.times, old.times, 'times-after-crop')
            if not inplace:
                m.check(same(snap(old), before), 'crop-changes-the-original')
        elif op == 'clean':
            if T is None or cp.current_epsilon is None:
                continue
            n = int(rng.integers(1, 5))
            cp.clean_traj(n)
            T = {t: [q for q in T[t] if len(q) >= n] for t in TYPES}
            P = {t: np.concatenate(T[t]) if T[t] else np.empty((0, 3)) for t in TYPES}
            det += ' shorter than %d' % n
        elif op == 'remove':
            if len(cp.times) < 2:
                continue
            k = int(rng.integers(len(cp.times)))
            t0 = cp.times[k]
            if rng.random() < .5:
                cp.remove_point(time=float(t0))
            else:
                cp.remove_point(indice=k)
            P = {t: P[t][~near(P[t][:, 0], [t0])] for t in TYPES}
            T = None
            m.check(t0 not in cp.times, 'removed-instant-still-there')
        elif op == 'add':
            t0 = float(np.max(cp.times) + rng.uniform(.1, 1)) if rng.random() < .5 else float((cp.times[0] + np.max(cp.times))/2 + 1e-3)
            if t0 in cp.times:
                continue
            xy = rng.uniform(-3, 3, (int(rng.integers(1, 4)), 2))
            ty = G.pick(rng, TYPES)
            p = Points(xy, unit_x=cp.unit_x, unit_y=cp.unit_y)
            cp.add_point(time=t0, **{ty: p})
            p.xy = p.xy + 1e3
            P[ty] = np.concatenate([P[ty], np.column_stack([np.full(len(xy), t0), xy])])
            T = None
            m.raises(lambda: cp.add_point(time=t0, foc=Points(xy, unit_x=cp.unit_x, unit_y=cp.unit_y)), 'instant-added-twice')
            m.raises(lambda: cp.add_point(time=t0 + 1.77, foc=Points(xy, unit_x='kg', unit_y=cp.unit_y)), 'points-of-another-unit-added')
        elif op == 'smooth':
            if T is None:
                continue
            cp = cp.copy()
            cp.smooth_traj(tos='uniform', size=3)
            G_ = {t: trajs(cp, t) for t in TYPES}
            for t in TYPES:
                m.check(len(G_[t]) == len(T[t]), 'smoothing-changes-the-number-of-trajectories')
                m.check(sorted(len(q) for q in G_[t]) == sorted(len(q) for q in T[t]), 'smoothing-changes-the-length-of-trajectories')
            m.check(same(snap(old), before), 'copy-not-independent')
            cp = old
            continue
        chk_all(m, cp, P, T, 'after-' + op, det)
        m.check(np.all(np.diff(cp.times) > 0), 'times-not-ordered-after-operation', det)
        for ty in TYPES:
            for p in getattr(cp, ty):
                m.check(G.dim(p.unit_x) == {'L': 1} and abs(G.fac(p.unit_x)/G.fac(cp.unit_x) - 1) < 1e-9 and
                        abs(G.fac(p.unit_y)/G.fac(cp.unit_y) - 1) < 1e-9, 'unit-of-the-points-is-not-that-of-the-set#' + op, det)


@scenario('C22', 40)
def sums(m):
    rng = m.rng
    a, ta = cloud(rng)
    b, tb = cloud(rng)
    b.times = b.times + (ta[-1] if rng.random() < .5 else .5)
    if rng.random() < .5:
        a.compute_traj(1.)
    sa, sb = snap(a), snap(b)
    c = a + b
    m.event('sum')
    m.check(same(sa, snap(a)) and same(sb, snap(b)), 'sum-changes-its-terms')
    P = {t: np.concatenate([table(a, t), table(b, t)]) for t in TYPES}
    chk_all(m, c, P, None, 'sum')
    m.close(c.times, np.sort(np.concatenate([a.times, b.times])), 'times-of-the-sum')
    c.set_origin(x=1., y=2.)
    m.check(same(sa, snap(a)) and same(sb, snap(b)), 'sum-shares-its-points-with-its-terms')
    m.raises(lambda: a + a, 'same-instants-added')
    d = b.copy()
    d.change_unit('x', 'mm')
    m.raises(lambda: a + d, 'other-units-added')
    m.check(a == a.copy(), 'copy-not-equal')
    e = a.copy()
    e.times = e.times + 1.
    m.check(not (a == e), 'sets-at-other-times-equal')


def model_simplify(xy, types, dmin, kind):
    """Pairwise nearest merging: list of (members, position, index)."""
    idx = {1: 1, 2: 1, 3: -1, 4: 1, 5: 1}
    cl = [([t], np.array(p, dtype=float), 1, idx[t]) for p, t in zip(xy, types)]
    blocked = set()
    while True:
        best = None
        for i in range(len(cl)):
            for j in range(i + 1, len(cl)):
                if (id(cl[i]), id(cl[j])) in blocked:
                    continue
                d = np.sum((cl[i][1] - cl[j][1])**2)
                if d <= dmin**2 and (best is None or d < best[0]):
                    best = (d, i, j)
        if best is None:
            break
        _, i, j = best
        a, b = cl[i], cl[j]
        if kind == 'only_delete':
            if a[3] + b[3] == 0:
                cl = [c for k, c in enumerate(cl) if k not in (i, j)]
            else:
                blocked.add((id(a), id(b)))
        else:
            new = (a[0] + b[0], (a[1]*a[2] + b[1]*b[2])/(a[2] + b[2]), a[2] + b[2], a[3] + b[3])
            cl = [c for k, c in enumerate(cl) if k not in (i, j)] + [new]
    return [c for c in cl if c[3] != 0]


@scenario('C22', 100)
def simplified(m):
    rng = m.rng
    cp, times = cloud(rng, nt=int(rng.integers(1, 4)), dens=5, ut=G.pick(rng, G.TIM), ux=G.pick(rng, G.LEN))
    d = float(rng.uniform(.05, 1.5))
    kind = G.pick(rng, ['replacement', 'only_delete'])
    s0 = snap(cp)
    r = cp.topo_simplify(d, kind=kind)
    m.check(same(s0, snap(cp)), 'simplification-changes-the-original')
    m.event('simplified:' + kind)
    m.close(r.times, cp.times, 'times-of-the-simplified-set')
    m.check(r.unit_time.strUnit() == cp.unit_time.strUnit() and r.unit_x.strUnit() == cp.unit_x.strUnit(), 'units-of-the-simplified-set')
    names = {1: 'foc', 2: 'foc_c', 3: 'sadd', 4: 'node_i', 5: 'node_o'}
    for k, t in enumerate(cp.times):
        xy, types = [], []
        for n in (1, 2, 3, 4, 5):
            for p in getattr(cp, names[n])[k].xy:
                xy.append(p)
                types.append(n)
        want = model_simplify(xy, types, d, kind)
        rows = {n: [] for n in names}
        loose = []
        for mem, pos, w, ind in want:
            if len(mem) == 1:
                rows[mem[0]].append(pos)
            elif ind == -1:
                rows[3].append(pos)
            elif ind == 1:
                c = {n: mem.count(n) for n in (1, 2, 4, 5)}
                top = [n for n in c if c[n] == max(c.values())]
                if len(top) == 1:
                    rows[top[0]].append(pos)
                else:
                    loose.append(pos)
            # other indices: reported by a message and left out
        got = {n: list(getattr(r, names[n])[k].xy) for n in names}
        ng, nw = sum(len(v) for v in got.values()), sum(len(v) for v in rows.values()) + len(loose)
        m.check(ng == nw, 'number-of-points-left', lambda: '%s d=%s: %s, expected %s' % (kind, d, got, (rows, loose)))
        for n in names:
            for p in rows[n]:
                m.check(any(np.allclose(p, q, rtol=1e-9, atol=1e-12) for q in got[n]), 'point-missing-after-simplification#' + names[n],
                        lambda: '%s d=%s: %s not in %s' % (kind, d, p, got[n]))
        allg = [q for n in names for q in got[n]]
        for p in loose:
            m.check(any(np.allclose(p, q, rtol=1e-9, atol=1e-12) for q in allg), 'merged-point-missing')
        m.event('merged-cluster', sum(len(c[0]) > 1 for c in want))


def regular(rng, n, dt=None):
    dt = float(rng.choice([.1, .25, 1., 2.])) if dt is None else dt
    return float(rng.integers(-5, 5))*dt + np.arange(n)*dt, dt


@scenario('C22', 40)
def broken(m):
    """Trajectories broken where they cross a position or turn back."""
    rng = m.rng
    n = int(rng.integers(12, 40))
    t, dt = regular(rng, n)
    x = rng.uniform(-3, 3) + 2*np.sin(2*np.pi*np.arange(n)/rng.uniform(8, 30) + rng.uniform(0, 6))
    y = rng.uniform(-3, 3) + 2*np.sin(2*np.pi*np.arange(n)/rng.uniform(8, 30) + rng.uniform(0, 6))
    tr = {ty: [] for ty in TYPES}
    ty = G.pick(rng, TYPES)
    tr[ty] = [{k: (x[k], y[k]) for k in range(n)}]
    # ... and some too short to be broken
    short = []
    for q in range(int(rng.integers(0, 3))):
        k0, ln, ts = int(rng.integers(0, n - 2)), int(rng.integers(1, 3)), G.pick(rng, TYPES)
        if ts == ty or tr[ts]:
            continue
        tr[ts] = [{k0 + i: (float(rng.normal()), float(rng.normal())) for i in range(ln)}]
        short.append(ts)
    cp = build(rng, tr, t, 'm', 'm', 's')
    cp.compute_traj(None)
    how = G.pick(rng, ['x', 'y', 'turn'])
    s0 = snap(cp)
    a = x if how == 'x' else y
    if how == 'turn':
        args = dict(smooth_size=.5)
        r = cp.break_trajectories(**args)
        brk = [k for k in range(1, n - 1) if x[k] < x[k - 1] and x[k] < x[k + 1]]
    else:
        pos = float(rng.uniform(a.min(), a.max()))
        args = {how: pos}
        r = cp.break_trajectories(**args)
        brk = [k for k in range(n - 1) if (a[k] - pos)*(a[k + 1] - pos) < 0]
    m.check(same(s0, snap(cp)), 'breaking-changes-the-original')
    m.event('broken:' + how)
    for ts in short:
        m.check([q.tolist() for q in trajs(r, ts)] == [q.tolist() for q in trajs(cp, ts)], 'short-trajectory-touched-by-breaking', trajs(r, ts))
    c2 = cp.copy()
    m.check(c2.break_trajectories(inplace=True, **args) is None and same(snap(c2), snap(r)), 'breaking-in-place-differs')
    T = trajs(r, ty)
    full = np.column_stack([t, x, y])
    det = '%s at %s of %d' % (how, brk, n)
    # every point is kept, pieces are runs of consecutive points, overlapping by at most a step or two
    idx = [[int(np.argmin(np.abs(t - s))) for s in q[:, 0]] for q in T]
    for q, i in zip(T, idx):
        m.close(q, full[i], 'broken-trajectory-values')
        m.check(np.all(np.diff(i) == 1), 'piece-with-holes', det)
    m.check(sorted(set(sum(idx, []))) == list(range(n)), 'points-lost-by-breaking', det)
    if how != 'turn':
        m.check(len(T) == len(brk) + 1, 'number-of-pieces', '%s: %d pieces' % (det, len(T)))
        idx = sorted(idx, key=lambda i: i[0])
        for k, (i, j) in zip(brk, zip(idx[:-1], idx[1:])):
            z = (pos - a[k])/(a[k + 1] - a[k])
            if not 1e-6 < z < 1 - 1e-6:
                continue
            # both pieces hold the point after the crossing
            m.check(i[-1] == k + 1 and j[0] == k + 1, 'piece-not-cut-at-the-crossing', '%s: %s | %s' % (det, i[-1], j[0]))
    elif len(brk) + 1 == len(T):
        m.event('turns', len(brk))
        idx = sorted(idx, key=lambda i: i[0])
        for k, (i, j) in zip(brk, zip(idx[:-1], idx[1:])):
            m.check(abs(j[0] - k) <= 1.5, 'piece-not-cut-at-the-turn', '%s: %s | %s' % (det, i[-1], j[0]))


@scenario('C22', 20)
def limit(m):
    """The linking distance is the largest one linked."""
    rng = m.rng
    a, b, c = [(3, 4, 5), (5, 12, 13), (8, 6, 10), (0, 7, 7), (15, 8, 17)][int(rng.integers(0, 5))]
    n = int(rng.integers(2, 7))
    s = rng.choice([-1, 1], size=(n, 2))
    xy = np.cumsum(s*[a, b], axis=0)*1.
    ty = G.pick(rng, TYPES)
    tr = {q: [] for q in TYPES}
    tr[ty] = [{i: tuple(xy[i]) for i in range(n)}]
    cp = build(rng, tr, np.arange(n)*1., 'mm', 'mm', 's')
    m.case(a, b, c, n, ty)
    cp.compute_traj(c if rng.random() < .5 else float(c))
    m.check(len(getattr(cp, ty + '_traj')) == 1, 'step-of-the-linking-distance-not-linked', '%d trajectories for steps of %d' % (len(getattr(cp, ty + '_traj')), c))
    cp.compute_traj(c - .5)
    m.check(len(getattr(cp, ty + '_traj')) == n, 'step-above-the-linking-distance-linked')
    m.event('linking at the limit', n - 1)


@scenario('C22', 40)
def turns(m):
    """Positions where trajectories change direction."""
    rng = m.rng
    n = int(rng.integers(40, 80))
    t, dt = regular(rng, n)
    per = rng.uniform(14, 30)
    ph = rng.uniform(0, 2*np.pi)
    d = G.pick(rng, ['x', 'y'])
    k = np.arange(n)
    A, o, v = rng.uniform(1, 5), rng.normal(), rng.normal()*.1
    a = o + A*np.sin(2*np.pi*k/per + ph)
    b = v*k
    ty = G.pick(rng, TYPES)
    tr = {q: [] for q in TYPES}
    tr[ty] = [{i: ((a[i], b[i]) if d == 'x' else (b[i], a[i])) for i in range(n)}]
    cp = build(rng, tr, t, 'mm', 'mm', 'ms')
    cp.compute_traj(None)
    mi, ma = cp.get_traj_direction_changement(ty, d)
    m.event('turns:' + d)
    for pts, s, name in ((mi, -1, 'minima'), (ma, 1, 'maxima')):
        want = [q for q in ((s*np.pi/2 - ph)/(2*np.pi)*per + np.arange(-2, 12)*per) if 0 <= q <= n - 1]
        inner = [q for q in want if 2 < q < n - 3]
        got = [(q - t[0])/dt for q in pts.v]
        m.check(all(min([abs(q - w) for w in want] + [9]) < 1. for q in got), 'spurious-turn#' + name, '%s, expected %s' % (got, want))
        m.check(all(sum(abs(q - w) < 1. for q in got) == 1 for w in inner), 'turn-missed#' + name, '%s, expected %s' % (got, want))
        c = 0 if d == 'x' else 1
        for p in pts.xy:
            m.check(abs(p[c] - (o + s*A)) < .1*A, 'value-at-the-turn#' + name, p)
        m.check(len(pts) == 0 or (pts.unit_x.strUnit() == '[mm]' and pts.unit_v.strUnit() == '[ms]'), 'unit-of-the-turns')


@scenario('C22', 40)
def means(m):
    """Repetitions of one trajectory average to it."""
    rng = m.rng
    n = int(rng.integers(10, 25))
    t, dt = regular(rng, 400)
    nrep = int(rng.integers(2, 5))
    kx, ky = rng.uniform(.1, .3), rng.uniform(.05, .3)
    k = np.arange(n)
    bx = rng.uniform(2, 4) + 2*np.sin(kx*k) + .2*k
    by = rng.uniform(2, 4) + np.cos(ky*k) + .05*k
    two = rng.random() < .4
    cx = -30 + 6*np.cos(.3*k)
    cy = -20 - .5*k
    noise = 0. if rng.random() < .5 else .01
    tr, samples, starts = [], [], []
    s = 0
    for r in range(nrep):
        s += int(rng.integers(1, 5))
        sx, sy = bx + noise*rng.normal(size=n), by + noise*rng.normal(size=n)
        tr.append({s + i: (sx[i], sy[i]) for i in range(n)})
        samples.append((sx, sy))
        starts.append(s)
        s += n
        if two:
            s += 1
            tr.append({s + i: (cx[i], cy[i]) for i in range(n)})
            s += n
    if s >= len(t):
        raise Skip
    ty = G.pick(rng, TYPES)
    trk = {q: [] for q in TYPES}
    # ... and a short one
    trk[ty] = tr + [{0: (50., 50.)}]
    tt = t[:s + 2]
    cp = build(rng, trk, tt, 'mm', 'mm', 's')
    cp.compute_traj(6.)
    if len(getattr(cp, ty + '_traj')) != len(trk[ty]):
        raise Skip
    s0 = snap(cp)
    mts, skipped = cp.get_mean_trajectory(ty, min_len=5, min_nmb_to_avg=nrep)
    m.check(same(s0, snap(cp)), 'averaging-changes-the-trajectories')
    m.event('mean:%d:%s' % (nrep, two))
    m.case(nrep, two, noise, n, dt)
    if not m.check(len(mts) == 1 + two, 'number-of-mean-trajectories', '%d for %d planted (%d repetitions, length %d, noise %s)' % (len(mts), 1 + two, nrep, n, noise)):
        return
    m.check(all(q.nmb_traj_used == nrep and q.used_traj_number == nrep for q in mts), 'number-of-trajectories-averaged')
    m.check(len(skipped) == 0, 'averaged-trajectory-reported-as-skipped', len(skipped))
    if rng.random() < .3:
        # too few repetitions: everything is handed back
        none, left = cp.get_mean_trajectory(ty, min_len=5, min_nmb_to_avg=nrep + 1)
        key_ = lambda q: tuple(np.asarray(q.xy).ravel())
        m.check(len(none) == 0 and sorted(key_(q) for q in left) == sorted(key_(q) for q in getattr(cp, ty + '_traj') if len(q) >= 5),
                'skipped-trajectories', '%d mean, %d skipped of %d' % (len(none), len(left), nrep*(1 + two)))
        # a list of trajectories instead of a type
        lst, _ = cp.get_mean_trajectory(list(getattr(cp, ty + '_traj')), min_len=5, min_nmb_to_avg=nrep)
        m.check(len(lst) == len(mts) and all(np.allclose(u.xy, v.xy) for u, v in zip(lst, mts)), 'mean-of-a-list-of-trajectories')
    mt = min(mts, key=lambda q: abs(q.xy[0, 0] - bx[0]))
    ax, ay = np.mean([q[0] for q in samples], axis=0), np.mean([q[1] for q in samples], axis=0)
    if not m.check(len(mt) == n, 'length-of-the-mean-trajectory', '%d of %d' % (len(mt), n)):
        return
    m.close(mt.xy, np.column_stack([ax, ay]), 'mean-positions', rtol=1e-7, atol=1e-7)
    m.close(mt.time - mt.time[0], k*dt, 'mean-times', atol=1e-6*dt)
    m.close(mt.assoc_std_x, np.std([q[0] for q in samples], axis=0), 'standard-deviation-x', atol=1e-7)
    m.close(mt.assoc_std_y, np.std([q[1] for q in samples], axis=0), 'standard-deviation-y', atol=1e-7)
    for i, rt in enumerate(mt.assoc_real_times):
        m.close(np.sort(rt), [tt[q + i] for q in starts], 'instants-averaged', atol=1e-6*dt)
    m.check(mt.unit_x.strUnit() == '[mm]' and mt.unit_times.strUnit() == '[s]', 'units-of-the-mean-trajectory')
    # operations
    op = G.pick(rng, ['crop', 'scale', 'reconstruct'])
    m.event('mean-op:' + op)
    ref = mt.copy()
    if op == 'crop':
        a, b = sorted(rng.choice(n, 2, replace=False))
        a, b = int(a), int(b)
        if rng.random() < .5:
            c = mt.crop(intervt=[a, b], ind=True, inplace=False)
            kept = np.arange(n)[a:b]
        else:
            lim = .1*dt*(rng.random() < .5)      # bounds between two instants, or on them
            c = mt.crop(intervt=[mt.time[a] - lim, mt.time[b] + lim], inplace=False)
            kept = np.arange(n)[a:b + 1]
        if rng.random() < .4:
            j = int(rng.integers(0, 2))
            q = np.sort(mt.xy[:, j])
            a, b = sorted(int(i) for i in rng.choice(n, 2, replace=False))
            if q[b] > q[a]:
                c = mt.crop(inplace=False, **{'intervx' if j == 0 else 'intervy': [q[a], q[b]]})
                kept = np.where((mt.xy[:, j] >= q[a]) & (mt.xy[:, j] <= q[b]))[0]
        m.close(c.time, ref.time[kept], 'crop-of-the-mean-trajectory#time')
        m.close(c.xy, ref.xy[kept], 'crop-of-the-mean-trajectory#xy')
        m.close(c.assoc_std_x, ref.assoc_std_x[kept], 'crop-of-the-mean-trajectory#std')
        m.close(c.assoc_std_y, ref.assoc_std_y[kept], 'crop-of-the-mean-trajectory#std')
        m.check(len(c.assoc_real_times) == len(kept) and all(np.all(c.assoc_real_times[i] == ref.assoc_real_times[q]) for i, q in enumerate(kept)),
                'crop-of-the-mean-trajectory#instants')
    elif op == 'scale':
        kx, ky, kt = [float(q) for q in 10**rng.uniform(-2, 2, 3)]
        ip = bool(rng.random() < .5)
        if rng.random() < .4:
            # by quantities: positions, deviations and instants follow together
            us = [make_unit(G.pick(rng, ['1/mm', '1/m', 'mm', 's', '1/s'])) for _ in range(3)]
            c = mt.scale(scalex=kx*us[0], scaley=ky*us[1], scalet=kt*us[2])
            m.close(c.xy*[G.fac(c.unit_x), G.fac(c.unit_y)], ref.xy*[kx*G.fac(us[0])*1e-3, ky*G.fac(us[1])*1e-3], 'scaled-mean-trajectory#xy-with-unit', 1e-9)
            m.close(c.time*G.fac(c.unit_v), ref.time*kt*G.fac(us[2]), 'scaled-mean-trajectory#time-with-unit', 1e-9)
            m.close(c.assoc_std_x*G.fac(c.unit_x), ref.assoc_std_x*kx*G.fac(us[0])*1e-3, 'scaled-mean-trajectory#std-with-unit', 1e-9)
            m.close(c.assoc_std_y*G.fac(c.unit_y), ref.assoc_std_y*ky*G.fac(us[1])*1e-3, 'scaled-mean-trajectory#std-with-unit', 1e-9)
            m.close(np.array(c.assoc_real_times)*G.fac(c.unit_v), np.array(ref.assoc_real_times)*kt*G.fac(us[2]), 'scaled-mean-trajectory#instants-with-unit', 1e-9)
            m.event('mean scaled by quantities')
        c = mt.scale(scalex=kx, scaley=ky, scalet=kt, inplace=ip)
        c = mt if ip else c
        m.close(c.xy, ref.xy*[kx, ky], 'scaled-mean-trajectory#xy')
        m.close(c.time, ref.time*kt, 'scaled-mean-trajectory#time')
        m.close(c.assoc_std_x, ref.assoc_std_x*kx, 'scaled-mean-trajectory#std')
        m.close(c.assoc_std_y, ref.assoc_std_y*ky, 'scaled-mean-trajectory#std')
        m.close(np.array(c.assoc_real_times), np.array(ref.assoc_real_times)*kt, 'scaled-mean-trajectory#instants')
        m.close(c.base_trajs[0].xy, ref.base_trajs[0].xy*[kx, ky], 'scaled-mean-trajectory#base')
        m.check(same(s0, snap(cp)), 'scaling-the-mean-changes-the-set')
    else:
        ax_ = np.arange(4.)
        vals = rng.normal(size=(len(tt), 4, 4))
        tf = TemporalScalarFields()
        for i in range(len(tt)):
            f = ScalarField()
            f.import_from_arrays(ax_, ax_, vals[i], unit_x='mm', unit_y='mm', unit_values='K')
            tf.add_field(f, time=tt[i], unit_times='s')
        if not all(np.any(tf.times == q) for rt in mt.assoc_real_times for q in rt):
            raise Skip
        r = mt.reconstruct_fields(tf)
        m.close(r.times, mt.time, 'times-of-the-reconstruction')
        for i in range(n):
            m.close(r.fields[i].values, np.mean([vals[q + i] for q in starts], axis=0), 'conditional-mean-field', atol=1e-12)
        m.close([f.values for f in tf.fields], vals, 'reconstruction-changes-the-fields')


@scenario('C22', 16)
def density_and_refinement(m):
    rng = m.rng
    cp, times = cloud(rng, nt=int(rng.integers(2, 5)), dens=8)
    ty = G.pick(rng, TYPES)
    allp = table(cp, ty)
    if len(allp) > 3:
        m.event('density')
        ref = Points(allp[:, 1:], unit_x='m', unit_y='m').get_points_density(resolution=20)
        got = cp.get_points_density(ty, resolution=20)
        m.close(got.values, ref.values, 'density-is-not-that-of-the-points', rtol=1e-6, atol=1e-9)
        m.check(got.unit_x.strUnit() == '[m]', 'unit-of-the-density', got.unit_x)
        ab = cp.get_points_density(ty, resolution=20, output_format='absolute')
        n = sum(len(table(cp, q)) for q in TYPES)
        m.close(ab.values, ref.values*len(allp)/n, 'absolute-density', rtol=1e-6, atol=1e-9)
    # refinement on bumps
    x = np.arange(0, 20.)
    X, Y = np.meshgrid(x, x, indexing='ij')
    tf = TemporalScalarFields()
    cps = VD.CritPoints(unit_time='s')
    cen, sg = [], float(rng.choice([-1, 1]))
    for k in range(3):
        c = rng.uniform(7, 12, 2)
        f = ScalarField()
        f.import_from_arrays(x, x, sg*np.exp(-((X - c[0])**2 + (Y - c[1])**2)/2/4.**2), unit_x='m', unit_y='m', unit_values='')
        tf.add_field(f, time=float(k), unit_times='s')
        cps.add_point(time=float(k), **{ty: Points([c + rng.uniform(-2, 2, 2)], unit_x='m', unit_y='m')})
        cen.append(c)
    s0 = snap(cps)
    r = cps.refine_cp_position(ty, tf, inplace=False, extrema='max' if sg > 0 else 'min')
    m.event('refined')
    m.check(same(s0, snap(cps)), 'refinement-changes-the-original')
    for k in range(3):
        p = getattr(r, ty)[k].xy
        m.check(len(p) == 1 and np.hypot(*(p[0] - cen[k])) < .8, 'refined-point-not-at-the-extremum', lambda: '%s, extremum %s' % (p, cen[k]))
    r.crop(intervt=[0., 1.], inplace=True)
    m.check(len(r.times) == 2, 'refined-set-cannot-be-used')
