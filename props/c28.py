"""C28: quantities computed from point sets."""
import numpy as np
from scipy import stats
from IMTreatment.core import Points, Profile, TemporalScalarFields
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Random clouds and trajectories (any units, values, order, repeated positions, aligned points), with every option of the '
        'derived quantities; each number is compared in SI with a direct evaluation of its definition on the list of points.')
ASSUMPTIONS = ['kernel densities: Gaussian kernel of the covariance of the points and of the asked (or Scott) bandwidth',
               'ellipse fitting needs a module that is not installed: not covered',
               'envelopes: convex hull without alpha; with alpha only that the envelope joins given points and encloses the dense ones']


def cloud(rng, n=None, withv=True, lo=2, hi=20):
    n = n or int(rng.integers(lo, hi + 1))
    sc = 10**rng.uniform(-2, 2, 2)
    xy = (rng.normal(size=(n, 2)) + rng.uniform(-5, 5, 2))*sc
    if rng.random() < .15:
        xy = np.round(xy/sc)*sc
    t = rng.uniform(-5, 5) + np.cumsum(rng.uniform(.2, 1.5, n))
    ux, uy, uv = G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.TIM)
    perm = rng.permutation(n) if rng.random() < .5 else np.arange(n)
    p = Points(xy[perm], v=t[perm] if withv else [], unit_x=ux, unit_y=uy, unit_v=uv if withv else '')
    return p, xy, t


def same(m, p, before, sig='points-changed'):
    m.check(not G.diff(before, G.snap(p)), sig)


@scenario('C28', 300)
def velocity(m):
    rng = m.rng
    p, xy, t = cloud(rng)
    incr = int(rng.integers(1, 4)) if rng.random() < .5 else 1
    ax = G.pick(rng, ['time', 'time', 'x', 'y', None])
    if ax in ('x', 'y'):
        # a profile is a function of its abscissa: the points advance along the axis
        j = 0 if ax == 'x' else 1
        o = np.argsort(t)
        xy[:, j] = np.cumsum(rng.uniform(.1, 1, len(t)))
        perm = rng.permutation(len(t))
        p = Points(xy[perm], v=t[perm], unit_x=p.unit_x, unit_y=p.unit_y, unit_v=p.unit_v)
    before = G.snap(p)
    kw = {}
    if incr != 1 or rng.random() < .3:
        kw['incr'] = incr
    if ax:
        kw['xaxis'] = ax
    m.case('velocity', len(t), kw, p.unit_x, p.unit_v)
    sub, ts = xy[::incr], t[::incr]
    if len(ts) < 2:
        raise Skip
    vx, vy = p.get_velocity(**kw)
    m.event('velocity:%s' % ax)
    mid = (sub[1:] + sub[:-1])/2
    col, uc = {'x': (mid[:, 0], p.unit_x), 'y': (mid[:, 1], p.unit_y)}.get(ax, ((ts[1:] + ts[:-1])/2, p.unit_v))
    for prof, j, u in ((vx, 0, p.unit_x), (vy, 1, p.unit_y)):
        m.close(prof.x*G.fac(prof.unit_x), col*G.fac(uc), 'velocity-abscissa', rtol=1e-9)
        m.check(G.dim(prof.unit_x) == G.dim(uc), 'velocity-abscissa-unit')
        m.close(prof.y*G.fac(prof.unit_y), np.diff(sub[:, j])/np.diff(ts)*G.fac(u)/G.fac(p.unit_v), 'velocity-values', rtol=1e-9)
        m.check(G.dim(prof.unit_y) == G.dimmul(G.dim(u), G.dim(p.unit_v), -1), 'velocity-unit', prof.unit_y)
        m.check(not np.any(prof.mask), 'velocity-masked')
    same(m, p, before)
    # smoothed: the velocity of the smoothed points
    n = int(rng.integers(14, 30))
    u = rng.normal(size=2)
    tt = np.arange(n)*rng.uniform(.1, 3)
    jit = rng.uniform(-1, 1, (n, 1))*.3*(tt[1] - tt[0])*u[::-1]
    line = rng.normal(size=2) + tt[:, None]*u
    q = Points(line + jit, v=tt, unit_x='mm', unit_y='mm', unit_v='s')
    s = float(rng.uniform(.05, .3))
    a = q.get_velocity(smooth=s, xaxis='time')
    sm = q.smooth(tos='lowpass', size=s, inplace=False)
    for k in (0, 1):
        m.close(a[k].x, (tt[1:] + tt[:-1])/2, 'smoothed-velocity-times')
        m.close(a[k].y*G.fac(a[k].unit_y), np.diff(sm.xy[:, k])/np.diff(tt)*1e-3, 'smoothed-velocity', rtol=1e-8)
    if u[0] > 0 and np.all(np.diff(q.xy[:, 0]) > 0):
        # along x, the abscissae are those of the smoothed points
        if np.all(np.diff(sm.xy[:, 0]) > 0):
            m.event('smoothed-velocity-along-x')
            a = q.get_velocity(smooth=s, xaxis='x')[0]
            m.close(a.x, (sm.xy[1:, 0] + sm.xy[:-1, 0])/2, 'smoothed-velocity-abscissa', rtol=1e-9)


def kde(xy, pos, bw):
    """Gaussian kernel estimate, written out."""
    n = len(xy)
    C = np.cov(xy.T)*bw**2
    P = np.linalg.inv(C)
    d = pos[:, None, :] - xy[None]
    return np.exp(-.5*np.einsum('ijk,kl,ijl->ij', d, P, d)).sum(axis=1)/(n*2*np.pi*np.sqrt(np.linalg.det(C)))


@scenario('C28', 160)
def kernel_density(m):
    rng = m.rng
    p, xy, t = cloud(rng, lo=3, withv=bool(rng.random() < .5))
    xy = p.xy.copy()
    k = rng.random()
    if k < .12:
        j = int(rng.integers(2))
        xy[:, j] = xy[0, j]
        p = Points(xy, unit_x=p.unit_x, unit_y=p.unit_y)
        m.event('aligned-points')
        m.check(p.get_points_density() is None, 'density-of-aligned-points')
        return
    if k < .18:
        m.event('single-point')
        m.check(Points(xy[:1]).get_points_density() is None, 'density-of-a-single-point')
        return
    w = np.ptp(xy, axis=0)
    if w.min() < .25*w.max():
        xy[:, np.argmin(w)] *= w.max()/w.min()*rng.uniform(.3, 1)
        p = Points(xy, unit_x=p.unit_x, unit_y=p.unit_y)
        xy = p.xy.copy()
        w = np.ptp(xy, axis=0)
    C = np.corrcoef(xy.T)[0, 1]
    if not np.isfinite(C) or abs(C) > .95:
        raise Skip
    before = G.snap(p)
    res = int(rng.integers(12, 30))
    kw = dict(resolution=res)
    bw = None
    if rng.random() < .5:
        bw = float(rng.uniform(.2, 1.5))
        kw['bw_method'] = bw
        fac = bw*np.mean(np.std(xy, axis=0))/w.min()
    elif rng.random() < .3:
        kw['bw_method'] = 'silverman'
        fac = (len(xy)*1.)**(-1/6.)
    else:
        fac = len(xy)**(-1./6)
    fmt = G.pick(rng, [None, 'normalized', 'ponderated', 'percentage', 'concentration'])
    if fmt or rng.random() < .3:
        kw['output_format'] = fmt
    m.case('density', len(xy), kw, p.unit_x, p.unit_y)
    m.event('density:%s:%s' % (fmt, 'bw' if bw else kw.get('bw_method')))
    d = p.get_points_density(**kw)
    G.chk_field(m, d, 'density')
    m.check(d.shape[int(w[1] > w[0])] == res, 'density-resolution', d.shape)
    o = 1 - int(w[1] > w[0])
    m.check(abs(d.shape[o] - res*w[o]/w[1 - o]) <= .5 + 1e-6, 'density-resolution-of-the-short-side', d.shape)
    b = fac*w.min()/2
    for a, lo, hi in ((d.axe_x, xy[:, 0].min(), xy[:, 0].max()), (d.axe_y, xy[:, 1].min(), xy[:, 1].max())):
        m.close((a - lo)/w.max(), (np.linspace(lo - b, hi + b, len(a)) - lo)/w.max(), 'density-axes', rtol=1e-7)
    X, Y = np.meshgrid(d.axe_x, d.axe_y, indexing='ij')
    ref = kde(xy, np.array([X.ravel(), Y.ravel()]).T, fac).reshape(X.shape)
    if not np.all(np.isfinite(ref)) or ref.max() == 0:
        raise Skip
    dA = (d.axe_x[1] - d.axe_x[0])*(d.axe_y[1] - d.axe_y[0])
    ref = ref/ref.sum()/dA
    tot = {'ponderated': len(xy), 'percentage': 100., 'concentration': len(xy)}.get(fmt, 1.)
    f = G.fac(d.unit_values)*(G.fac(p.unit_x)*G.fac(p.unit_y) if fmt == 'concentration' else 1.)
    m.close(d.values*f, ref*tot, 'density-values', rtol=1e-5, atol=1e-7)
    m.close(d.values.sum()*dA*f, tot, 'density-integral', rtol=1e-6)
    m.check(G.dim(d.unit_values) == (G.dimmul({}, G.dimmul(G.dim(p.unit_x), G.dim(p.unit_y)), -1) if fmt == 'concentration' else {}),
            'density-unit', d.unit_values)
    m.check(G.si(d.unit_x) == G.si(p.unit_x) and G.si(d.unit_y) == G.si(p.unit_y), 'density-axes-units')
    r = p.get_points_density(raw=True, **kw)
    m.close(r, d.values, 'raw-density')
    same(m, p, before)


@scenario('C28', 200)
def count_density(m):
    rng = m.rng
    p, xy, t = cloud(rng, lo=3)
    xy, v = p.xy.copy(), p.v.copy()
    w = np.ptp(xy, axis=0)
    if w.min() == 0:
        raise Skip
    res = (int(rng.integers(2, 9)), int(rng.integers(2, 9)))
    if rng.random() < .4:
        res = (res[0], res[0])
    arg = res[0] if res[0] == res[1] and rng.random() < .7 else G.pick(rng, [list, tuple, np.array])(res)
    pond = bool(rng.random() < .4)
    sub = int(rng.integers(2, 7)) if rng.random() < .4 else None
    before = G.snap(p)
    m.case('count', len(xy), arg, pond, sub)
    m.event('count:%s' % (sub is not None))
    kw = dict(ponderated=pond) if pond or rng.random() < .3 else {}
    if sub is not None:
        kw['subres'] = sub
    d = p.get_points_density2(arg, **kw)
    G.chk_field(m, d, 'count-density')
    lo, hi = xy.min(axis=0), xy.max(axis=0)
    f = G.fac(d.unit_values)*G.fac(p.unit_x)*G.fac(p.unit_y)/(G.fac(p.unit_v) if pond else 1.)
    W = v if pond else np.ones(len(xy))
    if sub is None:
        ax, ay = np.linspace(lo[0], hi[0], res[0]), np.linspace(lo[1], hi[1], res[1])
        m.close((d.axe_x - lo[0])/w[0], (ax - lo[0])/w[0], 'count-density-axes')
        m.close((d.axe_y - lo[1])/w[1], (ay - lo[1])/w[1], 'count-density-axes')
        want = np.zeros(res)
        for (x, y), q in zip(xy, W):
            dx, dy = np.sort(np.abs(ax - x)), np.sort(np.abs(ay - y))
            if dx[1] - dx[0] < 1e-9*w[0] or dy[1] - dy[0] < 1e-9*w[1]:
                raise Skip
            want[np.argmin(np.abs(ax - x)), np.argmin(np.abs(ay - y))] += q
        want /= (ax[1] - ax[0])*(ay[1] - ay[0])
        m.close(d.values*f, want, 'count-density-values', rtol=1e-9)
    else:
        # sliding cells, about as large as the asked resolution, centred on a finer grid
        h = w/np.array(res)
        s2 = int(sub//2)
        e = h/(2*s2)
        m.check(abs(np.diff(d.axe_x)[0]/e[0] - 1) < 1e-6 and abs(np.diff(d.axe_y)[0]/e[1] - 1) < 1e-6, 'count-density-step')
        sx, sy = [], []
        for i, x in enumerate(d.axe_x):
            sx.append(np.abs(xy[:, 0] - x)/e[0])
        for i, y in enumerate(d.axe_y):
            sy.append(np.abs(xy[:, 1] - y)/e[1])
        sx, sy = np.array(sx), np.array(sy)
        a = s2 - .5                     # half width of the cell, in fine steps
        if np.any(np.abs(sx - a) < 1e-6) or np.any(np.abs(sy - a) < 1e-6):
            raise Skip
        want = np.einsum('ik,jk,k->ij', sx < a, sy < a, W)/(h[0]*h[1])
        m.event('sliding-cells', int(np.sum(want != 0)))
        m.close(d.values*f, want, 'sliding-density-values', rtol=1e-9)
    m.check(G.dim(d.unit_values) == G.dimmul(G.dim(p.unit_v) if pond else {}, G.dimmul(G.dim(p.unit_x), G.dim(p.unit_y)), -1), 'count-density-unit')
    m.check(G.si(d.unit_x) == G.si(p.unit_x) and G.si(d.unit_y) == G.si(p.unit_y), 'count-density-axes-units')
    r = p.get_points_density2(arg, raw=True, **kw)
    m.close(r*(1/G.fac(d.unit_values) if False else 1)*d.values.max(), d.values*np.max(r), 'raw-count-density', rtol=1e-9)
    same(m, p, before)


@scenario('C28', 250)
def smoothing(m):
    rng = m.rng
    p, xy, t = cloud(rng, lo=12, hi=30, withv=bool(rng.random() < .6))
    tos = G.pick(rng, ['uniform', 'gaussian', 'lowpass', None])
    size = None
    kw = {} if tos is None else dict(tos=tos)
    if rng.random() < .6:
        size = kw['size'] = {'uniform': int(rng.integers(1, 6)), 'lowpass': float(rng.uniform(.05, .5))}.get(tos, float(rng.uniform(.3, 3)))
    m.case('smooth', kw, len(p))
    m.event('smooth:%s' % tos)
    before = G.snap(p)
    q = p.smooth(**kw)
    same(m, p, before)
    r = p.copy()
    r.smooth(inplace=True, **kw)
    m.check(not G.diff(G.snap(r), G.snap(q)), 'smooth-in-place')
    cols = [(p.xy[:, 0], q.xy[:, 0]), (p.xy[:, 1], q.xy[:, 1])] + ([(p.v, q.v)] if len(p.v) else [])
    m.check(len(q.v) == len(p.v) and len(q.xy) == len(p.xy), 'smooth-length')
    for a, b in cols:
        n = len(a)
        s = np.max(np.abs(a - a.mean()))
        if tos == 'uniform':
            k = size or 3
            ext = np.concatenate([np.full(k, a[0]), a, np.full(k, a[-1])])
            w = np.array([np.mean(ext[k + i - k//2:k + i - k//2 + k]) for i in range(n)])
            m.check(np.all(np.abs(b - w) <= 1e-9*(np.abs(w).max() + s)), 'smooth-average', lambda: '%s %s' % (b, w))
        elif tos in ('gaussian', None):
            sg = size or 1
            R = 60
            g = np.exp(-.5*(np.arange(-R, R + 1)/sg)**2)
            g /= g.sum()
            ext = np.concatenate([np.full(R, a[0]), a, np.full(R, a[-1])])
            w = np.array([np.sum(ext[i:i + 2*R + 1]*g) for i in range(n)])
            m.check(np.all(np.abs(b - w) <= 2e-3*s), 'smooth-gaussian', lambda: '%s %s' % (b, w))
        else:
            # zero-phase second order Butterworth filter: gain 1/2 at the cut frequency, passes the mean line
            pass
    if tos == 'lowpass':
        wn = size or .1
        n = 400
        i = np.arange(n)
        fr = float(rng.uniform(.02, .9))
        ph = rng.uniform(0, 6)
        s = Points(np.array([np.sin(np.pi*fr*i + ph), 2 + .01*i]).T, v=np.sin(np.pi*wn*i))
        o = s.smooth(tos='lowpass', size=wn)
        om, oc = np.tan(np.pi*fr/2), np.tan(np.pi*wn/2)
        g = 1/(1 + (om/oc)**4)
        c = slice(150, 250)
        m.check(np.max(np.abs(o.xy[c, 0] - g*s.xy[c, 0])) < 2e-3, 'lowpass-gain', '%s %s' % (np.max(np.abs(o.xy[c, 0])), g))
        m.check(np.max(np.abs(o.xy[c, 1] - s.xy[c, 1])) < 1e-6, 'lowpass-line')
        m.check(np.max(np.abs(o.v[c] - .5*s.v[c])) < 2e-3, 'lowpass-cut')
    m.check(G.si(q.unit_x) == G.si(p.unit_x) and G.si(q.unit_v) == G.si(p.unit_v), 'smooth-units')


@scenario('C28', 120)
def evolutions(m):
    """Values of a series of fields along points attached to times."""
    rng = m.rng
    tf = G.tf(rng, kind='s', lo=2, hi=6, maskkind='none')
    X, Y = np.meshgrid(tf.axe_x, tf.axe_y, indexing='ij')
    co = rng.normal(size=(len(tf.fields), 3))
    for f, c in zip(tf.fields, co):
        f.values = c[0]*X + c[1]*Y + c[2]
    n = int(rng.integers(1, len(tf.times) + 4))
    ks = rng.integers(0, len(tf.times), n)
    if rng.random() < .6:
        ks = rng.permutation(len(tf.times))[:n]
        n = len(ks)
    xy = np.array([rng.uniform(tf.axe_x[0], tf.axe_x[-1], n), rng.uniform(tf.axe_y[0], tf.axe_y[-1], n)]).T
    p = Points(xy, v=np.array(tf.times)[ks], unit_x=tf.unit_x, unit_y=tf.unit_y, unit_v=tf.unit_times)
    ax = G.pick(rng, ['v', 'x', 'y', None])
    if len(set(ks)) < n:
        ax = G.pick(rng, ['x', 'y'])
    m.case('evolution', n, ax, ks)
    m.event('evolution:%s' % ax)
    before = G.snap(p), G.snap(tf)
    e = p.get_evolution_on_tsf(tf, **({} if ax is None else {'axe_x': ax}))
    col, u = {'x': (xy[:, 0], tf.unit_x), 'y': (xy[:, 1], tf.unit_y)}.get(ax, (p.v, tf.unit_times))
    want = co[ks, 0]*xy[:, 0] + co[ks, 1]*xy[:, 1] + co[ks, 2]
    o = np.argsort(col)
    m.close(e.x, col[o], 'evolution-abscissa')
    m.close(e.y, want[o], 'evolution-values', rtol=1e-6, atol=1e-7)
    m.check(G.si(e.unit_x) == G.si(u) and G.si(e.unit_y) == G.si(tf.unit_values), 'evolution-units')
    same(m, p, before[0])
    same(m, tf, before[1], 'series-changed')
    m.check(len(Points().get_evolution_on_tsf(tf)) == 0, 'evolution-of-no-point')
    # a single field
    f, c = tf.fields[0], co[0]
    ax = G.pick(rng, ['x', 'y'])
    e = p.get_evolution_on_sf(f, axe_x=ax)
    col, u = {'x': (xy[:, 0], tf.unit_x), 'y': (xy[:, 1], tf.unit_y)}[ax]
    o = np.argsort(col)
    m.close(e.x, col[o], 'evolution-on-a-field-abscissa')
    m.close(e.y, (c[0]*xy[:, 0] + c[1]*xy[:, 1] + c[2])[o], 'evolution-on-a-field', rtol=1e-6, atol=1e-7)
    m.check(G.si(e.unit_x) == G.si(u), 'evolution-on-a-field-units', '%s %s' % (e.unit_x, u))


@scenario('C28', 120)
def fits(m):
    rng = m.rng
    k = int(rng.integers(0, 5))
    c = rng.normal(size=k + 1)
    n = int(rng.integers(k + 1, k + 12))
    x = np.cumsum(rng.uniform(.3, 1, n)) - 2
    xy = np.array([x, np.polyval(c, x)]).T[rng.permutation(n)]
    p = Points(xy, unit_x='mm')
    before = G.snap(p)
    kw = dict(order=k)
    if k == 2 and rng.random() < .5:
        kw = {}
    m.event('fit:%d' % k)
    m.case('fit', k, n)
    f = p.fit(**kw)
    m.check(len(f) == k + 1, 'fit-order')
    m.close(np.polyval(f, x), np.polyval(c, x), 'fit-of-a-polynomial', rtol=1e-5, atol=1e-6)
    # least squares: the residual is orthogonal to the polynomials
    y = xy[:, 1] + rng.normal(size=n)
    f = Points(np.array([xy[:, 0], y]).T).fit(order=k)
    r = y - np.polyval(f, xy[:, 0])
    for q in range(k + 1):
        b = xy[:, 0]**q
        m.check(abs(np.sum(r*b)) <= 1e-5*(np.linalg.norm(y)*np.linalg.norm(b)), 'fit-is-not-least-squares')
    same(m, p, before)


def cross(o, a, b):
    return (a[0] - o[0])*(b[1] - o[1]) - (a[1] - o[1])*(b[0] - o[0])


def hull(pts):
    """Monotone chain."""
    pts = sorted(map(tuple, pts))
    def half(ps):
        h = []
        for q in ps:
            while len(h) >= 2 and cross(h[-2], h[-1], q) <= 0:
                h.pop()
            h.append(q)
        return h[:-1]
    return half(pts) + half(pts[::-1])


@scenario('C28', 120)
def envelopes(m):
    rng = m.rng
    n = int(rng.integers(4, 30))
    sc = 10**rng.uniform(-1, 1)
    xy = rng.uniform(-1, 1, (n, 2))*sc*[1, rng.uniform(.5, 2)]
    p = Points(xy, v=rng.normal(size=n) if rng.random() < .5 else [], unit_x='mm', unit_y='m')
    before = G.snap(p)
    m.case('envelope', n)
    e = p.get_envelope()
    m.event('envelope')
    h = hull(xy)
    got = {tuple(np.round(q/sc, 9)) for q in e.xy}
    m.check({tuple(np.round(np.array(q)/sc, 9)) for q in h} <= got, 'hull-point-missing')
    m.check(got <= {tuple(np.round(q/sc, 9)) for q in xy}, 'envelope-of-other-points')
    # each point of the envelope is on the hull
    H = np.array(h + h[:1])
    for q in e.xy:
        d = min(abs(cross(a, b, q))/np.hypot(*(np.array(b) - a)) for a, b in zip(H[:-1], H[1:]))
        m.check(d <= 1e-6*sc, 'envelope-point-inside-the-hull')
    # in the order of the outline
    if np.array_equal(e.xy[0], e.xy[-1]) and len(e.xy) - 1 == len(h):
        A = .5*np.sum(e.xy[:-1, 0]*e.xy[1:, 1] - e.xy[1:, 0]*e.xy[:-1, 1])
        B = .5*np.sum(H[:-1, 0]*H[1:, 1] - H[1:, 0]*H[:-1, 1])
        m.close(abs(A), abs(B), 'envelope-order', rtol=1e-6)
    m.check(G.si(e.unit_x) == G.si(p.unit_x) and G.si(e.unit_y) == G.si(p.unit_y), 'envelope-units')
    same(m, p, before)
    # a large alpha is no alpha; a dense square with a far point: the far point is left out
    m.close(np.sort(p.get_envelope(alpha=1e6*sc).xy, axis=0), np.sort(e.xy, axis=0), 'large-alpha')
    g = np.array([[i, j] for i in range(6) for j in range(6)], dtype=float) + rng.uniform(-.05, .05, (36, 2))
    q = Points(np.concatenate([g, [[30., 2.5]]])*sc)
    a = q.get_envelope(alpha=1.5*sc)
    m.check(a.xy[:, 0].max() < 10*sc, 'far-point-in-the-envelope')
    A = .5*abs(np.sum(a.xy[:-1, 0]*a.xy[1:, 1] - a.xy[1:, 0]*a.xy[:-1, 1]))/sc**2
    m.check(22 < A < 28, 'alpha-envelope-area', A)
