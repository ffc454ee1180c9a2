"""C18: streamlines follow the flow."""
import numpy as np
from IMTreatment.core import VectorField, Points, OrientedPoints
from IMTreatment import field_treatment as FT
from vh.core import scenario, Skip
from vh import gen as G
from props.c17 import mkvf

RULE = ('Linear flows (centres, foci, nodes, saddles, shears, uniform) and smooth arbitrary flows on grids with distinct '
        'steps and extents, starting points anywhere inside (or outside), integer or real coordinates, both senses, masked '
        'patches; each segment of each line is compared with the exact motion along the interpolated flow from its first end.')
ASSUMPTIONS = ['reference motion: fourth-order Runge-Kutta with 24 substeps on the bilinear interpolation of the samples (exact on linear flows)',
               'tolerance: 1e-3 of the segment length plus 1e-5 of the domain (integrator tolerance 1e-6)',
               'a line may overshoot the border by its last step only; the values attached to the points are not claimed',
               'with distinct units on the axes only the known finding is checked']


class Flow:
    def __init__(self, f, k=(1., 1.)):
        self.x, self.y = f.axe_x, f.axe_y
        self.mask = f.mask
        self.a = np.where(f.mask, 0, f.comp_x)*k[0]
        self.b = np.where(f.mask, 0, f.comp_y)*k[1]
        self.lx, self.ly = self.x[-1] - self.x[0], self.y[-1] - self.y[0]

    def __call__(self, p):
        # clamped to the domain, as the last step may cross the border
        px = min(max(p[0], self.x[0]), self.x[-1])
        py = min(max(p[1], self.y[0]), self.y[-1])
        i = min(max(int(np.searchsorted(self.x, px)) - 1, 0), len(self.x) - 2)
        j = min(max(int(np.searchsorted(self.y, py)) - 1, 0), len(self.y) - 2)
        s = (px - self.x[i])/(self.x[i + 1] - self.x[i])
        t = (py - self.y[j])/(self.y[j + 1] - self.y[j])
        w = ((1 - s)*(1 - t), s*(1 - t), (1 - s)*t, s*t)
        r = []
        for c in (self.a, self.b):
            r.append(w[0]*c[i, j] + w[1]*c[i + 1, j] + w[2]*c[i, j + 1] + w[3]*c[i + 1, j + 1])
        return np.array(r)

    def cell_valid(self, p):
        i = min(max(int(np.searchsorted(self.x, p[0])) - 1, 0), len(self.x) - 2)
        j = min(max(int(np.searchsorted(self.y, p[1])) - 1, 0), len(self.y) - 2)
        return not self.mask[i:i + 2, j:j + 2].any()

    def inside(self, p, tol=0.):
        return (self.x[0] - tol*self.lx <= p[0] <= self.x[-1] + tol*self.lx and
                self.y[0] - tol*self.ly <= p[1] <= self.y[-1] + tol*self.ly)

    def move(self, p, t, n=24):
        h = t/n
        p = np.array(p, dtype=float)
        for _ in range(n):
            k1 = self(p)
            k2 = self(p + h/2*k1)
            k3 = self(p + h/2*k2)
            k4 = self(p + h*k3)
            p = p + h/6*(k1 + 2*k2 + 2*k3 + k4)
        return p

    def norm(self, d):
        return np.hypot(d[0]/self.lx, d[1]/self.ly)

    def follow(self, p, q):
        """(residual, time): how far q is from the trajectory through p (in domain units)."""
        d = q - p
        v = self(p)
        s = np.array([1/self.lx, 1/self.ly])
        vn = np.sum((v*s)**2)
        if vn == 0:
            return self.norm(d), 0.
        # (far ahead on a curved path the first estimate may be poor: keep the best of the iterations)
        t = np.hypot(*(d*s))/np.sqrt(vn)*np.sign(np.sum(d*v*s*s) or 1)
        best = (np.inf, 0.)
        for _ in range(12):
            e = self.move(p, t) - q
            r = self.norm(e)
            if r < best[0]:
                best = (r, t)
            w = self(e + q)*s
            if np.sum(w*w) == 0 or r < 1e-9:
                break
            t = t - np.sum(e*s*w)/np.sum(w*w)
        if best[0] > 1e-3*self.norm(d) + 1e-5:
            # the search missed it (sharp turn): scan the times
            t0 = np.hypot(*(d*s))/np.sqrt(vn)*np.sign(np.sum(d*v*s*s) or 1)
            for sg in (1, -1):
                p1, h = np.array(p, dtype=float), sg*t0/20
                for k in range(1, 120):
                    p0, p1 = p1, self.move(p1, h, 2)
                    t = h*k
                    r = self.norm(p1 - q)
                    if r < best[0]:
                        best = (r, t)
                    w = (p1 - p0)*s
                    if np.sum(w*w) > 0:
                        a = np.sum((q - p0)*s*w)/np.sum(w*w)
                        if 0 < a < 1:
                            r = self.norm(self.move(p0, a*h, 2) - q)
                            if r < best[0]:
                                best = (r, t - h + a*h)
        return best


def flow(rng, kind=None, units=None, mask=None, hi=14, lo=6):
    x = G.axis(rng, int(rng.integers(lo, hi)), uniform=True)
    y = G.axis(rng, int(rng.integers(lo, hi)), uniform=True)
    # comparable extents
    y = (y - y[0])/(y[-1] - y[0])*(x[-1] - x[0])*float(10**rng.uniform(-.5, .5)) + rng.normal()*(x[-1] - x[0])
    X, Y = np.meshgrid(x, y, indexing='ij')
    kind = kind or G.pick(rng, ['centre', 'focus', 'node', 'saddle', 'shear', 'uniform', 'any'])
    x0 = x[0] + rng.uniform(.2, .8)*(x[-1] - x[0])
    y0 = y[0] + rng.uniform(.2, .8)*(y[-1] - y[0])
    if kind == 'any':
        lx, ly = x[-1] - x[0], y[-1] - y[0]
        c = rng.normal(size=8)
        a = c[0] + np.sin(3*(X - x0)/lx + c[1]) + c[2]*np.cos(4*(Y - y0)/ly + c[3])
        b = c[4] + np.sin(4*(X - x0)/lx + c[5]) + c[6]*np.cos(3*(Y - y0)/ly + c[7])
    else:
        s = float(G.pick(rng, [-1, 1]))
        J = {'centre': [[0, -1], [rng.uniform(.3, 3), 0]], 'focus': [[.2*s, -1], [1, .2*s]],
             'node': [[1, .3], [0, rng.uniform(.4, 1)]], 'saddle': [[1, .2], [.3, -1]],
             'shear': [[0, 1], [0, 0]], 'uniform': [[0, 0], [0, 0]]}[kind]
        J = np.array(J)*s*float(10**rng.uniform(-2, 2))
        a = J[0, 0]*(X - x0) + J[0, 1]*(Y - y0)
        b = J[1, 0]*(X - x0) + J[1, 1]*(Y - y0)
        if kind in ('uniform', 'shear'):
            w = rng.normal(size=2)*(np.max(np.abs(a)) + 1)
            a, b = a + w[0], b + w[1]
    mk = np.zeros(X.shape, dtype=bool)
    if mask if mask is not None else rng.random() < .3:
        i, j = [int(rng.integers(n)) for n in X.shape]
        mk[i:i + int(rng.integers(1, 4)), j:j + int(rng.integers(1, 4))] = True
    u = G.pick(rng, G.LEN + ['', 'px'])
    return kind, mkvf(x, y, a, b, mk, units or (u, u, G.pick(rng, G.VEL)))


def starts(rng, f, n, outside=False):
    x, y = f.axe_x, f.axe_y
    p = np.array([rng.uniform(x[0], x[-1], n), rng.uniform(y[0], y[-1], n)]).T
    for q in p:
        # borders and nodes too
        if rng.random() < .15:
            q[0] = G.pick(rng, [x[0], x[-1]])
        if rng.random() < .15:
            q[1] = G.pick(rng, [y[0], y[-1]])
        if rng.random() < .1:
            q[:] = [rng.choice(x), rng.choice(y)]
    return p


def enters(F, p, back):
    """p is on a border and the flow there clearly enters the domain."""
    if not F.cell_valid(p):
        return False
    v = F(p)*(-1 if back else 1)
    vm = np.max(np.hypot(F.a, F.b))
    if np.hypot(*v) < .05*vm:
        return False
    ok = False
    for c, (lo, hi) in enumerate(((F.x[0], F.x[-1]), (F.y[0], F.y[-1]))):
        if p[c] == lo:
            ok = True
            if v[c] < .05*vm:
                return False
        if p[c] == hi:
            ok = True
            if v[c] > -.05*vm:
                return False
    return ok


def judge(m, rng, F, L, start, back, sig, length_step=None, maxpts=1001, nseg=12):
    xy = np.asarray(L.xy)
    m.check(F.norm(xy[0] - start) <= 1e-9, sig + '-start', lambda: '%s want %s' % (xy[0], start))
    ins = np.array([F.inside(p, 1e-9) for p in xy])
    m.check(ins[:-1].all(), sig + '-leaves-the-field', lambda: xy[~ins])
    m.event(sig + '-points', len(xy))
    ks = rng.permutation(len(xy) - 1)[:nseg] if len(xy) > 1 else []
    good = 0
    for k in ks:
        p, q = xy[k], xy[k + 1]
        if not (F.cell_valid(p) and F.cell_valid(q)):
            continue
        v = F(p)
        if np.hypot(*v) < 1e-6*np.max(np.hypot(F.a, F.b)):
            continue
        if not ins[k + 1]:
            # partly outside, where the interpolation is not defined: direction only
            d = q - p
            m.check(np.sum(d*v)*(-1 if back else 1) > 0, sig + '-sense')
            continue
        # next to a stagnation point a step may turn around it
        w = F(q)
        nv, nw = np.hypot(*v), np.hypot(*w)
        if np.sum(v*w) < .7*nv*nw or not .4 < nv/nw < 2.5:
            m.event(sig + '-segments-next-to-stagnation')
            continue
        r, t = F.follow(p, q)
        m.check(r <= 1e-3*F.norm(q - p) + 1e-5, sig + '-direction', lambda: '%s -> %s off by %s (t=%s) v=%s' % (p, q, r, t, v))
        m.check((t < 0) == back, sig + '-sense', lambda: '%s -> %s t=%s' % (p, q, t))
        good += 1
    m.event(sig + '-segments', good)
    return ins


@scenario('C18', 120, 3000)
def streamlines(m):
    rng = m.rng
    kind, f = flow(rng)
    n = int(rng.integers(1, 4))
    st = starts(rng, f, n)
    kw = {}
    back = bool(rng.random() < .5)
    if back or rng.random() < .5:
        kw['reverse'] = back
    which = G.pick(rng, ['stream', 'stream', 'track', 'field'])
    fun = {'stream': FT.get_streamlines, 'track': FT.get_tracklines, 'field': FT.get_fieldlines}[which]
    if rng.random() < .3:
        # integer coordinates, inside
        lo, hi = np.ceil([f.axe_x[0], f.axe_y[0]]), np.floor([f.axe_x[-1], f.axe_y[-1]])
        if np.all(hi > lo) and np.all(np.abs(hi) < 1e6):
            st = np.array([rng.integers(lo[0], hi[0] + 1, n), rng.integers(lo[1], hi[1] + 1, n)]).T
    steps = 1000
    if rng.random() < .95:
        steps = kw['max_steps'] = int(rng.integers(3, 60)) if rng.random() < .5 else 200
    res = .25
    if rng.random() < .3:
        res = kw['resolution'] = float(rng.uniform(.1, .6))
    timed = bool(rng.random() < .25)
    if timed:
        kw['resolution_kind'] = 'time'
        res = kw['resolution'] = float(rng.uniform(.01, .08))
    hide = bool(rng.random() < .15)
    ref = mkvf(f.axe_x, f.axe_y, *{'stream': (f.comp_x, f.comp_y), 'track': (-f.comp_y, f.comp_x),
                                   'field': (f.comp_y, -f.comp_x)}[which], f.mask, (f.unit_x, f.unit_y, f.unit_values))
    m.case(kind, which, G.tdesc(f), st.tolist(), kw)
    s0 = G.snap(f)
    single = n == 1 and rng.random() < .5
    given = st[0] if single else st
    given = given.tolist() if rng.random() < .5 else given
    keep = np.array(given, copy=True)
    L = fun(f, given, **kw)
    if hide:
        a = [L] if isinstance(L, Points) else list(L)
        b = fun(f, given, boundary_tr='hide', **kw)
        b = [b] if isinstance(b, Points) else list(b)
        Fh = Flow(ref)
        a = [l for l in a if Fh.inside(l.xy[-1], 1e-12)]
        m.event('hidden', n - len(b))
        m.check(len(a) == len(b) and all(np.array_equal(p.xy, q.xy) for p, q in zip(a, b)), 'lines-meeting-the-border-are-not-those-hidden')
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    m.check(np.array_equal(keep, np.array(given)), 'starting-points-changed')
    L = [L] if isinstance(L, Points) else list(L)
    if not m.check(len(L) == n, 'one-line-per-start', len(L)):
        return
    F = Flow(ref)
    vmax = np.max(np.hypot(F.a, F.b))
    for l, s in zip(L, st):
        m.check(G.si(l.unit_x) == G.si(f.unit_x) and G.si(l.unit_y) == G.si(f.unit_y), 'units')
        ins = judge(m, rng, F, l, np.array(s, dtype=float), back, which)
        xy = np.asarray(l.xy)
        m.check(len(xy) <= steps + 1, 'more-than-max-steps', len(xy))
        # why did it stop
        p = xy[-1]
        ok = (not F.inside(p, -1e-9) or len(xy) >= steps or not F.cell_valid(p) or np.hypot(*F(p)) < 2e-2*vmax)
        if timed:
            # evenly spaced in time; slow particles are stopped
            hx, hy = 1./(len(F.x) - 1), 1./(len(F.y) - 1)
            unit = F.ly/vmax
            ok = ok or F.norm(F(p))*unit*res < max(hx, hy)/10
            ts = []
            for k in rng.permutation(len(xy) - 1)[:4]:
                a, b = xy[k], xy[k + 1]
                if F.inside(b, 1e-9) and F.cell_valid(a) and F.cell_valid(b) and np.sum(F(a)*F(b)) > .9*np.hypot(*F(a))*np.hypot(*F(b)) > 0:
                    r, t = F.follow(a, b)
                    if r < 1e-5 and F.norm(b - a) > 1e-2:
                        ts.append(abs(t))
            if len(ts) > 1:
                m.event('timed-segments', len(ts))
                m.close(ts, [np.mean(ts)]*len(ts), 'points-not-evenly-spaced-in-time', rtol=.02)
        if len(xy) == 1 and not timed:
            m.check(not enters(F, np.array(s, dtype=float), back), 'line-starting-on-the-border-does-not-start', lambda: '%s' % s)
        m.check(ok, 'stops-for-no-reason', lambda: '%s of %d' % (p, len(xy)))
        if f.mask.any() and len(xy) > 1:
            # no point but the last one lies in the cell of a masked node
            fx, fy = [(xy[:-1, c] - a[0])/(a[1] - a[0]) for c, a in enumerate((F.x, F.y))]
            sure = (np.abs(fx % 1 - .5) > 1e-6) & (np.abs(fy % 1 - .5) > 1e-6)
            ix = np.clip(np.round(fx).astype(int), 0, len(F.x) - 1)
            iy = np.clip(np.round(fy).astype(int), 0, len(F.y) - 1)
            m.event('points-next-to-masks', int(sure.sum()))
            m.check(not (f.mask[ix, iy] & sure).any(), 'continues-in-a-masked-zone')
        if not timed and len(xy) > 2:
            # points are spaced by the asked resolution wherever the speed is even
            dxy = np.mean([1./(len(F.x) - 1), 1./(len(F.y) - 1)])
            vtop = np.nanmax(np.where(f.mask, 0., np.hypot(f.comp_x, f.comp_y)))
            for k in rng.permutation(len(xy) - 1)[:12]:
                a, b = xy[k], xy[k + 1]
                if F.inside(b, 1e-9) and F.cell_valid(a) and F.cell_valid(b):
                    va, vb = F(a), F(b)
                    if np.hypot(*va) > .05*vtop and np.sum(va*vb) > .95*np.hypot(*va)*np.hypot(*vb) and .8*np.hypot(*va) < np.hypot(*vb) < 1.25*np.hypot(*va):
                        q = F.norm(b - a)/(res*dxy)
                        m.event('spaced-segments')
                        m.check(.6 < q < 1.6, 'points-not-spaced-by-the-resolution', lambda: '%s times the resolution' % q)
        d = np.diff(xy, axis=0)
        if len(d) and kind == 'uniform' and not f.mask.any():
            h = F.norm(d[0])
            m.event('uniform-steps', len(d))
            hx, hy = 1./(len(F.x) - 1), 1./(len(F.y) - 1)
            if not timed:
                m.check(res*min(hx, hy)*.98 <= h <= res*max(hx, hy)*1.02, 'step-is-not-the-resolution', lambda: '%s, %s of %s %s' % (h, res, hx, hy))
            m.check(all(abs(F.norm(q) - h) <= 1e-3*h for q in d), 'uniform-steps')


@scenario('C18', 120, 3000)
def fast(m):
    rng = m.rng
    kind, f = flow(rng)
    n = int(rng.integers(1, 4))
    st = starts(rng, f, n)
    back = bool(rng.random() < .5)
    kw = dict(reverse=back)
    delta = .25
    if rng.random() < .5:
        delta = kw['delta'] = float(rng.uniform(.1, 1.))
    if rng.random() < .4:
        kw['interp'] = G.pick(rng, ['linear', 'cubic'])
    if kw.get('interp') == 'cubic' and (kind == 'any' or f.mask.any()):
        kw['interp'] = 'linear'
    m.case(kind, G.tdesc(f), st.tolist(), kw)
    s0 = G.snap(f)
    L = FT.get_streamlines_fast(f, st if n > 1 or rng.random() < .5 else st[0], **kw)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    L = [L] if isinstance(L, Points) else list(L)
    if not m.check(len(L) == n, 'one-line-per-start', len(L)):
        return
    F = Flow(f)
    h = delta*(F.lx/len(f.axe_x) + F.ly/len(f.axe_y))/2
    for l, s in zip(L, st):
        m.check(G.si(l.unit_x) == G.si(f.unit_x) and G.si(l.unit_y) == G.si(f.unit_y), 'units')
        xy = np.asarray(l.xy)
        m.check(F.norm(xy[0] - s) <= 1e-9, 'fast-start')
        ins = np.array([F.inside(p, 1e-9) for p in xy])
        m.check(ins[:-1].all(), 'fast-leaves-the-field')
        m.event('fast-points', len(xy))
        for p, q in zip(xy[:-1], xy[1:]):
            if not F.cell_valid(p):
                continue
            v = F(p)*(-1 if back else 1)
            nv = np.hypot(*v)
            if nv < 1e-6*np.max(np.hypot(F.a, F.b)):
                continue
            m.check(np.hypot(*(q - p - v/nv*h)) <= 1e-6*h, 'fast-direction', lambda: '%s -> %s v %s h %s' % (p, q, v, h))
            m.check(abs(np.hypot(*(q - p)) - h) <= 1e-6*h, 'fast-step')
        if len(xy) == 1:
            m.check(not enters(F, s, back), 'fast-line-starting-on-the-border-does-not-start')
        if not f.mask.any():
            p = xy[-1]
            why = not F.inside(p, -1e-9) or np.hypot(*F(p)) < 1e-9
            # all the allowed points, or back on its own path
            why = why or len(xy) >= int(np.round((len(F.x) + len(F.y))/delta)) - 2
            if len(xy) > 15:
                why = why or np.min(np.hypot(*(xy[:-10] - p).T)) < .75*h
            m.event('fast-ends')
            m.check(why, 'fast-stops-for-no-reason', lambda: '%s after %d points' % (p, len(xy)))


@scenario('C18', 60, 1000)
def outside_and_stagnation(m):
    rng = m.rng
    kind, f = flow(rng, kind='centre', mask=False)
    F = Flow(f)
    out = np.array([f.axe_x[0] - F.lx*rng.uniform(.01, 1), f.axe_y[0] + F.ly*rng.random()])
    inn = starts(rng, f, 1)[0]
    o = int(rng.integers(2))
    st = [out, inn] if o else [inn, out]
    m.case(G.tdesc(f), st)
    for name, fun in (('', FT.get_streamlines), ('fast-', FT.get_streamlines_fast)):
        L = fun(f, st, **({} if name else {'max_steps': 30}))
        L = [L] if isinstance(L, Points) else list(L)
        m.check(len(L) == 1 and F.norm(L[0].xy[0] - inn) <= 1e-9, name + 'outside-start')
    # a flow at rest at the starting point
    i, j = 1 + int(rng.integers(len(f.axe_x) - 2)), 1 + int(rng.integers(len(f.axe_y) - 2))
    x0, y0 = f.axe_x[i], f.axe_y[j]
    X, Y = np.meshgrid(f.axe_x, f.axe_y, indexing='ij')
    g = mkvf(f.axe_x, f.axe_y, -(Y - y0), X - x0, False, (f.unit_x, f.unit_y, f.unit_values))
    for name, fun in (('', FT.get_streamlines), ('fast-', FT.get_streamlines_fast)):
        L = fun(g, [x0, y0])
        L = [L] if isinstance(L, Points) else list(L)
        ok = len(L) == 1 and all(F.norm(p - np.array([x0, y0])) < 1e-3 for p in L[0].xy)
        m.check(ok, name + 'stagnation-start', lambda: [l.xy for l in L])


@scenario('C18', 40, 600)
def oriented(m):
    rng = m.rng
    kind, f = flow(rng)
    F = Flow(f)
    n, nd = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    xy = starts(rng, f, n)
    ori = rng.normal(size=(n, nd, 2))
    ori[rng.random((n, nd)) < .25] = 0.
    p = OrientedPoints(xy, orientations=ori, unit_x=f.unit_x, unit_y=f.unit_y)
    delta = float(rng.choice([.1, .25, .5]))
    back = bool(rng.random() < .5)
    m.case(G.tdesc(f), xy, ori, delta, back)
    snap = G.snap([p, f])

    def lst(L):
        return [] if L is None else [L] if isinstance(L, Points) else list(L)

    def same(A, B, sig):
        ok = len(A) == len(B) and all(a.xy.shape == b.shape and np.allclose(a.xy, b) for a, b in zip(A, B))
        m.check(ok, sig, lambda: ([a.xy for a in A], B))
        for a in A:
            m.check(a.unit_x == f.unit_x and a.unit_y == f.unit_y, sig + '-units')
    same(lst(p.get_streamlines(f, delta=delta, reverse_direction=back)),
         [l.xy for l in lst(FT.get_streamlines(f, [list(q) for q in xy], reverse=back, resolution=delta))], 'oriented-lines')
    backs = [bool(b) for b in rng.random(nd) < .5]
    dx, dy = f.axe_x[1] - f.axe_x[0], f.axe_y[1] - f.axe_y[0]
    for bk in (back, tuple(backs)):
        want = []
        for i in range(n):
            for k in range(nd):
                if not ori[i, k].any():
                    continue
                b = bk if isinstance(bk, bool) else bk[k]
                for s in (-1, 1):
                    q = xy[i] + s*.25*ori[i, k]*[dx, dy]
                    if not F.inside(q):
                        continue
                    for l in lst(FT.get_streamlines(f, q, reverse=b, resolution=delta)):
                        want.append(np.append([xy[i]], l.xy, axis=0))
        same(lst(p.get_streamlines_from_orientations(f, delta=delta, reverse_direction=bk)), want, 'orientation-lines')
        m.event('orientation_lines', len(want))
    m.check(G.diff(G.snap([p, f]), snap) is None, 'oriented-inputs-changed')
    m.raises(lambda: p.get_streamlines_from_orientations(f, reverse_direction=(True,)*(nd + 1)), 'oriented-directions')


@scenario('C18', 40, 500)
def mixed_units(m):
    rng = m.rng
    u = G.pick(rng, [('m', 'mm'), ('mm', 'm'), ('cm', 'm'), ('m', 'cm')])
    kind, f = flow(rng, mask=False, kind=G.pick(rng, ['uniform', 'centre', 'saddle']), units=(u[0], u[1], 'm/s'))
    st = starts(rng, f, 1)
    m.case(kind, G.tdesc(f), st.tolist())
    L = FT.get_streamlines(f, st, max_steps=100)
    L = L if isinstance(L, Points) else L[0]
    if len(L.xy) < 3:
        raise Skip()
    P = Flow(f, (1., G.fac(f.unit_x)/G.fac(f.unit_y)))
    R = Flow(f)
    seg = list(zip(L.xy[:-2], L.xy[1:-1]))
    seg = [seg[i] for i in rng.permutation(len(seg))[:20]]
    bad = lambda F: any(F.follow(p, q)[0] > 1e-3*F.norm(q - p) + 1e-5 for p, q in seg)
    if bad(P):
        m.check(False, 'streamline-mixes-the-units-of-x-and-y' if not bad(R) else 'streamline-direction')
    else:
        m.check(True, 'streamline-direction')
