"""C31: particle displacements and finite-time Lyapunov exponents."""
import numpy as np
from scipy.linalg import expm
from IMTreatment.core import VectorField
from IMTreatment.vortex_criterions import FTLE
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Steady linear flows (uniform, rotation, strain, shear, sinks, random matrices) and smooth arbitrary flows on even and uneven grids of any scale and unit, '
        'particles anywhere, forward and backward times from a fraction of a cell to several domain crossings; displacements are compared with the matrix exponential '
        'or an independent fine integration, exponents with the largest stretching of the exact flow map.')
ASSUMPTIONS = ['same unit on both axes', 'time given as a number, in the unit of length over the unit of velocity',
               'a particle that comes within a thousandth of the border is not claimed to be in or out',
               'exponents: at points whose neighbours (one step) stay inside; linear flows']
SIG = dict(uniform=None)


def flow(rng):
    """A (2x2), offset: V = A x + b"""
    k = G.pick(rng, ['uniform', 'rotation', 'strain', 'shear', 'sink', 'any', 'any'])
    s = float(rng.uniform(.3, 2)*(1 if rng.random() < .5 else -1))
    A = dict(uniform=np.zeros((2, 2)), rotation=np.array([[0, -s], [s, 0]]), strain=np.array([[s, 0], [0, -s]]),
             shear=np.array([[0, s], [0, 0]]), sink=s*np.eye(2), any=rng.normal(size=(2, 2)))[k]
    if k == 'strain':
        c, q = np.cos(s), np.sin(s)
        R = np.array([[c, -q], [q, c]])
        A = R @ A @ R.T
    return k, A


def build(rng, linear=True):
    nx, ny = int(rng.integers(5, 14)), int(rng.integers(5, 14))
    L = float(10**rng.uniform(-3, 3))           # length scale
    W = float(10**rng.uniform(-3, 3))           # velocity scale
    x = np.linspace(-1, 1, nx)
    y = np.linspace(-1, 1, ny)*float(rng.uniform(.6, 1.6))
    if rng.random() < .3:
        x = np.sort(np.concatenate([[-1, 1], rng.uniform(-.9, .9, nx - 2)]))
        if np.min(np.diff(x)) < .03:
            raise Skip
    o = rng.normal(size=2)*2
    X, Y = np.meshgrid(x, y, indexing='ij')
    if linear:
        kind, A = flow(rng)
        c = rng.uniform(-.5, .5, 2)
        b = rng.normal(size=2) if kind == 'uniform' else -A @ c
        U, V = A[0, 0]*X + A[0, 1]*Y + b[0], A[1, 0]*X + A[1, 1]*Y + b[1]
    else:
        kind, A, b = 'arbitrary', None, None
        p = rng.normal(size=8)
        U = p[0] + p[1]*np.sin(2*Y + p[2]) + p[3]*np.cos(1.5*X + p[4])
        V = p[5] + p[6]*np.sin(2*X + p[7]) + p[3]*np.cos(1.5*Y - p[4])
    ul, uv = G.pick(rng, G.LEN), G.pick(rng, G.VEL)
    vf = VectorField()
    vf.import_from_arrays((x + o[0])*L, (y + o[1])*L, U*W, V*W, unit_x=ul, unit_y=ul, unit_values=uv)
    return vf, dict(x=x, y=y, U=U, V=V, o=o, L=L, W=W, A=A, b=b, kind=kind)


def velocity(d):
    x, y, U, V = d['x'], d['y'], d['U'], d['V']

    def f(p):
        i = min(max(np.searchsorted(x, p[0], side='right') - 1, 0), len(x) - 2)
        j = min(max(np.searchsorted(y, p[1], side='right') - 1, 0), len(y) - 2)
        a, b = (p[0] - x[i])/(x[i + 1] - x[i]), (p[1] - y[j])/(y[j + 1] - y[j])
        w = ((1 - a)*(1 - b), a*(1 - b), (1 - a)*b, a*b)
        return np.array([w[0]*q[i, j] + w[1]*q[i + 1, j] + w[2]*q[i, j + 1] + w[3]*q[i + 1, j + 1] for q in (U, V)])
    return f


def path(d, p, t, n=300):
    """Positions (n+1) along the exact motion; None beyond the field."""
    if d['A'] is not None:
        M = np.zeros((3, 3))
        M[:2, :2], M[:2, 2] = d['A'], d['b']
        E = expm(M*t/n)
        q = [np.append(p, 1.)]
        for _ in range(n):
            q.append(E @ q[-1])
        return np.array(q)[:, :2]
    f = velocity(d)
    h = t/n
    q = [np.array(p, dtype=float)]
    for _ in range(n):
        z = q[-1]
        if not margin(d, z) > -.5:
            q.append(z)
            continue
        k1 = f(z)
        k2 = f(z + h/2*k1)
        k3 = f(z + h/2*k2)
        k4 = f(z + h*k3)
        q.append(z + h/6*(k1 + 2*k2 + 2*k3 + k4))
    return np.array(q)


def margin(d, p):
    """Distance to the border (positive inside)."""
    p = np.atleast_2d(p)
    return np.min(np.column_stack([p[:, 0] - d['x'][0], d['x'][-1] - p[:, 0], p[:, 1] - d['y'][0], d['y'][-1] - p[:, 1]]))


def duration(rng, d):
    v = np.max(np.hypot(d['U'], d['V']))
    t = float(10**rng.uniform(-1.3, .6))/v
    return t if rng.random() < .6 else -t


@scenario('C31', 200)
def displacement(m):
    rng = m.rng
    vf, d = build(rng, rng.random() < .6)
    F = FTLE(vf, interp='cubic' if d['A'] is not None and rng.random() < .3 else 'linear')
    before = G.snap(vf)
    t = duration(rng, d)
    re = float(G.pick(rng, [1e-5, 1e-6, 1e-8]))
    kw = dict(rel_err=re)
    if rng.random() < .2:
        kw, re = {}, 1e-5
    m.case(d['kind'], vf.shape, d['L'], d['W'], t, re)
    for _ in range(3):
        p = np.array([rng.uniform(d['x'][0], d['x'][-1]), rng.uniform(d['y'][0], d['y'][-1])])
        if rng.random() < .2:
            p = np.array([G.pick(rng, list(d['x'][1:-1])), G.pick(rng, list(d['y'][1:-1]))])
        q = path(d, p, t)
        P = (p + d['o'])*d['L']
        got, out = F.get_pts_displacement(G.pick(rng, [tuple, list, np.array])(P), t*d['L']/d['W'], **kw)
        got = np.asarray(got)/d['L'] - d['o']
        mg = [margin(d, z) for z in q]
        if min(mg) > 1e-3:
            m.event('stays-inside')
            m.check(not out, 'particle-said-to-leave', lambda: '%s from %s in %s' % (d['kind'], p, t))
            ln = np.sum(np.hypot(*np.diff(q, axis=0).T))
            grow = np.exp(abs(t)*4.) if d['A'] is None else max(1., np.linalg.norm(expm(d['A']*t), 2))
            tol = ((1e-6 if d['A'] is not None else 3e-3) + 30*re)*grow*ln + 1e-9
            m.check(np.hypot(*(got - q[-1])) < tol, 'displacement', lambda: '%s: %s to %s, got %s (path %g)' % (d['kind'], p, q[-1], got, ln))
        elif mg[-1] < -1e-3:
            m.event('leaves')
            m.check(bool(out), 'particle-said-to-stay', lambda: '%s from %s to %s' % (d['kind'], p, q[-1]))
            m.check(margin(d, got) <= 1e-9, 'stopped-before-the-border', lambda: '%s' % got)
    m.check(not G.diff(before, G.snap(vf)), 'field-changed')


@scenario('C31', 100)
def exponents(m):
    rng = m.rng
    vf, d = build(rng)
    F = FTLE(vf)
    before = G.snap(vf)
    t = duration(rng, d)
    res = int(rng.integers(3, 8))
    rxy = (res, res)
    if rng.random() < .5:
        rxy = (res, int(rng.integers(3, 8)))
        res = list(rxy) if rng.random() < .5 else rxy
    T = t*d['L']/d['W']
    m.case(d['kind'], vf.shape, d['L'], d['W'], t, res)
    r = F.get_FTLE(res, T, rel_err=1e-8)
    m.check(not G.diff(before, G.snap(vf)), 'field-changed')
    ok = isinstance(r.unit_x, type(vf.unit_x)) and G.si(r.unit_x) == G.si(vf.unit_x) and G.si(r.unit_y) == G.si(vf.unit_y)
    m.check(ok, 'units-of-the-axes')
    m.check(G.dim(r.unit_values) == {'T': -1} or G.dim(r.unit_values) == G.dimmul(G.dim(vf.unit_values), G.dim(vf.unit_x), -1),
            'unit-of-the-exponent', lambda: str(r.unit_values))
    m.check(r.axe_x[0] >= vf.axe_x[0] and r.axe_x[-1] <= vf.axe_x[-1] and r.axe_y[0] >= vf.axe_y[0] and r.axe_y[-1] <= vf.axe_y[-1],
            'points-outside-the-field')
    # spacing asked along each axis
    for ax, full, n in ((r.axe_x, vf.axe_x, rxy[0]), (r.axe_y, vf.axe_y, rxy[1])):
        m.check(abs(len(ax) - n) <= 1, 'resolution', lambda: '%d points along an axis for %s' % (len(ax), n))
        m.close(np.diff(ax), np.full(len(ax) - 1, ax[1] - ax[0]), 'even-spacing', rtol=1e-6)
    S = expm(d['A']*t)
    want = np.log(np.linalg.svd(S)[1][0])/abs(t)*d['W']/d['L']
    want *= G.fac(vf.unit_values)/G.fac(vf.unit_x)
    got = r.values*G.fac(r.unit_values)
    nx, ny = r.shape
    st = np.zeros((nx, ny))
    for i in range(nx):
        for j in range(ny):
            p = np.array([r.axe_x[i], r.axe_y[j]])/d['L'] - d['o']
            q = path(d, p, t, 60)
            mg = [margin(d, z) for z in q]
            st[i, j] = 1 if min(mg) > 1e-3 else (-1 if mg[-1] < -1e-3 else 0)
    sc = max(abs(want), (np.abs(d['A']).max() + 1e-3/abs(t))*d['W']/d['L']*G.fac(vf.unit_values)/G.fac(vf.unit_x))
    for i in range(nx):
        for j in range(ny):
            near = [(max(i - 1, 0), j), (min(i + 1, nx - 1), j), (i, max(j - 1, 0)), (i, min(j + 1, ny - 1)), (i, j)]
            s = [st[q] for q in near]
            if min(s) == 1:
                m.event('exponents')
                if m.check(not r.mask[i, j], 'valid-point-masked', lambda: '%s %s' % (i, j)):
                    m.check(abs(got[i, j] - want) < 1e-4*sc, 'exponent', lambda: '%s: got %r want %r' % (d['kind'], got[i, j], want))
            elif min(s[:4]) == -1:
                m.event('next-to-a-particle-that-left')
                m.check(bool(r.mask[i, j]), 'point-next-to-a-lost-particle-not-masked', lambda: '%s %s' % (i, j))
    X, Y = F.get_displaced_point_field(res, T, rel_err=1e-8)
    m.check(X.shape == r.shape, 'displaced-points-shape')
    M = np.ma.getmaskarray(X)
    for i in range(nx):
        for j in range(ny):
            if st[i, j]:
                m.check(bool(M[i, j]) == (st[i, j] < 0), 'displaced-points-mask')
            if st[i, j] > 0 and not M[i, j]:
                p = np.array([r.axe_x[i], r.axe_y[j]])/d['L'] - d['o']
                q = path(d, p, t, 20)[-1]
                g = np.array([X[i, j], Y[i, j]])/d['L'] - d['o']
                m.check(np.hypot(*(g - q)) < 1e-5, 'displaced-points', lambda: '%s want %s' % (g, q))


@scenario('C31', 30)
def refused(m):
    rng = m.rng
    vf, d = build(rng, rng.random() < .5)
    m.case('refused', vf.shape)
    F = FTLE(vf)
    P = (vf.axe_x[1], vf.axe_y[1])
    m.raises(lambda: F.get_pts_displacement(P, 0), 'null-time')
    m.raises(lambda: F.get_pts_displacement(P, 1., rel_err=-1), 'negative-error')
    m.raises(lambda: F.get_pts_displacement(P + (1.,), 1.), 'three-coordinates')
    m.raises(lambda: FTLE(vf.magnitude_as_sf), 'scalar-field')
    # particles at rest stay where they are
    z = vf.copy()
    z.comp_x = z.comp_x*0
    z.comp_y = z.comp_y*0
    got, out = FTLE(z).get_pts_displacement(P, float(rng.uniform(.1, 10)))
    m.close(got, P, 'particle-at-rest-moves')
    m.check(not out, 'particle-at-rest-leaves')
    # a field with masked zones: refused or answered, never silent nonsense
    k = vf.copy()
    mk = np.zeros(k.shape, dtype=bool)
    mk[int(rng.integers(k.shape[0])), int(rng.integers(k.shape[1]))] = True
    k.mask = mk
    try:
        q, out = FTLE(k).get_pts_displacement(P, .1*d['L']/d['W'])
    except (ValueError, TypeError):
        m.event('masked-field-refused')
        m.check(True, 'masked-field')
    else:
        m.check(np.all(np.isfinite(q)), 'masked-field', lambda: '%s' % (q,))
