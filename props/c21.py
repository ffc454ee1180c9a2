"""C21: critical points are found at their place and type."""
import numpy as np
from IMTreatment.core import VectorField, TemporalVectorFields, OrientedPoints
from IMTreatment import vortex_detection as VD
from IMTreatment import vortex_criterions as VC
from vh.core import scenario, Skip
from vh import gen as G
from props.c17 import mkvf

RULE = ('Linear flows of every type (either sense of rotation, node in/out, saddle, spirals) with random centre, strengths and grid '
        'steps, periodic flows with many vortices/nodes and saddles, gaussian vortices, and flows without critical points; every '
        'detection kind. The detected set is matched one to one with the planted structures.')
ASSUMPTIONS = ['evenly spaced grids, axes of the same unit (the type of a point is a property of the numbers otherwise)',
               'planted structures are not on a grid line within 2% of a step unless said otherwise, and at least a window away from the border',
               'pbi_crit and gam_vort refine positions with windowed criteria: position within one or two steps']

TYPES = ['foc', 'foc_c', 'node_i', 'node_o', 'sadd']


def grid(rng, nx, ny, lo=.2, hi=5.):
    dx = 10**rng.uniform(-2, 2)
    dy = dx*(rng.uniform(lo, hi) if rng.random() < .7 else 1.)
    return (np.arange(nx) + rng.uniform(-9, 9))*dx, (np.arange(ny) + rng.uniform(-9, 9))*dy, dx, dy


def jac(rng, kind):
    """A jacobian well inside its class."""
    for _ in range(1000):
        J = rng.normal(size=(2, 2))
        if rng.random() < .25:
            # pure motifs
            w, s = rng.uniform(.3, 2), rng.uniform(0, .4)
            J = {'foc': [[0, -w], [w, 0]], 'foc_c': [[0, w], [-w, 0]], 'node_i': [[-w, 0], [0, -w*(1 + s)]],
                 'node_o': [[w, 0], [0, w*(1 + s)]], 'sadd': [[w, 0], [0, -w*(1 + s)]]}[kind]
            J = np.array(J, dtype=float)
            if kind == 'sadd':
                t = rng.uniform(0, np.pi)
                R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
                J = R @ J @ R.T
            return J
        tr, det = np.trace(J), np.linalg.det(J)
        disc = tr**2/4 - det
        n2 = np.sum(J**2)
        if abs(det) < .1*n2:
            continue
        if kind == 'sadd' and det < 0:
            return J
        if det > 0 and kind in ('foc', 'foc_c') and disc < -.03*n2 and (J[1, 0] > 0) == (kind == 'foc'):
            return J
        if det > 0 and disc > .02*n2 and kind in ('node_i', 'node_o') and (tr > 0) == (kind == 'node_o'):
            return J
    raise Skip


def points(cp, k=0):
    """{type: array of positions} of the instant k."""
    return {t: np.array(getattr(cp, t)[k].xy, dtype=float).reshape(-1, 2) for t in TYPES}


def match(m, sig, got, want, tol, detail, strict=True):
    """One-to-one matching of detected and planted points, type by type.
    want: list of (type, xy, must) - `must` False: may or may not be found (near the border)."""
    ok = True
    for t in TYPES:
        g = list(got[t])
        for ty, xy, must in want:
            if ty != t:
                continue
            d = [np.max(np.abs(p - xy)/tol) for p in g]
            if d and min(d) <= 1:
                g.pop(int(np.argmin(d)))
                m.event('found:' + t)
            elif must:
                ok = m.check(False, sig + ':missed#' + t, '%s: %s at %s not in %s' % (detail, t, xy, got)) and ok
        if strict:
            ok = m.check(not g, sig + ':spurious#' + t, '%s: %s at %s, planted %s' % (detail, t, g, want)) and ok
    m.check(ok, sig)
    return ok


def frac(rng, special=False):
    return float(rng.choice([0., .5, .25, .75])) if special else float(rng.uniform(.02, .98))


@scenario('C21', 400)
def linear(m):
    rng = m.rng
    kind = G.pick(rng, TYPES)
    meth = G.pick(rng, ['pbi', 'pbi', 'pbi', 'pbi_cell', 'pbi_cell', 'pbi_crit'])
    nx, ny = int(rng.integers(12, 17)), int(rng.integers(12, 17))
    if meth != 'pbi_crit':
        nx, ny = int(rng.integers(4, 12)), int(rng.integers(4, 12))
    x, y, dx, dy = grid(rng, nx, ny, .5 if meth == 'pbi_crit' else .2, 2. if meth == 'pbi_crit' else 5.)
    pad = 5 if meth == 'pbi_crit' else 0
    i, j = int(rng.integers(pad, nx - 1 - pad)), int(rng.integers(pad, ny - 1 - pad))
    special = meth == 'pbi' and rng.random() < .2
    fx, fy = frac(rng, special), frac(rng, special)
    if special and 0. in (fx, fy):
        # on a grid line: the neighbouring cells must exist
        fx, fy = [q if q else .5 for q in (fx, fy)]
    c = np.array([x[i] + fx*dx, y[j] + fy*dy])
    J = jac(rng, kind)
    if kind in ('node_i', 'node_o') and meth == 'pbi_crit':
        # near-isotropic nodes: the windowed criterion is meant for them
        J = np.eye(2)*(1 if kind == 'node_o' else -1)*rng.uniform(.3, 2)
    if kind in ('foc', 'foc_c') and meth == 'pbi_crit':
        w = rng.uniform(.3, 2)*(1 if kind == 'foc' else -1)
        J = np.array([[rng.uniform(-.2, .2)*abs(w), -w], [w*rng.uniform(.8, 1.2), 0.]])
    s = 10**rng.uniform(-3, 3)
    X, Y = np.meshgrid(x, y, indexing='ij')
    u = s*(J[0, 0]*(X - c[0]) + J[0, 1]*(Y - c[1]))/dx
    v = s*(J[1, 0]*(X - c[0]) + J[1, 1]*(Y - c[1]))/dx
    un = G.pick(rng, G.LEN)
    f = mkvf(x, y, u, v, False, (un, un, G.pick(rng, G.VEL)))
    before = G.snap(f)
    t = float(rng.integers(0, 9))
    cp = VD.get_critical_points(f, time=t, unit_time='s', kind=meth)
    m.case(meth, kind, 'J', J.tolist(), 'cell', (i, j), 'frac', (fx, fy), 'steps', (dx, dy))
    m.event('kind:%s:%s' % (meth, kind))
    m.check(not G.diff(before, G.snap(f)), 'input-changed')
    m.check(list(cp.times) == [t] and str(cp.unit_time.strUnit()) == '[s]', 'time-of-the-points')
    m.check(cp.unit_x.strUnit() == f.unit_x.strUnit() and cp.unit_y.strUnit() == f.unit_y.strUnit(), 'unit-of-the-points')
    if meth == 'pbi':
        want, tol = c, np.array([dx, dy])*1e-4
    elif meth == 'pbi_cell':
        want, tol = np.array([x[i] + dx/2, y[j] + dy/2]), np.array([dx, dy])*1e-6
    else:
        want, tol = c, np.array([dx, dy])*1.01
    det = '%s %s J=%s frac=(%s, %s) cell=(%s, %s) steps=(%s, %s)' % (meth, kind, J.tolist(), fx, fy, i, j, dx, dy)
    ok = match(m, 'linear-flow', points(cp), [(kind, want, True)], tol, det)
    # orientations of saddles: the true axes (unstable first), where the window is inside the field
    if ok and kind == 'sadd' and 1 <= i < nx - 2 and 1 <= j < ny - 2:
        ori = np.array(cp.sadd[0].orientations[0], dtype=float)
        w, E = np.linalg.eig(J)
        o = np.argsort(-np.real(w))
        for k in (0, 1):
            a, b = ori[k]/np.hypot(*ori[k]), np.real(E[:, o[k]])
            m.check(abs(abs(np.dot(a, b)) - 1) < 1e-5, 'saddle-orientation', '%s: %s, axes %s' % (det, ori.tolist(), E.tolist()))
        m.event('saddle-orientation')


def tg(rng, kind):
    """Periodic flow with known critical points: 'stream' (vortices and saddles) or 'potential' (nodes and saddles)."""
    n = int(rng.integers(2, 4))
    nx = ny = int(rng.integers(14, 20))*n//2 + 6
    x, y, dx, dy = grid(rng, nx, ny, .5, 2.)
    lx, ly = (nx - 1)*dx/n*rng.uniform(.85, 1), (ny - 1)*dy/n*rng.uniform(.85, 1)
    x0, y0 = x[0] - rng.uniform(.1, .9)*lx, y[0] - rng.uniform(.1, .9)*ly
    X, Y = np.meshgrid(x, y, indexing='ij')
    k, l = np.pi/lx, np.pi/ly
    sx, cx, sy, cy = np.sin(k*(X - x0)), np.cos(k*(X - x0)), np.sin(l*(Y - y0)), np.cos(l*(Y - y0))
    # P = sin sin
    Px, Py = k*cx*sy, l*sx*cy
    A = float(rng.choice([-1, 1])*10**rng.uniform(-2, 2))
    if kind == 'stream':
        u, v = A*Py, -A*Px
    else:
        u, v = A*Px, A*Py
    want = []
    for a in range(0, 2*n + 6):
        for b in range(0, 2*n + 6):
            for da, ex in ((.5, True), (0., False)):
                q = np.array([x0 + (a + da)*lx, y0 + (b + da)*ly])
                lim = min((q[0] - x[0])/dx, (x[-1] - q[0])/dx, (q[1] - y[0])/dy, (y[-1] - q[1])/dy)
                if lim < -1:
                    continue
                if not ex:
                    ty = 'sadd'
                else:
                    s = A*(1 if (a + b) % 2 == 0 else -1)       # sign of P at the extremum
                    # stream: u = A P_y, v = -A P_x: vorticity -A lap P, of the sign of A*P
                    ty = ('foc' if s > 0 else 'foc_c') if kind == 'stream' else ('node_i' if s > 0 else 'node_o')
                want.append((ty, q, lim))
    return x, y, dx, dy, u, v, want


@scenario('C21', 80)
def periodic(m):
    rng = m.rng
    kind = G.pick(rng, ['stream', 'potential'])
    x, y, dx, dy, u, v, want = tg(rng, kind)
    un = G.pick(rng, G.LEN)
    f = mkvf(x, y, u, v, False, (un, un, G.pick(rng, G.VEL)))
    meth = G.pick(rng, ['pbi', 'pbi', 'pbi_cell', 'pbi_crit'])
    fac = lambda q, o, d: abs((q - o)/d - round((q - o)/d))
    w2 = []
    for ty, q, lim in want:
        on_line = fac(q[0], x[0], dx) < .02 or fac(q[1], y[0], dy) < .02
        w2.append((ty, q, lim > (3.5 if meth == 'pbi_crit' else .3) and not on_line))
    cp = VD.get_critical_points(f, kind=meth)
    m.case(kind, meth, len(w2))
    m.event('flow:%s:%s' % (kind, meth))
    tol = np.array([dx, dy])*{'pbi': .6, 'pbi_cell': 1.1, 'pbi_crit': 1.3}[meth]
    match(m, 'periodic-flow', points(cp), w2, tol, '%s %s n=%s' % (kind, meth, len(x)))
    # metamorphic: other velocity scale, unit and origin
    g = f.copy()
    k = float(10**rng.uniform(-2, 2))
    g.scale(scalev=k, inplace=True)
    u2 = G.pick(rng, G.LEN)
    g.change_unit('x', u2)
    g.change_unit('y', u2)
    o = np.array([rng.normal()*dx*9, rng.normal()*dy*9])
    cp2 = VD.get_critical_points(g, kind=meth)
    h = f.copy()
    h.set_origin(float(o[0]), float(o[1]))
    cp3 = VD.get_critical_points(h, kind=meth)
    r = G._T[un][0]/G._T[u2][0]
    p, p2, p3 = points(cp), points(cp2), points(cp3)

    def same(a, b, tol):
        """Equal sets of positions."""
        if len(a) != len(b):
            return False
        b = list(b)
        for q in a:
            d = [np.max(np.abs(q - s)/tol) for s in b]
            if min(d) > 1:
                return False
            b.pop(int(np.argmin(d)))
        return True

    tol = 1e-3*np.array([dx, dy]) if meth != 'pbi_crit' else .5*np.array([dx, dy])
    for t in TYPES:
        # points within rounding of a grid line or of the border may change cell
        m.check(same(p[t]*r, p2[t], tol*r), 'detection-depends-on-unit-or-velocity-scale#' + t,
                lambda: '%s %s: %s and %s' % (meth, t, p[t]*r, p2[t]))
        m.check(same(p[t] - o, p3[t], tol), 'detection-depends-on-the-origin#' + t, lambda: '%s %s: %s and %s' % (meth, t, p[t] - o, p3[t]))


@scenario('C21', 80)
def nothing(m):
    """No point is reported in flows that vanish nowhere."""
    rng = m.rng
    nx, ny = int(rng.integers(5, 14)), int(rng.integers(5, 14))
    x, y, dx, dy = grid(rng, nx, ny)
    t = rng.uniform(0, 2*np.pi)
    U = np.array([np.cos(t), np.sin(t)])
    a = rng.normal(size=(2, nx, ny))
    a *= rng.uniform(0, .65)/np.max(np.hypot(a[0], a[1]))
    f = mkvf(x, y, U[0] + a[0], U[1] + a[1], False, ('m', 'm', 'm/s'))
    meth = G.pick(rng, ['pbi', 'pbi_cell', 'pbi_crit'])
    cp = VD.get_critical_points(f, kind=meth)
    m.event('flow:none:' + meth)
    m.check(all(len(p) == 0 for p in points(cp).values()), 'point-in-a-flow-without-any', lambda: '%s: %s' % (meth, points(cp)))
    # masked fields are refused
    k = rng.random(size=(nx, ny)) < .2
    if k.any() and not k.all():
        g = mkvf(x, y, U[0] + a[0], U[1] + a[1], k, ('m', 'm', 'm/s'))
        m.raises(lambda: VD.get_critical_points(g, kind=meth), 'masked-field-accepted')


@scenario('C21', 60)
def index_sum(m):
    """Arbitrary flows: the detected indices add up to the winding number of the border, cell by cell."""
    rng = m.rng
    nx, ny = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    x, y, dx, dy = grid(rng, nx, ny)
    u, v = rng.normal(size=(2, nx, ny))
    f = mkvf(x, y, u, v, False, ('mm', 'mm', 'm/s'))
    meth = G.pick(rng, ['pbi', 'pbi_cell'])
    p = points(VD.get_critical_points(f, kind=meth))
    th = np.arctan2(v, u)

    def wind(loop):
        s = 0.
        for (a, b), (c, d) in zip(loop, loop[1:] + loop[:1]):
            e = th[c, d] - th[a, b]
            s += (e + np.pi) % (2*np.pi) - np.pi
        return int(round(s/2/np.pi))

    for i in range(nx - 1):
        for j in range(ny - 1):
            w = wind([(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)])
            inside = {t: [q for q in p[t] if x[i] <= q[0] <= x[i + 1] and y[j] <= q[1] <= y[j + 1]] for t in TYPES}
            n = sum(len(inside[t]) for t in TYPES)
            if w == 0:
                m.check(n == 0, 'point-in-a-cell-of-index-0', lambda: '%s cell %s: %s' % (meth, (i, j), inside))
                continue
            m.event('cell-index:%d' % w)
            m.check(n == 1 and (len(inside['sadd']) == 1) == (w == -1), 'cell-index-is-not-the-type-found',
                    lambda: '%s cell %s index %d: %s' % (meth, (i, j), w, inside))
            if meth == 'pbi' and n == 1:
                # the position is a zero of the bilinear interpolation, or (two zeros) their mean
                q = [q for t in TYPES for q in inside[t]][0]
                a, b = (q[0] - x[i])/dx, (q[1] - y[j])/dy
                c = np.array([[(1 - a)*(1 - b), (1 - a)*b], [a*(1 - b), a*b]])
                e = [np.sum(c*z[i:i + 2, j:j + 2]) for z in (u, v)]
                m.check(np.hypot(*e) < 1e-3*np.max(np.hypot(u, v)[i:i + 2, j:j + 2]), 'velocity-at-the-point-is-not-zero',
                        lambda: 'cell %s position %s: velocity %s' % ((i, j), (a, b), e))
            # sense or sign of focus and nodes from the cell jacobian
            if w == 1 and n == 1:
                ux = (u[i + 1, j] - u[i, j] + u[i + 1, j + 1] - u[i, j + 1])/2/dx
                uy = (u[i, j + 1] - u[i, j] + u[i + 1, j + 1] - u[i + 1, j])/2/dy
                vx = (v[i + 1, j] - v[i, j] + v[i + 1, j + 1] - v[i, j + 1])/2/dx
                vy = (v[i, j + 1] - v[i, j] + v[i + 1, j + 1] - v[i + 1, j])/2/dy
                tr, de = ux + vy, ux*vy - uy*vx
                disc = tr**2/4 - de
                sc = ux**2 + vx**2 + uy**2 + vy**2
                if disc < -1e-6*sc:
                    ty = 'foc' if vx > 0 else 'foc_c'
                elif disc > 1e-6*sc and de > 1e-6*sc:
                    ty = 'node_o' if tr > 0 else 'node_i'
                else:
                    continue
                m.check(len(inside[ty]) == 1, 'type-of-the-point', lambda: 'cell %s: %s, jacobian gives %s' % ((i, j), inside, ty))


def vortices(rng, x, y, dx, dy, n):
    """Gaussian (Lamb-Oseen) vortices far from each other and from the border."""
    c, g = [], []
    r = 2.2*max(dx, dy)
    for _ in range(200):
        q = np.array([rng.uniform(x[0] + 3*r, x[-1] - 3*r), rng.uniform(y[0] + 3*r, y[-1] - 3*r)])
        if all(np.hypot(*(q - p)) > 5*r for p in c):
            c.append(q)
            g.append(float(rng.choice([-1, 1])*rng.uniform(.8, 1.2)))
        if len(c) == n:
            break
    X, Y = np.meshgrid(x, y, indexing='ij')
    u = v = 0.
    for q, k in zip(c, g):
        R2 = (X - q[0])**2 + (Y - q[1])**2 + 1e-30
        # compact vortices (no far field): u_theta = k r exp(-r^2/r0^2)
        e = k*np.exp(-R2/r**2)/r
        u = u - e*(Y - q[1])
        v = v + e*(X - q[0])
    return c, g, u, v, r


@scenario('C21', 30)
def vortex_positions(m):
    rng = m.rng
    nx, ny = int(rng.integers(34, 44)), int(rng.integers(34, 44))
    dx = 10**rng.uniform(-2, 2)
    x, y = (np.arange(nx) + rng.uniform(-9, 9))*dx, (np.arange(ny) + rng.uniform(-9, 9))*dx
    c, g, u, v, r = vortices(rng, x, y, dx, dx, int(rng.integers(1, 5)))
    un, s = G.pick(rng, G.LEN), 10**rng.uniform(-2, 2)
    f = mkvf(x, y, u*s, v*s, False, (un, un, G.pick(rng, G.VEL)))
    how = G.pick(rng, ['residual', 'vorticity', 'gam_vort', 'pbi'])
    before = G.snap(f)
    if how == 'residual':
        cp = VD.get_vortex_position(f)
    elif how == 'vorticity':
        cp = VD.get_vortex_position(f, criterion=VC.get_vorticity, threshold=float(rng.uniform(.4, .6)))
    else:
        # a weak background flow would otherwise leave zero velocity between the vortices
        cp = VD.get_critical_points(f, kind=how, window_size=3)
    m.event('vortex-position:' + how)
    m.check(not G.diff(before, G.snap(f)), 'input-changed#vortex')
    p = points(cp)
    m.case(how, len(c), g)
    want = [('foc' if k > 0 else 'foc_c', q, True) for q, k in zip(c, g)]
    if how == 'pbi':
        # saddles and others may lie in the vanishing outer flow; each vortex is found once
        for t, q, _ in want:
            d = [np.hypot(*(s - q))/dx for s in p[t]]
            m.check(sum(k < .7 for k in d) == 1, 'vortex-not-found', '%s: %s at %s in %s' % (how, t, q, p[t]))
    else:
        match(m, 'vortex-position', {t: p[t] for t in TYPES}, want, np.array([dx, dx])*(1.5 if how == 'gam_vort' else 1.), '%s %s' % (how, list(zip(c, g))), strict=how != 'gam_vort' or len(c) == 1)


@scenario('C21', 24)
def series(m):
    """A series gives, at each of its times, the points of its fields."""
    rng = m.rng
    kind = G.pick(rng, ['stream', 'potential'])
    meth = G.pick(rng, ['pbi', 'pbi_cell', 'pbi_crit', 'position'])
    tf = TemporalVectorFields()
    n = int(rng.integers(1, 4))
    x, y, dx, dy, u, v, want = tg(rng, kind)
    ts = np.sort(rng.choice(np.arange(20), n, replace=False)).astype(float)
    fs = []
    for k in range(n):
        f = mkvf(x, y, np.roll(u, k, axis=0), np.roll(v, k, axis=0), False, ('mm', 'mm', 'm/s'))
        fs.append(f)
    for k in rng.permutation(n):
        tf.add_field(fs[k], time=ts[k], unit_times='ms')
    thread = 1
    if meth in ('pbi', 'pbi_cell') and rng.random() < .3:
        thread = 2
    if meth == 'position':
        cp = VD.get_vortex_position(tf, criterion=VC.get_vorticity)
    else:
        cp = VD.get_critical_points(tf, kind=meth, thread=thread)
    m.event('series:%s:%d' % (meth, thread))
    m.close(cp.times, ts, 'times-of-the-points')
    m.check(cp.unit_time.strUnit() == '[ms]', 'unit-of-the-times', cp.unit_time)
    for k in range(n):
        one = VD.get_vortex_position(fs[k], criterion=VC.get_vorticity) if meth == 'position' else VD.get_critical_points(fs[k], kind=meth)
        a, b = points(cp, k), points(one)
        for t in TYPES:
            m.close(a[t], b[t], 'series-points-are-not-those-of-the-field', detail='%s instant %d %s' % (meth, k, t))


@scenario('C21', 30)
def mirrored(m):
    """With a wall, the points away from it are those found without."""
    rng = m.rng
    x, y, dx, dy, u, v, want = tg(rng, 'stream')
    f = mkvf(x, y, u, v, False, ('m', 'm', 'm/s'))
    d = G.pick(rng, ['x', 'y'])
    up = rng.random() < .5
    ax, st = (x, dx) if d == 'x' else (y, dy)
    pos = float(ax[-1] + st*.5) if up else float(ax[0] - st*.5)
    meth = G.pick(rng, ['pbi', 'pbi_cell'])
    a = points(VD.get_critical_points(f, kind=meth))
    before = G.snap(f)
    b = points(VD.get_critical_points(f, kind=meth, mirroring=[[d, pos]], smoothing_size=0))
    m.check(not G.diff(before, G.snap(f)), 'input-changed#mirror')
    m.event('mirrored:%s:%s' % (d, 'up' if up else 'down'))
    k = 0 if d == 'x' else 1
    for t in TYPES:
        A = [q for q in a[t] if abs(q[k] - pos) > 2.6*st]
        B = [q for q in b[t] if abs(q[k] - pos) > 2.6*st]
        m.check(len(A) == len(B) and all(min(np.max(np.abs(q - s)/[dx, dy]) for s in B) < 1e-6 for q in A),
                'mirroring-changes-points-away-from-the-wall#' + t, lambda: '%s %s %s: %s and %s' % (meth, d, pos, A, B))
    # smoothing works on a copy
    g = f.copy()
    VD.get_critical_points(g, kind='pbi_cell', smoothing_size=1)
    m.check(not G.diff(before, G.snap(g)), 'smoothing-changed-the-field')
