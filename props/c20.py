"""C20: synthetic vortices, vortex systems and potential flows."""
import numpy as np
from scipy.special import jn_zeros, jv
from IMTreatment import vortex_creation as VT
from IMTreatment.vortex_creation.vortex_creation import LambChaplyginVortex, PersoVortex
from IMTreatment.potential_flow import potential_flow as PF
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('All vortex models with random centre, strength, sense and radius at random points (centre, axes, core border included); '
        'vortex systems under random histories of additions, removals, walls, custom fields and evolutions; potential flows round '
        'random polygons, plates and discs. Velocities are compared with independent closed forms, sums and boundary conditions.')
ASSUMPTIONS = ['wall images are claimed for models whose mirror image is the reversed vortex (all but the Lamb-Chaplygin dipole)',
               'two parallel walls need infinitely many images: zero normal velocity is claimed for one wall or two perpendicular walls',
               'bodies are of order one in size (the code uses an absolute contact distance of 1e-4), normals outwards (anticlockwise contour)']

KINDS = ['solid', 'free', 'burger', 'hill', 'oseen', 'rankine', 'chaplygin', 'perso', 'perso_vort']


def swirl(x, y, vphi, vr=0.):
    """Velocity of polar components given as functions of r."""
    r = np.hypot(x, y)
    if r == 0:
        return np.zeros(2)
    t = np.array([-y, x])/r
    n = np.array([x, y])/r
    return vphi(r)*t + (vr(r) if callable(vr) else vr)*n


def model(rng, kind=None, c=None):
    """(name, real vortex, reference velocity as a function of (x, y), length scale)."""
    kind = kind or G.pick(rng, KINDS)
    c = rng.normal(size=2)*10**rng.uniform(-1, 2) if c is None else np.asarray(c, dtype=float)
    if rng.random() < .15:
        c = np.round(c)
    g = float(rng.normal()*10**rng.uniform(-2, 2))
    R = float(10**rng.uniform(-1, 1))
    x0, y0 = float(c[0]), float(c[1])
    nu = float(10**rng.uniform(-7, -2))
    if kind == 'solid':
        v = VT.SolidVortex(x0, y0, omega=g)
        f = lambda x, y: swirl(x, y, lambda r: g*r)
    elif kind == 'free':
        v = VT.FreeVortex(x0, y0, gamma=g)
        f = lambda x, y: swirl(x, y, lambda r: g/2/np.pi/r)
    elif kind == 'burger':
        al = 4*nu/R**2
        v = VT.BurgerVortex(x0, y0, alpha=al, ksi=g, viscosity=nu)
        f = lambda x, y: swirl(x, y, lambda r: -g/2/np.pi/r*np.expm1(-r**2/R**2), lambda r: -al/2*r)
    elif kind == 'oseen':
        t = R**2/4/nu
        v = VT.LambOseenVortex(x0, y0, ksi=g, t=t, viscosity=nu)
        f = lambda x, y: swirl(x, y, lambda r: -g/2/np.pi/r*np.expm1(-r**2/R**2))
    elif kind == 'rankine':
        v = VT.RankineVortex(x0, y0, circ=g, rv=R)
        f = lambda x, y: swirl(x, y, lambda r: g/2/np.pi/max(r, R)*min(1, r/R))
    elif kind in ('perso', 'perso_vort'):
        q = float(rng.random()) if rng.random() < .6 else 0.
        a2 = 4*np.log(2)/R**2
        if kind == 'perso':
            v = PersoVortex(x0, y0, radius=R, circ=g, node_ratio=q, nu=nu)
            gg = g
        else:
            v = PersoVortex(x0, y0, radius=R, vort_max=g, node_ratio=q, nu=nu)
            gg = np.pi*g/a2
        vp = lambda r: -gg/2/np.pi/r*np.expm1(-a2*r**2)
        f = lambda x, y: swirl(x, y, vp, lambda r: -q*abs(vp(r)))
    elif kind == 'hill':
        s = G.pick(rng, [-1, 1])
        v = VT.HillVortex(x0, y0, U=g, rv=R, rot_dir=s)
        # stream function -3/4 U y^2 (1 - r^2/R^2)
        f = lambda x, y: s*g*.75*np.array([-(2*y*(1 - (x*x + y*y)/R**2) - 2*y**3/R**2), -2*x*y*y/R**2])
    else:
        n = int(rng.integers(1, 4))
        v = LambChaplyginVortex(x0, y0, U=g, rv=R, Bessel_root_nmb=n)
        k = jn_zeros(1, n)[-1]/R

        def f(x, y):
            r = np.hypot(x, y)
            # psi = y*h(r); u = h + y^2 h'/r, v = -x y h'/r
            if r < R:
                z = k*r
                j1z = .5 if z == 0 else jv(1, z)/z
                h = -2*g*j1z/jv(0, k*R)
                hp = -2*g*k*(0. if z == 0 else -jv(2, z)/z)/jv(0, k*R)
            else:
                h = g*(R**2/r**2 - 1)
                hp = -2*g*R**2/r**3
            return np.array([h, 0.]) if r == 0 else np.array([h + y*y*hp/r, -x*y*hp/r])
    return kind, v, f, R, g, c


def spot(rng, R):
    """A position relative to the centre (axes, core border and centre included)."""
    k = rng.random()
    r = R*10**rng.uniform(-2, 1.3)
    t = rng.uniform(0, 2*np.pi)
    if k < .1:
        return np.zeros(2)
    if k < .35:
        return r*np.array(G.pick(rng, [(1., 0.), (-1., 0.), (0., 1.), (0., -1.)]))
    if k < .5:
        r = R*G.pick(rng, [.999, 1.001, .5])
    return r*np.array([np.cos(t), np.sin(t)])


@scenario('C20', 600)
def models(m):
    rng = m.rng
    kind, v, f, R, g, c = model(rng)
    m.case(kind, 'centre', c, 'R', R, 'strength', g)
    m.event('model:' + kind)
    for _ in range(6):
        p = c + spot(rng, R)
        d = p - [v.x0, v.y0]
        m.event('quadrant:%d%d' % (d[0] >= 0, d[1] >= 0))
        got = np.array(v.get_vector(float(p[0]), float(p[1])), dtype=float)
        ref = np.asarray(f(*d), dtype=float)
        # expm1 against 1 - exp: absolute error eps relative to the velocity g/r
        r = max(np.hypot(*d), 1e-300)
        tol = 1e-9*np.max(np.abs(ref)) + (4e-15*abs(g)/r*max(1, R**2) if r > 1e-200 else 0)
        tol += 1e-13*abs(g)*max(1, np.max(np.abs(p)))/R   # rounding of the position
        if kind in ('free', 'chaplygin', 'hill'):
            tol += 1e-8*np.max(np.abs(ref)) + (1e-14*abs(g)*np.max(np.abs(c))/r**2 if kind == 'free' and r > 1e-200 else 0)
        if kind == 'hill':
            tol += 1e-12*abs(g)*r*(1 + r**2/R**2)
        m.check(np.all(np.abs(got - ref) <= tol), 'model-velocity-is-not-its-law#' + kind,
                '%s at %s: %s, law %s' % (kind, d, got, ref))
    # translation with the centre, copy and mirrored sense
    s = rng.normal(size=2)
    v2 = v.copy()
    v2.x0, v2.y0 = v.x0 + s[0], v.y0 + s[1]
    p = c + spot(rng, R)
    if np.hypot(*(p - c)) > 1e-3*R:
        a, b = v.get_vector(p[0], p[1]), v2.get_vector(p[0] + s[0], p[1] + s[1])
        m.close(b, a, 'vortex-does-not-follow-its-centre#' + kind, rtol=1e-6, atol=1e-6)
    if kind != 'chaplygin':
        w = v.symetrize()
        q = [c[0] - (p[0] - c[0]), p[1]]
        a, b = v.get_vector(p[0], p[1]), w.get_vector(q[0], q[1])
        sc = abs(g)*(np.hypot(*(p - c))*(1 + np.hypot(*(p - c))**2/R**2) if kind == 'hill' else 0.) + np.max(np.abs(a))
        m.check(np.max(np.abs(np.array(b) - [-a[0], a[1]])) <= 1e-6*sc, 'mirrored-vortex-is-not-the-mirror-image#' + kind, '%s %s' % (a, b))
        m.close(v.get_vector(p[0], p[1]), a, 'symetrize-changed-the-vortex')


@scenario('C20', 60)
def model_fields(m):
    rng = m.rng
    kind, v, f, R, g, c = model(rng)
    if rng.random() < .5:
        v.movable = False
    nx, ny = int(rng.integers(3, 8)), int(rng.integers(3, 8))
    x = c[0] + np.sort(rng.normal(size=nx))*R
    y = c[1] + np.sort(rng.normal(size=ny))*R
    ux, uy = G.pick(rng, G.LEN), G.pick(rng, G.LEN)
    vf = v.get_vector_field(x, y, unit_x=ux, unit_y=uy)
    m.case(kind, ux, uy)
    m.close(vf.axe_x, x, 'field-axis')
    m.close(vf.axe_y, y, 'field-axis')
    m.check(G.fac(vf.unit_x) == G._T[ux][0] and G.fac(vf.unit_y) == G._T[uy][0] and G.si(vf.unit_values) == (1., {'L': 1, 'T': -1}),
            'field-unit', '%s %s %s' % (vf.unit_x, vf.unit_y, vf.unit_values))
    for i in range(nx):
        for j in range(ny):
            a = v.get_vector(x[i], y[j])
            m.close([vf.comp_x[i, j], vf.comp_y[i, j]], a, 'field-is-not-the-velocity-at-its-points#' + kind, rtol=1e-12)
    m.check(not np.any(vf.mask), 'field-masked')
    if not v.movable:
        m.raises(lambda: setattr(v, 'x0', 3.), 'fixed-vortex-moved')
        m.raises(lambda: setattr(v, 'y0', 3.), 'fixed-vortex-moved')
        m.check((v.x0, v.y0) == (float(c[0]), float(c[1])), 'fixed-vortex-moved')


class RefSystem:
    """Independent model of a vortex system: list of (reference velocity, centre), walls, custom fields."""

    def __init__(self):
        self.v, self.walls, self.cf = [], [], []

    def parts(self, k, p):
        """Contributions of vortex k and of its images at p."""
        f, c = self.v[k][:2]
        maps = [lambda q, s: (q, s)]
        out = []
        cs = [(np.array(c, dtype=float), [])]
        for d, pos in self.walls:
            for cc, path in list(cs):
                n = cc.copy()
                n[d] = 2*pos - n[d]
                cs.append((n, path + [(d, pos)]))
        for cc, path in cs:
            # velocity of the image at p: reflect p back, take the velocity, reflect it
            q = np.array(p, dtype=float)
            for d, pos in reversed(path):
                q[d] = 2*pos - q[d]
            w = np.array(f(*(q - c)), dtype=float)
            for d, pos in path:
                w[d] *= -1
            out.append(w)
        return out

    def vel(self, p, ids=None, cf=None):
        w = np.zeros(2)
        for k in range(len(self.v)):
            if ids is None or k in ids:
                w = w + sum(self.parts(k, p))
        for k, f in enumerate(self.cf):
            if cf is None or k in cf:
                w = w + np.array(f(*p))
        return w


def cust(rng):
    a, b, c = [float(q) for q in rng.normal(size=3)]
    return lambda x, y: (a + b*y, c*x)


@scenario('C20', 120)
def systems(m):
    """Histories of additions, removals, walls, custom fields and evolutions."""
    rng = m.rng
    S, ref = VT.VortexSystem(), RefSystem()
    kinds = [k for k in KINDS if k != 'chaplygin']
    shared = VT.CustomField(cust(rng), unit_values='m/s')
    log = []

    def vort():
        c = rng.uniform(.3, 4, size=2)
        kind, v, f, R, g, c = model(rng, G.pick(rng, kinds), c)
        if rng.random() < .3:
            v.movable = False
        return kind, v, f, c

    def verify(tag):
        p = rng.uniform(-3, 5, size=2)
        w = ref.vel(p)
        # scale: sum of the norms of the contributions
        sc = sum(np.max(np.abs(q)) for k in range(len(ref.v)) for q in ref.parts(k, p)) + sum(np.max(np.abs(f(*p))) for f in ref.cf) + 1e-30
        tol = 1e-7*sc + 1e-9
        first = G.pick(rng, ['point', 'field', 'parts'])     # whichever is asked first sees the present system
        m.event('first:' + first)
        if first == 'field':
            vf = S.get_vector_field([p[0], p[0] + 1.], [p[1], p[1] + 1.])
            got = np.array([vf.comp_x[0, 0], vf.comp_y[0, 0]])
            m.check(np.max(np.abs(got - w)) <= tol, 'system-field-is-not-the-sum#' + tag, lambda: '%s: at %s %s, sum %s' % (log, p, got, w))
        elif first == 'parts':
            vv, vi, cv, ci = S.get_compounded_vector(p[0], p[1], detailed=True)
            got = np.sum([np.zeros(2)] + [np.array(q) for q in vv] + [np.array(q) for q in cv], axis=0)
            m.check(np.max(np.abs(got - w)) <= tol, 'parts-do-not-sum-to-the-velocity#' + tag, lambda: '%s: at %s %s, sum %s' % (log, p, got, w))
        got = np.array(S.get_vector(p[0], p[1]))
        m.check(np.max(np.abs(got - w)) <= tol, 'system-velocity-is-not-the-sum#' + tag, lambda: '%s: at %s %s, sum %s' % (log, p, got, w))
        m.check(S.nmb_vortex == len(ref.v) == len(S.vortex), 'number-of-vortices', lambda: '%s: %s' % (log, S.nmb_vortex))
        if ref.v and rng.random() < .5:
            k = int(rng.integers(len(ref.v)))
            got = np.array(S.get_vector(p[0], p[1], vortex_ids=[k], cf_ids='none'))
            w = sum(ref.parts(k, p))
            m.check(np.max(np.abs(got - w)) <= tol, 'member-velocity#' + tag, lambda: '%s: vortex %d at %s %s, %s' % (log, k, p, got, w))
        if rng.random() < .5:
            det = rng.random() < .5
            if det:
                vv, vi, cv, ci = S.get_compounded_vector(p[0], p[1], detailed=True)
                m.event('detailed')
            else:
                vv, vi, cv, ci = S.get_compounded_vector(p[0], p[1])
            for k in range(len(ref.v)):
                got = [np.array(q) for q, i in zip(vv, vi) if i == k]
                w = ref.parts(k, p)
                if not det:
                    w = [sum(w)]
                m.check(len(got) == len(w) and np.max(np.abs(sum(got) - sum(w))) <= tol, 'contribution-of-a-vortex#' + tag,
                        lambda: '%s: vortex %d of %d at %s: %s, %s' % (log, k, len(ref.v), p, got, w))
            m.check(len(cv) == len(ref.cf), 'number-of-custom-contributions', lambda: '%s' % log)
            for k in range(len(ref.cf)):
                got = [np.array(q) for q, i in zip(cv, ci) if i == k]
                m.check(len(got) == 1 and np.max(np.abs(got[0] - ref.cf[k](*p))) <= tol, 'contribution-of-a-custom-field#' + tag,
                        lambda: '%s: field %d at %s: %s' % (log, k, p, got))

    for _ in range(int(rng.integers(3, 9))):
        op = G.pick(rng, ['vortex', 'vortex', 'vortex', 'remove', 'wall', 'custom', 'evolve', 'copy'])
        m.event('op:' + op)
        if op == 'vortex':
            kind, v, f, c = vort()
            S.add_vortex(v)
            ref.v.append([f, c, v.movable])
            log.append('+%s%s' % (kind, c))
            if v.movable:
                v.x0 = 99.         # the system keeps its own copy
        elif op == 'remove':
            if not ref.v:
                continue
            k = int(rng.integers(len(ref.v)))
            i = k - len(ref.v) if rng.random() < .4 else k
            S.remove_vortex(i)
            ref.v.pop(k)
            log.append('-%d' % i)
        elif op == 'wall':
            if len(ref.walls) >= 2:
                continue
            d = int(rng.integers(2)) if not ref.walls else 1 - ref.walls[0][0]
            pos = float(-rng.random()) if rng.random() < .8 else 0.
            S.add_wall(VT.Wall(x=pos) if d == 0 else VT.Wall(y=pos))
            ref.walls.append((d, pos))
            log.append('wall %s=%s' % ('xy'[d], pos))
        elif op == 'custom':
            cf = shared if rng.random() < .4 else VT.CustomField(cust(rng), unit_values='m/s')
            S.add_custom_field(cf)
            if rng.random() < .4:
                T = VT.VortexSystem()
                for _ in range(int(rng.integers(0, 3))):
                    T.add_custom_field(VT.CustomField(cust(rng), unit_values='m/s'))
                T.add_custom_field(cf)
            ref.cf.append(cf.funct)
            log.append('custom')
        elif op == 'copy':
            old = S
            S = S.copy()
            old.add_vortex(VT.SolidVortex(0., 0., 3.))
            log.append('copy')
        elif op == 'evolve':
            vs = [np.array(S.get_vector(v.x0, v.y0)) for v in S.vortex]
            if any(np.max(np.abs(w)) > 1e4 for w in vs):
                continue
            dt = float(10**rng.uniform(-4, -1))/(1 + max([np.max(np.abs(w)) for w in vs] + [0]))
            new = S.get_evolution(dt)
            log.append('evolve %g' % dt)
            for k, (w, v) in enumerate(zip(vs, ref.v)):
                want = v[1] + dt*w if v[2] else v[1]
                got = [new.vortex[k].x0, new.vortex[k].y0]
                m.close(got, want, 'evolution-is-not-advection-by-the-flow', rtol=1e-9, detail=str(log))
                m.close([S.vortex[k].x0, S.vortex[k].y0], v[1], 'evolution-moved-the-initial-system', rtol=1e-12)
                v[1] = np.array(got, dtype=float)
            S = new
        verify(op)
    # zero normal velocity at the walls (custom fields apart)
    for d, pos in ref.walls:
        p = rng.uniform(-3, 5, size=2)
        p[d] = pos
        got = S.get_vector(p[0], p[1], cf_ids='none')
        sc = sum(np.max(np.abs(q)) for k in range(len(ref.v)) for q in ref.parts(k, p)) + 1e-30
        m.event('wall-point')
        m.check(abs(got[d]) <= 1e-7*sc + 1e-9, 'flow-through-a-wall', lambda: '%s: %s at %s' % (log, got, p))
    # with any number of walls, parallel or not, the last one added stays a
    # plane of symmetry
    if ref.v and rng.random() < .5:
        R = S.copy()
        more = int(rng.integers(2, 4))
        for _ in range(more):
            d, pos = int(rng.integers(2)), float(rng.uniform(-2.5, -1.))
            R.add_wall(VT.Wall(x=pos) if d == 0 else VT.Wall(y=pos))
        p = rng.uniform(-.9, 5, size=2)
        p[d] = pos
        h = .37
        v1, v2 = [np.array(R.get_vector(*(p + s_*h*np.eye(2)[d]), cf_ids='none')) for s_ in (-1, 1)]
        v0 = np.array(R.get_vector(*p, cf_ids='none'))
        each = [np.abs(R.get_compounded_vector(*(p + s_*h*np.eye(2)[d]), detailed=True)[0]).sum() for s_ in (-1, 0, 1)]
        sc = max(each) + 1e-30
        m.event('last-of-many-walls')
        m.check(abs(v0[d]) <= 1e-7*sc, 'flow-through-the-last-of-several-walls', lambda: '%s: %s at %s' % (log, v0, p))
        m.check(abs(v1[d] + v2[d]) <= 1e-7*sc and abs(v1[1 - d] - v2[1 - d]) <= 1e-7*sc, 'last-wall-is-not-a-plane-of-symmetry',
                lambda: '%s: %s %s' % (log, v1, v2))
    # field on a grid
    x, y = np.sort(rng.uniform(-2, 4, size=4)), np.sort(rng.uniform(-2, 4, size=3))
    vf = S.get_vector_field(x, y, unit_x='mm', unit_y='cm')
    m.check(str(vf.unit_x.strUnit()) == '[mm]' and str(vf.unit_y.strUnit()) == '[cm]' and G.si(vf.unit_values) == (1., {'L': 1, 'T': -1}), 'system-field-unit')
    for i in range(4):
        for j in range(3):
            m.close([vf.comp_x[i, j], vf.comp_y[i, j]], S.get_vector(x[i], y[j]), 'system-field-is-not-the-system-velocity', rtol=1e-9, atol=1e-9)
    # series
    if ref.v:
        vs = [np.max(np.abs(S.get_vector(v.x0, v.y0))) for v in S.vortex]
        if max(vs) < 1e4:
            dt = float(10**rng.uniform(-4, -2))/(1 + max(vs))
            n = int(rng.integers(1, 4))
            tvf = S.get_temporal_vector_field(dt, x, y, n, unit_x='mm', unit_y='cm', unit_time='ms')
            pts = S.get_vortex_evolution(dt, n, unit_time='ms')
            m.check(all(str(g.unit_x.strUnit()) == '[mm]' and str(g.unit_y.strUnit()) == '[cm]' for g in list(tvf.fields) + [tvf]) and
                    str(tvf.unit_times.strUnit()) == '[ms]' and all(str(g.unit_v.strUnit()) == '[ms]' for g in pts), 'units-of-the-evolution')
            for g in tvf.fields:
                m.close(g.axe_x, x, 'axes-of-the-evolution')
                m.close(g.axe_y, y, 'axes-of-the-evolution')
            m.close(np.sort(tvf.times), dt*np.arange(n + 1), 'evolution-times', rtol=1e-9)
            m.check(len(pts) == len(ref.v), 'evolution-number-of-vortices')
            cur = S
            for t in range(n + 1):
                for k, v in enumerate(cur.vortex):
                    m.close(pts[k].xy[t], [v.x0, v.y0], 'evolution-positions', rtol=1e-9)
                    m.close(pts[k].v[t], dt*t, 'evolution-positions-time', rtol=1e-9)
                i, j = int(rng.integers(4)), int(rng.integers(3))
                m.close([tvf.fields[t].comp_x[i, j], tvf.fields[t].comp_y[i, j]], cur.get_vector(x[i], y[j]), 'evolution-field', rtol=1e-8, atol=1e-9)
                cur = cur.get_evolution(dt)


@scenario('C20', 30)
def velocity_map(m):
    rng = m.rng
    S = VT.VortexSystem()
    for _ in range(int(rng.integers(0, 3))):
        S.add_vortex(model(rng, G.pick(rng, ['free', 'oseen', 'rankine']), rng.uniform(.3, 4, size=2))[1])
    walls = []
    for d in (0, 1):
        if rng.random() < .6:
            pos = float(-rng.random())
            S.add_wall(VT.Wall(x=pos) if d == 0 else VT.Wall(y=pos))
            walls.append((d, pos))
    kind, v = model(rng, G.pick(rng, ['free', 'oseen', 'rankine']))[:2]
    x, y = np.sort(rng.uniform(.3, 4, size=3)), np.sort(rng.uniform(.3, 4, size=2))
    n0 = len(S.vortex)
    before = [(a.x0, a.y0) for a in S.vortex]
    vf = S.get_velocity_map(x, y, v, unit_x='mm', unit_y='cm')
    m.check(before == [(a.x0, a.y0) for a in S.vortex], 'map-changed-the-system#positions')
    m.check(str(vf.unit_x.strUnit()) == '[mm]' and str(vf.unit_y.strUnit()) == '[cm]' and G.si(vf.unit_values) == (1., {'L': 1, 'T': -1}), 'map-unit')
    m.close(vf.axe_x, x, 'map-axis')
    m.close(vf.axe_y, y, 'map-axis')
    m.check(len(S.vortex) == n0, 'map-changed-the-system')
    m.case(kind, n0, walls)
    for i in range(3):
        for j in range(2):
            T = S.copy()
            w = v.copy()
            w.x0, w.y0 = x[i], y[j]
            T.add_vortex(w)
            m.close([vf.comp_x[i, j], vf.comp_y[i, j]], T.get_vector(x[i], y[j]), 'map-is-not-the-velocity-of-the-vortex-placed-there', rtol=1e-9, atol=1e-9)


# ------------------------------------------------------------ potential flows
def polygon(rng):
    """A convex polygon, anticlockwise."""
    n = int(rng.integers(3, 7))
    t = np.sort((np.arange(n) + rng.uniform(-.3, .3, size=n))*2*np.pi/n)
    a, b = rng.uniform(.5, 2, size=2)
    c = rng.normal(size=2)
    return np.array([c[0] + a*np.cos(t), c[1] + b*np.sin(t)]).T, c


def inside(poly, p):
    n = len(poly)
    d = []
    for k in range(n):
        a, b = poly[k], poly[(k + 1) % n]
        e = b - a
        d.append((e[0]*(p[1] - a[1]) - e[1]*(p[0] - a[0]))/np.hypot(*e))
    return min(d)            # >0: inside, distance to the nearest edge line


def seg_dist(poly, p):
    n = len(poly)
    r = []
    for k in range(n):
        a, b = poly[k], poly[(k + 1) % n]
        s = np.clip(np.dot(p - a, b - a)/np.dot(b - a, b - a), 0, 1)
        r.append(np.hypot(*(a + s*(b - a) - p)))
    return min(r)


def panels_of(pts, closed):
    """Independent velocity of unit-strength source segments."""
    pts = np.asarray(pts)
    if closed:
        pts = np.vstack([pts, pts[:1]])
    return [(pts[k], pts[k + 1]) for k in range(len(pts) - 1)]


def source_seg(a, b, p):
    """Closed-form velocity at p of a source segment of unit strength per length."""
    L = np.hypot(*(b - a))
    t = (b - a)/L
    n = np.array([t[1], -t[0]])
    s, h = np.dot(p - a, t), np.dot(p - a, n)
    vt = .25/np.pi*np.log((s**2 + h**2)/((s - L)**2 + h**2))
    vn = .5/np.pi*(np.arctan((L - s)/h) + np.arctan(s/h)) if h != 0 else 0.
    return vt*t + vn*n


def refine(pts, closed, res):
    pts = np.asarray(pts, dtype=float)
    q = np.vstack([pts, pts[:1]]) if closed else pts
    L = np.hypot(*(q[1:] - q[:-1]).T)
    d = L.min()/res
    out = []
    for k in range(len(q) - 1):
        n = max(1, int(np.round(L[k]/d)))
        out += [q[k] + (q[k + 1] - q[k])*s/n for s in range(n)]
    return np.array(out + [q[-1]])


class RefBody:
    """Independent panel solution (closed-form integrals)."""

    def __init__(self, bodies, u, alpha):
        self.U = u*np.array([np.cos(alpha), np.sin(alpha)])
        self.seg = []
        for pts in bodies:
            self.seg += [(pts[k], pts[k + 1]) for k in range(len(pts) - 1)]
        n = len(self.seg)
        A, b = np.zeros((n, n)), np.zeros(n)
        for i, (p, q) in enumerate(self.seg):
            t = (q - p)/np.hypot(*(q - p))
            nn = np.array([t[1], -t[0]])
            c = (p + q)/2
            for j, (r, s) in enumerate(self.seg):
                A[i, j] = .5 if i == j else np.dot(source_seg(r, s, c), nn)
            b[i] = -np.dot(self.U, nn)
        self.cond = np.linalg.cond(A)
        self.sig = np.linalg.solve(A, b)

    def vel(self, p):
        return self.U + sum(k*source_seg(a, b, p) for k, (a, b) in zip(self.sig, self.seg))


@scenario('C20', 40)
def bodies(m):
    rng = m.rng
    u, al = float(rng.uniform(.2, 5)), float(rng.uniform(-np.pi, np.pi))
    if rng.random() < .3:
        al = 0.
    S = PF.System(u_inf=u, alpha=al)
    polys, refs, ress = [], [], []
    for k in range(1 if rng.random() < .7 else 2):
        poly, c = polygon(rng)
        if k:
            poly = poly + np.array([6., 0.])
        res = int(rng.integers(1, 4))
        cw = rng.random() < .3
        p = poly[::-1] if cw else poly
        if rng.random() < .3:
            p = np.vstack([p, p[:1]])       # already closed
        S.add_object(2, p.tolist() if rng.random() < .5 else p, res=res)
        if cw:
            S.objects_2D[-1].inverse_normals()
        polys.append(poly)
        ress.append(res)
        refs.append(refine(poly, True, res))
        if k == 0 and rng.random() < .3:
            S.compute_velocity(30., 20.)     # solved before the next body is added
            m.event('solved-before-addition')
    if len(S.get_solid_panels()) > 45:
        raise Skip
    m.case('u', u, 'alpha', al, [len(r) - 1 for r in refs])
    m.event('panels', len(S.get_solid_panels()))
    m.check(len(S.get_solid_panels()) == sum(len(r) - 1 for r in refs), 'number-of-panels',
            '%s: %s' % ([len(r) - 1 for r in refs], len(S.get_solid_panels())))
    R = RefBody(refs, u, al)
    # no flow through the surface
    for r in refs:
        for k in rng.permutation(len(r) - 1)[:3]:
            p, q = r[k], r[k + 1]
            t = (q - p)/np.hypot(*(q - p))
            n = np.array([t[1], -t[0]])
            c = (p + q)/2
            v = np.array(S.compute_velocity(*(c + 1e-12*n)))
            m.check(abs(np.dot(v, n)) < 1e-6*u, 'flow-through-the-body', lambda: 'at %s: %s normal %s' % (c, v, n))
            h = 2e-4
            v2 = np.array(S.compute_velocity(*(c + h*n)))
            w2 = R.vel(c + h*n)
            m.check(abs(np.dot(v2, n)) < u*h*60/np.hypot(*(q - p)), 'flow-through-the-body#near', lambda: 'at %s: %s normal %s' % (c, v2, n))
            m.check(abs(np.dot(v - v2, t)) < u*h*60/np.hypot(*(q - p)), 'surface-velocity-is-not-the-limit', lambda: 'at %s: %s, near %s' % (c, v, v2))
            m.event('surface-points')
    # velocity anywhere outside: independent solution, free of divergence and curl
    aligned = []
    for r in refs:          # in the prolongation of a panel, next to a corner
        for k in rng.permutation(len(r) - 1)[:3]:
            aligned.append(r[k + 1] + (r[k + 1] - r[k])*rng.uniform(.03, .3))
    for p in [rng.normal(size=2)*4 for _ in range(4)] + aligned:
        if any(seg_dist(q, p) < .05 for q in polys) or any(inside(q, p) > 0 for q in polys):
            continue
        m.event('aligned-with-a-panel', sum(p is q for q in aligned))
        v = np.array(S.compute_velocity(p[0], p[1]))
        m.close(v, R.vel(p), 'velocity-is-not-that-of-the-body', rtol=1e-4, atol=1e-5)
        e = 5e-3
        V = [np.array(S.compute_velocity(*(p + e*np.array(d)))) for d in ((1, 0), (-1, 0), (0, 1), (0, -1))]
        dist = min(seg_dist(q, p) for q in polys)
        # limit of a finite difference: also what it gives on the independent solution
        W = [R.vel(p + e*np.array(d)) for d in ((1, 0), (-1, 0), (0, 1), (0, -1))]
        lim = max(u, np.max(np.abs(W)))*(2e-3 + 40*e**2/dist**3)

        def dv(V):
            return abs(V[0][0] - V[1][0] + V[2][1] - V[3][1])/(2*e)

        def cu(V):
            return abs(V[0][1] - V[1][1] - V[2][0] + V[3][0])/(2*e)
        m.check(dv(V) < lim + 2*dv(W), 'divergence-away-from-bodies', lambda: '%s %s (%s)' % (dv(V), lim, dv(W)))
        m.check(cu(V) < lim + 2*cu(W), 'curl-away-from-bodies', lambda: '%s %s (%s)' % (cu(V), lim, cu(W)))
        m.event('outside-points')
    far = 1e4*np.array([np.cos(1.), np.sin(1.)])
    m.close(S.compute_velocity(far[0], far[1]), R.U, 'velocity-at-infinity', rtol=1e-2, atol=1e-2)
    # grid and line
    x, y = np.sort(rng.uniform(-4, 9, size=4)), np.sort(rng.uniform(-4, 4, size=3))
    rem = rng.random() < .6
    vf = S.compute_velocity_on_grid(x, y, remove_solid=rem)
    for i in range(4):
        for j in range(3):
            p = np.array([x[i], y[j]])
            if min(seg_dist(q, p) for q in polys) < 1e-3:
                continue
            solid = any(inside(q, p) > 0 for q in polys)
            m.event('grid-solid' if solid else 'grid-fluid')
            m.check(bool(vf.mask[i, j]) == (rem and solid), 'points-in-the-body', '%s %s' % (p, solid))
            if not vf.mask[i, j]:
                m.close([vf.comp_x[i, j], vf.comp_y[i, j]], S.compute_velocity(x[i], y[j]), 'grid-velocity', rtol=1e-9)
    cp = S.compute_pressure_from_velocity(vf)
    ok = ~vf.mask
    m.close(np.asarray(cp.values)[ok], (1 - (vf.comp_x**2 + vf.comp_y**2)/u**2)[ok], 'pressure-coefficient', rtol=1e-9)
    m.check(np.array_equal(cp.mask, vf.mask), 'pressure-mask')
    a, b = rng.uniform(-4, 4, size=2), rng.uniform(-4, 4, size=2)
    k = rng.random()
    if k < .3:
        b[1] = a[1]
    elif k < .5:
        b[0] = a[0]
    n = int(rng.integers(2, 7))
    px, py = S.compute_velocity_on_line(a, b, res=n, remove_solid=rem)
    L = np.hypot(*(b - a))
    m.close(np.sort(np.abs(px.x)), np.linspace(0, L, n), 'abscissa-along-a-line', rtol=1e-9, detail='%s %s' % (a, b))
    for i in range(n):
        s = abs(px.x[i])/L
        p = a + s*(b - a)
        if min(seg_dist(q, p) for q in polys) < 1e-3:
            continue
        solid = any(inside(q, p) > 0 for q in polys)
        m.check(bool(px.mask[i]) == bool(py.mask[i]) == (rem and solid), 'points-in-the-body#line')
        if not px.mask[i]:
            m.close([px.y[i], py.y[i]], S.compute_velocity(p[0], p[1]), 'line-velocity', rtol=1e-6, atol=1e-6)
    cpx = S.compute_pressure_from_velocity((px, py))
    ok = ~np.asarray(px.mask, dtype=bool)
    m.close(np.asarray(cpx.y)[ok], (1 - (px.y**2 + py.y**2)/u**2)[ok], 'pressure-coefficient#profile', rtol=1e-9)
    # the flow is proportional to the incoming velocity
    T = PF.System(u_inf=2*u, alpha=al)
    for q, r in zip(polys, ress):
        T.add_object(2, q, res=r)
    p = np.array([-4.1, 3.3])
    m.close(T.compute_velocity(*p), 2*np.array(S.compute_velocity(*p)), 'not-linear-in-the-incoming-velocity', rtol=1e-4, atol=1e-5)


@scenario('C20', 20)
def plates(m):
    """Open walls: as many panels as asked along the wall and only there."""
    rng = m.rng
    n = int(rng.integers(2, 5))
    pts = np.cumsum(np.vstack([rng.normal(size=(1, 2)), np.column_stack([rng.uniform(.5, 1.5, n - 1), rng.uniform(-.6, .6, n - 1)])]), axis=0)
    u, al = float(rng.uniform(.2, 5)), float(rng.uniform(-np.pi, np.pi))
    S = PF.System(u_inf=u, alpha=al)
    res = int(rng.integers(1, 5))
    S.add_object(1, pts, res=res)
    ref = refine(pts, False, res)
    m.case(pts.tolist(), res)
    pan = S.get_solid_panels()
    m.check(len(pan) == len(ref) - 1, 'number-of-panels#open', '%d for %d' % (len(pan), len(ref) - 1))
    m.close([[p.xa, p.ya, p.xb, p.yb] for p in pan], np.hstack([ref[:-1], ref[1:]]), 'panels-of-an-open-wall', rtol=1e-9)
    R = RefBody([ref], u, al)
    if R.cond < 1e5:
        for _ in range(3):
            p = rng.normal(size=2)*3
            if min(seg_dist([a, b], p) for a, b in R.seg) < .05:
                continue
            m.close(S.compute_velocity(*p), R.vel(p), 'velocity-is-not-that-of-the-body#open', rtol=1e-4, atol=1e-5)
            m.event('outside-points')


@scenario('C20', 6)
def disc(m):
    """A fine regular polygon tends to the analytic flow round a cylinder."""
    rng = m.rng
    n, a = 36, float(rng.uniform(.5, 2))
    u, al = float(rng.uniform(.2, 5)), float(rng.uniform(-np.pi, np.pi))
    t = np.arange(n)*2*np.pi/n
    S = PF.System(u_inf=u, alpha=al)
    S.add_object(2, np.array([a*np.cos(t), a*np.sin(t)]).T)
    for _ in range(5):
        r, th = a*rng.uniform(1.3, 4), rng.uniform(0, 2*np.pi)
        z = r*np.exp(1j*th)
        w = u*(np.exp(-1j*al) - a**2/z**2*np.exp(1j*al))
        m.close(S.compute_velocity(z.real, z.imag), [w.real, -w.imag], 'flow-round-a-cylinder', rtol=.04, atol=.05)
        m.event('cylinder-points')


@scenario('C20', 6)
def upstream_lengths(m):
    rng = m.rng
    k = float(rng.uniform(.5, 3))
    U = float(rng.uniform(.2, 4))
    res = int(rng.integers(3, 6))
    perc = float(rng.uniform(.05, .5))
    L = PF.get_gradP_length(D=k, Vd=U, perc=perc, res_pot=res)
    S = PF.System(u_inf=U, alpha=0.)
    S.add_object(2, [[-k/2, -k/2], [k/2, -k/2], [k/2, k/2], [-k/2, k/2]], res=res)
    v = np.array(S.compute_velocity(-L, 0.))
    m.close(1 - np.dot(v, v)/U**2, perc, 'pressure-at-the-found-length', atol=1e-4)
    m.check(L > k/2, 'found-length-is-inside-the-body')
    x = float(rng.uniform(3, 12))
    s1 = PF.get_separation_position(D=1., Vd=1., x_obst=x, nu=1e-6, res_pot=res, res_int=100)
    s2 = PF.get_separation_position(D=k, Vd=U, x_obst=x*k, nu=3e-5, res_pot=res, res_int=100)
    m.close(s2, k*s1, 'separation-position-does-not-scale-with-the-body', rtol=1e-3)
    # Thwaites' criterion with an independent quadrature
    S1 = PF.System(u_inf=1., alpha=0.)
    S1.add_object(2, [[-.5, -.5], [.5, -.5], [.5, .5], [-.5, .5]], res=res)
    X = np.linspace(-x, 0, 301)
    Us = np.array([S1.compute_velocity(q - .5, 0.)[0] for q in X[:-1]] + [0.])
    U5 = Us**5
    I = np.concatenate([[0.], np.cumsum((U5[1:] + U5[:-1])/2*np.diff(X))])
    with np.errstate(all='ignore'):
        mm = -.45*I/Us**6*np.gradient(Us, X)
    i = np.where(mm[:-1] > .09)[0][0]
    q = X[i - 1] + (X[i] - X[i - 1])*(.09 - mm[i - 1])/(mm[i] - mm[i - 1])
    m.check(abs(s1 + q) < .03*x, 'separation-position', '%s, independent %s' % (s1, -q))


@scenario('C20', 2)
def backgrounds(m):
    """Ready-made systems: walls and background flow."""
    rng = m.rng
    u, D, h = float(rng.uniform(.05, .5)), float(rng.uniform(.02, .2)), float(rng.uniform(.05, .2))
    S = VT.HsvSystem(u, D, h, delta=h/3, vertical_wall=bool(rng.random() < .7))
    p = (-float(rng.uniform(.1, 2))*D, float(rng.uniform(.05, .9))*h)
    v0 = S.get_vector(*p)
    m.check(v0[1] == 0 and 0 < v0[0] <= u*1.01, 'background-velocity', '%s for %s' % (v0, u))
    m.check(abs(S.get_vector(p[0], 0.)[0]) < 1e-6*u, 'background-slips-on-the-wall')
    vx = [S.get_vector(x, .9*h)[0] for x in np.linspace(-4*D, -.05*D, 6)]
    m.check(np.all(np.diff(vx) < 0), 'background-does-not-slow-down', vx)
    # laminar profile of the asked thickness times the slowing down in front of a square
    from props.c24 import blasius
    de = float(rng.uniform(.3, .9))*3e-3/u
    hh = de*3
    S2 = VT.HsvSystem(u, D, hh, delta=de, vertical_wall=False)
    P = PF.System(u_inf=1., alpha=0.)
    P.add_object(2, [[0., -D/2], [D, -D/2], [D, D/2], [0., D/2]], res=20)
    for _ in range(6):
        X, Y = -float(rng.uniform(.3, 4.5))*D, float(rng.uniform(.02, .98))*hh
        want = u*blasius()(min(Y/de*4.91, 12.))[1]*P.compute_velocity(X, 0.)[0]
        m.close(S2.get_vector(X, Y), [want, 0.], 'background-is-not-the-slowed-down-boundary-layer', rtol=.02)
        m.event('background-points')
    f = model(rng, 'oseen', (-.5*D, .3*h))
    S.add_vortex(f[1])
    v1 = S.get_vector(*p)
    m.check(np.all(np.isfinite(v1)), 'background-plus-vortex')
    q = (-.7*D, 0.)
    m.check(abs(S.get_vector(*q, cf_ids='none')[1]) < 1e-9*(1 + abs(f[4])/h), 'flow-through-a-wall#ready-made')
