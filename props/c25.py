"""C25: vortex size, circulation and properties."""
import numpy as np
from scipy.integrate import simpson
from IMTreatment.core import TemporalVectorFields, Points
from IMTreatment import vortex_properties as VP
from IMTreatment.vortex_properties.vortex_properties import (get_vortex_radius, get_vortex_radius_time_evolution, get_vortex_property,
                                                             get_vortex_property_time_evolution, get_vortex_circulation)
from IMTreatment import vortex_criterions as VC
from vh.core import scenario, Skip
from vh import gen as G
from props.c17 import mkvf

RULE = ('One or several planted vortices (Gaussian, Rankine or algebraic; both senses, any place, strength, units) on uniform grids; '
        'the zone of the vortex is found again by an independent flood fill over the criterion, and the measures are compared with '
        'the planted ones within the resolution, with the reversed and the shifted flow, and between the single and time variants.')
ASSUMPTIONS = ['uniform grids; with distinct units on the axes, the measures are those of the same flow in one unit',
               'zone: 4-connected samples around the centre whose criterion is above the threshold (no sample at the threshold itself)',
               'circulation threshold relative to the largest vorticity of the field']


def vortex(X, Y, c, a, g, kind):
    dx, dy = X - c[0], Y - c[1]
    r2 = dx**2 + dy**2 + 1e-300
    if kind == 'gauss':
        w = -g/(2*np.pi*r2)*np.expm1(-r2/a**2)
    elif kind == 'rankine':
        w = np.where(r2 < a**2, g/(2*np.pi*a**2), g/(2*np.pi*r2))
    else:
        w = g/(2*np.pi*(r2 + a**2))
    return -w*dy, w*dx


def plant(rng, n=None, mask=True, kind=None):
    """Field (in numbers of its units), list of (centre, core, circulation, kind)."""
    nx, ny = int(rng.integers(24, 42)), int(rng.integers(24, 42))
    st = 10**rng.uniform(-2, 2)
    q = rng.uniform(.7, 1.4)
    x = (rng.uniform(-30, 30) + np.arange(nx))*st
    y = (rng.uniform(-30, 30) + np.arange(ny))*st*q
    X, Y = np.meshgrid(x, y, indexing='ij')
    L = min(x[-1] - x[0], y[-1] - y[0])
    n = n or int(rng.integers(1, 4))
    vs = []
    for _ in range(30):
        if len(vs) == n:
            break
        a = L*rng.uniform(.09, .13)*(1.5 if n == 1 else 1)
        c = np.array([rng.uniform(x[0] + 2*a, x[-1] - 2*a), rng.uniform(y[0] + 2*a, y[-1] - 2*a)])
        if rng.random() < .3:
            c = np.array([x[np.argmin(np.abs(x - c[0]))], y[np.argmin(np.abs(y - c[1]))]])
        if any(np.hypot(*(c - v[0])) < 2.5*(a + v[1]) for v in vs):
            continue
        vs.append((c, a, float(rng.choice([-1, 1])*rng.uniform(.6, 1.5)*st*L), kind or G.pick(rng, ['gauss', 'rankine', 'algebraic'])))
    u = sum(vortex(X, Y, *v)[0] for v in vs)
    w = sum(vortex(X, Y, *v)[1] for v in vs)
    k = np.zeros((nx, ny), dtype=bool)
    if mask and rng.random() < .3:
        # far from the vortices
        far = np.min([np.hypot(X - v[0][0], Y - v[0][1])/v[1] for v in vs], axis=0) > 3
        k = far & (rng.random((nx, ny)) < .1)
    lu = G.pick(rng, G.LEN)
    units = (lu, lu, G.pick(rng, G.VEL))
    return x, y, u, w, k, units, vs


def zone(ok, i, j):
    """4-connected component around (i, j)."""
    out = np.zeros(ok.shape, dtype=bool)
    if not ok[i, j]:
        return out
    todo = [(i, j)]
    out[i, j] = True
    while todo:
        a, b = todo.pop()
        for p, q in ((a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1)):
            if 0 <= p < ok.shape[0] and 0 <= q < ok.shape[1] and ok[p, q] and not out[p, q]:
                out[p, q] = True
                todo.append((p, q))
    return out


def tie(v, lim):
    v = v[np.isfinite(v)]
    return np.any(np.abs(v - lim) < 1e-9*abs(lim))


def core(v, i, j, eps):
    """Zone above eps times the largest value of the zone above eps times the value at the centre."""
    if not v[i, j] > 0:
        return np.zeros(v.shape, dtype=bool)
    if tie(v, eps*v[i, j]):
        raise Skip
    z = zone(v > eps*v[i, j], i, j)
    mx = np.max(v[z])
    if tie(v, eps*mx):
        raise Skip
    return zone(v > eps*mx, i, j)


def at(x, y, p):
    i, j = np.argmin(np.abs(x - p[0])), np.argmin(np.abs(y - p[1]))
    for ax, k, q in ((x, i, p[0]), (y, j, p[1])):
        d = np.sort(np.abs(ax - q))
        if d[1] - d[0] < 1e-6*(ax[1] - ax[0]):
            raise Skip
    return i, j


def vals(f):
    return np.where(f.mask, np.nan, f.values)


def other_units(rng, f, *pts):
    """The same flow with another unit along one axis (and possibly of the values); the same points."""
    g = f.copy()
    ax = G.pick(rng, ['x', 'y'])
    k = G.fac(f.unit_x if ax == 'x' else f.unit_y)
    u = G.pick(rng, [q for q in ('m', 'mm', 'cm', 'um') if q != f.unit_x.strUnit().strip('[]')])
    g.change_unit(ax, u)
    k /= G.fac(g.unit_x if ax == 'x' else g.unit_y)
    if rng.random() < .4:
        g.change_unit('values', G.pick(rng, G.VEL))
    return (g,) + tuple(np.array([q[0]*k, q[1]]) if ax == 'x' else np.array([q[0], q[1]*k]) for q in pts)


@scenario('C25', 120)
def radius(m):
    rng = m.rng
    x, y, u, w, k, units, vs = plant(rng)
    f = mkvf(x, y, u, w, k, units)
    before = G.snap(f)
    c, a, g, kind = vs[int(rng.integers(len(vs)))]
    dx, dy = x[1] - x[0], y[1] - y[0]
    p = c + rng.uniform(-.4, .4, 2)*a if rng.random() < .7 else c
    i, j = at(x, y, p)
    eps = float(rng.uniform(.05, .6)) if rng.random() < .6 else .1
    NL = None
    if rng.random() < .3 and not k.any():
        NL = float(rng.choice([1.3, 2.3])*np.mean([dx, dy]))
    v = vals(VC.get_residual_vorticity(f) if NL is None else VC.get_NL_residual_vorticity(f, radius=NL, ind=False))
    s = np.sign(v[i, j])
    m.check(s == 0 or s == np.sign(g), 'sense-of-the-vortex')
    with np.errstate(all='ignore'):
        z = core(v*s, i, j, eps)
    m.case(kind, len(vs), NL is None, eps, np.sign(g))
    m.event('radius:%s:%s' % (kind, 'anticlockwise' if g > 0 else 'clockwise'))
    r, ce, ur = get_vortex_radius(f, p, NL_radius=NL, eps_detection=eps, output_center=True, output_unit=True)
    R = np.sqrt(z.sum()*dx*dy/np.pi)
    m.close(r, R, 'radius-is-not-that-of-the-zone', rtol=1e-9)
    m.check(abs(G.fac(ur)/G.fac(f.unit_x) - 1) < 1e-9 and G.dim(ur) == {'L': 1}, 'unit-of-the-radius', str(ur))
    if z.any():
        W = np.abs(v[z])
        I, J = np.where(z)
        want = [np.sum(W*x[I])/np.sum(W), np.sum(W*y[J])/np.sum(W)]
        m.close((ce - [x[0], y[0]])/dx, (np.array(want) - [x[0], y[0]])/dx, 'centre-of-the-zone', rtol=1e-7)
        if NL is None and len(vs) == 1 and not k.any():
            m.check(np.hypot(*(ce - c)) < 1.5*np.hypot(dx, dy), 'centre-far-from-the-planted-one', '%s %s' % (ce, c))
            # residual vorticity reaches zero in the shear of the outer flow: the zone is the core
            lim = {'rankine': 1., 'algebraic': None, 'gauss': None}[kind]
            if kind == 'rankine':
                m.check(abs(r - a) < 1.5*np.hypot(dx, dy), 'radius-far-from-the-planted-one', '%s %s' % (r, a))
            else:
                # half curl minus half shear of w(r)r: w + r dw/dr/2 - |r dw/dr/2|
                rr = np.linspace(1e-6, 4, 4000)*a
                W_ = vortex(rr, 0*rr, (0., 0.), a, abs(g), kind)[1]/rr
                dW = np.gradient(W_, rr)*rr
                res = np.maximum(W_ + dW/2 - np.abs(dW)/2, 0)
                ra = rr[np.where(res > eps*res[0])[0][-1]]
                m.check(abs(r - ra) < 1.5*np.hypot(dx, dy), 'radius-far-from-the-planted-one', '%s %s' % (r, ra))
    # variants
    m.close(get_vortex_radius(f, p, NL_radius=NL, eps_detection=eps), r, 'radius-variants')
    m.close(get_vortex_radius(f, p, NL_radius=NL, eps_detection=eps, output_unit=True)[0], r, 'radius-variants')
    m.close(get_vortex_radius(f, p, NL_radius=NL, eps_detection=eps, output_center=True)[0], r, 'radius-variants')
    if NL is None and z.any():
        m.event('distinct-units')
        h, p2 = other_units(rng, f, p)
        r2, c2, u2 = get_vortex_radius(h, p2, eps_detection=eps, output_center=True, output_unit=True)
        m.close(r2*G.fac(u2), r*G.fac(ur), 'radius-with-distinct-units-on-the-axes', rtol=1e-6)
        m.check(G.dim(u2) == {'L': 1}, 'unit-of-the-radius', str(u2))
        m.close(c2*[G.fac(h.unit_x), G.fac(h.unit_y)], ce*G.fac(f.unit_x), 'centre-with-distinct-units-on-the-axes', rtol=1e-6, atol=1e-6)
    # reversed flow
    b = mkvf(x, y, -u, -w, k, units)
    r2, c2 = get_vortex_radius(b, p, NL_radius=NL, eps_detection=eps, output_center=True)
    m.close(r2, r, 'radius-depends-on-the-sense', rtol=1e-9)
    m.close(c2, ce, 'centre-depends-on-the-sense', rtol=1e-9)
    m.check(not G.diff(before, G.snap(f)), 'input-changed')


@scenario('C25', 30)
def no_vortex(m):
    """Away from vortices: nothing."""
    rng = m.rng
    n1, n2 = G.shape(rng, 6, 12)
    x, y = G.axis(rng, n1, uniform=True), G.axis(rng, n2, uniform=True)
    X, Y = np.meshgrid(x, y, indexing='ij')
    kind = G.pick(rng, ['uniform', 'strain', 'shear'])
    a, b = {'uniform': (0*X + 1, 0*X), 'strain': (X - x[0] + 1, -(Y - y[0])), 'shear': (Y - y[0] + 1, 0*X)}[kind]
    f = mkvf(x, y, a, b, False, ('mm', 'mm', 'm/s'))
    p = (float(rng.uniform(x[0], x[-1])), float(rng.uniform(y[0], y[-1])))
    m.event('no-vortex:' + kind)
    if kind == 'strain' or kind == 'uniform':
        v = VC.get_residual_vorticity(f)
        if np.any(vals(v) != 0):
            raise Skip
        r, c, u = get_vortex_radius(f, p, output_center=True, output_unit=True)
        m.close(r, 0., 'radius-without-vortex')
        m.close(get_vortex_property(f, p), 0., 'property-without-vortex')
    # a vortex elsewhere
    x, y, u, w, k, units, vs = plant(rng, mask=False, kind='rankine')
    f = mkvf(x, y, u, w, k, units)
    C = [(x[0], y[0]), (x[-1], y[0]), (x[0], y[-1]), (x[-1], y[-1])]
    C = [q for q in C if all(np.hypot(q[0] - v[0][0], q[1] - v[0][1]) > 2*v[1] + 3*(x[1] - x[0]) for v in vs)]
    if not C:
        raise Skip
    p = G.pick(rng, C)
    m.event('away')
    c, uc = get_vortex_circulation(f, p, output_unit=True)
    v = vals(VC.get_vorticity(f))
    i, j = at(x, y, p)
    if abs(v[i, j]) < .05*np.nanmax(np.abs(v)):
        m.close(c, 0., 'circulation-away-from-the-vortex')
        m.check(G.dim(uc) == {'L': 2, 'T': -1}, 'unit-of-the-circulation-away', str(uc))


@scenario('C25', 120)
def circulation(m):
    rng = m.rng
    x, y, u, w, k, units, vs = plant(rng)
    f = mkvf(x, y, u, w, k, units)
    before = G.snap(f)
    c, a, g, kind = vs[int(rng.integers(len(vs)))]
    dx, dy = x[1] - x[0], y[1] - y[0]
    p = c + rng.uniform(-.3, .3, 2)*a
    i, j = at(x, y, p)
    eps = float(rng.uniform(.05, .4)) if rng.random() < .6 else .1
    vf = VC.get_vorticity(f)
    v = vals(vf)
    lim = eps*np.nanmax(np.abs(v))
    if tie(np.abs(v), lim):
        raise Skip
    with np.errstate(all='ignore'):
        z = zone(np.abs(v) > lim, i, j)
    m.event('circulation:' + kind)
    ci, uc = get_vortex_circulation(f, p, epsilon=eps, output_unit=True)
    want = np.sum(v[z])*dx*dy*G.fac(vf.unit_values)*G.fac(f.unit_x)*G.fac(f.unit_y)
    m.close(ci*G.fac(uc), want, 'circulation-is-not-that-of-the-zone', rtol=1e-9)
    m.check(G.dim(uc) == {'L': 2, 'T': -1}, 'unit-of-the-circulation', str(uc))
    m.close(get_vortex_circulation(f, p, epsilon=eps), ci, 'circulation-variants')
    h, p2 = other_units(rng, f, p)
    c2, u2 = get_vortex_circulation(h, p2, epsilon=eps, output_unit=True)
    m.close(c2*G.fac(u2), ci*G.fac(uc), 'circulation-with-distinct-units-on-the-axes', rtol=1e-6)
    if len(vs) == 1 and not k.any() and kind == 'gauss':
        # outside of the zone: eps of the vorticity
        G_ = g*(1 - eps)*G.fac(f.unit_x)*G.fac(f.unit_values)
        m.event('circulation-of-a-known-vortex')
        m.close(ci*G.fac(uc), G_, 'circulation-far-from-the-planted-one', rtol=.15)
    b = mkvf(x, y, -u, -w, k, units)
    m.close(get_vortex_circulation(b, p, epsilon=eps), -ci, 'circulation-of-the-reversed-flow', rtol=1e-9)
    # velocities twice as large
    b = mkvf(x, y, 2*u, 2*w, k, units)
    m.close(get_vortex_circulation(b, p, epsilon=eps), 2*ci, 'circulation-is-not-linear', rtol=1e-9)
    m.check(not G.diff(before, G.snap(f)), 'input-changed')


CRITS = {'residual': VC.get_residual_vorticity, 'vorticity': VC.get_vorticity, 'swirling': VC.get_swirling_strength, 'q': VC.get_q_criterion}


@scenario('C25', 120)
def properties(m):
    rng = m.rng
    x, y, u, w, k, units, vs = plant(rng)
    f = mkvf(x, y, u, w, k, units)
    c, a, g, kind = vs[int(rng.integers(len(vs)))]
    dx, dy = x[1] - x[0], y[1] - y[0]
    p = c + rng.uniform(-.3, .3, 2)*a if rng.random() < .7 else c
    i, j = at(x, y, p)
    lim = float(rng.uniform(.05, .6)) if rng.random() < .6 else .1
    sn, pn = G.pick(rng, [None, 'residual', 'vorticity', 'swirling', 'q']), G.pick(rng, [None, 'residual', 'vorticity', 'swirling'])
    kw = {}
    if sn:
        kw['size_crit'] = CRITS[sn]
    if pn:
        kw['prop_crit'] = CRITS[pn]
    S, Q = CRITS[sn or 'residual'](f), CRITS[pn or 'residual'](f)
    sv, qv = np.abs(vals(S)), vals(Q)
    m.case(sn, pn, kind, lim)
    m.event('property:%s:%s' % (sn, pn))
    if k[i, j]:
        m.raises(lambda: get_vortex_property(f, p, size_crit_lim=lim, **kw), 'property-at-a-masked-centre')
        return
    with np.errstate(all='ignore'):
        z = core(sv, i, j, lim)
    pr, up = get_vortex_property(f, p, size_crit_lim=lim, output_unit=True, **kw)
    t = np.where(z, np.where(np.isfinite(qv), qv, 0), 0.)
    full = np.sum(t)*dx*dy
    scale = np.max(np.abs(t))*dx*dy
    fu = G.fac(Q.unit_values)*G.fac(f.unit_x)*G.fac(f.unit_y)
    # any quadrature of the zone: the weights of the samples are between 0 and 2 at its edge only
    edge = z & ~(np.roll(z, 1, 0) & np.roll(z, -1, 0) & np.roll(z, 1, 1) & np.roll(z, -1, 1))
    tol = np.sum(np.abs(t[edge]))*dx*dy + .1*abs(full) + scale
    m.check(abs(pr*G.fac(up) - full*fu) <= tol*fu, 'property-is-not-the-integral-over-the-vortex', '%s %s +- %s' % (pr*G.fac(up), full*fu, tol*fu))
    want = simpson(simpson(t, dx=dy), dx=dx)
    m.close(pr*G.fac(up), want*fu, 'property-quadrature', rtol=5e-2, atol=1e-9)
    m.close(get_vortex_property(f, p, size_crit_lim=lim, **kw), pr, 'property-variants')
    if z.any() and sv[i, j] > 1e-6*np.nanmax(sv):
        h, p2 = other_units(rng, f, p)
        q2, u2 = get_vortex_property(h, p2, size_crit_lim=lim, output_unit=True, **kw)
        m.close(q2*G.fac(u2), pr*G.fac(up), 'property-with-distinct-units-on-the-axes', rtol=1e-6)
    # value at the centre
    q = Q.get_value(*p)
    va, uv = get_vortex_property(f, p, size_crit='value', prop_crit=kw.get('prop_crit'), output_unit=True)
    m.close(va, q, 'value-at-the-centre')
    m.check(uv.strUnit() == Q.unit_values.strUnit(), 'unit-of-the-value')
    # reversed flow
    b = mkvf(x, y, -u, -w, k, units)
    odd = (pn or 'residual') in ('residual', 'vorticity')
    m.close(get_vortex_property(b, p, size_crit_lim=lim, **kw), -pr if odd else pr, 'property-of-the-reversed-flow', rtol=1e-6, atol=1e-9)


@scenario('C25', 40)
def evolutions(m):
    rng = m.rng
    x, y, u, w, k, units, vs = plant(rng, n=1, mask=False)
    c, a, g, kind = vs[0]
    X, Y = np.meshgrid(x, y, indexing='ij')
    n = int(rng.integers(2, 5))
    t = G.times(rng, n)
    tf = TemporalVectorFields()
    pos, fs = [], []
    for q in range(n):
        cc = c + rng.uniform(-.5, .5, 2)*a
        f = mkvf(x, y, *vortex(X, Y, cc, a*rng.uniform(.8, 1.2), g, kind), False, units)
        tf.add_field(f, time=float(t[q]), unit_times='ms')
        pos.append(cc)
        fs.append(f)
    keep = rng.random(n) < .7
    keep[int(rng.integers(n))] = True
    sel = np.where(keep)[0]
    if rng.random() < .4:
        sel = rng.permutation(sel)
    tr = Points(np.array([pos[q] for q in sel]), v=[tf.times[np.argmin(np.abs(tf.times - t[q]))] for q in sel], unit_x=units[0], unit_y=units[1], unit_v='ms')
    m.event('evolution', len(sel))
    eps = float(rng.uniform(.08, .4))
    one = [get_vortex_radius(fs[q], pos[q], eps_detection=eps, output_center=True, output_unit=True) for q in sel]
    R = get_vortex_radius_time_evolution(tf, tr, eps_detection=eps)
    o = np.argsort(R.x)
    e = np.argsort([t[q] for q in sel])
    m.close(R.x[o], np.array([t[q] for q in sel])[e], 'times-of-the-radii')
    m.close(R.y[o], np.array([q[0] for q in one])[e], 'radii-along-time')
    m.check(R.unit_x.strUnit() == '[ms]' and abs(G.fac(R.unit_y)/G.fac(fs[0].unit_x) - 1) < 1e-9, 'units-of-the-radii')
    # other unit along an axis
    if rng.random() < .5:
        ht, tu = tf.copy(), tr.copy()
        ax, lu = G.pick(rng, ['x', 'y']), G.pick(rng, ['m', 'mm', 'um'])
        ht.change_unit(ax, lu)
        tu.change_unit(ax, lu)
        R3, C3 = get_vortex_radius_time_evolution(ht, tu, eps_detection=eps, output_center=True)
        m.close(R3.y*G.fac(R3.unit_y), R.y*G.fac(R.unit_y), 'radii-along-time-with-distinct-units', rtol=1e-6)
        m.close(C3.xy[:, 0]*G.fac(C3.unit_x), [q[1][0]*G.fac(fs[0].unit_x) for q in one], 'centres-along-time-with-distinct-units', rtol=1e-6, atol=1e-6)
        m.close(C3.xy[:, 1]*G.fac(C3.unit_y), [q[1][1]*G.fac(fs[0].unit_x) for q in one], 'centres-along-time-with-distinct-units', rtol=1e-6, atol=1e-6)
    R2, C = get_vortex_radius_time_evolution(tf, tr, eps_detection=eps, output_center=True)
    m.close(R2.y, R.y, 'radii-along-time#centre')
    m.close(C.xy, [q[1] for q in one], 'centres-along-time')
    m.close(C.v, tr.v, 'times-of-the-centres')
    m.check(C.unit_x.strUnit() == fs[0].unit_x.strUnit() and C.unit_v.strUnit() == '[ms]', 'units-of-the-centres')
    cr = G.pick(rng, [{}, {'size_crit': VC.get_vorticity, 'prop_crit': VC.get_vorticity}, {'size_crit': 'value', 'prop_crit': VC.get_vorticity}])
    P = get_vortex_property_time_evolution(tf, tr, size_crit_lim=eps, **cr)
    ref = [get_vortex_property(fs[q], pos[q], size_crit_lim=eps, output_unit=True, **cr) for q in sel]
    o = np.argsort(P.x)
    m.close(P.x[o], np.array([t[q] for q in sel])[e], 'times-of-the-properties')
    m.close(P.y[o]*G.fac(P.unit_y), np.array([float(r[0])*G.fac(r[1]) for r in ref])[e], 'properties-along-time')
