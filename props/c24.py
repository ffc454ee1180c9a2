"""C24: boundary layer quantities."""
import contextlib, io, warnings
import numpy as np
from scipy.integrate import solve_bvp, quad
from scipy.optimize import brentq
from IMTreatment.core import Profile, ScalarField, VectorField, TemporalVectorFields
from IMTreatment import boundary_layer as BL
from IMTreatment.boundary_layer.boundary_layer import get_separation_position
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Velocity profiles (power, polynomial, exponential, tanh, with or without the wall sample, masked samples, any units) and fields '
        'made of them in both directions against quadratures made here; models against independent solutions of their equations '
        'over several decades of their parameters.')
ASSUMPTIONS = ['wall at the origin, velocities positive and increasing towards the outer flow in the layer',
               'displacement and momentum thicknesses are integrals over the samples below the 95 percent thickness, normalised by the largest velocity there',
               'Falkner-Skan exponents from -0.085 to 1.1 (beyond: known finding)']


def prof(rng):
    """Increasing profile resolved by its samples: (y, u)."""
    n = int(rng.integers(20, 80))
    kind = G.pick(rng, ['power', 'poly', 'exp', 'tanh'])
    h = 1.
    y = np.linspace(0, h, n) if rng.random() < .6 else np.concatenate([[0.], np.sort(rng.uniform(.003, h, n - 1))])
    if len(np.unique(y)) < n or np.min(np.diff(y)) < 1e-4:
        y = np.linspace(0, h, n)
    d = rng.uniform(.3, .8)
    if kind == 'power':
        u = np.minimum(y/d, 1)**(1./rng.integers(1, 8))
    elif kind == 'poly':
        q = np.minimum(y/d, 1)
        u = 2*q - q**2
    elif kind == 'exp':
        u = 1 - np.exp(-y/(d/4))
    else:
        u = np.tanh(y/(d/2))
    if rng.random() < .25:
        # overshoot: a wall jet
        u = u*(1 + rng.uniform(.2, .8)*np.exp(-((y - d)/(d/3))**2))
    if rng.random() < .4:
        y, u = y[1:], u[1:]
    return y, u


def d_perc(y, u, perc, mask):
    """First position where u reaches perc of its maximum (linear in between)."""
    v = perc*np.max(u[~mask])
    k = np.where((u[:-1] <= v) & (u[1:] > v) & ~mask[1:] & ~mask[:-1])[0]
    k = k[0]
    return y[k] + (v - u[k])/(u[k + 1] - u[k])*(y[k + 1] - y[k])


def thick(y, u, mask):
    d = d_perc(y, u, .95, mask)
    y, u = y[~mask], u[~mask]
    k = (y >= 0) & (y <= d)
    a, b = y[k], u[k]
    if len(a) == 0:
        return d, 0., 0., None
    if a[0] != 0:
        a, b = np.append([0.], a), np.append([0.], b)
    q = b/np.max(b)
    s1 = sum((1 - (q[i] + q[i + 1])/2)*(a[i + 1] - a[i]) for i in range(len(a) - 1))
    s2 = sum((q[i]*(1 - q[i]) + q[i + 1]*(1 - q[i + 1]))/2*(a[i + 1] - a[i]) for i in range(len(a) - 1))
    return d, s1, s2, a


def near(d, y):
    """The thickness is too near a sample to tell which samples are below."""
    return np.min(np.abs(y - d)) < 1e-9*np.max(np.abs(y))


@scenario('C24', 200)
def thicknesses(m):
    rng = m.rng
    y, u = prof(rng)
    mask = np.zeros(len(y), dtype=bool)
    if rng.random() < .3:
        mask[1:-1] = rng.random(len(y) - 2) < .1
    L, U = 10**rng.uniform(-4, 3), 10**rng.uniform(-4, 3)
    ux, uy = G.pick(rng, G.LEN), G.pick(rng, G.VEL)
    p = Profile(y*L, u*U, mask=mask, unit_x=ux, unit_y=uy)
    before = G.snap(p)
    perc = float(rng.uniform(.3, .99))
    try:
        dp = d_perc(y, u, perc, mask)
        d, s1, s2, a = thick(y, u, mask)
    except IndexError:
        raise Skip
    if near(d, y) or a is None or s2 <= 0:
        raise Skip
    m.case(len(y), mask.sum(), L, U, perc)
    m.event('profile')
    m.close(BL.get_bl_thickness(p, perc=perc), dp*L, 'boundary-layer-thickness', rtol=1e-7)
    m.close(BL.get_bl_thickness(p), d*L, 'boundary-layer-thickness#95', rtol=1e-7)
    m.close(BL.get_displ_thickness(p), s1*L, 'displacement-thickness', rtol=1e-7)
    m.close(BL.get_momentum_thickness(p), s2*L, 'momentum-thickness', rtol=1e-7)
    m.close(BL.get_shape_factor(p), s1/s2, 'shape-factor', rtol=1e-7)
    if not mask.any():
        tau, rho = float(10**rng.uniform(-3, 3)), float(10**rng.uniform(-1, 4))
        us = np.sqrt(tau/rho)
        want = s1*L*u[-1]*U*G.fac(p.unit_y)/us
        m.close(BL.get_clauser_thickness(p, tau=tau, rho=rho), want, 'Clauser-thickness', rtol=1e-7)
        nu = float(10**rng.uniform(-7, -4))
        # wall stress from the first gradient
        tw = nu*rho*(u[1] - u[0])/(y[1] - y[0])*U/L*G.fac(p.unit_y)/G.fac(p.unit_x)
        if tw > 0 and np.allclose(np.diff(y), y[1] - y[0]):
            m.close(BL.get_clauser_thickness(p, rho=rho, nu=nu), s1*L*u[-1]*U*G.fac(p.unit_y)/np.sqrt(tw/rho), 'Clauser-thickness#stress', rtol=1e-6)
    m.check(not G.diff(before, G.snap(p)), 'input-changed')


@scenario('C24', 100)
def stresses(m):
    rng = m.rng
    n = int(rng.integers(4, 30))
    y = np.linspace(0, 1, n) if rng.random() < .5 else np.cumsum(rng.uniform(.2, 1, n))
    u = rng.normal(size=n).cumsum()
    L, U = 10**rng.uniform(-3, 3), 10**rng.uniform(-3, 3)
    ux, uy = G.pick(rng, G.LEN), G.pick(rng, G.VEL)
    nu, rho = float(10**rng.uniform(-7, -3)), float(10**rng.uniform(0, 4))
    mk = rng.random(n) < .2 if rng.random() < .4 else np.zeros(n, dtype=bool)
    p = Profile(y*L, u*U, unit_x=ux, unit_y=uy)
    fx, fy = G.fac(p.unit_x), G.fac(p.unit_y)
    how = G.pick(rng, ['simple', 'wall_law_lin', 'wall_law_log'])
    m.event('stress:' + how)
    if how == 'simple':
        if not np.allclose(np.diff(y), y[1] - y[0]):
            m.raises(lambda: BL.get_shear_stress(p, nu=nu, rho=rho), 'stress-on-uneven-steps')
            t = BL.get_shear_stress(p, nu=nu, rho=rho, respace=True)
            e = p.evenly_space('linear')
            m.close(t.x, e.x, 'positions-of-the-respaced-stress')
            m.close(t.y*G.fac(t.unit_y), np.gradient(e.y*fy, e.x*fx)*nu*rho, 'respaced-stress', rtol=1e-6)
            raise Skip
        t = BL.get_shear_stress(p, nu=nu, rho=rho)
        Y, V = y*L*fx, u*U*fy
        want = np.gradient(V, Y)*nu*rho
        m.close(t.y*G.fac(t.unit_y), want, 'shear-stress', rtol=1e-6)
        m.check(G.dim(t.unit_y) == {'M': 1, 'L': -1, 'T': -2}, 'dimension-of-the-stress', t.unit_y)
    elif how == 'wall_law_lin':
        p = Profile(y*L, u*U, mask=mk, unit_x=ux, unit_y=uy)
        t = BL.get_shear_stress(p, method=how, nu=nu, rho=rho)
        k = y > 0
        m.check(np.array_equal(t.mask, mk[k]), 'stress-mask')
        u = np.where(mk, np.nan, u)
        m.close(t.x*G.fac(t.unit_x), (y*L)[k]*fx, 'stress-positions')
        m.check(G.dim(t.unit_x) == {'L': 1}, 'unit-of-the-stress-positions')
        m.close(t.y*G.fac(t.unit_y), (u*U*fy/(np.where(k, y, 1)*L*fx))[k]*nu*rho, 'linear-wall-law-stress', rtol=1e-7)
        m.check(G.dim(t.unit_y) == {'M': 1, 'L': -1, 'T': -2}, 'dimension-of-the-stress', t.unit_y)
    else:
        nu, rho, us = float(10**rng.uniform(-6.5, -5)), float(10**rng.uniform(0, 4)), float(10**rng.uniform(-2.5, -.5))
        yy = np.sort(rng.uniform(40, 1000, 5))*nu/us
        uu = us*(np.log(yy*us/nu)/.41 + 5.1)
        wall = rng.random() < .5
        if wall:
            yy, uu = np.append([0.], yy), np.append([0.], uu)
        mk = np.zeros(len(yy), dtype=bool)
        if rng.random() < .4:
            mk[2] = True
        q = Profile(yy/fx, uu/fy, mask=mk, unit_x=ux, unit_y=uy)
        t = BL.get_shear_stress(q, method=how, nu=nu, rho=rho)
        ok = ~t.mask
        m.check(np.array_equal(t.mask, mk[int(wall):]), 'mask-of-the-stress')
        m.close(t.x*G.fac(t.unit_x), yy[int(wall):], 'stress-positions#log', rtol=1e-9)
        m.close(t.y[ok]*G.fac(t.unit_y), rho*us**2*np.ones(ok.sum()), 'logarithmic-wall-law-stress', rtol=1e-4)
        m.check(G.dim(t.unit_y) == {'M': 1, 'L': -1, 'T': -2}, 'dimension-of-the-stress', t.unit_y)
        d = int(rng.integers(1, 3))
        f = ScalarField()
        V = np.array([uu/fy]*2)
        if d == 1:
            f.import_from_arrays([0., 3.], yy/fx, V, unit_x='km', unit_y=ux, unit_values=uy)
        else:
            f.import_from_arrays(yy/fx, [0., 3.], V.T, unit_x=ux, unit_y='km', unit_values=uy)
        T = BL.get_shear_stress(f, direction=d, method=how, nu=nu, rho=rho)
        m.close(T.values[~T.mask]*G.fac(T.unit_values), rho*us**2*np.ones(10), 'logarithmic-wall-law-stress-of-a-field', rtol=1e-4)
    # fields, both directions
    nx = int(rng.integers(2, 5))
    amp = rng.uniform(.5, 2, nx)
    d = int(rng.integers(1, 3))
    if not np.allclose(np.diff(y), y[1] - y[0]) and how == 'simple':
        raise Skip
    if how == 'wall_law_log':
        raise Skip
    f = ScalarField()
    V = amp[:, None]*u[None, :]*U
    s = np.arange(nx)*3.
    if d == 1:
        f.import_from_arrays(s, y*L, V, unit_x='km', unit_y=ux, unit_values=uy)
    else:
        f.import_from_arrays(y*L, s, V.T, unit_x=ux, unit_y='km', unit_values=uy)
    T = BL.get_shear_stress(f, direction=d, method=how, nu=nu, rho=rho)
    one = BL.get_shear_stress(p, method=how, nu=nu, rho=rho)
    want = amp[:, None]*one.y[None, :]*G.fac(one.unit_y)
    got = T.values if d == 1 else T.values.T
    gm = T.mask if d == 1 else T.mask.T
    lost = len(y) - len(one.y)
    m.check(lost == int(how != 'simple' and y[0] == 0) and gm[:, :lost].all() and np.array_equal(gm[:, lost:], np.isnan(want)), 'mask-of-the-stress-field')
    got = got[:, lost:]
    m.close(T.axe_x, f.axe_x, 'axes-of-the-stress-field')
    m.close(T.axe_y, f.axe_y, 'axes-of-the-stress-field')
    m.check(T.unit_x.strUnit() == f.unit_x.strUnit() and T.unit_y.strUnit() == f.unit_y.strUnit(), 'units-of-the-stress-field')
    m.event('stress-field:%d' % d)
    m.close(got*G.fac(T.unit_values), want, 'shear-stress-of-a-field#%d' % d, rtol=1e-7)
    m.check(G.dim(T.unit_values) == {'M': 1, 'L': -1, 'T': -2}, 'dimension-of-the-stress-field', T.unit_values)


@scenario('C24', 60)
def fields(m):
    rng = m.rng
    d = int(rng.integers(1, 3))
    n = int(rng.integers(2, 6))
    y = np.linspace(0, 1, int(rng.integers(20, 60)))
    if rng.random() < .5:
        y = y[1:]
    dl = rng.uniform(.3, .8, n)
    e = 1./rng.integers(1, 8)
    Uo = rng.uniform(.5, 2, n)
    V = np.array([U*np.minimum(y/q, 1)**e for q, U in zip(dl, Uo)])
    L = 10**rng.uniform(-3, 3)
    s = np.cumsum(rng.uniform(.5, 2, n))
    uw, us, uv = G.pick(rng, G.LEN), G.pick(rng, G.LEN), G.pick(rng, G.VEL)
    f = ScalarField()
    if d == 1:
        f.import_from_arrays(s, y*L, V, unit_x=us, unit_y=uw, unit_values=uv)
    else:
        f.import_from_arrays(y*L, s, V.T, unit_x=uw, unit_y=us, unit_values=uv)
    before = G.snap(f)
    none = np.zeros(len(y), dtype=bool)
    ref = [thick(y, v, none) for v in V]
    if any(near(r[0], y) or r[3] is None or r[2] <= 0 for r in ref):
        raise Skip
    m.event('field:%d' % d)
    for name, fn, k in (('thickness', BL.get_bl_thickness, 0), ('displacement', BL.get_displ_thickness, 1), ('momentum', BL.get_momentum_thickness, 2)):
        r = fn(f, direction=d)
        m.close(r.x, s, name + '-positions')
        m.close(r.y, np.array([q[k] for q in ref])*L, name + '-of-a-field#%d' % d, rtol=1e-6)
        m.check(r.unit_x.strUnit() == G.make_unit(us).strUnit() and r.unit_y.strUnit() == G.make_unit(uw).strUnit(), name + '-units#%d' % d,
                '%s %s' % (r.unit_x, r.unit_y))
    r = BL.get_shape_factor(f, direction=d)
    m.close(r.y, [q[1]/q[2] for q in ref], 'shape-factor-of-a-field#%d' % d, rtol=1e-6)
    m.check(G.dim(r.unit_y) == {}, 'shape-factor-unit')
    if y[0] > 0 or True:
        r = BL.get_clauser_thickness(f, direction=d, nu=1e-6, rho=1000.)
        one = [BL.get_clauser_thickness(Profile(y*L, v, unit_x=uw, unit_y=uv), nu=1e-6, rho=1000.) for v in V]
        m.close(r.y, one, 'Clauser-thickness-of-a-field#%d' % d, rtol=1e-7)
    m.check(not G.diff(before, G.snap(f)), 'input-changed#field')


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


_BLASIUS = {}


def blasius():
    if not _BLASIUS:
        eta = np.linspace(0, 12, 600)
        s = solve_bvp(lambda x, Y: np.vstack([Y[1], Y[2], -.5*Y[0]*Y[2]]), lambda a, b: np.array([a[0], a[1], b[1] - 1]),
                      eta, np.vstack([eta - 1 + np.exp(-eta), 1 - np.exp(-eta), np.exp(-eta)]), tol=1e-9, max_nodes=100000)
        _BLASIUS['s'] = s.sol
    return _BLASIUS['s']


@scenario('C24', 80)
def blasius_model(m):
    rng = m.rng
    U, nu, rho = float(10**rng.uniform(-2, 2)), float(10**rng.uniform(-7, -4)), float(10**rng.uniform(0, 4))
    B = BL.BlasiusBL(U, nu, rho)
    Re = np.sort(10**rng.uniform(2, 5.6, int(rng.integers(1, 5))))
    x = Re*nu/U
    sol = blasius()
    m.event('blasius', len(x))
    with contextlib.redirect_stdout(io.StringIO()):
        for p, lev in (('95', .95), ('99', .99)):
            r = B.get_BL_properties(x if rng.random() < .7 or len(x) > 1 else float(x[0]), bl_perc=p)
            delta, d2, ds, H, Cf, Rex, tau = r
            e = brentq(lambda t: sol(t)[1] - lev, 1, 8)
            m.close(delta, e*np.sqrt(nu*x/U), 'laminar-thickness#' + p, rtol=5e-3)
        m.close(Rex, Re, 'Reynolds-number', rtol=1e-9)
        e1 = 12 - sol(12.)[0]
        e2 = quad(lambda t: sol(t)[1]*(1 - sol(t)[1]), 0, 12, limit=200)[0]
        m.close(ds, e1*np.sqrt(nu*x/U), 'laminar-displacement-thickness', rtol=5e-3)
        m.close(d2, e2*np.sqrt(nu*x/U), 'laminar-momentum-thickness', rtol=5e-3)
        m.close(H, ds/d2, 'laminar-shape-factor', rtol=1e-3)
        m.close(Cf, 2*sol(0.)[2]/np.sqrt(Re), 'laminar-friction', rtol=5e-3)
        m.close(tau, Cf*.5*rho*U**2, 'wall-stress', rtol=1e-9)
        m.close(B.get_Rex(float(x[0])), Re[0], 'Reynolds-number', rtol=1e-9)
        # the plate's leading edge
        z = B.get_BL_properties(np.array([0., float(x[0])]))
        m.check(all(float(q[0]) == 0 for i, q in enumerate(z) if i != 3), 'leading-edge')
        # turbulent branch
        xt = 10**rng.uniform(6, 9)*nu/U
        t = B.get_BL_properties(float(xt))
        ta = B.get_BL_properties(float(x[0]), allTurbulent=True)
        for q, X in ((t, xt), (ta, x[0])):
            R = U*X/nu
            m.close(q[0], [.38*X/R**.2], 'turbulent-thickness', rtol=.02)
            m.close(q[4], [.0592/R**.2], 'turbulent-friction', rtol=.02)
            m.close(q[5], [R], 'Reynolds-number#turbulent', rtol=1e-9)
            m.close(q[6], q[4]*.5*rho*U**2, 'wall-stress#turbulent', rtol=1e-9)
        # inverse
        m.close(B.get_x_from_delta(float(delta[0])), x[0], 'position-from-thickness', rtol=1e-6)
        m.close(B.get_x_from_delta(float(t[0][0])), xt, 'position-from-thickness#turbulent', rtol=1e-6)
        # profiles
        X = float(x[0])
        if rng.random() < .5:
            p = B.get_profile(X)
            yy = p.x
            m.check(yy[0] == 0 and yy[-1] > 1.2*delta[0], 'extent-of-the-profile')
        else:
            k = int(rng.integers(1, 30))
            yy = np.sort(rng.uniform(0, 10, k))*np.sqrt(nu*X/U)
            if k > 1 and rng.random() < .3:
                yy[0] = 0
            p = B.get_profile(X, y=yy)
        m.close(p.y, U*sol(np.minimum(yy/np.sqrt(nu*X/U), 12))[1], 'laminar-profile', rtol=2e-3, atol=2e-5)
        m.check(G.dim(p.unit_x) == {'L': 1} and G.dim(p.unit_y) == {'L': 1, 'T': -1} and G.fac(p.unit_y) == 1, 'profile-units')
        yt = np.linspace(0, 2, 20)*ta[0][0]
        q = B.get_profile(X, y=yt, allTurbulent=True)
        m.close(q.y, U*np.minimum(yt/ta[0][0], 1)**(1/7.), 'turbulent-profile', rtol=1e-6)
        q = B.get_profile(X, allTurbulent=True)
        m.close(q.y, U*np.minimum(q.x/ta[0][0], 1)**(1/7.), 'turbulent-profile', rtol=1e-6)
        # confinement: thinner, tends to the free one
        h = float(delta[0]*10**rng.uniform(.7, 3))
        c = B.get_thickness_with_confinement(X, h)
        m.check(c.y[0] < delta[0]*(1 + 1e-12), 'confined-layer-is-thinner')
        m.close(c.y[0], delta[0]*(1 - .26547*delta[0]/h), 'confined-thickness', rtol=1e-9)
        m.close(B.get_thickness_with_confinement(X, 1e9*h).y[0], delta[0], 'confined-thickness-limit', rtol=1e-6)
        if len(x) > 1:
            hs = np.array([float(q*10**rng.uniform(.7, 2)) for q in delta])
            cs = B.get_thickness_with_confinement(x, hs)
            m.close(cs.x, x, 'confined-thickness-positions#series', rtol=1e-9)
            m.close(cs.y, delta*(1 - .26547*delta/hs), 'confined-thickness#series', rtol=1e-9)
            m.event('confinement-along-the-plate')
        tc = B.get_thickness_with_confinement(X, float(ta[0][0]*20), allTurbulent=True)
        m.close(tc.y, ta[0]*(1 - .26547/20), 'confined-thickness#turbulent', rtol=1e-9)
        m.close(B.get_x_from_delta(float(ta[0][0]), allTurbulent=True), X, 'position-from-thickness#all-turbulent', rtol=1e-6)
        pt = B.get_profile_with_confinement(X, float(ta[0][0]*20), allTurbulent=True)
        m.close(pt.y, U*np.minimum(pt.x/tc.y[0], 1)**(1/7.), 'confined-profile#turbulent', rtol=1e-6)
        pc = B.get_profile_with_confinement(X, h)
        m.close(BL.get_bl_thickness(pc, perc=.99), c.y[0], 'confined-profile', rtol=2e-2)


@scenario('C24', 24)
def falkner_skan(m):
    rng = m.rng
    k = float(rng.uniform(-.085, 1.1)) if rng.random() < .8 else float(rng.choice([0., 1., 1/3.]))
    nu, c0, L = float(10**rng.uniform(-7, -3)), float(10**rng.uniform(-2, 2)), float(10**rng.uniform(-2, 2))
    F = BL.FalknerSkanBL(nu, k, c0, L)
    m.case(k, nu, c0, L)
    n0 = len(warnings.filters)
    mu, sol = quiet(F.get_f_function)
    m.check(len(warnings.filters) == n0, 'warning-filters-of-the-process-changed')
    m.event('falkner-skan')
    eta = np.linspace(0, 10, 400)
    ref = solve_bvp(lambda x, Y: np.vstack([Y[1], Y[2], -(k + 1)/2*Y[0]*Y[2] - k*(1 - Y[1]**2)]), lambda a, b: np.array([a[0], a[1], b[1] - 1]),
                    eta, np.vstack([eta - 1 + np.exp(-eta), 1 - np.exp(-eta), np.exp(-eta)]), tol=1e-8, max_nodes=100000)
    if ref.status != 0 or ref.sol(0)[2] < 0:
        raise Skip
    m.close(sol, ref.sol(mu).T, 'Falkner-Skan-solution', rtol=0, atol=2e-3)
    x = float(10**rng.uniform(-2, 2))*L
    ue = c0*(x/L)**k
    m.close(F.get_u_e(x), ue, 'outer-velocity')
    y, vx = quiet(F.get_profile, x)
    m.close(y, mu*np.sqrt(nu*x/ue), 'similarity-positions', rtol=1e-9)
    m.close(vx, ue*ref.sol(mu)[1], 'Falkner-Skan-profile', rtol=0, atol=2e-3)
    m.close(F.get_mu(x, F.get_y(x, mu)), mu, 'similarity-variable-inverse', rtol=1e-9, atol=1e-12)
    if k == 0:
        m.event('falkner-skan:flat-plate')
        m.close(sol[0, 2], .33206, 'flat-plate-is-not-Blasius', rtol=1e-3)


@scenario('C24', 1, 1)
def falkner_skan_strong(m):
    """Documented up to m = 2."""
    bad = []
    for k in (1.3, 1.6, 1.9):
        try:
            mu, sol = quiet(BL.FalknerSkanBL(1e-6, k, 1., 1.).get_f_function)
            ok = abs(sol[-1, 1] - 1) < 1e-2 and sol[0, 2] > 1.2
        except Exception:
            ok = False
        if not ok:
            bad.append(k)
    m.event('falkner-skan:strong')
    m.check(not bad, 'falkner-skan-does-not-converge-above-1.1', 'm = %s' % bad)


@scenario('C24', 60)
def thwaites(m):
    rng = m.rng
    nu, U0 = float(10**rng.uniform(-7, -4)), float(10**rng.uniform(-2, 2))
    k = float(rng.uniform(-.08, 1.))
    a = float(rng.uniform(.5, 2))
    kind = G.pick(rng, ['power', 'flat', 'linear', 'linear'])
    slow = float(rng.uniform(.05, .16))
    ue = {'power': lambda x: U0*(x/a)**k if k >= 0 else U0*((x + .1*a)/a)**k, 'flat': lambda x: U0 + 0*x, 'linear': lambda x: U0*(1 - slow*x/a)}[kind]
    T = BL.ThwaitesBL(ue, nu)
    x = np.linspace(.2, 1, 9)*a
    th = T.get_momentum_thikness(x)
    want = np.sqrt([.441*nu/ue(q)**5.68*quad(lambda s: ue(s)**4.68, 0, q)[0] for q in x])
    m.event('thwaites:' + kind)
    m.close(th, want, 'Thwaites-momentum-thickness', rtol=1e-5)
    m.close(T.get_momentum_thikness(float(x[3])), want[3], 'Thwaites-momentum-thickness#scalar', rtol=1e-5)
    if kind == 'flat':
        m.close(th, .664*np.sqrt(nu*x/U0), 'Thwaites-flat-plate', rtol=2e-2)
    lam, d2, ds, H = T.get_BL_properties(x)
    m.close(d2, want, 'Thwaites-momentum-thickness#properties', rtol=1e-5)
    # pressure gradient parameter: theta^2/nu due/dx
    g = np.gradient([ue(q) for q in x], x)
    m.close(lam, want**2/nu*g, 'Thwaites-parameter', rtol=1e-4, atol=1e-9)
    ok = np.isfinite(H)
    m.close(ds[ok], (H*d2)[ok], 'Thwaites-displacement', rtol=1e-9)
    for l, h in zip(lam, H):
        if 1e-3 < l < .099:
            m.close(h, 2.61 - 3.75*l + 5.24*l**2, 'Thwaites-shape-factor', rtol=1e-6)
        elif -.099 < l < -1e-3:
            m.close(h, 2.088 + .0731/(l + .14), 'Thwaites-shape-factor', rtol=1e-6)


@scenario('C24', 60)
def wall_laws(m):
    rng = m.rng
    rho, nu = float(10**rng.uniform(0, 3.5)), float(10**rng.uniform(-7, -4))
    ut = float(10**rng.uniform(-3, 0))
    tau = rho*ut**2
    h = float(10**rng.uniform(3.2, 5)*nu/ut)
    delta = float(h*rng.uniform(.4, 1))
    if delta*ut/nu < 460:
        raise Skip
    y = np.sort(np.concatenate([[0., h], 10**rng.uniform(-1, np.log10(h*ut/nu), 30)*nu/ut]))
    y = y[y <= h]
    yp = y*ut/nu
    d = delta*ut/nu
    W, K = BL.WallLaw(h, tau, delta, visc_c=nu, rho=rho), BL.WakeLaw(h, tau, delta, visc_c=nu, rho=rho)
    m.event('wall-law')
    lg = lambda q: np.log(q)/.4 + 5.1
    wk = lambda q: np.log(q)/.4 + 5.1 + 2*.55/.4*np.sin(np.pi*q/2/d)**2
    with np.errstate(all='ignore'):
        for M, law, n in ((W, lg, 'wall'), (K, wk, 'wake')):
            p = M.get_profile(y)
            want = np.where(yp <= 11.63, yp, np.where(yp <= d, law(yp), law(d)))
            sel = np.abs(yp - d) > 1e-6*d
            m.close((p.y/ut)[sel], want[sel], n + '-law', rtol=1e-6, atol=1e-9)
            m.close(p.x, y, n + '-law-positions')
    m.raises(lambda: W.get_profile(np.array([-h])), 'position-below-the-wall')
    m.raises(lambda: W.get_profile(np.array([2*h])), 'position-above-the-flow')


@scenario('C24', 80)
def separation(m):
    """Straight line of zero velocity extrapolated to the wall."""
    rng = m.rng
    nl = int(rng.choice([4, 4, 2, 3, 5, 6]))
    nx, ny = int(rng.integers(12, 25)), int(rng.integers(max(8, nl + 2), 30))
    L = 10**rng.uniform(-2, 1)
    s, w = np.arange(nx)*L/nx, np.arange(ny)*L/nx
    st = w[1] - w[0]
    pos = G.pick(rng, ['below', 'on', 'inside', 'above', 'first', 'last', 'near'])
    wp = float({'below': w[0] - st*rng.uniform(.1, .9), 'on': w[ny//2], 'inside': w[ny//2] + .3*st, 'above': w[-1] + st*rng.uniform(.1, .9),
                'first': w[0], 'last': w[-1], 'near': w[int(rng.integers(0, ny))]}[pos])
    two = rng.random() < .4
    a, b = (rng.uniform(.2, .3) if two else rng.uniform(.4, .6))*s[-1], rng.uniform(-.2, .2)*min(1., nx/float(ny))*.5
    S, W = np.meshgrid(s, w, indexing='ij')
    A = a + b*(W - wp)
    # only the lines near the wall count
    far = np.abs(W - wp) > (nl + 1.5)*st
    A = np.where(far, A + .3*s[-1], A)
    V = (S - A)/L
    interval = None
    if two:
        # second line, out of the interval
        k = .55*s[-1]
        V = np.minimum(S - A, k - S + A)/L
        interval = [0., .5*s[-1]]
        if rng.random() < .3:
            a, interval = a + k, [.55*s[-1], s[-1]]
    V = V*rng.uniform(.5, 2)*rng.choice([-1, 1])
    d = int(rng.integers(1, 3))
    ux, uy = G.pick(rng, G.LEN), G.pick(rng, G.LEN)
    Z = rng.normal(size=V.shape)
    if d == 2:
        f = VectorField()
        f.import_from_arrays(s, w, V, Z, unit_x=ux, unit_y=uy, unit_values='m/s')
    else:
        f = VectorField()
        f.import_from_arrays(w, s, Z.T, V.T, unit_x=uy, unit_y=ux, unit_values='m/s')
    kind = G.pick(rng, ['v', 's', 't'])
    obj = f
    if kind == 's':
        obj = f.comp_x_as_sf if d == 2 else f.comp_y_as_sf
    if kind == 't':
        obj = TemporalVectorFields()
        for k in range(3):
            obj.add_field(f, time=float(k), unit_times='ms')
    m.case(pos, d, kind, a, b, nl, two)
    m.event('separation:%s:%s' % (pos, kind))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = get_separation_position(obj, d, wp, interval=interval, nmb_lines=nl)
    want = a
    if kind == 't':
        m.close(r.y, [want]*3, 'separation-of-a-series', rtol=1e-6)
        m.close(r.x, [0, 1, 2], 'times-of-the-separation')
        m.check(r.unit_y.strUnit() == G.make_unit(ux).strUnit() and r.unit_x.strUnit() == '[ms]', 'units-of-the-separation')
    else:
        m.close(r, want, 'separation-position', rtol=1e-6, atol=1e-9)
    if rng.random() < .3:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            m.raises(lambda: get_separation_position(f, d, wp, interval=[-2*L, -L]), 'separation-found-out-of-the-interval')
