"""C17: derivatives are exact on linear fields and carry the right units."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField, Profile, TemporalVectorFields
from IMTreatment import field_treatment as FT
from vh.core import scenario, Skip
from vh import gen as G
from props.c07 import turn

RULE = ('Linear, quadratic and arbitrary scalar/vector fields and profiles on uniform grids with distinct steps, any length '
        'units on x and y, any value unit, any mask; every unmasked point of gradients, divergence, Jacobian eigen-properties, '
        'Kenwright, gradient, track and shear fields and reconstructions is compared in SI with the analytic value.')
ASSUMPTIONS = ['borders use one-sided differences (exact for linear fields only)',
               'a point whose stencil is not fully valid may be masked or not; if unmasked on a linear field its value must be right',
               'reconstruction and eigen-properties: unmasked fields; eigenvectors where the eigenvalues are real and distinct']


def units(rng):
    ux = G.pick(rng, G.LEN + ['', 'px'])
    uy = ux if rng.random() < .4 or ux in ('', 'px') else G.pick(rng, G.LEN)
    return ux, uy, G.pick(rng, G.VEL + ['', 'Pa', 'K', 'm', 'kg'])


def grid(rng, lo=3, hi=9):
    nx, ny = G.shape(rng, lo, hi)
    return G.axis(rng, nx, uniform=True), G.axis(rng, ny, uniform=True)


def stencil(mask):
    """Points whose centred (one-sided at borders) stencil in both directions is valid."""
    ok = ~mask
    r = ok.copy()
    r[1:] &= ok[:-1]
    r[:-1] &= ok[1:]
    r[:, 1:] &= ok[:, :-1]
    r[:, :-1] &= ok[:, 1:]
    return r


def mksf(x, y, v, mask, u):
    f = ScalarField()
    f.import_from_arrays(x, y, v, mask=mask, unit_x=u[0], unit_y=u[1], unit_values=u[2])
    return f


def mkvf(x, y, a, b, mask, u):
    f = VectorField()
    f.import_from_arrays(x, y, a, b, mask=mask, unit_x=u[0], unit_y=u[1], unit_values=u[2])
    return f


def lin(rng, x, y):
    """Coefficients of a + b x + c y with comparable contributions of each."""
    a, b, c = rng.normal(size=3)
    return a, b/(x[-1] - x[0]), c/(y[-1] - y[0])


def same_grid(m, f, g, sig):
    m.check(np.array_equal(f.axe_x, g.axe_x) and np.array_equal(f.axe_y, g.axe_y) and
            G.si(f.unit_x) == G.si(g.unit_x) and G.si(f.unit_y) == G.si(g.unit_y), sig + '-grid')


def chk(m, got, want, valid, dims, sig, atol, unit=None, everywhere=True):
    """got: ScalarField; want: SI values; valid: points that must be unmasked."""
    u = got.unit_values
    m.check(G.dim(u) == dims, sig + '-dimension' if unit is None else unit, lambda: '%s want %s' % (u, dims))
    v = got.values*G.fac(u)
    m.check(not np.any(got.mask[valid]), sig + '-masked-valid-point')
    w = ~got.mask if everywhere else (~got.mask & valid)
    w0 = np.broadcast_to(want, v.shape)
    bad = ~(np.abs(v[w] - w0[w]) <= atol)
    m.check(not bad.any(), sig + '-value', lambda: 'got %s want %s atol %s' % (v[w][bad][:3], w0[w][bad][:3], atol))


def ref_grad(v, x, y):
    """Centred differences, one-sided at the ends, written out independently."""
    dx, dy = x[1] - x[0], y[1] - y[0]
    gx = np.empty(v.shape)
    gx[1:-1] = (v[2:] - v[:-2])/(2*dx)
    gx[0] = (v[1] - v[0])/dx
    gx[-1] = (v[-1] - v[-2])/dx
    gy = np.empty(v.shape)
    gy[:, 1:-1] = (v[:, 2:] - v[:, :-2])/(2*dy)
    gy[:, 0] = (v[:, 1] - v[:, 0])/dy
    gy[:, -1] = (v[:, -1] - v[:, -2])/dy
    return gx, gy


@scenario('C17', 400, 12000)
def scalar_gradient(m):
    rng = m.rng
    x, y = grid(rng)
    u = units(rng)
    X, Y = np.meshgrid(x, y, indexing='ij')
    mask = G.mask(rng, X.shape)
    kind = G.pick(rng, ['linear', 'quadratic', 'any'])
    a, b, c = lin(rng, x, y)
    v = a + b*X + c*Y
    if kind == 'quadratic':
        xs, ys = (X - x[0])/(x[-1] - x[0]), (Y - y[0])/(y[-1] - y[0])
        v = v + rng.normal()*xs**2 + rng.normal()*xs*ys + rng.normal()*ys**2
    if kind == 'any':
        v = G.values(rng, X.shape)
    junk = v.copy()
    junk[mask] = G.pick(rng, [np.nan, 1e8, 0.])
    f = mksf(x, y, junk, mask, u)
    m.case(kind, u, X.shape, int(mask.sum()))
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    dv = G.dim(f.unit_values)
    s0 = G.snap(f)
    gx, gy = FT.get_gradients(f)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    same_grid(m, f, gx, 'gradient')
    same_grid(m, f, gy, 'gradient')
    wx, wy = ref_grad(v, x, y)
    ok = stencil(mask)
    # scale of rounding errors
    e = 1e-11*(np.max(np.abs(v)) + 1.)
    chk(m, gx, wx*kv/kx, ok, G.dimmul(dv, G.dim(f.unit_x), -1), 'gradient-x', e*kv/kx/(x[1] - x[0]), everywhere=kind == 'linear')
    chk(m, gy, wy*kv/ky, ok, G.dimmul(dv, G.dim(f.unit_y), -1), 'gradient-y', e*kv/ky/(y[1] - y[0]), everywhere=kind == 'linear')
    if kind == 'linear':
        for g, k, w in ((gx, kv/kx, b), (gy, kv/ky, c)):
            h = np.abs(g.values[~g.mask]*G.fac(g.unit_values) - w*k)
            m.check(np.all(h <= 1e-9*max(abs(b), abs(c), 1./(x[1] - x[0]), 1./(y[1] - y[0]))*k*(np.max(np.abs(v)) + 1)),
                    'gradient-of-linear')
    rx, ry = FT.get_gradients(f, raw=True)
    m.check(np.all(np.abs(np.asarray(rx)[ok] - wx[ok]) <= e/(x[1] - x[0])), 'raw-gradient-x')
    m.check(np.all(np.abs(np.asarray(ry)[ok] - wy[ok]) <= e/(y[1] - y[0])), 'raw-gradient-y')
    for r, g in ((rx, gx), (ry, gy)):
        m.check(np.array_equal(np.ma.getmaskarray(r), gx.mask) and np.array_equal(g.mask, gx.mask), 'raw-gradient-mask')
    m.event('points-compared', int(ok.sum()))


@scenario('C17', 400, 12000)
def vector_gradient(m):
    rng = m.rng
    x, y = grid(rng)
    u = units(rng)
    X, Y = np.meshgrid(x, y, indexing='ij')
    mask = G.mask(rng, X.shape)
    linear = rng.random() < .6
    if linear:
        A, B = lin(rng, x, y), lin(rng, x, y)
        a = A[0] + A[1]*X + A[2]*Y
        b = B[0] + B[1]*X + B[2]*Y
    else:
        a, b = G.values(rng, X.shape), G.values(rng, X.shape)
    f = mkvf(x, y, a, b, mask, u)
    m.case(linear, u, X.shape, int(mask.sum()))
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    dvx = G.dimmul(G.dim(f.unit_values), G.dim(f.unit_x), -1)
    s0 = G.snap(f)
    gs = FT.get_gradients(f)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    ok = stencil(mask)
    ax, ay = ref_grad(a, x, y)
    bx, by = ref_grad(b, x, y)
    sc = 1e-11*(np.max(np.abs([a, b])) + 1)
    ex, ey = sc*kv/kx/(x[1] - x[0]), sc*kv/ky/(y[1] - y[0])
    for g, w, k, e, s in zip(gs, (ax, ay, bx, by), (kx, ky)*2, (ex, ey)*2, ('dVx/dx', 'dVx/dy', 'dVy/dx', 'dVy/dy')):
        chk(m, g, w*kv/k, ok, dvx, s, e, everywhere=linear)
        same_grid(m, f, g, s)
    for g, w, e in zip(FT.get_gradients(f, raw=True), (ax, ay, bx, by), (sc/(x[1] - x[0]), sc/(y[1] - y[0]))*2):
        m.check(np.all(np.abs(np.asarray(g)[ok] - w[ok]) <= e), 'raw-vector-gradient')
        m.check(np.array_equal(np.ma.getmaskarray(g), gs[0].mask), 'raw-vector-gradient-mask')
    # divergence
    d = FT.get_divergence(f)
    chk(m, d, ax*kv/kx + by*kv/ky, ok, dvx, 'divergence', ex + ey, everywhere=linear)
    same_grid(m, f, d, 'divergence')
    # the gradient field of one component
    c = G.pick(rng, ['x', 'y'])
    gf = FT.get_grad_field(f, c)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    same_grid(m, f, gf, 'gradient-field')
    m.check(G.dim(gf.unit_values) == dvx, 'gradient-field-has-unit-of-the-field'
            if G.si(gf.unit_values) == G.si(f.unit_values) else 'gradient-field-dimension')
    # (the numbers are those of the gradients, whatever the unit attached)
    i = 0 if c == 'x' else 2
    kk = [gs[i].values, gs[i + 1].values]
    w = ok & ~gf.mask
    m.check(not gf.mask[ok].any(), 'gradient-field-masked-valid-point')
    m.close(gf.comp_x[w], kk[0][w], 'gradient-field-value', rtol=1e-12)
    m.close(gf.comp_y[w], kk[1][w], 'gradient-field-value', rtol=1e-12)
    # track field: the velocity turned by a quarter
    t = FT.get_track_field(f)
    m.check(np.array_equal(t.mask, f.mask) and G.si(t.unit_values) == G.si(f.unit_values), 'track-field')
    m.check(np.array_equal(t.comp_x[~mask], -b[~mask]) and np.array_equal(t.comp_y[~mask], a[~mask]), 'track-field')
    same_grid(m, f, t, 'track-field')
    m.event('points-compared', int(ok.sum()))


@scenario('C17', 120, 4000)
def shear(m):
    rng = m.rng
    x, y = grid(rng, 4, 9)
    u = units(rng)
    X, Y = np.meshgrid(x, y, indexing='ij')
    mask = np.zeros(X.shape, dtype=bool)
    if rng.random() < .5:
        mask[int(rng.integers(X.shape[0])), int(rng.integers(X.shape[1]))] = True
    a, b = G.values(rng, X.shape), G.values(rng, X.shape)
    f = mkvf(x, y, a, b, mask, u)
    m.case(u, X.shape, int(mask.sum()))
    s0 = G.snap(f)
    g = FT.get_shear_stress(f)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    same_grid(m, f, g, 'shear')
    m.check(G.dim(g.unit_values) == G.dimmul(G.dim(f.unit_values), G.dim(f.unit_x), -1), 'shear-has-unit-of-the-velocity'
            if G.si(g.unit_values) == G.si(f.unit_values) else 'shear-dimension')
    ok = stencil(mask)
    _, ay = ref_grad(a, x, y)
    bx, _ = ref_grad(b, x, y)
    sc = 1e-11*(np.max(np.abs([a, b])) + 1)
    for got, w, d in ((g.comp_x, bx, x[1] - x[0]), (g.comp_y, ay, y[1] - y[0])):
        m.check(np.all(np.abs(got[ok] - w[ok]) <= sc/d), 'shear-value')
    m.check(not g.mask[ok].any(), 'shear-masked-valid-point')
    r = FT.get_shear_stress(f, raw=True)
    for got, w, d in ((r[0], bx, x[1] - x[0]), (r[1], ay, y[1] - y[0])):
        m.check(np.all(np.abs(got[ok] - w[ok]) <= sc/d), 'raw-shear-value')


@scenario('C17', 120, 4000)
def divergence_of_series(m):
    rng = m.rng
    T = G.tf(rng, kind='v', lo=1, hi=4) if rng.random() < .5 else G.tf(rng, kind='vector', lo=1, hi=4)
    if not isinstance(T, TemporalVectorFields):
        raise Skip()
    if len(T.fields[0].axe_x) < 3 or len(T.fields[0].axe_y) < 3:
        raise Skip()
    m.case(G.tdesc(T))
    s0 = G.snap(T)
    D = FT.get_divergence(T)
    m.check(not G.diff(s0, G.snap(T)), 'input-changed')
    m.check(len(D.fields) == len(T.fields) and np.allclose(D.times, T.times, rtol=1e-12) and
            G.si(D.unit_times) == G.si(T.unit_times), 'divergence-of-series-times')
    for f, d in zip(T.fields, D.fields):
        w = FT.get_divergence(f)
        m.check(np.array_equal(w.mask, d.mask), 'divergence-of-series-mask')
        k = G.fac(w.unit_values)/G.fac(d.unit_values)
        m.check(G.dim(w.unit_values) == G.dim(d.unit_values), 'divergence-of-series-dimension')
        m.close(d.values[~d.mask], w.values[~d.mask]*k, 'divergence-of-series-value', rtol=1e-9)


@scenario('C17', 150, 5000)
def eigen(m):
    rng = m.rng
    x, y = grid(rng, 3, 6)
    u = units(rng)
    X, Y = np.meshgrid(x, y, indexing='ij')
    mask = G.mask(rng, X.shape)
    # a linear field given by its physical jacobian
    J = rng.normal(size=(2, 2))
    k = G.pick(rng, ['any', 'sym', 'rot', 'node'])
    if k == 'sym':
        J = J + J.T
    if k == 'rot':
        J = J - J.T + .1*rng.normal()*np.eye(2)
    if k == 'node':
        J = np.diag(rng.uniform(.2, 1, 2)*G.pick(rng, [-1, 1])) + .1*J
    ev = np.linalg.eigvals(J)
    if abs(ev[0] - ev[1]) < .05:
        raise Skip()
    f = mkvf(x, y, X, Y, mask, u)
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    if max(kx/ky, ky/kx) > 1e4:
        raise Skip()
    x0, y0 = rng.uniform(x[0], x[-1]), rng.uniform(y[0], y[-1])
    L = max((x[-1] - x[0])*kx, (y[-1] - y[0])*ky)
    px, py = (X - x0)*kx/L, (Y - y0)*ky/L
    a, b = J[0, 0]*px + J[0, 1]*py, J[1, 0]*px + J[1, 1]*py
    aniso = L/min((x[1] - x[0])*kx, (y[1] - y[0])*ky)
    if aniso > 1e4:
        raise Skip()
    f = mkvf(x, y, a, b, mask, u)
    m.case(k, u, X.shape, int(mask.sum()))
    s0 = G.snap(f)
    r1, i1, r2, i2, v1, v2 = FT.get_jacobian_eigenproperties(f)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    ok = stencil(mask)
    sc = kv/L
    tol = 1e-8*aniso*sc
    dvx = G.dimmul(G.dim(f.unit_values), G.dim(f.unit_x), -1)
    o = np.lexsort((ev.imag, ev.real))
    e1, e2 = ev[o[1]]*sc, ev[o[0]]*sc
    for s in (r1, i1, r2, i2, v1, v2):
        same_grid(m, f, s, 'eigen')
    for s in (r1, i1, r2, i2):
        m.check(G.dim(s.unit_values) == dvx, 'eigenvalue-dimension', lambda: s.unit_values)
    ok &= ~r1.mask
    m.check(not r1.mask[stencil(mask)].any(), 'eigen-masked-valid-point')
    q = [s.values*G.fac(s.unit_values) for s in (r1, i1, r2, i2)]
    l1, l2 = q[0] + 1j*q[1], q[2] + 1j*q[3]
    w = ~r1.mask
    direct = (np.abs(l1 - e1) <= tol) & (np.abs(l2 - e2) <= tol)
    if np.iscomplex(ev[0]):
        direct |= (np.abs(l1 - e2) <= tol) & (np.abs(l2 - e1) <= tol)
    m.check(np.all(direct[w]), 'eigenvalues', lambda: '%s %s want %s %s' % (l1[w][:2], l2[w][:2], e1, e2))
    if not np.iscomplex(ev[0]):
        for v, e in ((v1, e1/sc), (v2, e2/sc)):
            c = np.array([v.comp_x[w], v.comp_y[w]])
            m.check(np.all(np.abs(J@c - e*c) <= 1e-7*aniso), 'eigenvectors')
            m.check(np.all(np.abs(np.sum(c**2, 0) - 1) <= 1e-9), 'eigenvector-norm')
    only = FT.get_jacobian_eigenproperties(f, eig_vect=False)
    m.check(len(only) == 4 and np.array_equal(only[0].values[w], r1.values[w]), 'eigenvalues-only')
    only = FT.get_jacobian_eigenproperties(f, eig_val=False)
    m.check(len(only) == 2 and np.array_equal(only[1].comp_x[w], v2.comp_x[w]), 'eigenvectors-only')
    if not np.iscomplex(ev[0]):
        K1, K2 = FT.get_Kenwright_field(f)
        for K, v in ((K1, v1), (K2, v2)):
            kw = v.comp_x*b - v.comp_y*a
            m.check(not K.mask[ok].any(), 'kenwright-masked-valid-point')
            m.close(K.values[ok], kw[ok], 'kenwright', rtol=1e-9, atol=1e-9)
            m.check(G.si(K.unit_values) == G.si(f.unit_values), 'kenwright-unit')
            same_grid(m, f, K, 'kenwright')
        for R, K in zip(FT.get_Kenwright_field(f, raw=True), (K1, K2)):
            m.close(R[ok], K.values[ok], 'kenwright-raw', rtol=1e-12)
    rr = FT.get_jacobian_eigenproperties(f, raw=True)
    fe = kv/kx
    for R, s in zip(rr[:4], q):
        m.close(R[w]*fe, s[w], 'eigenvalues-raw', rtol=1e-9, atol=1e-12)
    for R, v in zip(rr[4:], (v1, v2)):
        m.close(np.array(R)[:, w], [v.comp_x[w], v.comp_y[w]], 'eigenvectors-raw', rtol=1e-12)


@scenario('C17', 80, 2000)
def reconstruction(m):
    rng = m.rng
    x, y = grid(rng, 3, 8)
    u = units(rng)
    X, Y = np.meshgrid(x, y, indexing='ij')
    f = mksf(x, y, X, False, u)
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    xs, ys = (X - x[0])/(x[-1] - x[0]), (Y - y[0])/(y[-1] - y[0])

    def one():
        c = rng.normal(size=6)
        v = c[0] + c[1]*xs + c[2]*ys + c[3]*xs**2 + c[4]*xs*ys + c[5]*ys**2
        gx = (c[1] + 2*c[3]*xs + c[4]*ys)/(x[-1] - x[0])
        gy = (c[2] + c[4]*xs + 2*c[5]*ys)/(y[-1] - y[0])
        ux = f.unit_values/f.unit_x
        uy = f.unit_values/f.unit_y
        fx, fy = ux.asNumber(), uy.asNumber()
        ux, uy = ux/fx, uy/fy
        return v, mksf(x, y, gx*fx, False, (u[0], u[1], ux)), mksf(x, y, gy*fy, False, (u[0], u[1], uy))
    m.case(u, X.shape)

    def cmp(got, unit, v, sig):
        m.check(abs(np.mean(got)) <= 1e-9*np.max(np.abs(got)) + 1e-300, sig + '-mean-is-not-zero')
        m.check(G.dim(unit) == G.dim(f.unit_values), sig + '-dimension')
        g = got*G.fac(unit)/kv
        m.close(g - g.mean(), v - v.mean(), sig, rtol=1e-7, atol=1e-8)
    v, gx, gy = one()
    s0 = G.snap(gx), G.snap(gy)
    r = FT.reconstruct_from_gradients(gx, gy)
    m.check(not G.diff(s0[0], G.snap(gx)) and not G.diff(s0[1], G.snap(gy)), 'input-changed')
    cmp(r.values, r.unit_values, v, 'reconstruction')
    same_grid(m, f, r, 'reconstruction')
    v2, gx2, gy2 = one()
    r = FT.reconstruct_from_gradients(gx, gy, gx2, gy2)
    cmp(r.comp_x, r.unit_values, v, 'vector-reconstruction')
    cmp(r.comp_y, r.unit_values, v2, 'vector-reconstruction')
    same_grid(m, f, r, 'vector-reconstruction')
    m.raises(lambda: FT.reconstruct_from_gradients(gx, gy, gx2), 'reconstruction-from-half-a-gradient')
    m.raises(lambda: FT.reconstruct_from_gradients(gx, gy, None, gy2), 'reconstruction-from-half-a-gradient')


@scenario('C17', 80, 2000)
def profile_gradient(m):
    rng = m.rng
    n = int(rng.integers(4, 20))
    x = G.axis(rng, n, uniform=True)
    b = rng.normal()/(x[-1] - x[0])
    y = rng.normal() + b*x
    p = Profile(x, y, mask=False, unit_x=G.pick(rng, G.LEN), unit_y=G.pick(rng, G.VEL))
    m.case(n, str(p.unit_x), str(p.unit_y))
    g = FT.get_gradients(p)
    m.check(G.dim(g.unit_y) == G.dimmul(G.dim(p.unit_y), G.dim(p.unit_x), -1), 'profile-gradient-dimension')
    k = G.fac(p.unit_y)/G.fac(p.unit_x)
    tol = 1e-9*k*(np.max(np.abs(y)) + 1)/(x[1] - x[0])
    v = g.y*G.fac(g.unit_y)
    # up to the missing step, the differences are right
    nostep = np.all(np.abs(v/(x[1] - x[0]) - b*k) <= tol)
    m.check(np.all(np.abs(v - b*k) <= tol), 'profile-gradient-not-divided-by-the-step' if nostep else 'profile-gradient')
    m.check(np.array_equal(g.x, p.x), 'profile-gradient-abscissa')


@scenario('C17', 150, 5000)
def laws(m):
    """Linearity, offset invariance and quarter turns on arbitrary fields."""
    rng = m.rng
    x, y = grid(rng)
    u = units(rng)
    X, Y = np.meshgrid(x, y, indexing='ij')
    mask = G.mask(rng, X.shape)
    ok = stencil(mask)
    a, b, c, d = [rng.normal(size=X.shape) for _ in range(4)]
    al, be, o1, o2 = rng.normal(size=4)
    f, g = mkvf(x, y, a, b, mask, u), mkvf(x, y, c, d, mask, u)
    h = mkvf(x, y, al*a + be*c + o1, al*b + be*d + o2, mask, u)
    m.case(u, X.shape, int(mask.sum()))
    F, Gg, H = [FT.get_gradients(q) for q in (f, g, h)]
    D = [FT.get_divergence(q) for q in (f, g, h)]
    for p, q, r in list(zip(F, Gg, H)) + [D]:
        w = al*p.values + be*q.values
        s = np.max(np.abs(np.concatenate([p.values[ok].ravel(), q.values[ok].ravel(), [0]])))
        m.check(np.all(np.abs(r.values[ok] - w[ok]) <= 1e-8*(s + 1e-300)*(1 + abs(al) + abs(be) + abs(o1) + abs(o2))), 'linear-in-the-field')
    # quarter turn: gradients of the turned field are the turned gradients
    k = int(rng.integers(1, 4))
    tx, ty, (ta, tb), tm, (tux, tuy) = turn(f, k)
    t = mkvf(tx, ty, ta, tb, tm, (tux, tuy, f.unit_values))
    dt = FT.get_divergence(t)
    rx, ry, (rv,), rm, _ = turn(D[0], k)
    tok = stencil(tm)
    kk = G.fac(dt.unit_values)/G.fac(D[0].unit_values)
    s = np.max(np.abs(np.concatenate([rv[tok].ravel(), [0]])))
    s += np.max([np.max(np.abs(np.concatenate([q.values[ok].ravel(), [0]])))*G.fac(q.unit_values) for q in F])/G.fac(D[0].unit_values)
    m.check(np.all(np.abs(dt.values[tok]*kk - rv[tok]) <= 1e-8*s), 'quarter-turn-divergence')
    if k == 2:
        gt = FT.get_gradients(t)
        for p, q in zip(gt, F):
            _, _, (qv,), _, _ = turn(q, 2)
            s = np.max(np.abs(np.concatenate([qv[tok].ravel(), [0]])))
            m.check(np.all(np.abs(p.values[tok] - qv[tok]) <= 1e-8*(s + 1e-300)), 'half-turn-gradient')
