"""C19: vortex criteria take the values their definitions give."""
import numpy as np
from IMTreatment.core import ScalarField, VectorField, TemporalVectorFields
from IMTreatment import vortex_criterions as VC
from vh.core import scenario, Skip
from vh import gen as G
from props.c07 import turn
from props.c17 import mkvf, stencil, ref_grad, same_grid

RULE = ('Rigid rotations, shears, strains, uniform flows (with any uniform velocity added) and arbitrary flows on uniform grids '
        'with distinct steps, any length units on each axis, any mask; each criterion is compared in SI, at every point whose '
        'neighbourhood is valid, with its definition evaluated by an independent implementation.')
ASSUMPTIONS = ['vorticity is the curl; residual and shear vorticities use the rotation rate (half curl) as in Kolar (2007) and divergence-free flows',
               'Delta is checked as documented, in the numbers of the field (its two terms have different dimensions)',
               'neighbourhood: points at index distance <= radius (radius in axis unit is divided by the mean step)']

RADII = [1.2, 1.9, 2.3, 2.9, 3.3]
LOCAL = ['divergence', 'vorticity', 'swirling', 'improved', 'Q', 'Nk', 'lambda2', 'residual', 'shear', 'delta']


def flow(rng, kind=None, lo=5, hi=10, units=None):
    """A field of given physical jacobian (or arbitrary); returns (kind, field, values in SI, jacobian)."""
    nx, ny = G.shape(rng, lo, hi)
    x, y = G.axis(rng, nx, uniform=True), G.axis(rng, ny, uniform=True)
    if units is None:
        ux = G.pick(rng, G.LEN)
        units = ux, (ux if rng.random() < .6 else G.pick(rng, G.LEN)), G.pick(rng, G.VEL)
    f = mkvf(x, y, np.zeros((nx, ny)), np.zeros((nx, ny)), False, units)
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    # comparable physical steps
    dx = (x[1] - x[0])*kx
    q = float(10**rng.uniform(-.6, .6)) if rng.random() < .7 else 1.
    y = (rng.uniform(-4, 4) + np.arange(ny))*(dx*q/ky)
    X, Y = np.meshgrid(x, y, indexing='ij')
    i, j = int(rng.integers(2, nx - 2)), int(rng.integers(2, ny - 2))
    kind = kind or G.pick(rng, ['rotation', 'shear', 'strain', 'uniform', 'linear', 'any', 'any'])
    w = float(rng.normal())
    J = {'rotation': [[0, -w], [w, 0]], 'shear': G.pick(rng, [[[0, w], [0, 0]], [[0, 0], [w, 0]]]),
         'strain': [[w, 0], [0, -w]], 'uniform': [[0, 0], [0, 0]], 'linear': rng.normal(size=(2, 2)),
         'any': [[0, 0], [0, 0]], 'source': [[abs(w), 0], [0, abs(w)]], 'solenoidal': None}[kind]
    if kind == 'solenoidal':
        J = rng.normal(size=(2, 2))
        J[1, 1] = -J[0, 0]
    J = np.array(J, dtype=float)/1.
    s = kv/(dx*max(nx, ny))            # so that the numbers are of order one
    J = J*s
    px, py = (X - x[i])*kx, (Y - y[j])*ky
    a = (J[0, 0]*px + J[0, 1]*py)/kv
    b = (J[1, 0]*px + J[1, 1]*py)/kv
    if kind == 'any':
        a, b = rng.normal(size=(nx, ny)), rng.normal(size=(nx, ny))
    off = rng.normal(size=2) if rng.random() < .5 else np.zeros(2)
    return kind, (x, y, a + off[0], b + off[1], units, (i, j), off), J, s


def build(rng, d, mask):
    x, y, a, b, u = d[:5]
    a, b = a.copy(), b.copy()
    if mask.any():
        a[mask] = G.pick(rng, [np.nan, 1e3, 0.])
        b[mask] = G.pick(rng, [np.nan, -1e3, 0.])
    return mkvf(x, y, a, b, mask, u)


def defs(A, B, C, D):
    """Definitions from the physical jacobian [[A, B], [C, D]] (arrays)."""
    r = {}
    r['divergence'] = A + D
    r['vorticity'] = C - B
    tr, det = A + D, A*D - B*C
    disc = tr**2/4 - det
    im = np.sqrt(np.where(disc < 0, -disc, 0.))
    r['swirling'] = im
    r['im2'] = -disc
    with np.errstate(all='ignore'):
        r['improved'] = np.where(im > 0, tr/2/im, np.nan)
        S2 = A**2 + .5*(B + C)**2 + D**2
        O2 = .5*(B - C)**2
        r['Q'] = .5*(O2 - S2)
        r['Nk'] = np.sqrt(O2/S2)
        # S^2 + Omega^2 is symmetric: smallest eigenvalue in closed form
        e = (B + C)/2
        o2 = -((C - B)/2)**2
        m11, m22, m12 = A*A + e*e + o2, D*D + e*e + o2, e*(A + D)
        r['lambda2'] = (m11 + m22)/2 - np.sqrt(((m11 - m22)/2)**2 + m12**2)
        s = np.sqrt(4*A**2 + (B + C)**2)/2
        w = (C - B)/2
        r['residual'] = np.where(s < np.abs(w), np.sign(w)*(np.abs(w) - s), 0.)
        r['shear'] = np.where(s < np.abs(w), np.sign(w)*s, w)
        r['s'] = s
        r['det'] = det
    return r


FUN = {'divergence': VC.vortex_criterions.get_divergence, 'vorticity': VC.get_vorticity, 'swirling': VC.get_swirling_strength,
       'improved': VC.vortex_criterions.get_improved_swirling_strength, 'Q': VC.get_q_criterion, 'Nk': VC.get_Nk_criterion,
       'lambda2': VC.get_lambda2, 'residual': VC.get_residual_vorticity,
       'shear': VC.vortex_criterions.get_shear_vorticity, 'delta': VC.get_delta_criterion}
POW = {'divergence': 1, 'vorticity': 1, 'swirling': 1, 'improved': 0, 'Q': 2, 'Nk': 0, 'lambda2': 2, 'residual': 1, 'shear': 1,
       'delta': 6}


def dims(n, f):
    d = G.dimmul(G.dim(f.unit_values), G.dim(f.unit_x), -1)
    return {k: round(v*n, 9) for k, v in d.items() if n}


@scenario('C19', 300, 9000)
def local(m):
    rng = m.rng
    kind, d, J, s = flow(rng)
    name = G.pick(rng, LOCAL)
    if name in ('residual', 'shear') and kind in ('any', 'linear'):
        kind, d, J, s = flow(rng, 'solenoidal')
    x, y, a, b = d[:4]
    mask = G.mask(rng, a.shape)
    f = build(rng, d, mask)
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    m.case(name, kind, G.tdesc(f))
    s0 = G.snap(f)
    fun = FUN[name]
    try:
        g = fun(f)
    except Exception as e:
        if 'Qhull' in type(e).__name__ and np.linalg.matrix_rank(np.array(np.where(~mask)) - np.array(np.where(~mask))[:, :1]) < 2:
            raise Skip()
        raise
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    same_grid(m, f, g, name)
    ok = stencil(mask)
    m.check(G.dim(g.unit_values) == dims(POW[name], f), name + '-dimension', lambda: g.unit_values)
    # (gradients from valid points only: the content of masked points does not matter)
    av, bv = np.where(mask, 0, a), np.where(mask, 0, b)
    ax, ay = ref_grad(av, x, y)
    bx, by = ref_grad(bv, x, y)
    D = defs(ax*kv/kx, ay*kv/ky, bx*kv/kx, by*kv/ky)
    scale = max(kv/kx/(x[1] - x[0]), kv/ky/(y[1] - y[0]))*(np.max(np.abs([av, bv])) + 1e-3)
    v = g.values*G.fac(g.unit_values)
    m.event(name + '-points', int(ok.sum()))
    if name == 'swirling':
        m.check(not g.mask[ok].any(), 'swirling-masked-valid-point')
        m.check(np.all(v[ok] >= 0), 'swirling-negative')
        w = np.where(D['im2'] > 0, D['im2'], 0)
        m.check(np.all(np.abs(v[ok]**2 - w[ok]) <= 1e-9*scale**2), 'swirling-value', lambda: '%s want %s' % (v[ok]**2, w[ok]))
    elif name == 'improved':
        c = ok & (D['im2'] > 1e-4*scale**2)
        m.check(not g.mask[c].any(), 'improved-masked-valid-point')
        m.close(v[c], D['improved'][c], 'improved-value', rtol=1e-6, atol=1e-6)
        r = ok & (D['im2'] < -1e-6*scale**2)
        m.check(g.mask[r].all(), 'improved-real-eigenvalues-unmasked')
    elif name == 'Nk':
        S2 = D['Q']*-2 + .5*(ay*kv/ky - bx*kv/kx)**2
        c = ok & (S2 > 1e-6*scale**2)
        m.check(not g.mask[c].any(), 'Nk-masked-valid-point')
        m.close(v[c], D['Nk'][c], 'Nk-value', rtol=1e-6, atol=1e-6)
    elif name == 'delta':
        # numbers in the units of the field
        r = ky/kx
        E = defs(ax, ay/r, bx, by/r)
        w = (E['Q']/3)**3 + (E['det']/2)**2
        sc = scale/(kv/kx)
        k = float(((f.unit_values/f.unit_x)**6).asNumber())
        c = ok & (E['im2'] > 1e-4*sc**2)
        m.check(not g.mask[c].any(), 'delta-masked-valid-point')
        tol = 1e-9*(sc**6 + sc**4)
        m.check(np.all(np.abs(g.values[c]/k - w[c]) <= tol), 'delta-value', lambda: '%s want %s' % (g.values[c]/k, w[c]))
        m.check(g.mask[ok & (E['im2'] < -1e-6*sc**2)].all(), 'delta-real-eigenvalues-unmasked')
    elif name in ('residual', 'shear'):
        m.check(not g.mask[ok].any(), name + '-masked-valid-point')
        m.check(np.all(np.abs(v[ok] - D[name][ok]) <= 1e-8*scale), name + '-value', lambda: '%s want %s' % (v[ok], D[name][ok]))
    else:
        m.check(not g.mask[ok].any(), name + '-masked-valid-point')
        m.check(np.all(np.abs(v[ok] - D[name][ok]) <= 1e-9*scale**POW[name]), name + '-value',
                lambda: '%s want %s' % (v[ok], D[name][ok]))
    # arrays instead of fields
    if name in ('swirling', 'Q', 'Nk', 'lambda2', 'vorticity', 'divergence', 'residual', 'shear') and rng.random() < .5:
        r = fun(f, raw=True)
        r = np.asarray(r)
        c = ok & ~g.mask
        k = G.fac(g.unit_values)/(1. if name == 'Nk' else (kv/kx)**POW[name] if name != 'Q' else G.fac(g.unit_values))
        m.check(r.shape == f.shape and np.all(np.abs(r[c]/np.where(k, 1/k, 1)*0 + r[c] - g.values[c]*k) <=
                                              1e-7*(np.abs(g.values[c]*k) + 1e-12*np.max(np.abs(r[c]), initial=0))), name + '-raw')
    # a zone given by the user
    if name in ('Q', 'Nk', 'lambda2', 'delta') and rng.random() < .5:
        z = rng.random(f.shape) < .3
        h = fun(f, mask=z)
        m.check(h.mask[z].all(), name + '-user-mask')
        c = ok & ~z & ~g.mask
        m.check(not h.mask[c].any() and np.array_equal(h.values[c], g.values[c]), name + '-user-mask-changes-values')


@scenario('C19', 150, 4000)
def stokes(m):
    rng = m.rng
    kind, d, J, s = flow(rng)
    x, y, a, b = d[:4]
    mask = G.mask(rng, a.shape)
    f = build(rng, d, mask)
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    w = int(rng.integers(2, 5))
    m.case(kind, w, G.tdesc(f))
    s0 = G.snap(f)
    g = VC.get_stokes_vorticity(f, window_size=w) if w != 2 or rng.random() < .5 else VC.get_stokes_vorticity(f)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    n, p = len(x) - w + 1, len(y) - w + 1
    if not m.check(g.shape == (n, p), 'stokes-shape', g.shape):
        return
    m.close(g.axe_x, [np.mean(x[i:i + w]) for i in range(n)], 'stokes-axis', rtol=1e-9)
    m.close(g.axe_y, [np.mean(y[i:i + w]) for i in range(p)], 'stokes-axis', rtol=1e-9)
    m.check(G.dim(g.unit_values) == dims(1, f), 'stokes-dimension')
    m.check(G.si(g.unit_x) == G.si(f.unit_x) and G.si(g.unit_y) == G.si(f.unit_y), 'stokes-units')
    dx, dy = (x[1] - x[0])*kx, (y[1] - y[0])*ky
    v = g.values*G.fac(g.unit_values)
    scale = kv/min(dx, dy)*(np.max(np.abs([a, b])) + 1e-3)
    bad = None
    for i in range(n):
        for j in range(p):
            ms = mask[i:i + w, j:j + w].any()
            if ms:
                m.check(g.mask[i, j], 'stokes-uses-masked')
                continue
            if not m.check(not g.mask[i, j], 'stokes-masked-valid-point'):
                continue
            c = 0.
            for q in range(w - 1):
                c += (a[i + q, j] + a[i + q + 1, j])/2*dx - (a[i + q, j + w - 1] + a[i + q + 1, j + w - 1])/2*dx
                c += (b[i + w - 1, j + q] + b[i + w - 1, j + q + 1])/2*dy - (b[i, j + q] + b[i, j + q + 1])/2*dy
            c *= kv/((w - 1)**2*dx*dy)
            if abs(v[i, j] - c) > 1e-9*scale:
                bad = v[i, j], c
    m.check(bad is None, 'stokes-value', bad)
    if kind != 'any':
        c = ~g.mask
        m.check(np.all(np.abs(v[c] - (J[1, 0] - J[0, 1])) <= 1e-8*scale), 'stokes-of-linear-flow', lambda: (v[c], J, scale))


def motif(r):
    n = int(r)
    return [(i, j) for i in range(-n, n + 1) for j in range(-n, n + 1) if 0 < i*i + j*j <= r*r]


def interior(sh, mask, mo):
    n = max(abs(i) for i, _ in mo)
    ok = np.zeros(sh, dtype=bool)
    for i in range(n, sh[0] - n):
        for j in range(n, sh[1] - n):
            ok[i, j] = not mask[i, j] and not any(mask[i + p, j + q] for p, q in mo)
    return ok


def angles(a, b):
    return np.arctan2(b, a) % (2*np.pi)


@scenario('C19', 220, 6000)
def nonlocal_criteria(m):
    rng = m.rng
    name = G.pick(rng, ['gamma1', 'gamma2', 'gamma1', 'gamma2', 'kappa1', 'kappa2', 'angle', 'NL', 'enstrophy', 'gamma1b', 'gamma2b'])
    kind, d, J, s = flow(rng, G.pick(rng, ['solenoidal', 'rotation', 'shear', 'strain'] if name == 'NL' else
                                     ['rotation', 'rotation', 'shear', 'strain', 'source', 'uniform', 'any']), lo=7, hi=11)
    x, y, a, b = d[:4]
    mask = G.mask(rng, a.shape, G.pick(rng, ['none', 'none', 'sparse', 'block', 'border']))
    if mask.sum() > 5:
        mask[:] = False
    f = build(rng, d, mask)
    kx, ky, kv = [G.fac(q) for q in (f.unit_x, f.unit_y, f.unit_values)]
    dx, dy = (x[1] - x[0])*kx, (y[1] - y[0])*ky
    kw = {}
    r = 1.9
    how = G.pick(rng, ['default', 'ind', 'axis'])
    if how != 'default':
        r = G.pick(rng, RADII)
        kw = dict(radius=r, ind=True) if how == 'ind' else dict(radius=r*((x[1] - x[0]) + (y[1] - y[0]))/2)
        if how == 'axis' and rng.random() < .5:
            kw['ind'] = False
    order = int(rng.integers(1, 4))
    loc = G.pick(rng, ['none', 'galilean_inv', 'local'])
    m.case(name, kind, how, r, G.tdesc(f), order, loc)
    s0 = G.snap(f)
    if name[:5] == 'gamma':
        g = VC.get_gamma(f, kind=name, **kw)
    elif name[:5] == 'kappa':
        g = VC.get_kappa(f, kind=name, **kw)
    elif name == 'angle':
        g = VC.get_angle_deviation(f, order=order, local_treatment=loc, **kw)
    elif name == 'NL':
        g = VC.get_NL_residual_vorticity(f, **kw)
    else:
        g = VC.vortex_criterions.get_enstrophy(f, **kw)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    same_grid(m, f, g, name)
    mo = motif(r)
    ok = interior(f.shape, mask, mo)
    m.event(name + '-points', int(ok.sum()))
    # (directions and ratios are undefined where velocities vanish)
    need = ok.copy()
    if name in ('angle', 'gamma2b') and (kind in ('uniform', 'shear', 'rotation', 'strain', 'source')):
        need[:] = False
    if not m.check(not g.mask[need].any(), name + '-masked-valid-point'):
        return
    ok = ok & ~g.mask
    if name != 'enstrophy':
        m.check(g.mask[~interior(f.shape, mask, mo)].all(), name + '-uses-masked-or-outside-points', lambda: np.argwhere(~ok & ~g.mask))
    v = g.values*G.fac(g.unit_values)
    if name == 'enstrophy':
        m.check(G.dim(g.unit_values) == {'T': -2, 'L': 2}, 'enstrophy-dimension', g.unit_values)
    else:
        m.check(G.dim(g.unit_values) == (dims(1, f) if name == 'NL' else {}), name + '-dimension')
    for i, j in np.argwhere(ok):
        O = np.array([[p*dx, q*dy] for p, q in mo])
        A = np.array([a[i + p, j + q] for p, q in mo])
        B = np.array([b[i + p, j + q] for p, q in mo])
        tol = 1e-6
        if name in ('gamma2', 'kappa2', 'gamma2b'):
            ma, mb = A.mean(), B.mean()
            fluct = np.sqrt(np.mean((A - ma)**2 + (B - mb)**2))
            if fluct < 1e-9*(np.max(np.abs([a, b])) + 1e-12):
                continue
            A, B = A - ma, B - mb
        nv, no = np.hypot(A, B), np.hypot(*O.T)
        if np.any((nv < 1e-7*(np.max(np.abs([a, b])) + 1e-12)) & (nv > 0)) and name not in ('NL', 'enstrophy'):
            continue
        nz = nv > 0
        cr = (O[:, 0]*B - O[:, 1]*A)[nz]/(nv*no)[nz]
        do = (O[:, 0]*A + O[:, 1]*B)[nz]/(nv*no)[nz]
        n = len(mo)
        if name in ('gamma1', 'gamma2'):
            w = cr.sum()/n
        elif name == 'gamma1b':
            w = cr.sum()/n*np.hypot(A.mean(), B.mean())
            tol = 1e-6*(abs(w) + 1e-3)
        elif name == 'gamma2b':
            w = cr.sum()/n*min(fluct/np.hypot(ma, mb) if np.hypot(ma, mb) else 1., 1.)
        elif name in ('kappa1', 'kappa2'):
            w = do.sum()/n
        elif name == 'NL':
            K = np.array([[J[0, 0], J[0, 1]], [J[1, 0], J[1, 1]]])
            w = defs(*[np.array(q) for q in K.ravel()])['residual']
            tol = 1e-6*(np.max(np.abs(J)) + s*1e-3) + 1e-7*s*(1 + np.max(np.abs(d[6])))
        elif name == 'enstrophy':
            if kind == 'any':
                break
            w = (J[1, 0] - J[0, 1])**2*(n + 1)*dx*dy
            tol = 1e-6*(s**2*(n + 1)*dx*dy)*(1 + np.max(np.abs(d[6])))**2
            if mask.any():
                # (vorticity at the border of masked zones rests on filled values)
                break
        elif name == 'angle':
            if loc == 'galilean_inv':
                A, B = A - A.mean(), B - B.mean()
            elif loc == 'local':
                A, B = A - a[i, j], B - b[i, j]
            if np.min(np.hypot(A, B)) < 1e-6*(np.max(np.abs([a, b])) + 1e-12):
                continue
            t = np.sort(angles(A, B))
            if np.any((t < 1e-7) | (t > 2*np.pi - 1e-7)):
                # a whole turn is zero: compare modulo nothing (sorted gaps are cyclic, hence unaffected)
                pass
            gaps = np.append(np.diff(t), t[0] + 2*np.pi - t[-1])
            best = 2*np.pi/n
            wst = ((n - 1)*best**order + (2*np.pi - best)**order)**(1./order)
            w = 1 - np.sum(np.abs(gaps - best)**order)**(1./order)/wst
        if not m.check(abs(v[i, j] - w) <= tol, name + '-value', lambda: 'at %s got %s want %s' % ((i, j), v[i, j], w)):
            return
    # known landmarks
    i, j = d[5]
    if kind == 'rotation' and not np.any(d[6]) and ok[i, j]:
        if name == 'gamma1':
            m.check(abs(v[i, j] - np.sign(J[1, 0])) < 1e-6, 'gamma1-at-the-centre', v[i, j])
        if name == 'kappa1':
            m.check(abs(v[i, j]) < 1e-6, 'kappa1-at-the-centre', v[i, j])
    if kind == 'rotation' and name == 'gamma2' and abs(J[1, 0]) > 1e-3*s:
        m.check(np.all(np.abs(v[ok] - np.sign(J[1, 0])) < 1e-5), 'gamma2-of-rotation')
    if kind == 'source' and name == 'kappa2' and J[0, 0] > 1e-3*s:
        m.check(np.all(np.abs(v[ok] - 1) < 1e-5), 'kappa2-of-source')


@scenario('C19', 80, 2000)
def options(m):
    """User zone, deviation pre-selection, arrays and series."""
    rng = m.rng
    kind, d, J, s = flow(rng, lo=7, hi=9)
    x, y, a, b = d[:4]
    mask = np.zeros(a.shape, dtype=bool)
    f = build(rng, d, mask)
    m.case(kind, G.tdesc(f))
    g = VC.get_gamma(f)
    z = rng.random(f.shape) < .05
    h = VC.get_gamma(f, mask=z)
    m.check(h.mask[z].all(), 'gamma-user-mask')
    c = ~h.mask
    m.check(np.array_equal(h.values[c], g.values[c]), 'gamma-user-mask-changes-values')
    p = VC.get_gamma(f, dev_pass=True)
    dv = VC.get_angle_deviation(f, radius=1.9, ind=True)
    c = ~g.mask & ~p.mask
    m.check(np.array_equal(g.mask, p.mask), 'gamma-dev-pass-mask')
    hi, lo = c & (dv.values > .1001), c & (dv.values < .0999)
    m.check(np.array_equal(p.values[hi], g.values[hi]), 'gamma-dev-pass-values')
    m.check(np.all(p.values[lo] == 0), 'gamma-dev-pass-skipped')
    # the pre-selection is for gamma1 only
    k2 = G.pick(rng, ['gamma2', 'gamma2b'])
    g2, p2 = VC.get_gamma(f, kind=k2), VC.get_gamma(f, kind=k2, dev_pass=True)
    c = ~g2.mask
    m.check(np.array_equal(g2.mask, p2.mask) and np.array_equal(g2.values[c], p2.values[c]), 'gamma2-uses-the-deviation')
    for fun in (VC.get_gamma, VC.get_kappa, VC.get_angle_deviation, VC.get_iota, VC.get_NL_residual_vorticity):
        G0 = fun(f)
        r = fun(f, raw=True)
        c = ~G0.mask
        k = 1.
        if fun is VC.get_NL_residual_vorticity:
            k = (f.unit_values/f.unit_x).asNumber()
        m.check(np.array_equal(np.ma.getmaskarray(r), G0.mask), 'raw-mask#' + fun.__name__)
        m.close(np.asarray(r)[c]*k, G0.values[c], 'raw-values#' + fun.__name__, rtol=1e-9)
    # series
    T = TemporalVectorFields()
    n = int(rng.integers(1, 4))
    fs = [mkvf(x, y, a + .3*rng.normal(size=a.shape), b + .3*rng.normal(size=a.shape), G.mask(rng, a.shape, 'sparse'), d[4]) for _ in range(n)]
    ts = np.cumsum(rng.uniform(.1, 2, n))
    for t, q in zip(ts, fs):
        T.add_field(q, time=float(t), unit_times='s')
    kw = dict(kind=G.pick(rng, ['gamma1', 'gamma2', 'gamma1b', 'gamma2b']), mask=z, dev_pass=bool(rng.random() < .5), radius=float(G.pick(rng, [1.5, 2.])), ind=True)
    def gamma_options(q):
        return VC.get_gamma(q, **kw)
    for fun in (VC.get_gamma, gamma_options, VC.get_vorticity, VC.get_residual_vorticity, FUN['shear'], FUN['divergence']):
        R = fun(T)
        if not m.check(len(R.fields) == n and np.allclose(R.times, ts, rtol=1e-12) and G.si(R.unit_times) == G.si(T.unit_times),
                       'series-times#' + fun.__name__):
            continue
        for q, w in zip(T.fields, R.fields):
            e = fun(q)
            m.check(np.array_equal(e.mask, w.mask), 'series-mask#' + fun.__name__)
            c = ~e.mask
            m.check(G.dim(e.unit_values) == G.dim(w.unit_values), 'series-dimension#' + fun.__name__)
            m.close(w.values[c]*G.fac(w.unit_values), e.values[c]*G.fac(e.unit_values), 'series-values#' + fun.__name__, rtol=1e-9)


@scenario('C19', 120, 3000)
def iota(m):
    rng = m.rng
    kind, d, J, s = flow(rng)
    x, y, a, b = d[:4]
    if kind == 'any':
        # smooth directions
        X, Y = np.meshgrid(np.arange(len(x)), np.arange(len(y)), indexing='ij')
        t = rng.uniform(0, 6.28) + rng.uniform(-.5, .5)*X + rng.uniform(-.5, .5)*Y
        a, b = np.cos(t)*rng.uniform(.5, 2, a.shape), np.sin(t)*rng.uniform(.5, 2, a.shape)
    mask = G.mask(rng, a.shape)
    f = mkvf(x, y, a, b, mask, d[4])
    m.case(kind, G.tdesc(f))
    s0 = G.snap(f)
    g = VC.get_iota(f)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
    same_grid(m, f, g, 'iota')
    m.check(G.dim(g.unit_values) == {}, 'iota-dimension')
    ok = stencil(mask) & (np.hypot(a, b) > 0)
    ok &= stencil(mask | (np.hypot(a, b) < 1e-9*np.max(np.hypot(a, b))))
    t = np.arctan2(b, a)
    nx, ny = a.shape
    bad, cnt = None, 0
    wrap = lambda q: (q + np.pi) % (2*np.pi) - np.pi
    for i, j in np.argwhere(ok):
        i0, i1, j0, j1 = max(i - 1, 0), min(i + 1, nx - 1), max(j - 1, 0), min(j + 1, ny - 1)
        di, dj = wrap(t[i1, j] - t[i0, j]), wrap(t[i, j1] - t[i, j0])
        if max(abs(di), abs(dj)) > 1.5:
            continue
        w = .5*np.hypot(di/(i1 - i0), dj/(j1 - j0))
        cnt += 1
        if g.mask[i, j] or abs(g.values[i, j] - w) > 1e-5:
            bad = (i, j), g.values[i, j], w
    m.event('iota-points', cnt)
    m.check(bad is None, 'iota-value', bad)
    m.check(g.mask[mask].all(), 'iota-masked')
    # smoothing: the radius is a length, or a number of steps
    f = mkvf(x, y, a, b, False, (d[4][0], d[4][0], d[4][2]))
    dx, dy = x[1] - x[0], y[1] - y[0]
    r = float(rng.uniform(.6, 1.6))
    s0 = G.snap(f)
    g = VC.get_iota(f, radius=r, ind=True)
    e = VC.get_iota(f.smooth(tos='gaussian', size=r, inplace=False))
    c = ~g.mask & ~e.mask
    m.check(np.array_equal(g.mask, e.mask), 'iota-smoothed-mask')
    m.close(g.values[c], e.values[c], 'iota-of-the-smoothed-field', 1e-9)
    q = VC.get_iota(f, radius=r*np.sqrt(dx*dy))
    h = VC.get_iota(mkvf(y, x, b.T, a.T, False, (d[4][0], d[4][0], d[4][2])), radius=r*np.sqrt(dx*dy))
    st = 2.**int(rng.integers(-3, 4))
    sq = mkvf(np.arange(len(x))*st, np.arange(len(y))*st, a, b, False, (d[4][0], d[4][0], d[4][2]))
    g1, g2 = VC.get_iota(sq, radius=r, ind=True), VC.get_iota(sq, radius=r*st)
    c = ~g1.mask & ~g2.mask
    m.close(g2.values[c], g1.values[c], 'iota-radius-as-a-length', 1e-9)
    c = ~q.mask & ~h.mask.T
    # (angles jump by a turn on the half line of positive first component, where both branches of the code meet)
    ang = f.smooth(tos='gaussian', size=r*np.sqrt(dx*dy)/((dx + dy)/2), inplace=False).theta
    swap = (np.abs(np.gradient(ang)[0]) < 1.) & (np.abs(np.gradient(ang)[1]) < 1.)
    hn = h.values.T
    m.event('iota:transposed', int((c & swap).sum()))
    ok2 = c & swap & stencil(~swap)
    m.close(q.values[ok2], hn[ok2], 'iota-transposed', 1e-6, 1e-9)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')


@scenario('C19', 120, 3000)
def quarter_turns(m):
    rng = m.rng
    kind, d, J, s = flow(rng, G.pick(rng, ['any', 'linear', 'rotation']), lo=6, hi=9)
    mask = G.mask(rng, d[2].shape)
    f = build(rng, d, mask)
    k = int(rng.integers(1, 4))
    x, y, (a, b), mk, (ux, uy) = turn(f, k)
    t = mkvf(x, y, a, b, mk, (ux, uy, f.unit_values))
    name = G.pick(rng, ['divergence', 'vorticity', 'swirling', 'Q', 'lambda2', 'gamma1', 'gamma2', 'kappa1', 'kappa2'])
    fun = FUN.get(name) or (lambda q: (VC.get_gamma if name[0] == 'g' else VC.get_kappa)(q, kind=name))
    m.case(name, kind, k, G.tdesc(f))
    try:
        g, h = fun(f), fun(t)
    except Exception as e:
        if 'Qhull' in type(e).__name__:
            raise Skip()
        raise
    _, _, (w,), wm, _ = turn(g, k)
    c = stencil(mk)
    m.check(np.array_equal(h.mask[c], wm[c]), name + '-turned-mask')
    c = c & ~wm & ~h.mask
    v, w = h.values*G.fac(h.unit_values), w*G.fac(g.unit_values)
    sc = np.max(np.abs(w[c]), initial=0)
    q = s*max(f.shape)*10
    tol = {'divergence': 1e-7*q, 'vorticity': 1e-7*q, 'swirling': 1e-4*q, 'Q': 1e-7*q*q, 'lambda2': 1e-7*q*q}.get(name, 1e-5)
    m.check(np.all(np.abs(v[c] - w[c]) <= tol + 1e-7*sc), name + '-turned', lambda: '%s want %s' % (v[c], w[c]))


@scenario('C19', 120, 3000)
def zones_and_arrays(m):
    """A zone given by the user stays masked and changes nothing elsewhere; arrays hold the same values as fields."""
    rng = m.rng
    kind, d, J, s = flow(rng, 'solenoidal' if rng.random() < .5 else None, lo=7, hi=9)
    x, y, a, b = d[:4]
    mask = G.mask(rng, a.shape, G.pick(rng, [None, 'sparse'])) if rng.random() < .5 else np.zeros(a.shape, bool)
    f = build(rng, d, mask)
    m.case(kind, G.tdesc(f))
    s0 = G.snap(f)
    z = rng.random(f.shape) < .08
    zz = G.pick(rng, [z, z.tolist(), z.astype(int)])
    FS = [(VC.get_angle_deviation, {}), (VC.get_NL_residual_vorticity, {}), (VC.get_kappa, dict(kind='kappa1')), (VC.get_kappa, dict(kind='kappa2')),
          (VC.get_iota, {}), (VC.get_enstrophy, {}), (VC.get_q_criterion, {}), (VC.get_Nk_criterion, {}),
          (VC.get_delta_criterion, {}), (VC.get_lambda2, {})]
    for k in rng.choice(len(FS), 3, replace=False):
        fun, kw = FS[k]
        nm = fun.__name__
        g = fun(f, **kw)
        h = fun(f, mask=zz, **kw)
        m.event('zone:' + nm)
        m.check(h.mask[z].all(), 'user-zone-not-masked#' + nm)
        m.check(h.mask[g.mask].all(), 'user-zone-reveals#' + nm)
        c = ~h.mask
        m.close(h.values[c], g.values[c], 'user-zone-changes-values#' + nm, rtol=1e-12)
        # points that only lost something within reach are still given (5x5 neighbourhood at most)
        far = np.ones(f.shape, bool)
        for i, j in np.argwhere(z):
            far[max(i - 2, 0):i + 3, max(j - 2, 0):j + 3] = False
        m.check(not (h.mask & far & ~g.mask).any(), 'user-zone-spreads#' + nm)
        r = fun(f, raw=True, **kw)
        c = ~g.mask
        q = 1.
        if nm == 'get_NL_residual_vorticity':
            q = (f.unit_values/f.unit_x).asNumber()
        if nm == 'get_enstrophy':
            # same numbers in some unit of enstrophy
            m.close(np.asarray(r)[c]*np.max(np.abs(g.values[c]), initial=0), g.values[c]*np.max(np.abs(np.asarray(r)[c]), initial=0), 'raw-values#' + nm, rtol=1e-9)
        elif nm == 'get_lambda2':
            q = ((f.unit_values/f.unit_x)**2).asNumber()
            m.close(np.asarray(r)[c]*q, g.values[c], 'raw-values#' + nm, rtol=1e-9)
        else:
            m.close(np.asarray(r)[c]*q, g.values[c], 'raw-values#' + nm, rtol=1e-9)
        if nm not in ('get_delta_criterion', 'get_Nk_criterion'):
            m.check(np.array_equal(np.ma.getmaskarray(r), g.mask), 'raw-mask#' + nm)
    # unmasked arrays, series
    u = (f.unit_values/f.unit_x).asNumber()
    T = TemporalVectorFields()
    T.add_field(f, 0., 's')
    f2 = mkvf(x, y, b*1., -a, mask, d[4])
    T.add_field(f2, 1., 's')
    for fun in (FUN['divergence'], FUN['vorticity'], FUN['residual']):
        nm = fun.__name__
        try:
            r = fun(T, raw=True)
            e = [fun(q) for q in T.fields]
        except Exception as ex:
            if 'Qhull' in type(ex).__name__:
                continue
            raise
        m.event('series-array:' + nm)
        if not m.check(len(r) == 2 and np.shape(r[0]) == f.shape, 'series-array-shape#' + nm):
            continue
        for q, w in zip(r, e):
            c = ~w.mask
            m.close(np.asarray(q)[c]*u, w.values[c], 'series-array#' + nm, rtol=1e-9)
    for fun in (FUN['swirling'], FUN['shear'], FUN['improved'], VC.get_stokes_vorticity):
        nm = fun.__name__
        try:
            g, r = fun(f), fun(f, raw=True)
        except Exception as ex:
            if 'Qhull' in type(ex).__name__:
                continue
            raise
        c = ~g.mask
        m.event('array:' + nm)
        m.close(np.asarray(r)[c]*(1 if nm == 'get_improved_swirling_strength' else u), g.values[c], 'array#' + nm, rtol=1e-9)
    m.check(not G.diff(s0, G.snap(f)), 'input-changed')
